//! C30 content security policies and the security defaults, C31 Strict-Transport-Security and
//! Timing-Allow-Origin.
use crate::engine::*;
use crate::util::El::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::headers::{Header, Headers};
use http_types::security::{self, ContentSecurityPolicy, FrameOptions, ReferrerOptions, ReportTo, Source, StrictTransportSecurity, TimingAllowOrigin};
use http_types::{Response, Url};
use std::collections::BTreeMap;
use std::time::Duration;

const SOURCES: &[(Source, &str)] = &[
    (Source::SameOrigin, "'self'"),
    (Source::Src, "'src'"),
    (Source::None, "'none'"),
    (Source::UnsafeInline, "'unsafe-inline'"),
    (Source::Data, "data:"),
    (Source::Mediastream, "mediastream:"),
    (Source::Https, "https:"),
    (Source::Blob, "blob:"),
    (Source::Filesystem, "filesystem:"),
    (Source::StrictDynamic, "'strict-dynamic'"),
    (Source::UnsafeEval, "'unsafe-eval'"),
    (Source::Wildcard, "*"),
];

type Set = fn(&mut ContentSecurityPolicy, &str);
const DIRECTIVES: &[(&str, Set)] = &[
    ("base-uri", |p, s| drop(p.base_uri(s))),
    ("connect-src", |p, s| drop(p.connect_src(s))),
    ("default-src", |p, s| drop(p.default_src(s))),
    ("font-src", |p, s| drop(p.font_src(s))),
    ("form-action", |p, s| drop(p.form_action(s))),
    ("frame-ancestors", |p, s| drop(p.frame_ancestors(s))),
    ("frame-src", |p, s| drop(p.frame_src(s))),
    ("img-src", |p, s| drop(p.img_src(s))),
    ("media-src", |p, s| drop(p.media_src(s))),
    ("object-src", |p, s| drop(p.object_src(s))),
    ("plugin-types", |p, s| drop(p.plugin_types(s))),
    ("require-sri-for", |p, s| drop(p.require_sri_for(s))),
    ("report-uri", |p, s| drop(p.report_uri(s))),
    ("sandbox", |p, s| drop(p.sandbox(s))),
    ("script-src", |p, s| drop(p.script_src(s))),
    ("style-src", |p, s| drop(p.style_src(s))),
    ("worker-src", |p, s| drop(p.worker_src(s))),
];

const REPORTS: &[&str] = &[
    r#"{"group":"g","max_age":10886400,"endpoints":[{"url":"https://a.example/r"}],"include_subdomains":true}"#,
    r#"{"max_age":-1,"endpoints":[]}"#,
    r#"{"group":"q\"x","max_age":0,"endpoints":[{"url":"u"},{"url":"v"}]}"#,
];

/// The reference: policies by arrival, and the sources of every directive.
#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
struct Model {
    plain: Vec<String>,
    dirs: BTreeMap<&'static str, Vec<String>>,
    report_only: bool,
}
impl Model {
    fn name(&self) -> &'static str {
        if self.report_only { "content-security-policy-report-only" } else { "content-security-policy" }
    }
    fn policies(&self) -> Vec<String> {
        let mut v = self.plain.clone();
        v.extend(self.dirs.iter().map(|(d, s)| format!("{d} {}", s.join(" "))));
        v.sort();
        v
    }
}

/// What a message shows of the policy, next to lines that were there before.
fn csp_applied(p: &mut ContentSecurityPolicy, m: &Model, before: bool) -> Result<String, Viol> {
    let other = if m.report_only { "content-security-policy" } else { "content-security-policy-report-only" };
    let mut res = if before {
        res_with(&[(m.name(), "old"), (m.name(), "older"), (other, "kept"), ("x", "y")])
    } else {
        Response::new(200)
    };
    p.apply(&mut res);
    let h = hdrs(&res);
    let Some(v) = lines(h, m.name()) else { return viol("csp-name", format!("{m:?}: no {}", m.name())) };
    req_eq!(v.len(), 1, "csp-lines", "{m:?}: {v:?}");
    req_eq!(lines(h, other), before.then(|| vec!["kept".into()]), "csp-others", "{m:?}");
    req_eq!(lines(h, "x"), before.then(|| vec!["y".into()]), "csp-others", "{m:?}");
    req_eq!(h.names().count(), if before { 3 } else { 1 }, "csp-others", "{m:?}");
    Ok(v[0].clone())
}

fn csp_check(ch: &mut Ch, p: &mut ContentSecurityPolicy, m: &Model) -> R {
    let before = p.clone();
    let text = csp_applied(p, m, false)?;
    ch.step();
    let mut got: Vec<&str> = if text.is_empty() { vec![] } else { text.split("; ").collect() };
    if !m.dirs.is_empty() {
        let sorted = m.policies();
        req_eq!(text, sorted.join("; "), "csp-value", "{m:?}");
    } else {
        got.sort();
        let mut want: Vec<String> = m.plain.iter().flat_map(|s| s.split("; ").map(String::from)).collect();
        want.sort();
        req_eq!(got, want, "csp-value", "{m:?}");
    }
    // the same on every message
    req_eq!(csp_applied(p, m, true)?, text, "csp-repeat", "{m:?}");
    req_eq!(csp_applied(&mut before.clone(), m, true)?, text, "csp-repeat", "{m:?}");
    req_eq!(*p, before, "csp-unchanged", "{m:?}");
    Ok(())
}

pub fn build_c30(s: &mut Suite, thorough: bool) {
    s.bound("every program of up to 4 (thorough 5) policy operations out of 15, applied after every operation, on new and default policies; every pair and triple of the 17 directives, every pair of the 12 sources with every directive; every program of up to 4 (5) of 15 security helpers on messages with earlier values");
    s.assume("sources, report groups and URLs given to a policy are ASCII without separators of their own; a policy that holds plain directives only may order them freely");
    s.add("sources", |ch| {
        let (a, at) = *ch.pick(SOURCES);
        let (b, bt) = *ch.pick(SOURCES);
        for (x, t) in [(a, at), (b, bt)] {
            req_eq!(x.to_string(), t, "csp-source", "{x:?}");
            req_eq!(format!("{x:#}"), t, "csp-source", "{x:?}");
            req_eq!(AsRef::<str>::as_ref(&x), t, "csp-source", "{x:?}");
        }
        let (d, set) = DIRECTIVES[ch.choose(DIRECTIVES.len())];
        let mut p = ContentSecurityPolicy::new();
        set(&mut p, a.as_ref());
        set(&mut p, &b.to_string());
        set(&mut p, "cdn.example");
        let m = Model { dirs: [(d, vec![at.to_string(), bt.to_string(), "cdn.example".into()])].into(), ..Default::default() };
        csp_check(ch, &mut p, &m)
    });
    s.add("directives", |ch| {
        let mut p = ContentSecurityPolicy::new();
        let mut m = Model::default();
        for n in 0..3 {
            let (d, set) = DIRECTIVES[ch.choose(DIRECTIVES.len())];
            let src = ["'self'", "b.example", "*"][n];
            set(&mut p, src);
            m.dirs.entry(d).or_default().push(src.into());
        }
        csp_check(ch, &mut p, &m)
    });
    s.add("source-texts", |ch| {
        const T: &[&str] = &[
            "https://a.example/", "https://a.example/x/y.js", "https://a.example:8443/x/", "*.example.com", "http://*.a.example:*", "'nonce-2726c7f26c=='", "'sha256-qznLcsROx4GACP2dm0UCKCzCG+HiZ1guq6ZZDob/Tng='",
            "'SELF'", "wss:", "A.Example", "application/pdf", "allow-scripts", "/report?a=b&c=d#e", "/", "0", "script", "a", "'strict-dynamic'", "*",
        ];
        let (d, set) = DIRECTIVES[ch.choose(DIRECTIVES.len())];
        let (a, b) = (*ch.pick(T), *ch.pick(T));
        let mut p = ContentSecurityPolicy::new();
        set(&mut p, a);
        set(&mut p, b);
        let m = Model { dirs: [(d, vec![a.to_string(), b.to_string()])].into(), ..Default::default() };
        csp_check(ch, &mut p, &m)
    });
    s.bound("every pair of 19 source texts in every directive; reports with 9 kinds of group and URL");
    s.add("report-texts", |ch| {
        const T: &[&str] = &["", "g", "a, b", "a; b", "'x'", "https://a.example/r?x=1,2;3", "{}", r"\\", "a  b "];
        let (g, u) = (*ch.pick(T), *ch.pick(T));
        let text = match ch.choose(3) {
            0 => format!(r#"{{"group":"{g}","max_age":1,"endpoints":[{{"url":"{u}"}}],"include_subdomains":false}}"#),
            1 => format!(r#"{{"group":"{g}","max_age":2147483647,"endpoints":[{{"url":"{u}"}},{{"url":""}},{{"url":"{u}"}}]}}"#),
            _ => format!(r#"{{"max_age":-2147483648,"endpoints":[{{"url":"{u}"}}],"include_subdomains":true}}"#),
        };
        let r: ReportTo = match serde_json::from_str(&text) {
            Ok(r) => r,
            Err(e) => return viol("csp-report", format!("{text}: {e}")),
        };
        req_eq!(serde_json::to_string(&r).unwrap(), text, "csp-report", "round trip");
        let mut p = ContentSecurityPolicy::new();
        p.report_to(vec![r]);
        ch.step();
        let got = csp_applied(&mut p, &Model::default(), true)?;
        req_eq!(got, format!("report-to {text}"), "csp-report", "value");
        p.script_src(Source::SameOrigin);
        let got = csp_applied(&mut p, &Model::default(), true)?;
        req_eq!(got, format!("report-to {text}; script-src 'self'"), "csp-report", "value");
        Ok(())
    });
    let n = if thorough { 5 } else { 4 };
    s.add("programs", move |ch| {
        let default = ch.flag();
        let (mut p, mut m) = if default {
            let m = Model { plain: vec!["script-src 'self'; object-src 'self'".into()], ..Default::default() };
            (ContentSecurityPolicy::default(), m)
        } else {
            (ContentSecurityPolicy::new(), Model::default())
        };
        ch.note(|| format!("default: {default}"));
        csp_check(ch, &mut p, &m)?;
        let k = ch.choose(n + 1);
        for _ in 0..k {
            let op = ch.choose(11);
            ch.note(|| format!("operation {op}"));
            match op {
                0 => {
                    p.block_all_mixed_content();
                    m.plain.push("block-all-mixed-content".into());
                }
                1 => {
                    p.upgrade_insecure_requests();
                    m.plain.push("upgrade-insecure-requests".into());
                }
                2 => {
                    p.report_only();
                    m.report_only = true;
                }
                3 | 4 => {
                    let rs = if op == 3 { &REPORTS[..1] } else { &REPORTS[1..] };
                    let parsed: Vec<ReportTo> = rs.iter().map(|r| serde_json::from_str(r).unwrap()).collect();
                    for (r, t) in parsed.iter().zip(rs) {
                        req_eq!(serde_json::to_string(r).unwrap(), *t, "csp-report", "round trip");
                    }
                    p.report_to(parsed);
                    m.plain.extend(rs.iter().map(|r| format!("report-to {r}")));
                }
                o => {
                    let (d, set) = [DIRECTIVES[2], DIRECTIVES[14], DIRECTIVES[0]][(o - 5) % 3];
                    let src = ["'self'", "a.example"][(o - 5) / 3];
                    set(&mut p, src);
                    m.dirs.entry(d).or_default().push(src.into());
                }
            }
            ch.state(&m);
            csp_check(ch, &mut p, &m)?;
        }
        Ok(())
    });

    let large = if thorough { 1000 } else { 300 };
    s.bound(&format!("policies with up to {large} sources for a directive, reports and plain directives"));
    s.add("scale", move |ch| {
        let k = 1 + ch.choose(large);
        let (mut p, mut m) = (ContentSecurityPolicy::new(), Model::default());
        let only = ch.choose(3);
        for i in 0..k {
            if only != 1 {
                let (d, set) = DIRECTIVES[if only == 0 { 2 } else { i % DIRECTIVES.len() }];
                set(&mut p, &format!("s{i}.example"));
                m.dirs.entry(d).or_default().push(format!("s{i}.example"));
            }
            if only != 0 && i % 2 == 0 {
                p.upgrade_insecure_requests();
                m.plain.push("upgrade-insecure-requests".into());
            }
        }
        csp_check(ch, &mut p, &m)
    });

    fn helper(op: usize, h: &mut Headers, m: &mut BTreeMap<&'static str, Vec<String>>) {
        let mut set = |n, v: &str| drop(m.insert(n, vec![v.to_string()]));
        match op {
            0 => {
                security::dns_prefetch_control(h);
                set("x-dns-prefetch-control", "on");
            }
            1 => {
                security::nosniff(h);
                set("x-content-type-options", "nosniff");
            }
            2 => {
                security::frameguard(h, None);
                set("x-frame-options", "sameorigin");
            }
            3 => {
                security::frameguard(h, Some(FrameOptions::Deny));
                set("x-frame-options", "deny");
            }
            4 => {
                security::frameguard(h, Some(FrameOptions::SameOrigin));
                set("x-frame-options", "sameorigin");
            }
            5 => {
                security::powered_by(h, None);
                m.remove("x-powered-by");
            }
            6 => {
                security::powered_by(h, Some(hv("mc")));
                set("x-powered-by", "mc");
            }
            7 => {
                security::hsts(h);
                set("strict-transport-security", "max-age=5184000");
            }
            8 => {
                security::xss_filter(h);
                set("x-xss-protection", "1; mode=block");
            }
            9 => {
                security::default(h);
                set("x-dns-prefetch-control", "on");
                set("x-content-type-options", "nosniff");
                set("x-frame-options", "sameorigin");
                set("strict-transport-security", "max-age=5184000");
                set("x-xss-protection", "1; mode=block");
                m.remove("x-powered-by");
            }
            o => {
                const R: &[(Option<ReferrerOptions>, &str)] = &[
                    (None, "no-referrer"),
                    (Some(ReferrerOptions::NoReferrer), "no-referrer"),
                    (Some(ReferrerOptions::NoReferrerDowngrade), "no-referrer-when-downgrade"),
                    (Some(ReferrerOptions::SameOrigin), "same-origin"),
                    (Some(ReferrerOptions::Origin), "origin"),
                    (Some(ReferrerOptions::StrictOrigin), "strict-origin"),
                    (Some(ReferrerOptions::CrossOrigin), "origin-when-cross-origin"),
                    (Some(ReferrerOptions::StrictCrossOrigin), "strict-origin-when-cross-origin"),
                    (Some(ReferrerOptions::UnsafeUrl), "unsafe-url"),
                ];
                let (opt, text) = R[o - 10];
                security::referrer_policy(h, opt);
                m.entry("referrer-policy").or_default().push(text.into());
            }
        }
    }
    s.add("helpers", move |ch| {
        let mut res = Response::new(200);
        let mut m: BTreeMap<&'static str, Vec<String>> = BTreeMap::new();
        if ch.flag() {
            const ALL: &[&str] = &[
                "x-dns-prefetch-control", "x-content-type-options", "x-frame-options", "x-powered-by", "strict-transport-security", "x-xss-protection",
                "referrer-policy", "content-type",
            ];
            for n in ALL {
                res.append_header(*n, "a").unwrap();
                res.append_header(*n, "b").unwrap();
                m.insert(n, vec!["a".into(), "b".into()]);
            }
        }
        let k = ch.choose(n + 1);
        for _ in 0..k {
            let op = ch.choose(19);
            ch.note(|| format!("helper {op}"));
            helper(op, res.as_mut(), &mut m);
            ch.step();
            let h = hdrs(&res);
            req_eq!(h.names().count(), m.len(), "helper-names", "{h:?}");
            for (n, v) in &m {
                req_eq!(lines(h, n).as_ref(), Some(v), "helper-value", "{n} after {op}");
            }
            ch.state(&m);
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct Sts(u64, bool, bool);

fn sts_view(p: &StrictTransportSecurity) -> Sts {
    Sts(p.max_age().as_secs(), p.include_subdomains(), p.preload())
}

/// Admissible readings, and whether an error is one.
fn sts_reference(line: &str) -> (Vec<Sts>, bool) {
    let mut ages: Vec<Option<u64>> = vec![];
    let (mut sub, mut pre) = (false, false);
    let mut can_fail = false;
    // directives separated by semicolons outside of quotes
    let mut parts = vec![String::new()];
    let (mut quoted, mut escaped) = (false, false);
    for c in line.chars() {
        match c {
            _ if escaped => escaped = false,
            '\\' => escaped = quoted,
            '"' => quoted = !quoted,
            _ => {}
        }
        if c == ';' && !quoted {
            parts.push(String::new());
        } else {
            parts.last_mut().unwrap().push(c);
        }
    }
    if parts.iter().any(|p| p.contains('"')) && parts.iter().any(|p| p.contains('"') && !sane(p)) {
        return (vec![], true);
    }
    fn sane(p: &str) -> bool {
        // a quoted string as the whole value
        let p = ows(p);
        let Some((k, v)) = p.split_once('=') else { return false };
        if k.contains('"') || v.len() < 2 || !v.starts_with('"') || !v.ends_with('"') {
            return false;
        }
        let mut inner = v[1..v.len() - 1].chars();
        let max_age = k.eq_ignore_ascii_case("max-age");
        while let Some(c) = inner.next() {
            if c == '"' || (c == '\\' && (max_age || inner.next().is_none())) {
                return false;
            }
        }
        true
    }
    for p in &parts {
        let p = ows(p);
        let l = p.to_ascii_lowercase();
        let (k, v) = match p.split_once('=') {
            Some((k, v)) => (k.to_ascii_lowercase(), Some(v)),
            None => (l.clone(), None),
        };
        match (ows(&k), v) {
            ("includesubdomains", None) => sub = true,
            ("preload", None) => pre = true,
            ("max-age", None) => can_fail = true,
            ("max-age", Some(v)) => {
                let spaced = ows(&k) != k || ows(v) != v;
                let t = ows(v);
                let t = t.strip_prefix('"').and_then(|t| t.strip_suffix('"')).unwrap_or(t);
                let plus = t.strip_prefix('+').unwrap_or(t);
                let digits = !plus.is_empty() && plus.bytes().all(|b| b.is_ascii_digit());
                if spaced || (t != plus && digits) {
                    can_fail = true;
                    ages.push(if digits { plus.parse().ok() } else { None });
                } else {
                    ages.push(if digits { t.parse().ok() } else { None });
                }
            }
            _ => {}
        }
    }
    let mut out = vec![];
    // which of several ages counts is open
    for a in &ages {
        match a {
            None => can_fail = true,
            Some(a) => {
                out.push(Sts(*a, sub, pre));
            }
        }
    }
    (out, can_fail || ages.len() != 1)
}

fn sts_check(ch: &mut Ch, line: &str, h: &Headers) -> R {
    ch.note(|| format!("strict-transport-security: {line:?}"));
    let got = match no_panic(|| StrictTransportSecurity::from_headers(h)) {
        Ok(g) => g,
        Err(p) => return viol("hsts-panic", format!("{line:?}: {p}")),
    };
    ch.step();
    let (want, can_fail) = sts_reference(line);
    match got {
        Ok(Some(p)) => {
            // quotes in odd places are left open
            let open = want.is_empty() && line.contains('"');
            req!(open || want.contains(&sts_view(&p)), "hsts-parse", "{line:?} reads {p:?}, expected one of {want:?}");
        }
        Ok(None) => return viol("hsts-absent", format!("{line:?} reads as absent")),
        Err(e) => {
            req_eq!(e.status() as u16, 400, "hsts-status", "{line:?}");
            req!(can_fail || want.is_empty(), "hsts-parse", "{line:?} fails, expected {want:?}");
        }
    }
    Ok(())
}

#[derive(Debug, Clone, PartialEq)]
struct Tao(Vec<Url>, bool);

fn tao_read(h: &Headers) -> Result<Result<Tao, u16>, Viol> {
    match no_panic(|| TimingAllowOrigin::from_headers(h)) {
        Ok(Ok(Some(mut t))) => {
            let v: Vec<Url> = t.iter().cloned().collect();
            let all = v.iter().collect::<Vec<_>>();
            req_eq!(drained(t.iter())?, all, "tao-iter", "{t:?}");
            req_eq!(drained(t.iter_mut())?, all, "tao-iter", "iter_mut");
            req_eq!(drained(t.clone().into_iter())?, v, "tao-iter", "{t:?}");
            req_eq!(drained((&t).into_iter())?, all, "tao-iter", "{t:?}");
            req_eq!(drained((&mut t).into_iter())?, all, "tao-iter", "into_iter by &mut");
            Ok(Ok(Tao(v, t.wildcard())))
        }
        Ok(Ok(None)) => viol("tao-absent", "present Timing-Allow-Origin reads as absent"),
        Ok(Err(e)) => Ok(Err(e.status() as u16)),
        Err(p) => viol("tao-panic", format!("{:?}: {p}", lines(h, "timing-allow-origin"))),
    }
}

fn tao_check(ch: &mut Ch, ls: &[String]) -> R {
    ch.note(|| format!("timing-allow-origin: {ls:?}"));
    let res = response("timing-allow-origin", ls);
    let got = tao_read(hdrs(&res))?;
    ch.step();
    let mut els = vec![];
    let mut wild = false;
    for e in ls.iter().flat_map(|l| l.split(',')) {
        els.push(match e.trim() {
            "*" => {
                wild = true;
                vec![Skip]
            }
            "" | "null" | "\"null\"" => vec![Skip],
            u => match Url::parse(u) {
                Ok(u) => vec![Is(u)],
                Err(_) => vec![Bad],
            },
        });
    }
    if let Ok(t) = &got {
        req_eq!(t.1, wild, "tao-wildcard", "Timing-Allow-Origin {ls:?}");
    }
    let got = got.map(|t| t.0);
    req!(admits(&els, &got), "tao-parse", "Timing-Allow-Origin {ls:?} reads {got:?}, expected {els:?}");
    Ok(())
}

crate::listed!(
    TimingAllowOrigin, Url, "timing-allow-origin", &["https://a.example", "*", "https://b.example:81, *, null, http://c.example"],
    vec![Url::parse("https://x.example").unwrap(), Url::parse("http://y.example:8080/").unwrap()], |e: &Url| e.to_string()
);

pub fn build_c31(s: &mut Suite, thorough: bool) {
    super::edits::edits::<TimingAllowOrigin>(s, "timing-allow-origin-history", if thorough { 5 } else { 4 });
    s.bound("Strict-Transport-Security lines of at most 6 (thorough 7) of 11 tokens, every order of up to 4 of 22 directives, every single-character edit of four lines, all sequences of up to 3 lines, every power of two and its neighbours with all flags; Timing-Allow-Origin lines of at most 6 (7) of 9 tokens, all sequences of up to 3 lines out of 8, all lists of up to 4 of 6 origins with and without '*'");
    s.assume("undecided: a max-age given twice, with a plus sign or spaces around '=', quotes elsewhere than around a whole value; origins are ASCII without commas");
    let n = if thorough { 7 } else { 6 };
    s.add("hsts-tokens", move |ch| {
        let t = tokens(ch, &["max-age", "=", ";", " ", "30", "\"", "preload", "includeSubdomains", "x", "-", "MAX-AGE=1"], n);
        sts_check(ch, &t, hdrs(&res_with(&[("strict-transport-security", &t)])))
    });
    s.add("hsts-directives", |ch| {
        const D: &[&str] = &[
            "max-age=30", "Max-Age=31536000", "max-age=\"0\"", "max-age=18446744073709551615", "max-age=18446744073709551616", "max-age=-1", "max-age", "max-age=", "max-age=1.5",
            "includeSubDomains", "INCLUDESUBDOMAINS", "preload", "PreLoad", "unknown=1", "max-agex=7", "u=\"a; includeSubDomains ;max-age=5\"", "u=\"\\\";preload;\\\\\"",
            "preload=1", "includeSubDomains=true", "preloaded", "includeSub", "pre load",
        ];
        let k = ch.choose(5);
        let sep = *ch.pick(&[";", "; ", " ; "]);
        let mut parts: Vec<&str> = vec![];
        for _ in 0..k {
            parts.push(ch.pick(D));
        }
        let mut t = parts.join(sep);
        if ch.flag() {
            t.push_str(sep);
        }
        sts_check(ch, &t, hdrs(&res_with(&[("strict-transport-security", &t)])))
    });
    s.bound("every one of 20 malformed max-age values between other directives");
    s.add("hsts-malformed", |ch| {
        const V: &[&str] = &[
            "1=2", "=1", "1=", "\"1", "1\"", "\"1\"\"", "\"\"1\"", "\"\"", "\"", "'1'", "1s", "0x10", "1,2", "1 2", "1e3", "1.0", "--1", "\"1\"2", "\"1=2\"", "99999999999999999999",
        ];
        let (pre, post) = *ch.pick(&[("", ""), ("preload; ", ""), ("", "; includeSubDomains"), ("x=\"y\";", ";preload")]);
        let t = format!("{pre}max-age={}{post}", ch.pick(V));
        ch.note(|| format!("strict-transport-security: {t:?}"));
        ch.step();
        match no_panic(|| StrictTransportSecurity::from_headers(&res_with(&[("strict-transport-security", &t)]))) {
            Ok(Err(e)) => req_eq!(e.status() as u16, 400, "hsts-status", "{t:?}"),
            Ok(o) => return viol("hsts-accepts", format!("{t:?} reads {o:?}")),
            Err(p) => return viol("hsts-panic", format!("{t:?}: {p}")),
        }
        Ok(())
    });
    s.add("hsts-edits", |ch| {
        let t = *ch.pick(&["max-age=30; includeSubdomains; preload", "preload;max-age=\"7\"", "includesubdomains;max-age=0", "max-age=123456789"]);
        let mut v = t.as_bytes().to_vec();
        let pos = ch.choose(v.len() + 1);
        let c = ch.choose(128) as u8;
        match ch.choose(3) {
            0 if pos < v.len() => v[pos] = c,
            1 if pos < v.len() => drop(v.remove(pos)),
            _ => v.insert(pos, c),
        }
        let t = String::from_utf8(v).unwrap();
        if t.trim() != ows(&t) || t.split([';', '=']).any(|p| p.trim() != ows(p)) {
            // other whitespace than of HTTP: only that nothing panics
            let res = res_with(&[("strict-transport-security", &t)]);
            req!(no_panic(|| StrictTransportSecurity::from_headers(&res)).is_ok(), "hsts-panic", "{t:?}");
            return Ok(());
        }
        sts_check(ch, &t, hdrs(&res_with(&[("strict-transport-security", &t)])))
    });
    s.add("hsts-lines", |ch| {
        let ls = ch.seq(&["max-age=1", "max-age=2;preload", "max-age=x", "", "preload;includeSubDomains"], 3);
        let ls: Vec<String> = ls.iter().map(|s| s.to_string()).collect();
        let res = response("strict-transport-security", &ls);
        match ls.last() {
            None => req!(matches!(StrictTransportSecurity::from_headers(&res), Ok(None)), "hsts-absent", "absent header"),
            Some(l) => sts_check(ch, l, hdrs(&res))?,
        }
        Ok(())
    });
    s.add("hsts-write", |ch| {
        let base = match ch.choose(3) {
            0 => 1u128 << ch.choose(65),
            1 => 10u128.pow(ch.choose(20) as u32),
            _ => *ch.pick(&[0, 59, 5184000, 31536000]),
        };
        let secs = match ch.choose(3) {
            0 => base,
            1 => base + 1,
            _ => base.saturating_sub(1),
        };
        let Ok(secs) = u64::try_from(secs) else { return Ok(()) };
        let nanos = *ch.pick(&[0, 1, 999_999_999]);
        let d = Duration::new(secs, nanos);
        let mut p = match ch.choose(4) {
            0 => StrictTransportSecurity::new(d),
            1 => d.into(),
            2 => {
                let p = StrictTransportSecurity::default();
                req_eq!((sts_view(&p), p.max_age()), (Sts(31536000, false, true), Duration::from_secs(31536000)), "hsts-default", "{p:?}");
                let mut p = StrictTransportSecurity::default();
                p.set_preload(false);
                p.set_max_age(d);
                p
            }
            _ => {
                let mut p = StrictTransportSecurity::new(Duration::ZERO);
                p.set_max_age(d);
                p
            }
        };
        req_eq!((p.max_age(), p.include_subdomains(), p.preload()), (d, false, false), "hsts-new", "{p:?}");
        let (sub, pre) = (ch.flag(), ch.flag());
        if ch.flag() {
            p.set_preload(!pre);
            p.set_include_subdomains(!sub);
        }
        p.set_include_subdomains(sub);
        p.set_preload(pre);
        ch.step();
        let res = applied(&p, "strict-transport-security")?;
        let text = p.header_value().as_str().to_string();
        let want = Sts(secs, sub, pre);
        req_eq!(sts_reference(&text).0.first(), Some(&want), "hsts-write", "{p:?} is written {text:?}");
        let back = StrictTransportSecurity::from_headers(&res);
        match back {
            Ok(Some(q)) => req_eq!((sts_view(&q), q.max_age()), (want, Duration::from_secs(secs)), "hsts-round-trip", "{text:?}"),
            o => return viol("hsts-round-trip", format!("{text:?} reads {o:?}")),
        }
        req_eq!(Duration::from(p), d, "hsts-duration", "{text:?}");
        Ok(())
    });

    let depth = if thorough { 5 } else { 4 };
    s.bound(&format!("every history of up to {depth} of set_max_age, set_include_subdomains, set_preload, and writing and reading, from new, default, a duration, or a received policy"));
    s.add("hsts-history", move |ch| {
        const AGES: &[Duration] = &[Duration::ZERO, Duration::from_secs(1), Duration::from_millis(1500), Duration::from_secs(31536000), Duration::from_secs(63072000), Duration::MAX];
        let start = ch.choose(5);
        let (mut p, mut want) = match start {
            0 => (StrictTransportSecurity::new(AGES[0]), (AGES[0], false, false)),
            1 => (StrictTransportSecurity::default(), (AGES[3], false, true)),
            2 => (AGES[2].into(), (AGES[2], false, false)),
            _ => {
                let (t, w) = [("max-age=0; includeSubdomains; preload", (AGES[0], true, true)), ("max-age=31536000; includeSubDomains", (AGES[3], true, false))][start - 3];
                match StrictTransportSecurity::from_headers(res_with(&[("strict-transport-security", t)])) {
                    Ok(Some(p)) => (p, w),
                    o => return viol("hsts-parse", format!("{t:?} reads {o:?}")),
                }
            }
        };
        let k = ch.choose(depth + 1);
        for _ in 0..k {
            match ch.choose(4) {
                0 => {
                    want.0 = *ch.pick(AGES);
                    p.set_max_age(want.0);
                }
                1 => {
                    want.1 = ch.flag();
                    p.set_include_subdomains(want.1);
                }
                2 => {
                    want.2 = ch.flag();
                    p.set_preload(want.2);
                }
                _ => {
                    let res = applied(&p, "strict-transport-security")?;
                    want.0 = Duration::from_secs(want.0.as_secs());
                    p = match StrictTransportSecurity::from_headers(&res) {
                        Ok(Some(p)) => p,
                        o => return viol("hsts-round-trip", format!("{res:?} reads {o:?}")),
                    };
                }
            }
            ch.step();
            ch.note(|| format!("{want:?}"));
            req_eq!((p.max_age(), p.include_subdomains(), p.preload()), want, "hsts-history", "start {start}");
            ch.state(&want);
        }
        let text = p.header_value().as_str().to_string();
        req_eq!(sts_reference(&text).0.first(), Some(&Sts(want.0.as_secs(), want.1, want.2)), "hsts-write", "{p:?} is written {text:?}");
        req_eq!(Duration::from(p), want.0, "hsts-duration", "start {start}");
        Ok(())
    });
    s.add("origin-tokens", move |ch| {
        let t = tokens(ch, &["https://a.example", "*", ",", " ", "null", "\"null\"", "/", "http:", "\t"], n);
        tao_check(ch, &[t])
    });
    s.add("origin-lines", |ch| {
        const L: &[&str] = &["", "*", "https://a.example", "https://b.example:8443/, null", "null,*", "bad", " , http://c.example ", "*,*,https://a.example"];
        let ls: Vec<String> = ch.seq(L, 3).iter().map(|s| s.to_string()).collect();
        if ls.is_empty() {
            req!(matches!(TimingAllowOrigin::from_headers(Response::new(200)), Ok(None)), "tao-absent", "absent header");
            return Ok(());
        }
        tao_check(ch, &ls)
    });
    let large = if thorough { 2000 } else { 300 };
    s.bound(&format!("up to {large} unknown directives around those of Strict-Transport-Security, and lists of as many origins over one, two or as many lines"));
    s.add("scale", move |ch| {
        let k = 1 + ch.choose(large);
        if ch.flag() {
            let mut ps: Vec<String> = (0..k).map(|i| if i % 2 == 0 { format!("x{i}=\"preload; {i}\"") } else { format!("y{i}") }).collect();
            ps.insert(ch.choose(2) * k, format!("max-age={:0>k$}", 8));
            ps.insert(ch.choose(2) * k, "includeSubDomains".into());
            let t = ps.join(*ch.pick(&[";", "; "]));
            return sts_check(ch, &t, hdrs(&res_with(&[("strict-transport-security", &t)])));
        }
        let us: Vec<Url> = (0..k).map(|i| Url::parse(&format!("https://o{i}.example/")).unwrap()).collect();
        let wild = ch.flag();
        let mut els: Vec<String> = us.iter().map(|u| u.to_string()).collect();
        if wild {
            els.insert(k / 2, "*".into());
        }
        let ls = spread(ch, &els, ", ");
        tao_check(ch, &ls)?;
        let mut t = TimingAllowOrigin::new();
        for u in &us {
            t.push(u.clone());
        }
        t.set_wildcard(wild);
        req_eq!(tao_read(hdrs(&applied(&t, "timing-allow-origin")?))?, Ok(Tao(us, wild)), "tao-round-trip", "{k} origins");
        Ok(())
    });
    s.add("origin-write", |ch| {
        const U: &[&str] = &["https://a.example", "http://b.example:8080/x?y=1#z", "https://[::1]/", "data:text/plain", "https://user:pw@c.example/;p='*'", "file:///x"];
        let us: Vec<Url> = ch.seq(U, 4).iter().map(|u| Url::parse(u).unwrap()).collect();
        let wild = ch.flag();
        let mut t = TimingAllowOrigin::new();
        req_eq!((t.iter().count(), t.wildcard()), (0, false), "tao-new", "{t:?}");
        for u in &us {
            t.push(u.clone());
        }
        if wild || ch.flag() {
            t.set_wildcard(!wild);
            t.set_wildcard(wild);
        }
        req_eq!(t.wildcard(), wild, "tao-new", "{t:?}");
        ch.step();
        let res = applied(&t, "timing-allow-origin")?;
        req_eq!(tao_read(hdrs(&res))?, Ok(Tao(us.clone(), wild)), "tao-round-trip", "{:?}", t.header_value().as_str());
        req_eq!(TimingAllowOrigin::from_headers(&res).unwrap(), Some(t.clone()), "tao-round-trip", "{:?}", t.header_value().as_str());
        // what a client reads
        let text = t.header_value().as_str().to_string();
        let mut want: Vec<String> = us.iter().map(|u| u.to_string()).collect();
        if wild {
            want.push("*".into());
        }
        let mut got: Vec<&str> = text.split(',').map(str::trim).filter(|e| !e.is_empty()).collect();
        got.sort();
        want.sort();
        req_eq!(got, want, "tao-write", "{text:?}");
        // mutable iteration reaches every origin
        let mut t2 = t.clone();
        for u in t2.iter_mut() {
            *u = base_url();
        }
        for u in &mut t2 {
            req_eq!(*u, base_url(), "tao-iter", "iter_mut");
        }
        req_eq!(t2.iter().count(), us.len(), "tao-iter", "iter_mut");
        Ok(())
    });
}
