//! C24 Cache-Control and Clear-Site-Data, C25 entity tags, C26 Vary and Allow.
use crate::engine::*;
use crate::util::*;
use crate::util::El::*;
use crate::{req, req_eq};
use http_types::cache::{CacheControl, CacheDirective, ClearDirective, ClearSiteData};
use http_types::conditional::{ETag, IfMatch, IfNoneMatch, Vary};
use http_types::headers::{Header, HeaderName, Headers};
use http_types::server::Allow;
use http_types::{Method, Response};
use std::collections::BTreeSet;

use std::str::FromStr;
use std::time::Duration;

/// Elements of one line, split at commas outside of double quotes. `None` if a quote stays open.
fn split(line: &str, escapes: bool) -> Option<Vec<String>> {
    let mut out = vec![String::new()];
    let mut it = line.chars();
    while let Some(c) = it.next() {
        match c {
            ',' => out.push(String::new()),
            '"' => {
                let cur = out.last_mut().unwrap();
                cur.push('"');
                loop {
                    let c = it.next()?;
                    cur.push(c);
                    if c == '"' {
                        break;
                    }
                    if c == '\\' && escapes {
                        cur.push(it.next()?);
                    }
                }
            }
            c => out.last_mut().unwrap().push(c),
        }
    }
    Some(out)
}

// ---------------------------------------------------------------------------------------------

const FLAGS: &[(&str, CacheDirective, bool, bool)] = &[
    // name, directive, valid in a request, in a response (RFC 7234, 5861, 8246)
    ("no-cache", CacheDirective::NoCache, true, true),
    ("no-store", CacheDirective::NoStore, true, true),
    ("no-transform", CacheDirective::NoTransform, true, true),
    ("only-if-cached", CacheDirective::OnlyIfCached, true, false),
    ("must-revalidate", CacheDirective::MustRevalidate, false, true),
    ("public", CacheDirective::Public, false, true),
    ("private", CacheDirective::Private, false, true),
    ("proxy-revalidate", CacheDirective::ProxyRevalidate, false, true),
    ("immutable", CacheDirective::Immutable, false, true),
];
const TIMED: &[(&str, fn(Duration) -> CacheDirective, bool, bool)] = &[
    ("max-age", CacheDirective::MaxAge, true, true),
    ("min-fresh", CacheDirective::MinFresh, true, false),
    ("s-maxage", CacheDirective::SMaxAge, false, true),
    ("stale-if-error", CacheDirective::StaleIfError, true, true),
    ("stale-while-revalidate", CacheDirective::StaleWhileRevalidate, false, true),
    ("max-stale", |d| CacheDirective::MaxStale(Some(d)), true, false),
];

fn cc_element(e: &str) -> Vec<El<CacheDirective>> {
    let e = ows(e);
    if e.is_empty() {
        return vec![Skip];
    }
    let (raw, arg) = match e.split_once('=') {
        Some((n, a)) => (n, Some(a)),
        None => (e, None),
    };
    let name = raw.trim().to_ascii_lowercase();
    let mut out = vec![];
    if raw != raw.trim() || arg.map_or(false, |a| a != a.trim()) {
        // "bad whitespace" around the equals sign
        out.push(Skip);
        out.push(Bad);
    }
    if let Some((_, d, _, _)) = FLAGS.iter().find(|f| f.0 == name) {
        out.push(Is(d.clone()));
        // these two take a list of field names; without support for it, they hold for the whole message
        let qualified = matches!(name.as_str(), "no-cache" | "private") && arg.map_or(false, |a| a.len() > 1 && a.starts_with('"') && a.ends_with('"'));
        if arg.is_some() && !qualified {
            out.push(Skip);
            out.push(Bad);
        }
        return out;
    }
    if let Some((n, make, _, _)) = TIMED.iter().find(|f| f.0 == name) {
        let Some(arg) = arg.map(|a| a.trim()) else {
            out.push(if *n == "max-stale" { Is(CacheDirective::MaxStale(None)) } else { Bad });
            return out;
        };
        if !arg.is_empty() && arg.bytes().all(|b| b.is_ascii_digit()) {
            match arg.parse::<u64>() {
                Ok(s) => out.push(Is(make(Duration::from_secs(s)))),
                _ => {
                    out.push(Bad);
                    out.push(Is(make(Duration::from_secs(u64::MAX))));
                    out.push(Is(make(Duration::from_secs(1 << 31))));
                }
            }
        } else {
            out.push(Bad);
            // lenient readings
            let inner = arg.strip_prefix('"').and_then(|a| a.strip_suffix('"')).unwrap_or(arg);
            let inner = inner.strip_prefix('+').unwrap_or(inner);
            if let Ok(s) = inner.parse::<u64>() {
                out.push(Is(make(Duration::from_secs(s))));
            }
        }
        return out;
    }
    out.push(Skip);
    if !is_token(raw) {
        out.push(Bad);
    }
    out
}

fn cc_reference(ls: &[String]) -> Option<Vec<Vec<El<CacheDirective>>>> {
    let mut out = vec![];
    for l in ls {
        for e in split(l, true)? {
            out.push(cc_element(&e));
        }
    }
    Some(out)
}

fn cc_read(h: &Headers) -> Result<Result<Vec<CacheDirective>, u16>, Viol> {
    match no_panic(|| CacheControl::from_headers(h)) {
        Ok(Ok(Some(mut c))) => {
            let v: Vec<CacheDirective> = c.iter().cloned().collect();
            req_eq!(drained(c.iter())?, v.iter().collect::<Vec<_>>(), "list-iter", "{c:?}");
            req_eq!(drained(c.iter_mut())?, v.iter().collect::<Vec<_>>(), "list-iter", "iter_mut");
            req_eq!(drained((&c).into_iter())?, v.iter().collect::<Vec<_>>(), "list-iter", "{c:?}");
            req_eq!(drained((&mut c).into_iter())?, v.iter().collect::<Vec<_>>(), "list-iter", "into_iter by &mut");
            req_eq!(drained(c.into_iter())?, v, "list-iter", "into_iter");
            Ok(Ok(v))
        }
        Ok(Ok(None)) => viol("cc-absent", "present Cache-Control reads as absent"),
        Ok(Err(e)) => Ok(Err(e.status() as u16)),
        Err(p) => viol("cc-panic", format!("{h:?}: {p}")),
    }
}

fn cc_check(ch: &mut Ch, ls: &[String]) -> R {
    ch.note(|| format!("cache-control: {ls:?}"));
    let res = response("cache-control", ls);
    let got = cc_read(hdrs(&res))?;
    ch.step();
    match cc_reference(ls) {
        Some(els) => req!(admits(&els, &got), "cc-parse", "Cache-Control {ls:?} reads {got:?}, expected one of {els:?}"),
        None => req!(!matches!(got, Err(c) if c != 400), "cc-status", "Cache-Control {ls:?}: {got:?}"),
    }
    Ok(())
}

const SECS: &[u64] = &[0, 1, 9, 10, 60, 86400, 604800, (1 << 31) - 1, 1 << 31, 1 << 32, i64::MAX as u64, u64::MAX];

fn any_directive(ch: &mut Ch) -> (CacheDirective, bool, bool) {
    let i = ch.choose(FLAGS.len() + 1 + TIMED.len() * SECS.len());
    if i < FLAGS.len() {
        let f = &FLAGS[i];
        return (f.1.clone(), f.2, f.3);
    }
    let i = i - FLAGS.len();
    if i == 0 {
        return (CacheDirective::MaxStale(None), true, false);
    }
    let t = &TIMED[(i - 1) / SECS.len()];
    (t.1(Duration::from_secs(SECS[(i - 1) % SECS.len()])), t.2, t.3)
}

// ---------------------------------------------------------------------------------------------

const CLEAR: &[(&str, ClearDirective)] = &[
    ("\"cache\"", ClearDirective::Cache),
    ("\"cookies\"", ClearDirective::Cookies),
    ("\"storage\"", ClearDirective::Storage),
    ("\"executionContexts\"", ClearDirective::ExecutionContexts),
];

fn csd_read(h: &Headers) -> Result<Result<(Vec<ClearDirective>, bool), u16>, Viol> {
    match no_panic(|| ClearSiteData::from_headers(h)) {
        Ok(Ok(Some(mut c))) => {
            let v: Vec<_> = c.iter().copied().collect();
            let w = c.wildcard();
            let all = v.iter().collect::<Vec<_>>();
            req_eq!(drained(c.iter())?, all, "list-iter", "{c:?}");
            req_eq!(drained(c.iter_mut())?, all, "list-iter", "iter_mut");
            req_eq!(drained((&c).into_iter())?, all, "list-iter", "{c:?}");
            req_eq!(drained((&mut c).into_iter())?, all, "list-iter", "into_iter by &mut");
            req_eq!(drained(c.into_iter())?, v, "list-iter", "into_iter");
            Ok(Ok((v, w)))
        }
        Ok(Ok(None)) => viol("csd-absent", "present Clear-Site-Data reads as absent"),
        Ok(Err(e)) => Ok(Err(e.status() as u16)),
        Err(p) => viol("csd-panic", format!("{h:?}: {p}")),
    }
}

fn csd_check(ch: &mut Ch, ls: &[String]) -> R {
    ch.note(|| format!("clear-site-data: {ls:?}"));
    let res = response("clear-site-data", ls);
    let got = csd_read(hdrs(&res))?;
    ch.step();
    let mut els = vec![];
    let mut wild = false;
    for l in ls {
        // no directive contains a comma or an escape
        for e in l.split(',') {
            let e = ows(e);
            if e == "\"*\"" {
                wild = true;
            } else if let Some((_, d)) = CLEAR.iter().find(|(n, _)| *n == e) {
                els.push(vec![Is(*d)]);
            } else {
                els.push(vec![Skip, Bad]);
            }
        }
    }
    let flat = got.clone().map(|(v, _)| v);
    let quoted_comma = ls.iter().any(|l| l.split(',').any(|e| e.matches('"').count() % 2 == 1));
    if quoted_comma {
        req!(!matches!(got, Err(c) if c != 400), "csd-status", "{ls:?}: {got:?}");
        return Ok(());
    }
    req!(admits(&els, &flat), "csd-parse", "Clear-Site-Data {ls:?} reads {got:?}, expected {els:?}");
    if let Ok((_, w)) = got {
        req_eq!(w, wild, "csd-wildcard", "Clear-Site-Data {ls:?}");
    }
    Ok(())
}

crate::listed!(
    CacheControl, CacheDirective, "cache-control", &["max-age=5", "no-store, x, Max-Stale=7,public"],
    vec![CacheDirective::NoStore, CacheDirective::MaxAge(Duration::from_secs(60)), CacheDirective::MaxStale(None)],
    |e: &CacheDirective| format!("{e:?}"), |_: &CacheControl| None, |_: &mut CacheControl, _| ()
);
crate::listed!(
    ClearSiteData, ClearDirective, "clear-site-data", &["\"cache\"", "\"*\"", "\"cookies\", \"*\", \"cookies\""],
    vec![ClearDirective::Cache, ClearDirective::Storage], |e: &ClearDirective| e.as_str().to_string()
);
crate::listed!(
    IfMatch, ETag, "if-match", &["\"a\"", "*", "W/\"b,*\", *, \"\""],
    vec![ETag::Strong("x".into()), ETag::Weak("y,z".into()), ETag::Strong("*".into())], |e: &ETag| e.to_string()
);
crate::listed!(
    IfNoneMatch, ETag, "if-none-match", &["\"a\"", "*", "W/\"b,*\", *, \"\""],
    vec![ETag::Strong("x".into()), ETag::Weak("y,z".into()), ETag::Strong("*".into())], |e: &ETag| e.to_string()
);
crate::listed!(
    Vary, HeaderName, "vary", &["Accept", "*", "a, *, A"],
    vec![HeaderName::from("Accept"), HeaderName::from("x"), HeaderName::from("accept-encoding")], |e: &HeaderName| e.as_str().to_string()
);

pub fn build_c24(s: &mut Suite, thorough: bool) {
    super::edits::edits::<CacheControl>(s, "cache-control-history", if thorough { 5 } else { 4 });
    super::edits::edits::<ClearSiteData>(s, "clear-site-data-history", if thorough { 5 } else { 4 });
    s.bound("Cache-Control lines of at most 6 (thorough 7) of 10 tokens, all lists of up to 2 (3) of the 82 directives with 12 durations, all sequences of up to 4 lines out of 7, every single-character edit and case of every directive name; Clear-Site-Data lines of at most 6 (7) of 8 tokens, every list of up to 4 directives with and without wildcard, every edit of every directive");
    s.assume("undecided: an argument given to a directive that takes none, a quoted or signed number, whitespace around '=', a number beyond 64 bits, an unterminated quote; an unknown or malformed Clear-Site-Data directive may be skipped or rejected");
    let n = if thorough { 7 } else { 6 };
    s.add("cache-control-tokens", move |ch| {
        let t = tokens(ch, &["max-age", "No-Store", "=", ",", " ", "60", "\"", "x", "private", "\\"], n);
        cc_check(ch, &[t])
    });
    s.add("cache-control-arguments", |ch| {
        let i = ch.choose(FLAGS.len() + TIMED.len());
        let name = if i < FLAGS.len() { FLAGS[i].0 } else { TIMED[i - FLAGS.len()].0 };
        let arg = *ch.pick(&[
            "", "=", "=0", "=1", "=007", "=-1", "=+1", "=1.0", "= 1", "=1 ", "=1 2", "=x", "=\"1\"", "=0x1", "=1e3", "=18446744073709551615",
            "=18446744073709551616", "=99999999999999999999999", "=1=2", "==1", "=1s",
        ]);
        let before = *ch.pick(&["", "public, ", "max-age=3,", " ,"]);
        let after = *ch.pick(&["", ", no-store", ",,", " , min-fresh=4"]);
        cc_check(ch, &[format!("{before}{name}{arg}{after}")])
    });
    s.add("cache-control-names", |ch| {
        // one edit of a name, or its letters' case
        let i = ch.choose(FLAGS.len() + TIMED.len());
        let name = if i < FLAGS.len() { FLAGS[i].0 } else { TIMED[i - FLAGS.len()].0 };
        let mut v = name.as_bytes().to_vec();
        let pos = ch.choose(v.len() + 1);
        match ch.choose(5) {
            0 => {
                if pos < v.len() {
                    v[pos] = ch.choose(128) as u8;
                }
            }
            1 => v.insert(pos, ch.choose(128) as u8),
            2 => {
                if pos < v.len() {
                    v.remove(pos);
                }
            }
            3 => v[..pos].make_ascii_uppercase(),
            _ => v[pos..].make_ascii_uppercase(),
        }
        let arg = if i < FLAGS.len() { "" } else { "=5" };
        let text = format!("{}{arg}", String::from_utf8(v).unwrap());
        if text.trim() != ows(&text) {
            return Ok(());
        }
        cc_check(ch, &[text])
    });
    let n = if thorough { 3 } else { 2 };
    s.add("cache-control-write", move |ch| {
        let k = ch.choose(n + 1);
        let mut c = CacheControl::new();
        let mut model = vec![];
        for _ in 0..k {
            let (d, rq, rs) = any_directive(ch);
            req_eq!(d.valid_in_req(), rq, "cc-valid", "{d:?} in a request");
            req_eq!(d.valid_in_res(), rs, "cc-valid", "{d:?} in a response");
            model.push(d.clone());
            c.push(d);
            ch.step();
            req_eq!(c.iter().cloned().collect::<Vec<_>>(), model, "cc-push", "pushed");
        }
        let res = applied(&c, "cache-control")?;
        ch.state(&c.header_value().as_str().to_string());
        req_eq!(cc_read(hdrs(&res))?, Ok(model), "cc-round-trip", "{:?}", c.header_value());
        Ok(())
    });
    s.add("cache-control-fractions", |ch| {
        let t = ch.pick(TIMED);
        let secs = *ch.pick(SECS);
        let nanos = *ch.pick(&[1, 999_999_999]);
        let mut c = CacheControl::new();
        c.push(t.1(Duration::new(secs, nanos)));
        ch.step();
        req_eq!(c.header_value().as_str(), format!("{}={secs}", t.0), "cc-write", "{c:?}");
        Ok(())
    });
    s.bound("22 malformed numbers of every directive which takes one, between others");
    s.add("cache-control-malformed", |ch| {
        const V: &[&str] = &[
            "", "=1", "1=", "1=2", "-1", "1.5", "1s", "0x10", "1e3", "1 2", "1_0", "\"1", "1\"", "'1'", "--1", "++1", "\u{b2}", "\u{661}", "one", "1;2", "*", "1=max-age",
        ];
        let t = ch.pick(TIMED);
        let v = *ch.pick(V);
        let d = format!("{}={v}", t.0);
        if !d.is_ascii() {
            return Ok(());
        }
        let line = match ch.choose(4) {
            0 => d,
            1 => format!("{d}, no-store"),
            2 => format!("no-cache,{d}"),
            _ => format!("x=\"y\" , {d} ,public"),
        };
        ch.step();
        let got = CacheControl::from_headers(response("cache-control", &[line.clone()]));
        req_eq!(st(&got), 400, "cc-accepts", "Cache-Control {line:?}");
        let got = CacheControl::from_headers(response("cache-control", &["public".into(), line.clone(), "private".into()]));
        req_eq!(st(&got), 400, "cc-accepts", "Cache-Control {line:?} between others");
        Ok(())
    });
    s.add("cache-control-lines", |ch| {
        const L: &[&str] = &["", "no-cache", "max-age=1, public", "x=\"a, max-age=2, b\\\",private\", immutable", "max-age", " , ,no-store,", "\tMAX-STALE\t"];
        let ls: Vec<String> = ch.seq(L, 4).iter().map(|s| s.to_string()).collect();
        if ls.is_empty() {
            let r = Response::new(200);
            let h = hdrs(&r);
            req!(matches!(CacheControl::from_headers(h), Ok(None)), "cc-absent", "absent Cache-Control");
            req!(matches!(ClearSiteData::from_headers(h), Ok(None)), "csd-absent", "absent Clear-Site-Data");
            return Ok(());
        }
        cc_check(ch, &ls)
    });
    let large = if thorough { 2000 } else { 300 };
    s.bound(&format!("lists of up to {large} directives over one, two or as many lines; quoted arguments of unknown directives of up to {large} characters"));
    s.add("cache-control-scale", move |ch| {
        let n = 1 + ch.choose(large);
        let els: Vec<String> = match ch.choose(3) {
            0 => (0..n).map(|i| [format!("max-age={i}"), "no-cache".into(), format!("x{i}=\"a, max-age={i}\""), format!("Stale-If-Error={}", i * i * i)][i % 4].clone()).collect(),
            1 => (0..n).map(|i| FLAGS[i % FLAGS.len()].0.to_string()).collect(),
            _ => vec![format!("x=\"{}\"", "\\\",".repeat(n)), format!("y=\"{}\"", "a,".repeat(n)), "no-store".into(), "z".repeat(n), format!("max-age={:0>n$}", 7)],
        };
        let ls = spread(ch, &els, ", ");
        cc_check(ch, &ls)?;
        // written
        let got = cc_read(hdrs(&response("cache-control", &ls)))?;
        let Ok(ds) = got else { return Ok(()) };
        let mut c = CacheControl::new();
        for d in &ds {
            c.push(d.clone());
        }
        req_eq!(cc_read(hdrs(&applied(&c, "cache-control")?))?, Ok(ds), "cc-scale", "{n}");
        Ok(())
    });
    s.add("clear-site-data-scale", move |ch| {
        let n = 1 + ch.choose(large);
        let mut els: Vec<String> = (0..n).map(|i| CLEAR[i % CLEAR.len()].0.to_string()).collect();
        if ch.flag() {
            els.insert(n * 2 / 3, "\"*\"".into());
        }
        let ls = spread(ch, &els, " ,");
        csd_check(ch, &ls)?;
        let Ok((ds, w)) = csd_read(hdrs(&response("clear-site-data", &ls)))? else { return viol("csd-scale", format!("{n}")) };
        let mut c = ClearSiteData::new();
        for d in &ds {
            c.push(*d);
        }
        c.set_wildcard(w);
        req_eq!(csd_read(hdrs(&applied(&c, "clear-site-data")?))?, Ok((ds, w)), "csd-scale", "{n}");
        Ok(())
    });
    let n = if thorough { 7 } else { 6 };
    s.add("clear-site-data-tokens", move |ch| {
        let t = tokens(ch, &["\"cache\"", "\"*\"", "\"executionContexts\"", "*", ",", " ", "\"", "storage"], n);
        csd_check(ch, &[t])
    });
    s.add("clear-site-data-edits", |ch| {
        let (name, _) = ch.pick(CLEAR);
        let mut v = name.as_bytes().to_vec();
        let pos = ch.choose(v.len() + 1);
        match ch.choose(4) {
            0 => {
                if pos < v.len() {
                    v[pos] = ch.choose(128) as u8;
                }
            }
            1 => v.insert(pos, ch.choose(128) as u8),
            2 => {
                if pos < v.len() {
                    v.remove(pos);
                }
            }
            _ => v[..pos].make_ascii_uppercase(),
        }
        let text = String::from_utf8(v).unwrap();
        let d = ClearDirective::from_str(&text);
        req_eq!(d.ok(), CLEAR.iter().find(|c| c.0 == text).map(|c| c.1), "csd-directive", "{text:?}");
        if text.split(',').any(|e| e.trim() != ows(e)) {
            return Ok(());
        }
        csd_check(ch, &[format!("\"storage\",{text}")])
    });
    s.add("clear-site-data-lines", |ch| {
        const L: &[&str] = &["\"cache\"", "\"cookies\", \"storage\"", "\"*\"", "", "\"clientHints\"", " \"executionContexts\" ,\"*\" "];
        let ls: Vec<String> = ch.seq(L, 4).iter().map(|s| s.to_string()).collect();
        if ls.is_empty() {
            return Ok(());
        }
        csd_check(ch, &ls)
    });
    s.add("clear-site-data-write", |ch| {
        let mut c = ClearSiteData::new();
        let ds = ch.seq(CLEAR, 4);
        let w = ch.flag();
        for (n, d) in &ds {
            c.push(*d);
            req_eq!(d.as_str(), *n, "csd-name", "{d:?}");
            req_eq!(d.to_string(), *n, "csd-name", "{d:?}");
        }
        match w {
            true => c.set_wildcard(true),
            false if ch.flag() => {
                c.set_wildcard(true);
                c.set_wildcard(false);
            }
            // a new list has none
            false => {}
        }
        req_eq!(c.wildcard(), w, "list-wildcard", "{c:?}");
        ch.step();
        ch.state(&c.header_value().as_str().to_string());
        let res = applied(&c, "clear-site-data")?;
        req_eq!(csd_read(hdrs(&res))?, Ok((ds.iter().map(|d| d.1).collect(), w)), "csd-round-trip", "{:?}", c.header_value());
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

fn etag(s: &str) -> Option<ETag> {
    let (weak, q) = match s.strip_prefix("W/") {
        Some(q) => (true, q),
        None => (false, s),
    };
    let b = q.as_bytes();
    if b.len() < 2 || b[0] != b'"' || b[b.len() - 1] != b'"' {
        return None;
    }
    let t = &q[1..q.len() - 1];
    if t.bytes().any(|c| c <= 0x20 || c == b'"' || c == 0x7f) {
        return None;
    }
    Some(if weak { ETag::Weak(t.into()) } else { ETag::Strong(t.into()) })
}

fn etag_check(ch: &mut Ch, text: &str) -> R {
    ch.note(|| format!("etag {text:?}"));
    let res = res_with(&[("etag", "\"earlier\""), ("etag", text)]);
    let got = match no_panic(|| ETag::from_headers(&res)) {
        Ok(g) => g,
        Err(p) => return viol("etag-panic", format!("ETag {text:?}: {p}")),
    };
    ch.step();
    let code = st(&got);
    match (etag(text), got) {
        (Some(want), Ok(Some(e))) => {
            req_eq!(e, want, "etag-parse", "ETag {text:?}");
            req_eq!(e.to_string(), text, "etag-write", "ETag {text:?}");
            req_eq!(e.header_value().as_str(), text, "etag-write", "ETag {text:?}");
            req_eq!(e.is_weak(), text.starts_with('W'), "etag-weak", "ETag {text:?}");
            req_eq!(e.is_strong(), !text.starts_with('W'), "etag-weak", "ETag {text:?}");
        }
        (Some(_), o) => return viol("etag-parse", format!("ETag {text:?} reads {o:?}")),
        (None, Ok(Some(e))) => {
            // surrounding whitespace may be ignored
            req!(etag(text.trim()) == Some(e.clone()), "etag-accepts", "ETag {text:?} reads {e:?}");
        }
        (None, Ok(None)) => return viol("etag-absent", format!("ETag {text:?} reads as absent")),
        (None, _) => req_eq!(code, 400, "etag-status", "ETag {text:?}"),
    }
    Ok(())
}

struct Match {
    name: &'static str,
    read: fn(&Headers) -> http_types::Result<Option<(Vec<ETag>, bool)>>,
    write: fn(&[ETag], bool) -> Result<Response, Viol>,
}

macro_rules! matching {
    ($t:ident, $name:literal) => {
        Match {
            name: $name,
            read: |h| {
                Ok($t::from_headers(h)?.map(|mut m| {
                    let v: Vec<ETag> = m.iter().cloned().collect();
                    let w = m.wildcard();
                    let all = v.iter().collect::<Vec<_>>();
                    assert_eq!(drained(m.iter()).unwrap(), all);
                    assert_eq!(drained(m.iter_mut()).unwrap(), all);
                    assert_eq!(drained((&m).into_iter()).unwrap(), all);
                    assert_eq!(drained((&mut m).into_iter()).unwrap(), all);
                    assert_eq!(drained(m.into_iter()).unwrap(), v);
                    (v, w)
                }))
            },
            write: |es, w| {
                let mut m = $t::new();
                assert!(!m.wildcard());
                for (n, e) in es.iter().enumerate() {
                    m.push(e.clone());
                    assert_eq!(m.iter().collect::<Vec<_>>(), es[..=n].iter().collect::<Vec<_>>());
                }
                if w {
                    m.set_wildcard(w);
                }
                assert_eq!(m.wildcard(), w);
                applied(&m, $name)
            },
        }
    };
}

const MATCHES: &[Match] = &[matching!(IfMatch, "if-match"), matching!(IfNoneMatch, "if-none-match")];

fn match_read(m: &Match, h: &Headers) -> Result<Result<(Vec<ETag>, bool), u16>, Viol> {
    match no_panic(|| (m.read)(h)) {
        Ok(Ok(Some(v))) => Ok(Ok(v)),
        Ok(Ok(None)) => viol("match-absent", format!("{} present reads as absent", m.name)),
        Ok(Err(e)) => Ok(Err(e.status() as u16)),
        Err(p) => viol("match-panic", format!("{}: {p}", m.name)),
    }
}

fn match_check(ch: &mut Ch, ls: &[String]) -> R {
    for m in MATCHES {
        ch.note(|| format!("{}: {ls:?}", m.name));
        let res = response(m.name, ls);
        let got = match_read(m, hdrs(&res))?;
        ch.step();
        let mut want = vec![];
        let mut wild = false;
        let mut bad = false;
        for l in ls {
            match split(l, false) {
                None => bad = true,
                Some(es) => {
                    for e in es {
                        let e = ows(&e);
                        if e == "*" {
                            wild = true;
                        } else if !e.is_empty() {
                            match etag(e) {
                                Some(t) => want.push(t),
                                None => bad = true,
                            }
                        }
                    }
                }
            }
        }
        if bad {
            req_eq!(got, Err(400), "match-accepts", "{} {ls:?}", m.name);
        } else {
            req_eq!(got, Ok((want, wild)), "match-parse", "{} {ls:?}", m.name);
        }
    }
    Ok(())
}

pub fn build_c25(s: &mut Suite, thorough: bool) {
    super::edits::edits::<IfMatch>(s, "if-match-history", if thorough { 5 } else { 4 });
    super::edits::edits::<IfNoneMatch>(s, "if-none-match-history", if thorough { 5 } else { 4 });
    s.bound("ETag texts of at most 7 (thorough 8) of 9 tokens and every single-character edit of 4 texts; every tag of 0 to 2 ASCII tag characters; If-Match and If-None-Match lines of at most 7 (8) of 8 tokens, every sequence of up to 3 lines out of 9, every list of up to 3 of 9 tags with and without wildcard");
    s.assume("whitespace around a whole ETag header may be ignored or rejected; tags holding characters a tag cannot hold are outside the constructors' contract");
    let n = if thorough { 8 } else { 7 };
    s.add("etag-tokens", move |ch| {
        let t = tokens(ch, &["\"", "W/", "a", ",", " ", "\\", "W", "/", "w"], n);
        etag_check(ch, &t)
    });
    s.add("etag-edits", |ch| {
        let mut v = ch.pick(&["\"abc\"", "W/\"abc\"", "\"\"", "W/\"\""]).as_bytes().to_vec();
        let pos = ch.choose(v.len() + 1);
        match ch.choose(3) {
            0 => {
                if pos < v.len() {
                    v[pos] = ch.choose(128) as u8;
                }
            }
            1 => v.insert(pos, ch.choose(128) as u8),
            _ => {
                if pos < v.len() {
                    v.remove(pos);
                }
            }
        }
        etag_check(ch, &String::from_utf8(v).unwrap())
    });
    s.add("etag-write", |ch| {
        let k = ch.choose(3);
        let t: String = (0..k).map(|_| (0x21 + ch.choose(94) as u8) as char).filter(|c| *c != '"').collect();
        let weak = ch.flag();
        let e = match (weak, t.contains('\\')) {
            (false, false) => ETag::new(t.clone()),
            (true, false) => ETag::new_weak(t.clone()),
            (false, true) => ETag::Strong(t.clone()),
            (true, true) => ETag::Weak(t.clone()),
        };
        let res = applied(&e, "etag")?;
        ch.step();
        req_eq!(ETag::from_headers(&res).ok().flatten(), Some(e.clone()), "etag-round-trip", "{e:?}");
        for m in MATCHES {
            let res = match no_panic(|| (m.write)(&[e.clone(), ETag::new("z".into())], false)) {
                Ok(r) => r?,
                Err(p) => return viol("match-list", p),
            };
            req_eq!(match_read(m, hdrs(&res))?, Ok((vec![e.clone(), ETag::new("z".into())], false)), "match-round-trip", "{} {e:?}", m.name);
        }
        Ok(())
    });
    let large = if thorough { 5000 } else { 1000 };
    s.bound(&format!("tags of up to {large} characters, lists of up to 300 tags over one, two or as many lines"));
    s.add("scale", move |ch| {
        if ch.flag() {
            let n = *ch.pick(&sizes(70, large));
            let x = *ch.pick(&["a", ",", "\\", "W/"]);
            let w = *ch.pick(&["", "W/"]);
            etag_check(ch, &format!("{w}\"{}\"", x.repeat(n)))?;
            return match_check(ch, &[format!("{w}\"{}\", \"z\"", x.repeat(n))]);
        }
        let n = 1 + ch.choose(300);
        let cycle = *ch.pick(CYCLES);
        let es: Vec<ETag> = (0..n).map(|i| i % cycle).map(|i| if i % 3 == 0 { ETag::Weak(format!("w,{i}")) } else { ETag::Strong(format!("{i}")) }).collect();
        let wild = ch.flag();
        let mut els: Vec<String> = es.iter().map(|e| e.to_string()).collect();
        if wild {
            els.insert(n / 2, "*".into());
        }
        let ls = spread(ch, &els, ", ");
        match_check(ch, &ls)?;
        for m in MATCHES {
            let res = match no_panic(|| (m.write)(&es, wild)) {
                Ok(r) => r?,
                Err(p) => return viol("match-list", p),
            };
            req_eq!(match_read(m, hdrs(&res))?, Ok((es.clone(), wild)), "match-round-trip", "{} {n}", m.name);
        }
        Ok(())
    });
    s.add("etag-lines", |ch| {
        let ls = ch.seq(&["\"a\"", "W/\"b\"", "junk", "", "\"a\", \"b\""], 3);
        let mut res = Response::new(200);
        for l in &ls {
            res.append_header("etag", *l).unwrap();
        }
        ch.step();
        let got = ETag::from_headers(&res);
        match ls.last() {
            None => req!(matches!(got, Ok(None)), "etag-absent", "no line reads {got:?}"),
            Some(l) => match etag(l) {
                Some(e) => req_eq!(got.ok(), Some(Some(e)), "etag-last", "{ls:?}"),
                None => req_eq!(st(&got), 400, "etag-status", "{ls:?}"),
            },
        }
        Ok(())
    });
    s.add("match-tokens", move |ch| {
        let t = tokens(ch, &["\"", "W/", "a", ",", " ", "*", "\\", "\"b\""], n);
        match_check(ch, &[t])
    });
    s.add("match-lines", |ch| {
        const L: &[&str] = &["\"a\"", "*", "W/\"b\", \"c,d\"", "", "junk", "\"a\" , , *", "\"open", ",\t\"x\\\",", "\"a\" \"b\""];
        let ls: Vec<String> = ch.seq(L, 3).iter().map(|s| s.to_string()).collect();
        if ls.is_empty() {
            for m in MATCHES {
                let r = Response::new(200);
                req!(matches!((m.read)(hdrs(&r)), Ok(None)), "match-absent", "{} absent", m.name);
            }
            return Ok(());
        }
        match_check(ch, &ls)
    });
    s.add("match-write", |ch| {
        let tags: Vec<ETag> = ["", "a", "*", ",", ", *", "W/", "b\\", "'", "~!"].iter().map(|s| ETag::Strong(s.to_string())).collect();
        let mut es = ch.seq(&tags, 3);
        for e in es.iter_mut() {
            if ch.flag() {
                if let ETag::Strong(t) = e.clone() {
                    *e = ETag::Weak(t);
                }
            }
        }
        let w = ch.flag();
        for m in MATCHES {
            let res = match no_panic(|| (m.write)(&es, w)) {
                Ok(r) => r?,
                Err(p) => return viol("match-list", p),
            };
            ch.step();
            ch.state(&format!("{:?}", lines(hdrs(&res), m.name)));
            let got = match_read(m, hdrs(&res))?;
            let inner_space = es.iter().any(|e| matches!(e, ETag::Strong(t) | ETag::Weak(t) if t.contains(' ')));
            if !inner_space {
                req_eq!(got, Ok((es.clone(), w)), "match-round-trip", "{} {:?}", m.name, lines(hdrs(&res), m.name));
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

const METHODS: &[Method] = &[Method::Get, Method::Head, Method::Post, Method::VersionControl, Method::BaselineControl, Method::Delete];

use super::c12_tokens::METHODS as ALL_METHODS;

fn vary_read(h: &Headers) -> Result<Result<(Vec<HeaderName>, bool), u16>, Viol> {
    match no_panic(|| Vary::from_headers(h)) {
        Ok(Ok(Some(mut m))) => {
            let v: Vec<HeaderName> = m.iter().cloned().collect();
            let w = m.wildcard();
            let all = v.iter().collect::<Vec<_>>();
            req_eq!(drained(m.iter())?, all, "list-iter", "{m:?}");
            req_eq!(drained(m.iter_mut())?, all, "list-iter", "iter_mut");
            req_eq!(drained((&m).into_iter())?, all, "list-iter", "{m:?}");
            req_eq!(drained((&mut m).into_iter())?, all, "list-iter", "into_iter by &mut");
            req_eq!(drained(m.into_iter())?, v, "list-iter", "into_iter");
            Ok(Ok((v, w)))
        }
        Ok(Ok(None)) => viol("vary-absent", "present Vary reads as absent"),
        Ok(Err(e)) => Ok(Err(e.status() as u16)),
        Err(p) => viol("vary-panic", format!("{h:?}: {p}")),
    }
}

fn vary_check(ch: &mut Ch, ls: &[String]) -> R {
    ch.note(|| format!("vary: {ls:?}"));
    let res = response("vary", ls);
    let got = vary_read(hdrs(&res))?;
    ch.step();
    let mut els = vec![];
    let mut wild = false;
    for l in ls {
        for e in l.split(',') {
            let e = ows(e);
            if e == "*" {
                wild = true;
            } else if !e.is_empty() {
                let name = HeaderName::from_str(e).unwrap();
                els.push(if is_token(e) { vec![Is(name)] } else { vec![Bad, Is(name)] });
            }
        }
    }
    let flat = got.clone().map(|(v, _)| v);
    req!(admits(&els, &flat), "vary-parse", "Vary {ls:?} reads {got:?}, expected {els:?}");
    if let Ok((v, w)) = got {
        req_eq!(w, wild, "vary-wildcard", "Vary {ls:?}");
        for n in v {
            req_eq!(n.as_str(), n.as_str().to_ascii_lowercase(), "vary-case", "Vary {ls:?}");
        }
    }
    Ok(())
}

fn allow_read(h: &Headers) -> Result<Result<BTreeSet<String>, u16>, Viol> {
    match no_panic(|| Allow::from_headers(h)) {
        Ok(Ok(Some(m))) => {
            let v: BTreeSet<String> = m.iter().map(|m| m.to_string()).collect();
            req_eq!(drained(m.iter())?.len(), v.len(), "list-iter", "{m:?}");
            let again: BTreeSet<String> = drained((&m).into_iter())?.iter().map(|m| m.to_string()).collect();
            req_eq!(again, v, "list-iter", "{m:?}");
            for (x, name) in ALL_METHODS {
                req_eq!(m.contains(*x), v.contains(*name), "allow-contains", "{m:?} {x}");
            }
            req_eq!(drained(m.into_iter())?.iter().map(|m| m.to_string()).collect::<BTreeSet<_>>(), v, "list-iter", "into_iter");
            Ok(Ok(v))
        }
        Ok(Ok(None)) => viol("allow-absent", "present Allow reads as absent"),
        Ok(Err(e)) => Ok(Err(e.status() as u16)),
        Err(p) => viol("allow-panic", format!("{h:?}: {p}")),
    }
}

fn allow_check(ch: &mut Ch, ls: &[String]) -> R {
    ch.note(|| format!("allow: {ls:?}"));
    let res = response("allow", ls);
    let got = allow_read(hdrs(&res))?;
    ch.step();
    let mut want = BTreeSet::new();
    let mut bad = false;
    for l in ls {
        for e in l.split(',').map(ows).filter(|e| !e.is_empty()) {
            match ALL_METHODS.iter().find(|m| m.1.eq_ignore_ascii_case(e)) {
                Some(m) => {
                    want.insert(m.1.to_string());
                }
                None => bad = true,
            }
        }
    }
    if bad {
        req_eq!(got, Err(400), "allow-accepts", "Allow {ls:?}");
    } else {
        req_eq!(got, Ok(want), "allow-parse", "Allow {ls:?}");
    }
    Ok(())
}

pub fn build_c26(s: &mut Suite, thorough: bool) {
    super::edits::edits::<Vary>(s, "vary-history", if thorough { 5 } else { 4 });
    s.bound("Vary and Allow lines of at most 7 (thorough 8) of 7 tokens, every sequence of up to 4 lines out of 6, every list of up to 3 of 6 header names with wildcard, every set of 6 methods by every insertion order of up to 4, every ASCII character in a name");
    s.assume("a Vary element that is no token may be rejected or kept; methods are read in any case, as Method does");
    let n = if thorough { 8 } else { 7 };
    s.add("vary-tokens", move |ch| {
        let t = tokens(ch, &["Accept", "x-Y", ",", " ", "*", "-", "\t"], n);
        vary_check(ch, &[t])
    });
    s.add("vary-characters", |ch| {
        let c = ch.choose(128) as u8 as char;
        let t = format!("A{c}b, *");
        if t.split(',').any(|e| e.trim() != ows(e)) {
            return Ok(());
        }
        vary_check(ch, &[t])
    });
    s.add("vary-lines", |ch| {
        const L: &[&str] = &["Accept", "*", "", "accept, Accept-Language", " , user-agent,", "COOKIE"];
        let ls: Vec<String> = ch.seq(L, 4).iter().map(|s| s.to_string()).collect();
        if ls.is_empty() {
            let r = Response::new(200);
            req!(matches!(Vary::from_headers(&r), Ok(None)), "vary-absent", "absent Vary");
            req!(matches!(Allow::from_headers(&r), Ok(None)), "allow-absent", "absent Allow");
            return Ok(());
        }
        vary_check(ch, &ls)
    });
    s.add("vary-write", |ch| {
        let ns = ch.seq(&["Accept", "accept-encoding", "X", "User-Agent", "origin", "X-1"], 3);
        let w = ch.flag();
        let mut v = Vary::new();
        for n in &ns {
            if ch.flag() {
                v.push(*n).unwrap();
            } else {
                v.push(hn(n)).unwrap();
            }
        }
        match w {
            true => v.set_wildcard(true),
            false if ch.flag() => {
                v.set_wildcard(true);
                v.set_wildcard(false);
            }
            // a new list has none
            false => {}
        }
        req_eq!(v.wildcard(), w, "list-wildcard", "{v:?}");
        let model: Vec<HeaderName> = ns.iter().map(|n| hn(n)).collect();
        ch.step();
        ch.state(&v.header_value().as_str().to_string());
        req_eq!(v.iter().cloned().collect::<Vec<_>>(), model, "vary-push", "{v:?}");
        let res = applied(&v, "vary")?;
        req_eq!(vary_read(hdrs(&res))?, Ok((model, w)), "vary-round-trip", "{:?}", v.header_value());
        Ok(())
    });
    let large = if thorough { 2000 } else { 300 };
    s.bound(&format!("lists of up to {large} header names, and of as many methods with repeats, over one, two or as many lines"));
    s.add("scale", move |ch| {
        let k = 1 + ch.choose(large);
        if ch.flag() {
            let mut els: Vec<String> = (0..k).map(|i| METHODS[i * i % METHODS.len()].to_string()).collect();
            els.rotate_left(k / 3);
            let ls = spread(ch, &els, ", ");
            return allow_check(ch, &ls);
        }
        let names: Vec<String> = (0..k).map(|i| format!("{}-{i}", ["X", "Accept", "x-y"][i % 3])).collect();
        let wild = ch.flag();
        let mut els = names.clone();
        if wild {
            els.insert(k / 2, "*".into());
        }
        let ls = spread(ch, &els, ", ");
        vary_check(ch, &ls)?;
        let mut v = Vary::new();
        for n in &names {
            v.push(n.as_str()).unwrap();
        }
        v.set_wildcard(wild);
        let model: Vec<HeaderName> = names.iter().map(|n| hn(n)).collect();
        req_eq!(vary_read(hdrs(&applied(&v, "vary")?))?, Ok((model, wild)), "vary-round-trip", "{k} names");
        Ok(())
    });
    s.add("allow-tokens", move |ch| {
        let t = tokens(ch, &["GET", "BASELINE-CONTROL", ",", " ", "post", "VERSION-CONTROL", "x"], n);
        allow_check(ch, &[t])
    });
    s.add("allow-lines", |ch| {
        const L: &[&str] = &["GET", "HEAD, POST", "", "delete,,GET", "BREW", "\t*"];
        let ls: Vec<String> = ch.seq(L, 4).iter().map(|s| s.to_string()).collect();
        if ls.is_empty() {
            return Ok(());
        }
        allow_check(ch, &ls)
    });
    s.bound("all 39 methods: alone, in pairs, and in lists that start and end at each, in any case; 24 unknown methods alone and amid others");
    s.add("allow-all", |ch| {
        let n = ALL_METHODS.len();
        let (i, k) = (ch.choose(n), ch.choose(n + 1));
        let ms: Vec<(Method, &str)> = (0..k).map(|j| ALL_METHODS[(i + j) % n]).collect();
        let mut a = Allow::new();
        for (m, _) in &ms {
            a.insert(*m);
        }
        let model: BTreeSet<String> = ms.iter().map(|m| m.1.to_string()).collect();
        ch.step();
        req_eq!(a.iter().map(|m| m.to_string()).collect::<BTreeSet<_>>(), model, "allow-insert", "{a:?}");
        let res = applied(&a, "allow")?;
        req_eq!(allow_read(hdrs(&res))?, Ok(model), "allow-round-trip", "{:?}", a.header_value());
        let mut els: Vec<String> = ms.iter().map(|m| if i % 2 == 0 { m.1.to_string() } else { m.1.to_lowercase() }).collect();
        if els.is_empty() {
            els.push(String::new());
        }
        let ls = spread(ch, &els, ", ");
        allow_check(ch, &ls)
    });
    s.add("allow-unknown", |ch| {
        const U: &[&str] = &[
            "*", "BREW", "X-GET", "X-CUSTOM", "M-SEARCH", "NOTIFY", "SUBSCRIBE", "PURGE", "GETT", "GE", "\"GET\"", "GET;", "GET POST", "GET/POST", "QUERY", "MKCOL1", "MK-COL", "VERSION_CONTROL", "VERSIONCONTROL", "VERSION CONTROL", "PROP-FIND", "-", "0", "null",
        ];
        let u = *ch.pick(U);
        let els: Vec<String> = match ch.choose(4) {
            0 => vec![u.into()],
            1 => vec![u.into(), "GET".into()],
            2 => vec!["HEAD".into(), u.to_lowercase(), "POST".into()],
            _ => vec!["".into(), "PUT".into(), u.into()],
        };
        let ls = spread(ch, &els, ",");
        allow_check(ch, &ls)
    });
    s.add("allow-write", |ch| {
        let ms = ch.seq(METHODS, 4);
        let mut a = Allow::new();
        let mut model = BTreeSet::new();
        for m in &ms {
            a.insert(*m);
            model.insert(m.to_string());
            ch.step();
            req_eq!(a.iter().map(|m| m.to_string()).collect::<BTreeSet<_>>(), model, "allow-insert", "{a:?}");
        }
        ch.state(&model);
        let res = applied(&a, "allow")?;
        req_eq!(allow_read(hdrs(&res))?, Ok(model), "allow-round-trip", "{:?}", a.header_value());
        Ok(())
    });
}
