//! C28 the trace context, C29 Server-Timing.
use crate::engine::*;
use crate::util::El::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::headers::{Header, HeaderValue, Headers};
use http_types::trace::{Metric, ServerTiming, TraceContext};
use http_types::Response;
use std::time::Duration;

/// What is observable of a context, apart from its random id.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct Tc {
    version: u8,
    trace: u128,
    parent: Option<u64>,
    flags: u8,
}

/// The header a context writes: the four numbers in lower-case hexadecimal digits of full width.
fn written(t: &TraceContext) -> Result<(u8, u128, u64, u8), Viol> {
    let text = t.header_value().as_str().to_string();
    req_eq!(text, t.to_string(), "trace-write", "Display and header");
    req_eq!(text, format!("{t:#}"), "trace-write", "alternate Display");
    let p: Vec<&str> = text.split('-').collect();
    let shape = p.len() == 4
        && p.iter().zip([2, 32, 16, 2]).all(|(s, n)| s.len() == n && s.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b)));
    req!(shape, "trace-write", "written as {text:?}");
    Ok((
        u8::from_str_radix(p[0], 16).unwrap(),
        u128::from_str_radix(p[1], 16).unwrap(),
        u64::from_str_radix(p[2], 16).unwrap(),
        u8::from_str_radix(p[3], 16).unwrap(),
    ))
}

fn same(t: &TraceContext, m: &Tc) -> R {
    req_eq!(t.version(), m.version, "trace-version", "{t:?}");
    req_eq!(t.trace_id(), m.trace, "trace-id", "{t:?}");
    req_eq!(t.parent_id(), m.parent, "trace-parent", "{t:?}");
    req_eq!(t.sampled(), m.flags & 1 == 1, "trace-sampled", "{t:?}");
    req_eq!(written(t)?, (m.version, m.trace, t.id(), m.flags), "trace-write", "{t:?}");
    Ok(())
}

enum Want {
    Is(Tc),
    Reject,
    Open(Option<Tc>),
}

fn reference(s: &str) -> Want {
    let p: Vec<&str> = s.split('-').collect();
    if p.len() < 4 {
        return if s.trim() == s { Want::Reject } else { Want::Open(None) };
    }
    let hex = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_hexdigit());
    if p[..4].iter().any(|t| !hex(t)) {
        // surrounding whitespace may be ignored
        return if s.trim() == s { Want::Reject } else { Want::Open(None) };
    }
    let parse = || {
        Some(Tc {
            version: u8::from_str_radix(p[0], 16).ok()?,
            trace: u128::from_str_radix(p[1], 16).ok()?,
            parent: Some(u64::from_str_radix(p[2], 16).ok()?),
            flags: u8::from_str_radix(p[3], 16).ok()?,
        })
    };
    let Some(t) = parse() else { return Want::Reject };
    let long = p.iter().zip([2, 32, 16, 2]).any(|(s, n)| s.len() > n);
    let upper = s.bytes().any(|b| b.is_ascii_uppercase());
    if long || upper || p.len() > 4 || t.version == 255 || t.trace == 0 || t.parent == Some(0) {
        return Want::Open(Some(t));
    }
    Want::Is(t)
}

fn parse(text: &str) -> Result<Result<TraceContext, u16>, Viol> {
    let res = res_with(&[("traceparent", text)]);
    match no_panic(|| TraceContext::from_headers(&res)) {
        Ok(Ok(Some(t))) => Ok(Ok(t)),
        Ok(Ok(None)) => viol("trace-absent", format!("traceparent {text:?} reads as absent")),
        Ok(Err(e)) => Ok(Err(e.status() as u16)),
        Err(p) => viol("trace-panic", format!("traceparent {text:?}: {p}")),
    }
}

fn check(ch: &mut Ch, text: &str) -> R {
    ch.note(|| format!("traceparent {text:?}"));
    let got = parse(text)?;
    ch.step();
    match (reference(text), got) {
        (Want::Is(m), Ok(t)) | (Want::Open(Some(m)), Ok(t)) => same(&t, &m)?,
        (Want::Is(m), Err(c)) => return viol("trace-parse", format!("traceparent {text:?} fails with {c}, expected {m:?}")),
        (Want::Reject, Ok(t)) => return viol("trace-accepts", format!("traceparent {text:?} reads {t:?}")),
        (Want::Open(None), Ok(_)) => {}
        (_, Err(c)) => req_eq!(c, 400, "trace-status", "traceparent {text:?}"),
    }
    Ok(())
}

const FULL: &str = "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01";

pub fn build_c28(s: &mut Suite, thorough: bool) {
    s.bound("headers of at most 7 (thorough 8) of 8 tokens, every combination of 7 texts per field, every single-character edit (thorough: pairs of substitutions) of a full header, every version and flag byte; every program of up to 5 (7) of child, set_sampled and transmission from 1 new and 5 received contexts; every sequence of up to 3 header lines");
    s.assume("upper-case digits, over-long fields, fields after the fourth, version ff and all-zero ids, which the specification calls invalid, may be read or rejected; short fields are read as the crate's tests do; ids are random and assumed to differ");
    let n = if thorough { 8 } else { 7 };
    s.add("tokens", move |ch| {
        let t = tokens(ch, &["00", "-", "1", "f", "+", "F", "g", " "], n);
        check(ch, &t)
    });
    s.add("fields", |ch| {
        let f = |ch: &mut Ch, w: usize| -> String {
            match ch.choose(9) {
                0 => format!("{:0w$x}", 1),
                1 => "f".repeat(w),
                2 => "f".repeat(w + 1),
                3 => format!("1{}", "0".repeat(w)),
                4 => "0".repeat(w),
                5 => "".into(),
                6 => "8".to_string() + &"0".repeat(w - 1),
                7 => "+1".into(),
                _ => "a".into(),
            }
        };
        let (a, b, c, d) = (f(ch, 2), f(ch, 32), f(ch, 16), f(ch, 2));
        check(ch, &format!("{a}-{b}-{c}-{d}"))
    });
    s.add("bytes", |ch| {
        let (v, f) = (ch.choose(256) as u8, ch.choose(256) as u8);
        check(ch, &format!("{v:02x}{}{f:02x}", &FULL[2..53]))?;
        // the sampled bit, and only it, can be set
        if let Ok(mut t) = parse(&format!("{v:02x}{}{f:02x}", &FULL[2..53]))? {
            let before = t.id();
            for b in [true, true, false, false, true] {
                t.set_sampled(b);
                req_eq!(t.sampled(), b, "trace-sampled", "set_sampled({b})");
                req_eq!(written(&t)?.3, f & !1 | b as u8, "trace-flags", "flags {f:02x} after set_sampled({b})");
                req_eq!(t.id(), before, "trace-id", "set_sampled");
            }
        }
        Ok(())
    });
    s.bound("the child, and the child of a child, of a context with every version and flag byte");
    s.add("children", |ch| {
        let (v, f) = (ch.choose(256) as u8, ch.choose(256) as u8);
        let text = format!("{v:02x}{}{f:02x}", &FULL[2..53]);
        ch.note(|| text.clone());
        if let Ok(t) = parse(&text)? {
            let mut m = Tc { version: v, trace: t.trace_id(), parent: Some(t.id()), flags: f };
            let c = t.child();
            ch.step();
            same(&c, &m)?;
            m.parent = Some(c.id());
            same(&c.child(), &m)?;
            // the parent is left as it is
            same(&t, &Tc { parent: t.parent_id(), ..m.clone() })?;
        }
        Ok(())
    });
    s.add("edits", |ch| {
        let mut v = FULL.as_bytes().to_vec();
        let pos = ch.choose(v.len() + 1);
        match ch.choose(4) {
            0 => {
                if pos < v.len() {
                    v[pos] = ch.choose(128) as u8;
                }
            }
            1 => v.insert(pos, ch.choose(128) as u8),
            2 => {
                if pos < v.len() {
                    v.remove(pos);
                }
            }
            _ => v.truncate(pos),
        }
        check(ch, &String::from_utf8(v).unwrap())
    });
    if thorough {
        s.add("double-edits", |ch| {
            let mut v = FULL.as_bytes().to_vec();
            for _ in 0..2 {
                let pos = ch.choose(v.len());
                v[pos] = *ch.pick(b"0fFg-+ ");
            }
            check(ch, &String::from_utf8(v).unwrap())
        });
    }
    let depth = if thorough { 7 } else { 5 };
    s.add("programs", move |ch| {
        const STARTS: &[&str] = &[FULL, "00-1-2-00", "fe-ffffffffffffffffffffffffffffffff-ffffffffffffffff-ff", "cc-00000000000000000000000000000001-0000000000000001-02", "00-01-deadbeef-03"];
        let k = ch.choose(STARTS.len() + 1);
        let (mut t, mut m) = if k == 0 {
            let t = TraceContext::new();
            let m = Tc { version: 0, trace: t.trace_id(), parent: None, flags: 1 };
            (t, m)
        } else {
            let Want::Is(m) = reference(STARTS[k - 1]) else { unreachable!() };
            match parse(STARTS[k - 1])? {
                Ok(t) => (t, m),
                Err(c) => return viol("trace-parse", format!("{} fails with {c}", STARTS[k - 1])),
            }
        };
        same(&t, &m)?;
        let steps = ch.choose(depth + 1);
        for _ in 0..steps {
            let old = t.id();
            match ch.choose(4) {
                0 => {
                    ch.note(|| "child".into());
                    t = t.child();
                    m.parent = Some(old);
                    req!(t.id() != old, "trace-child", "a child has the id of its parent");
                }
                1 => {
                    ch.note(|| "set_sampled(true)".into());
                    t.set_sampled(true);
                    m.flags |= 1;
                    req_eq!(t.id(), old, "trace-id", "set_sampled changes the id");
                }
                2 => {
                    ch.note(|| "set_sampled(false)".into());
                    t.set_sampled(false);
                    m.flags &= !1;
                    req_eq!(t.id(), old, "trace-id", "set_sampled changes the id");
                }
                _ => {
                    ch.note(|| "send and receive".into());
                    let mut h = Response::new(200);
                    h.insert_header("traceparent", "stale").unwrap();
                    t.apply_header(&mut h);
                    req_eq!(t.header_name().as_str(), "traceparent", "trace-name", "header name");
                    req_eq!(lines(hdrs(&h), "traceparent").map(|l| l.len()), Some(1), "trace-apply", "applied");
                    t = match TraceContext::from_headers(&h) {
                        Ok(Some(t)) => t,
                        o => return viol("trace-round-trip", format!("{h:?} reads {o:?}")),
                    };
                    m.parent = Some(old);
                    req!(t.id() != old, "trace-receive", "the receiver has the id of the sender");
                }
            }
            ch.step();
            same(&t, &m)?;
            // the model without the random ids
            ch.state(&(k, m.flags, m.parent.is_some()));
        }
        Ok(())
    });
    s.add("lines", |ch| {
        let ls = ch.seq(&[FULL, "00-01-02-00", "junk", "", "00-01-02"], 3);
        let mut res = Response::new(200);
        for l in &ls {
            res.append_header("traceparent", *l).unwrap();
        }
        ch.step();
        let got = match no_panic(|| TraceContext::from_headers(&res)) {
            Ok(g) => g,
            Err(p) => return viol("trace-panic", format!("{ls:?}: {p}")),
        };
        let code = st(&got);
        // which of several lines counts is open, but one of them has to
        match got {
            Ok(None) => req!(ls.is_empty(), "trace-absent", "{ls:?} reads as absent"),
            Ok(Some(t)) => {
                let fits = |l: &&str| matches!(reference(l), Want::Is(m) | Want::Open(Some(m)) if same(&t, &m).is_ok());
                req!(ls.iter().any(fits), "trace-accepts", "{ls:?} reads {t:?}");
            }
            Err(_) => {
                let valid = |l: &&str| matches!(reference(l), Want::Is(_));
                req!(ls.len() > 1 || !ls.iter().any(|l| valid(&l)), "trace-parse", "{ls:?} fails");
                req_eq!(code, 400, "trace-status", "{ls:?}");
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

/// A duration in picoseconds, known up to a tolerance.
#[derive(Debug, Clone, Copy)]
struct D {
    ps: u128,
    tol: u128,
}
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        self.ps.max(o.ps) - self.ps.min(o.ps) <= self.tol.max(o.tol)
    }
}

#[derive(Debug, Clone, PartialEq)]
struct M {
    name: String,
    dur: Option<D>,
    desc: Option<String>,
}

fn view(m: &Metric) -> M {
    M {
        name: m.name().clone(),
        dur: m.duration().map(|d| D { ps: d.as_nanos() * 1000, tol: 0 }),
        desc: m.description().map(String::from),
    }
}

enum Dur {
    Is(D),
    Reject,
    Open,
}

/// Milliseconds in decimal notation.
fn duration(s: &str) -> Dur {
    let plain = |s: &str| {
        let (i, f) = s.split_once('.').unwrap_or((s, "0"));
        !i.is_empty() && !f.is_empty() && i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit())
    };
    if plain(s) {
        let (i, f) = s.split_once('.').unwrap_or((s, ""));
        let i = i.trim_start_matches('0');
        if i.len() > 20 {
            return Dur::Reject;
        }
        let int: u128 = if i.is_empty() { 0 } else { i.parse().unwrap() };
        if int >= u64::MAX as u128 - 4096 {
            return if int > u64::MAX as u128 + 4096 { Dur::Reject } else { Dur::Open };
        }
        let digits = f.trim_end_matches('0');
        let cut = &digits[..digits.len().min(9)];
        let frac: u128 = format!("{cut:0<9}").parse().unwrap();
        let ps = int * 1_000_000_000 + frac;
        let exact = digits.len() <= 6 && int < 1_000_000;
        return Dur::Is(D { ps, tol: if exact { 0 } else { 1000 + (ps >> 48) } });
    }
    // other notations of a double
    let body = s.trim_start_matches(['+', '-']);
    match s.parse::<f64>() {
        Err(_) => Dur::Reject,
        Ok(_) if body.starts_with(['i', 'n', 'I', 'N']) => Dur::Reject,
        Ok(x) if x < 0.0 || x > 1.9e19 => Dur::Reject,
        Ok(x) if x < 1.0e6 => Dur::Is(D { ps: (x * 1e9) as u128, tol: 1001 }),
        Ok(_) => Dur::Open,
    }
}

/// A line cut into elements of parameters; `Err(true)` if a description's quote stays open, and
/// `Err(false)` if quotes occur elsewhere than around a whole value.
fn cut(line: &str) -> Result<Vec<Vec<String>>, bool> {
    let v: Vec<char> = line.chars().collect();
    let mut out = vec![vec![String::new()]];
    let mut i = 0;
    while i < v.len() {
        let params = out.last_mut().unwrap();
        match v[i] {
            ',' => out.push(vec![String::new()]),
            ';' => params.push(String::new()),
            '"' => {
                let n = params.len();
                let name = |p: &str| p.split('=').next().unwrap().trim() == "desc";
                let only = line.matches('"').count() == 1 && line.trim_end().ends_with('"');
                let first = n > 1 && name(&params[n - 1]) && params[n - 1].contains('=') && !params[1..n - 1].iter().any(|p| name(&p.to_ascii_lowercase()));
                let cur = params.last_mut().unwrap();
                if first && only && !cur.trim_end().ends_with('=') {
                    return Err(true);
                }
                if n == 1 || !cur.trim_end().ends_with('=') || cur.matches('=').count() != 1 {
                    return Err(false);
                }
                cur.push('"');
                loop {
                    i += 1;
                    if i >= v.len() {
                        return Err(first);
                    }
                    cur.push(v[i]);
                    if v[i] == '"' {
                        break;
                    }
                    if v[i] == '\\' {
                        i += 1;
                        if i >= v.len() {
                            return Err(first);
                        }
                        cur.push(v[i]);
                    }
                }
                let mut j = i + 1;
                while j < v.len() && matches!(v[j], ' ' | '\t') {
                    j += 1;
                }
                if j < v.len() && !matches!(v[j], ',' | ';') {
                    return Err(first && !v[j..].contains(&'"'));
                }
            }
            c => params.last_mut().unwrap().push(c),
        }
        i += 1;
    }
    Ok(out)
}

fn element(parts: &[String]) -> Vec<El<M>> {
    let name = ows(&parts[0]);
    if parts.len() == 1 && name.is_empty() {
        return vec![Skip];
    }
    if name.is_empty() {
        return vec![Bad];
    }
    let mut can_fail = !is_token(name);
    let mut cands = vec![M { name: name.into(), dur: None, desc: None }];
    for (n, p) in parts[1..].iter().enumerate() {
        let p = ows(p);
        if p.is_empty() {
            if n + 2 == parts.len() {
                return vec![Bad];
            }
            can_fail = true;
            continue;
        }
        let Some((k, v)) = p.split_once('=') else {
            return vec![Bad];
        };
        let (k, v) = (ows(k), ows(v));
        let quoted = v.starts_with('"');
        let mut text = String::new();
        if quoted {
            let mut it = v[1..v.len() - 1].chars();
            while let Some(c) = it.next() {
                text.push(if c == '\\' { it.next().unwrap() } else { c });
            }
            can_fail |= text.chars().any(|c| c.is_ascii_control() && c != '\t');
        } else {
            text = v.into();
        }
        // (a further occurrence is ignored, or an error where it is malformed)
        let exact = k == "dur" || k == "desc";
        let again = if k.eq_ignore_ascii_case("dur") {
            cands.iter().any(|c| c.dur.is_some())
        } else {
            cands.iter().any(|c| c.desc.is_some())
        };
        let old = cands.clone();
        let mut open = false;
        if k.eq_ignore_ascii_case("dur") {
            match duration(&text) {
                Dur::Is(d) => {
                    let plain = text.bytes().all(|b| b.is_ascii_digit() || b == b'.') && !text.starts_with('.') && !text.ends_with('.');
                    can_fail |= quoted || !plain;
                    cands.iter_mut().for_each(|c| c.dur = c.dur.or(Some(d)));
                }
                Dur::Reject if exact && !again => return vec![Bad],
                Dur::Reject => can_fail = true,
                Dur::Open => {
                    open = true;
                    can_fail = true;
                }
            }
        } else if k.eq_ignore_ascii_case("desc") {
            if !quoted && !is_token(&text) {
                can_fail = true;
            }
            cands.iter_mut().for_each(|c| c.desc = c.desc.clone().or(Some(text.clone())));
        } else if !is_token(k) {
            can_fail = true;
        }
        if open {
            // some duration
            cands.iter_mut().for_each(|c| c.dur = Some(D { ps: 0, tol: u128::MAX }));
        }
        if !exact && cands != old {
            cands.extend(old);
        }
    }
    let mut out: Vec<El<M>> = cands.into_iter().map(Is).collect();
    if can_fail {
        out.push(Bad);
    }
    out
}

fn st_read(h: &Headers) -> Result<Result<Vec<M>, u16>, Viol> {
    match no_panic(|| ServerTiming::from_headers(h)) {
        Ok(Ok(Some(mut c))) => {
            let v: Vec<M> = c.iter().map(view).collect();
            req_eq!(drained(c.iter())?.into_iter().map(view).collect::<Vec<_>>(), v, "list-iter", "{c:?}");
            req_eq!(drained(c.iter_mut())?.into_iter().map(|m| view(m)).collect::<Vec<_>>(), v, "list-iter", "{c:?}");
            req_eq!(drained((&c).into_iter())?.into_iter().map(view).collect::<Vec<_>>(), v, "list-iter", "{c:?}");
            req_eq!(drained((&mut c).into_iter())?.into_iter().map(|m| view(m)).collect::<Vec<_>>(), v, "list-iter", "{c:?}");
            req_eq!(drained(c.into_iter())?.iter().map(view).collect::<Vec<_>>(), v, "list-iter", "into_iter");
            Ok(Ok(v))
        }
        Ok(Ok(None)) => viol("timing-absent", "present Server-Timing reads as absent"),
        Ok(Err(e)) => Ok(Err(e.status() as u16)),
        Err(p) => viol("timing-panic", format!("{:?}: {p}", lines(h, "server-timing"))),
    }
}

fn st_check(ch: &mut Ch, ls: &[String]) -> R {
    ch.note(|| format!("server-timing: {ls:?}"));
    let res = response("server-timing", ls);
    let got = st_read(hdrs(&res))?;
    ch.step();
    let mut els = vec![];
    for l in ls {
        match cut(l) {
            Ok(es) => els.extend(es.iter().map(|e| element(e))),
            Err(true) if ls.len() == 1 => {
                req_eq!(got, Err(400), "timing-accepts", "Server-Timing {ls:?}");
                return Ok(());
            }
            Err(_) => {
                req!(!matches!(got, Err(c) if c != 400), "timing-status", "Server-Timing {ls:?}: {got:?}");
                return Ok(());
            }
        }
    }
    req!(admits(&els, &got), "timing-parse", "Server-Timing {ls:?} reads {got:?}, expected one of {els:?}");
    Ok(())
}

crate::listed!(
    ServerTiming, Metric, "server-timing", &["a", "a;dur=1.5, b;desc=\"x, y\""],
    vec![Metric::new("a".into(), None, None).unwrap(), Metric::new("b".into(), Some(Duration::from_millis(7)), Some("c;d".into())).unwrap()],
    |e: &Metric| format!("{:?}", (e.name(), e.duration(), e.description())), |_: &ServerTiming| None, |_: &mut ServerTiming, _| ()
);

pub fn build_c29(s: &mut Suite, thorough: bool) {
    super::edits::edits::<ServerTiming>(s, "history", if thorough { 5 } else { 4 });
    s.bound("lines of at most 6 (thorough 7) of 11 tokens, and of at most 3 parameters out of 32 forms with 4 separators; every sequence of up to 3 lines out of 8; durations: every millisecond and microsecond count to 100000, all powers of two and ten and their neighbours in nanoseconds; descriptions of up to 2 printable characters and up to 5 of 6 special ones; lists of up to 3 metrics");
    s.assume("a metric's name is a token; durations are below 2^64 ms, read to within a nanosecond and the precision of a double, and exactly below 1000 s; undecided: parameter names in other cases, quoted or exponential numbers, quotes inside of tokens");
    let n = if thorough { 7 } else { 6 };
    s.add("tokens", move |ch| {
        let t = tokens(ch, &["db", ";", "dur", "=", "desc", "1.5", ",", " ", "\"", "\\", "x"], n);
        st_check(ch, &[t])
    });
    s.add("parameters", |ch| {
        const P: &[&str] = &[
            "dur=1", "dur = 2.25", "dur=-1", "dur=nan", "dur=inf", "dur=1e400", "dur=1e3", "dur=", "dur", "dur=x", "dur=\"3\"", "dur=18446744073709551616",
            "dur=1000000000000000000000000", "desc=a", "desc=\"a, b; c=d\"", "desc=\"\"", "desc=\"q\\\"\\\\\"", "desc=a b", "desc=\"open", "desc = \"e\" ", "desc=a=b",
            "x=1", "x=\"dur=5;dur=6,y\"", "Desc=f", "", "=1", "dur*=7", "xdur=8", "durx=9", "desc*=g", "xdesc=h", "d=i",
            "description=j", "duration=9", "du=9", "des=k", "dur_=9", "dur=2.4ms", "dur=1s", "dur=1,5", "dur=1_000", "dur=0x1", "dur=1 2", "dur=-0.0001", "dur=-1e-9", "dur=0", "dur=0.0", "dur=1e-9", "desc=n\"", "desc=\"o\"p q", "desc='l'", "desc=\"m\"n",
        ];
        let k = ch.choose(4);
        let sep = *ch.pick(&[";", "; ", " ;", " ; "]);
        let mut t = String::from(*ch.pick(&["db", "", "a b"]));
        for _ in 0..k {
            t.push_str(sep);
            t.push_str(ch.pick(P));
        }
        t.push_str(*ch.pick(&["", ", app;dur=4", ",", ";"]));
        st_check(ch, &[t])
    });
    s.add("lines", |ch| {
        const L: &[&str] = &["", "db", "db;dur=53, app;dur=47.2", "a;desc=\"x,y\" , b", " , ", "bad;", "c;dur=1;dur=2;desc=u;desc=v", "\td\t"];
        let ls: Vec<String> = ch.seq(L, 3).iter().map(|s| s.to_string()).collect();
        if ls.is_empty() {
            req!(matches!(ServerTiming::from_headers(Response::new(200)), Ok(None)), "timing-absent", "absent Server-Timing");
            return Ok(());
        }
        st_check(ch, &ls)
    });
    fn round_trip(ch: &mut Ch, ms: Vec<(String, Option<Duration>, Option<String>)>) -> R {
        let mut t = ServerTiming::new();
        let mut model = vec![];
        for (n, du, de) in ms {
            let m = match Metric::new(n.clone(), du, de.clone()) {
                Ok(m) => m,
                Err(e) => return viol("metric-new", format!("{n:?} {du:?} {de:?}: {e}")),
            };
            req_eq!((m.name(), m.duration(), m.description()), (&n, du, de.as_deref()), "metric-new", "accessors");
            // the single metric as a header value
            let hv: HeaderValue = m.clone().into();
            let res = res_with(&[("server-timing", hv.as_str())]);
            let dur = du.map(|d| {
                let ps = d.as_nanos() * 1000;
                D { ps, tol: if d.as_secs() < 1000 { 0 } else { 1000 + (ps >> 48) } }
            });
            let want = M { name: n, dur, desc: de };
            req_eq!(st_read(hdrs(&res))?, Ok(vec![want.clone()]), "timing-round-trip", "{:?}", hv.as_str());
            model.push(want);
            t.push(m);
            ch.step();
        }
        ch.note(|| format!("{:?}", t.header_value()));
        let res = applied(&t, "server-timing")?;
        let text = t.header_value().as_str().to_string();
        req_eq!(st_read(hdrs(&res))?, Ok(model.clone()), "timing-round-trip", "{text:?}");
        // and an independent reader agrees
        let els: Vec<_> = match cut(&text) {
            Ok(es) => es.iter().map(|e| element(e)).collect(),
            Err(_) => return viol("timing-write", format!("{model:?} is written {text:?}")),
        };
        req!(admits(&els, &Ok(model.clone())), "timing-write", "{model:?} is written {text:?}");
        Ok(())
    }
    let m = if thorough { 1000 } else { 100 };
    s.add("durations", move |ch| {
        let base = ch.choose(m) as u64 * 1000;
        for n in base..base + 1000 {
            for d in [Duration::from_millis(n), Duration::from_micros(n), Duration::from_nanos(n), Duration::new(n % 1000, 999_999_999 - n as u32)] {
                round_trip(ch, vec![("m".into(), Some(d), None)])?;
            }
        }
        Ok(())
    });
    s.add("large-durations", |ch| {
        let base = if ch.flag() { 1u128 << ch.choose(80) } else { 10u128.pow(ch.choose(24) as u32) };
        let ns = match ch.choose(4) {
            0 => base,
            1 => base - 1,
            2 => base + 1,
            _ => base * 3,
        };
        let secs = ns / 1_000_000_000;
        if secs >= 1 << 54 {
            return Ok(());
        }
        let d = Duration::new(secs as u64, (ns % 1_000_000_000) as u32);
        round_trip(ch, vec![("m".into(), Some(d), Some("x".into()))])
    });
    s.add("descriptions", |ch| {
        let d: String = if ch.flag() {
            let k = ch.choose(3);
            (0..k).map(|_| (0x20 + ch.choose(95) as u8) as char).collect()
        } else {
            tokens(ch, &["\"", "\\", ",", ";", "=", "a"], 5)
        };
        ch.state(&d);
        round_trip(ch, vec![("m".into(), None, Some(d.clone())), ("n".into(), Some(Duration::from_millis(2)), Some(d))])
    });
    let large = if thorough { 2000 } else { 300 };
    s.bound(&format!("lists of up to {large} metrics over one, two or as many lines; names, descriptions and numbers of up to {large} characters; up to {large} parameters"));
    s.add("scale", move |ch| {
        let n = 1 + ch.choose(large);
        match ch.choose(4) {
            0 => {
                let els: Vec<String> = (0..n)
                    .map(|i| [format!("m{i}"), format!("m;dur={i}.5"), format!("n{i};desc=\"d, {i}\""), format!("o;desc=d{i};dur=1")][i % 4].clone())
                    .collect();
                let ls = spread(ch, &els, ", ");
                st_check(ch, &ls)
            }
            1 => round_trip(
                ch,
                (0..n).map(|i| (format!("m{i}"), (i % 2 == 0).then(|| Duration::from_micros(i as u64 * 1001)), (i % 3 == 0).then(|| format!("d,;{i}")))).collect(),
            ),
            2 => {
                let x = *ch.pick(&["a", "\"", "\\", ", "]);
                round_trip(ch, vec![("n".repeat(n), Some(Duration::from_millis(1)), Some(x.repeat(n)))])
            }
            _ => {
                st_check(ch, &[format!("m{};desc=z;dur=7", (0..n).map(|i| format!(";x{i}=\"dur={i},\"")).collect::<String>())])?;
                st_check(ch, &[format!("m;dur={:0>n$}.{:0<n$}", 1, 5)])
            }
        }
    });
    s.add("lists", |ch| {
        let k = ch.choose(4);
        let ms = (0..k)
            .map(|_| {
                let n = *ch.pick(&["a", "B-1", "dur", "a-", "-", "!#$%&'*+.^_`|~9"]);
                let du = *ch.pick(&[None, Some(Duration::ZERO), Some(Duration::from_micros(47200))]);
                let de = *ch.pick(&[None, Some(""), Some("x, y"), Some("dur=1")]);
                (n.to_string(), du, de.map(String::from))
            })
            .collect();
        round_trip(ch, ms)
    });
    s.add("non-ascii", |ch| {
        let (n, d) = (*ch.pick(&["a", "é", "\u{80}", "a\u{1f600}"]), *ch.pick(&[None, Some("a"), Some("ü"), Some("\u{80}")]));
        ch.step();
        let ok = n.is_ascii() && d.map_or(true, |d| d.is_ascii());
        req_eq!(Metric::new(n.into(), None, d.map(String::from)).is_ok(), ok, "metric-new", "{n:?} {d:?}");
        Ok(())
    });
}
