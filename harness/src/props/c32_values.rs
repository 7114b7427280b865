//! C32 headers holding one URL, C33 Content-Length, Content-Type and Expect.
use crate::engine::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::content::{ContentLength, ContentLocation, ContentType};
use http_types::headers::{Header, Headers};
use http_types::mime::{self, Mime};
use http_types::other::{Expect, Referer, SourceMap};
use http_types::{Response, Url};
use std::fmt::Debug;
use std::str::FromStr;

type Read = fn(Result<Url, &str>, &Headers) -> http_types::Result<Option<Url>>;
type Write = fn(&Url, &Url) -> Result<Response, Viol>;

struct Kind {
    name: &'static str,
    read: Read,
    /// write the second URL, which replaced the first one
    write: Write,
    /// the status of malformed values
    code: u16,
}

macro_rules! read {
    ($T:ty) => {
        |base, h| match base {
            Ok(u) => <$T>::from_headers(u, h).map(|o| o.map(|l| l.location().clone())),
            Err(s) => <$T>::from_headers(s, h).map(|o| o.map(|l| l.location().clone())),
        }
    };
}
macro_rules! fallible {
    ($T:ty, $n:literal) => {
        |a, b| {
            let mut l = <$T>::new(a.clone());
            req_eq!(l.location(), a, "url-new", "new");
            req!(l.set_location("no url").is_err(), "url-set", "an invalid location is accepted");
            req_eq!(l.location(), a, "url-set", "after a failed set_location");
            match l.set_location(b.as_str()) {
                Ok(()) => {}
                Err(e) => return viol("url-set", format!("{b}: {e}")),
            }
            req_eq!(l.location(), b, "url-set", "set_location");
            l.set_location(a.clone()).unwrap();
            l.set_location(b.clone()).unwrap();
            req_eq!(l.location(), b, "url-set", "set_location");
            req_eq!(l.header_value().as_str(), b.as_str(), "url-write", "{l:?}");
            applied(&l, $n)
        }
    };
}

const KINDS: &[Kind] = &[
    Kind { name: "referer", read: read!(Referer), write: fallible!(Referer, "referer"), code: 500 },
    Kind { name: "sourcemap", read: read!(SourceMap), write: fallible!(SourceMap, "sourcemap"), code: 500 },
    Kind {
        name: "content-location",
        read: read!(ContentLocation),
        write: |a, b| {
            let mut l = ContentLocation::new(a.clone());
            req_eq!(l.location(), a, "url-new", "new");
            l.set_location(b.as_str());
            req_eq!(l.location(), b, "url-set", "set_location");
            l.set_location(a.clone());
            l.set_location(b.clone());
            req_eq!(l.location(), b, "url-set", "set_location");
            req_eq!(l.header_value().as_str(), b.as_str(), "url-write", "{l:?}");
            applied(&l, "content-location")
        },
        code: 400,
    },
];

fn last_read(k: &Kind, base: &str, ls: &[String]) -> Result<Result<Option<Url>, u16>, Viol> {
    let res = response(k.name, ls);
    let mut out: Option<Result<Option<Url>, u16>> = None;
    // the base as text or as URL
    for b in [Err(base), Url::parse(base).map_err(|_| base)] {
        match no_panic(|| (k.read)(b, hdrs(&res))) {
            Ok(g) => {
                let g = g.map_err(|e| e.status() as u16);
                req!(out.is_none() || out.as_ref() == Some(&g), "url-base", "{} {ls:?} against {base:?}: {g:?} and {out:?}", k.name);
                out = Some(g);
            }
            Err(p) => return viol("url-panic", format!("{} {ls:?} against {base:?}: {p}", k.name)),
        }
    }
    Ok(out.unwrap())
}

fn url_check(ch: &mut Ch, k: &Kind, base: &str, ls: &[String]) -> R {
    ch.note(|| format!("{}: {ls:?} base {base:?}", k.name));
    let got = last_read(k, base, ls)?;
    ch.step();
    let Some(l) = ls.last() else {
        req_eq!(got, Ok(None), "url-absent", "{} absent", k.name);
        return Ok(());
    };
    let absolute = Url::parse(l);
    match Url::parse(base) {
        Err(_) => {
            // without a base an absolute URL may still be read
            match (&got, absolute) {
                (Ok(Some(u)), Ok(a)) => req_eq!(*u, a, "url-read", "{} {ls:?} against {base:?}", k.name),
                (g, _) => req_eq!(*g, Err(k.code), "url-base-status", "{} {ls:?} against {base:?}", k.name),
            }
        }
        Ok(b) => match b.join(l) {
            // `https:x` is relative to an https base by the URL standard, and absolute without one
            Ok(u) => req!(
                got == Ok(Some(u.clone())) || (matches!(&absolute, Ok(a) if *a != u) && k.code == 500 && got == Ok(Some(absolute.clone().unwrap()))),
                "url-read",
                "{} {ls:?} against {base:?} reads {got:?}, expected {u}",
                k.name
            ),
            Err(_) => req_eq!(got, Err(k.code), "url-status", "{} {ls:?} against {base:?}", k.name),
        },
    }
    Ok(())
}

pub fn build_c32(s: &mut Suite, thorough: bool) {
    s.bound("three headers, values of at most 5 (thorough 6) of 14 tokens against 4 bases, every single-character edit of three values, all sequences of up to 3 lines against 6 bases of which two are invalid, all pairs of 20 locations written");
    s.assume("URL parsing and resolution are those of the url crate; a scheme-relative special URL (`https:x`) may be read with or without the base; whether an invalid base matters for an absolute Content-Location is open; a malformed Referer or SourceMap is a status 500, as the crate's tests demand");
    let n = if thorough { 6 } else { 5 };
    const BASES: &[&str] = &["https://base.example/dir/page?q#f", "http://[::1]:8080/", "mailto:a@b", "data:,x", "", "no base"];
    s.add("tokens", move |ch| {
        let k = &KINDS[ch.choose(3)];
        let base = BASES[ch.choose(4)];
        let t = tokens(ch, &["https:", "/", "a", ".", "?", "#", "%2", ":", "@", "80", "[", " ", "htt:", "\\"], n);
        url_check(ch, k, base, &[t])
    });
    s.add("edits", |ch| {
        let k = &KINDS[ch.choose(3)];
        let t = *ch.pick(&["https://u:p@host.example:81/a/../b?c=d#e", "../x/./y?z", "//other.example/p"]);
        let mut v = t.as_bytes().to_vec();
        let pos = ch.choose(v.len() + 1);
        let c = ch.choose(128) as u8;
        match ch.choose(3) {
            0 if pos < v.len() => v[pos] = c,
            1 if pos < v.len() => drop(v.remove(pos)),
            _ => v.insert(pos, c),
        }
        url_check(ch, k, BASES[0], &[String::from_utf8(v).unwrap()])
    });
    s.add("lines", |ch| {
        let k = &KINDS[ch.choose(3)];
        let base = BASES[ch.choose(6)];
        let ls = ch.seq(&["https://a.example/x", "/rel", "", "htt://<bad>", "?q", " /sp "], 3);
        let ls: Vec<String> = ls.iter().map(|s| s.to_string()).collect();
        url_check(ch, k, base, &ls)
    });
    let large = if thorough { 9000 } else { 2000 };
    s.bound(&format!("URLs of up to {large} characters or path segments, and up to 300 lines"));
    s.add("scale", move |ch| {
        let k = &KINDS[ch.choose(3)];
        let base = BASES[ch.choose(2)];
        let n = *ch.pick(&sizes(40, large));
        let ls = match ch.choose(4) {
            0 => vec![format!("https://h.example/{}", "a".repeat(n))],
            1 => vec![format!("../{}?q", "b/../c/".repeat(n))],
            2 => vec![format!("{}#{}", "%20".repeat(n), "f".repeat(n))],
            _ => (0..=n.min(300)).map(|i| format!("/p{i}")).collect(),
        };
        url_check(ch, k, base, &ls)
    });
    s.add("write", |ch| {
        const U: &[&str] = &[
            "https://a.example", "http://b.example:8080/x?y=1#z", "https://[::1]/", "data:text/plain,a b", "https://user:pw@c.example/;p", "file:///x/../y", "http://d/%ff?\u{fc}#\u{fc}",
            "https://xn--bcher-kva.example/", "https://b\u{fc}cher.example/\u{1f600}", "mailto:x@y", "https://e/?a=b&c=%26", "urn:a:b", "https://f/?", "https://g/#", "https://h/?#", "foo://bar", "foo:", "foo://u@bar:1?q", "ws://i//", "https://j/a//b/./c/",
        ];
        let k = &KINDS[ch.choose(3)];
        let a = Url::parse(ch.pick(U)).unwrap();
        let b = Url::parse(ch.pick(U)).unwrap();
        let res = (k.write)(&a, &b)?;
        ch.step();
        for base in &BASES[..4] {
            let ls = lines(hdrs(&res), k.name).unwrap();
            req_eq!(last_read(k, base, &ls)?, Ok(Some(b.clone())), "url-round-trip", "{ls:?}");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

fn read<T: Debug, V: Debug>(h: &Headers, name: &str, f: impl Fn(&Headers) -> http_types::Result<Option<T>>, v: impl Fn(T) -> V) -> Result<Option<Result<V, u16>>, Viol> {
    match no_panic(|| f(h)) {
        Ok(Ok(Some(t))) => Ok(Some(Ok(v(t)))),
        Ok(Ok(None)) => Ok(None),
        Ok(Err(e)) => Ok(Some(Err(e.status() as u16))),
        Err(p) => viol("value-panic", format!("{:?}: {p}", lines(h, name))),
    }
}

fn length_check(ch: &mut Ch, ls: &[String]) -> R {
    ch.note(|| format!("content-length: {ls:?}"));
    let res = response("content-length", ls);
    let got = read(hdrs(&res), "content-length", |h| ContentLength::from_headers(h), |l| l.len())?;
    ch.step();
    let want = ls.last().map(|l| {
        let t = ows(l);
        match t.is_empty() || t.bytes().any(|b| !b.is_ascii_digit()) {
            true => Err(400),
            false => t.parse::<u64>().map_err(|_| 400),
        }
    });
    if ls.last().map_or(false, |l| ows(l) != l.trim()) {
        // other whitespace than of HTTP
        req!(got == want || matches!(got, Some(Ok(n)) if ls.last().unwrap().trim().parse() == Ok(n)), "length-read", "Content-Length {ls:?} reads {got:?}");
        return Ok(());
    }
    req_eq!(got, want, "length-read", "Content-Length {ls:?}");
    Ok(())
}

fn type_view(t: ContentType) -> (String, bool) {
    let text = t.header_value().as_str().to_string();
    let same = Mime::from_str(&text).map(|m| t == m && t == &m).unwrap_or(false);
    (text, same)
}

fn type_check(ch: &mut Ch, ls: &[String]) -> R {
    ch.note(|| format!("content-type: {ls:?}"));
    let res = response("content-type", ls);
    let got = read(hdrs(&res), "content-type", |h| ContentType::from_headers(h), type_view)?;
    ch.step();
    let want = ls.last().map(|l| no_panic(|| Mime::from_str(l)).ok().and_then(|m| m.ok()).map(|m| (m.to_string(), true)).ok_or(400u16));
    req_eq!(got, want, "type-read", "Content-Type {ls:?}");
    Ok(())
}

fn expect_check(ch: &mut Ch, ls: &[String]) -> R {
    ch.note(|| format!("expect: {ls:?}"));
    let res = response("expect", ls);
    let got = read(hdrs(&res), "expect", |h| Expect::from_headers(h), |e| e == Expect::new())?;
    ch.step();
    let want = ls.last().map(|l| if l.eq_ignore_ascii_case("100-continue") { Ok(true) } else { Err(400) });
    // surrounding whitespace may be ignored
    let spaced = ls.last().map_or(false, |l| l.trim() != l && l.trim().eq_ignore_ascii_case("100-continue"));
    req!(got == want || (spaced && got == Some(Ok(true))), "expect-read", "Expect {ls:?} reads {got:?}, expected {want:?}");
    Ok(())
}

pub fn build_c33(s: &mut Suite, thorough: bool) {
    s.bound("Content-Length: values of at most 6 (thorough 7) of 9 tokens, all numbers to 100000, all powers of two and ten and their neighbours; Content-Type: values of at most 5 (6) of 11 tokens and every constant; Expect: all strings of two edits; all sequences of up to 3 lines of each");
    s.assume("that a text is a media type is decided by Mime::from_str, which C18 checks; vertical whitespace and whitespace around the value of Expect are open");
    let n = if thorough { 7 } else { 6 };
    s.add("length-tokens", move |ch| {
        let t = tokens(ch, &["0", "9", "18446744073709551615", "1", "+", "-", " ", ".", "\t"], n);
        length_check(ch, &[t])
    });
    s.add("length-write", |ch| {
        let v = match ch.choose(3) {
            0 => ch.choose(100_001) as u128,
            1 => (1u128 << ch.choose(65)) + ch.choose(3) as u128 - 1,
            _ => 10u128.pow(ch.choose(20) as u32) + ch.choose(3) as u128 - 1,
        };
        length_check(ch, &[v.to_string()])?;
        let Ok(v) = u64::try_from(v) else { return Ok(()) };
        let mut l = ContentLength::new(v);
        req_eq!(l.len(), v, "length-new", "{l:?}");
        l.set_len(!v);
        req_eq!(l.len(), !v, "length-new", "{l:?}");
        l.set_len(v);
        let res = applied(&l, "content-length")?;
        req_eq!(lines(hdrs(&res), "content-length"), Some(vec![v.to_string()]), "length-write", "{l:?}");
        req_eq!(read(hdrs(&res), "", |h| ContentLength::from_headers(h), |l| l.len())?, Some(Ok(v)), "length-round-trip", "{l:?}");
        Ok(())
    });
    s.bound("22 malformed lengths and 24 other expectations");
    s.add("malformed", |ch| {
        const L: &[&str] = &["5,6", "5, 6", "5,5", "12;x", "12;", "12=", "0x1f", "1e3", "1_000", "1'000", "12.0", "12 bytes", "\"12\"", "(12)", "12\u{a0}", "\u{665}", "12b", "ff", "chunked", "-0", "+0", "18446744073709551617"];
        const E: &[&str] = &[
            "100", "continue", "100continue", "100 continue", "100_continue", "100-continue;x", "100-continue; q=1", "100-continue=1", "100-continue, x", "x, 100-continue", "200-ok", "1100-continue", "100-continues", "0100-continue",
            "\"100-continue\"", "100--continue", "-continue", "100-", "*", "none", "100\u{2010}continue", "expect", "101-continue", "100-cont",
        ];
        let (ls, exp) = if ch.flag() { (L, false) } else { (E, true) };
        let t = *ch.pick(ls);
        if !t.is_ascii() {
            // no header value at all
            let mut res = Response::new(200);
            req!(res.insert_header("content-length", t).is_err(), "value-ascii", "{t:?}");
            return Ok(());
        }
        // alone, and after a well-formed line
        for ls in [vec![t.to_string()], vec![if exp { "100-continue" } else { "12" }.to_string(), t.to_string()]] {
            match exp {
                true => expect_check(ch, &ls)?,
                false => length_check(ch, &ls)?,
            }
        }
        Ok(())
    });
    s.add("lines", |ch| {
        let k = ch.choose(3);
        let ls = match k {
            0 => ch.seq(&["12", " 7 ", "", "x", "007", "-1"], 3),
            1 => ch.seq(&["text/html", "text/plain; charset=utf-8", "", "x", "a/b;c=\"d, e\""], 3),
            _ => ch.seq(&["100-continue", "100-Continue", "", "101", "100-continue,100-continue"], 3),
        };
        let ls: Vec<String> = ls.iter().map(|s| s.to_string()).collect();
        match k {
            0 => length_check(ch, &ls),
            1 => type_check(ch, &ls),
            _ => expect_check(ch, &ls),
        }
    });
    let n = n - 1;
    s.add("type-tokens", move |ch| {
        let t = tokens(ch, &["text", "/", "*", "; ", "charset", "=", "UTF-8", "\"", "\\", " ", "<"], n);
        type_check(ch, &[t])
    });
    s.add("type-write", |ch| {
        let consts = [
            mime::JAVASCRIPT, mime::CSS, mime::HTML, mime::PLAIN, mime::XML, mime::ANY, mime::JSON, mime::SVG, mime::PNG, mime::JPEG, mime::SSE, mime::BYTE_STREAM, mime::FORM, mime::MULTIPART_FORM, mime::WASM,
        ];
        let m: Mime = if ch.flag() {
            consts[ch.choose(consts.len())].clone()
        } else {
            Mime::from_str(ch.pick(&[
                "a/b", "text/html; a=b; c=\"d e\"", "*/*", "x/*; q=\"\\\"\"", "multipart/form-data;boundary=----WebKitFormBoundary7MA4YWxkTrZu0gW", "multipart/mixed; boundary=\"a, b\"", "text/plain; charset=us-ascii",
                "text/html;charset=ISO-8859-1", "application/json;charset=utf-8", "application/problem+json", "application/vnd.api+json; version=1", "text/plain;format=flowed;delsp=yes", "image/svg+xml;charset=utf-8", "text/event-stream;charset=utf-8", "application/octet-stream; name=x",
                "multipart/byteranges;boundary=THIS", "application/x-www-form-urlencoded;charset=utf-8", "message/http;version=1.1;msgtype=request",
                "a/b;c=d;e=f;g=h", "a/b;p1=1;p2=\"2 2\";p3=3;p4=;p5=\"\"", "multipart/related;type=\"application/xop+xml\";start=\"<r>\";boundary=\"uuid:x\";start-info=\"text/xml\"",
            ])).unwrap()
        };
        let t = match ch.choose(3) {
            0 => ContentType::new(m.clone()),
            1 => ContentType::new(m.to_string().as_str()),
            _ => m.clone().into(),
        };
        ch.step();
        req!(t == m && t == &m, "type-eq", "{t:?} and {m:?}");
        for c in &consts {
            req_eq!(t == *c, m == *c, "type-eq", "{t:?} and {c:?}");
        }
        req_eq!(t.header_value().as_str(), m.to_string(), "type-write", "{t:?}");
        let res = applied(&t, "content-type")?;
        req_eq!(read(hdrs(&res), "", |h| ContentType::from_headers(h), |t| t == m)?, Some(Ok(true)), "type-round-trip", "{t:?}");
        req_eq!(res.content_type(), Some(m), "type-message", "{t:?}");
        Ok(())
    });
    s.add("expect", |ch| {
        let mut v = b"100-continue".to_vec();
        for _ in 0..2 {
            let pos = ch.choose(v.len() + 1);
            match ch.choose(4) {
                0 if pos < v.len() => v[pos] = *ch.pick(b"01C-u \t,;="),
                1 if pos < v.len() => drop(v.remove(pos)),
                2 => v.insert(pos, *ch.pick(b"01C-u \t,;=")),
                _ => v[..pos].make_ascii_uppercase(),
            }
        }
        let e = Expect::new();
        req_eq!(e.header_value().as_str(), "100-continue", "expect-write", "");
        let res = applied(&e, "expect")?;
        req_eq!(read(hdrs(&res), "expect", |h| Expect::from_headers(h), |x| x == e)?, Some(Ok(true)), "expect-round-trip", "");
        expect_check(ch, &[String::from_utf8(v).unwrap()])
    });
}
