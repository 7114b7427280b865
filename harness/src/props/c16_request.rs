//! C16: where a request came from and which host it is for.  C17: query strings.
use crate::engine::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::{Method, Request, Url};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// (text of the pair, parameter name, value)
const PAIRS: &[(&str, &str, &str)] = &[
    ("for=192.0.2.1", "for", "192.0.2.1"),
    ("host=h1.example", "host", "h1.example"),
    ("proto=https", "proto", "https"),
    ("For=\"[2001:db8::1]:4711\"", "for", "[2001:db8::1]:4711"),
    ("HOST=\"h2.example:8080\"", "host", "h2.example:8080"),
    ("by=\"for=evil;host=evil, for=evil\"", "by", ""),
    ("ext=\"a\\\";host=evil\"", "ext", ""),
    ("forx=evil", "forx", ""),
    ("hash=evil", "hash", ""),
    ("fur=evil", "fur", ""),
    ("fOR=unknown", "for", "unknown"),
];
const SEPS: &[&str] = &[";", ",", ", "];

fn forwarded(ch: &mut Ch, max: usize) -> Option<(String, Option<&'static str>, Option<&'static str>)> {
    let n = ch.choose(max + 1);
    if n == 0 {
        return None;
    }
    let mut s = String::new();
    let (mut f, mut h) = (None, None);
    for i in 0..n {
        if i > 0 {
            s.push_str(ch.pick(SEPS));
        }
        let p = ch.pick(PAIRS);
        s.push_str(p.0);
        match p.1 {
            "for" => f = f.or(Some(p.2)),
            "host" => h = h.or(Some(p.2)),
            _ => {}
        }
    }
    Some((s, f, h))
}

const X: &[&[&str]] = &[&[], &["x1.example"], &["x1.example,x2.example"], &["x1.example, x2.example", "x3.example"]];

pub fn build_c16(s: &mut Suite, thorough: bool) {
    let n = if thorough { 4 } else { 3 };
    s.bound("every Forwarded line of up to 3 (thorough 4) parameters from 11 shapes joined by ';' ',' ', ' x 4 X-Forwarded shapes x Host header x URL with domain / address / no host x peer address; arbitrary Forwarded text of up to 5 tokens for totality");
    s.assume("the Forwarded header is one line following the RFC 7239 grammar, without escaped characters in the asked-for value; surrounding spaces of an X-Forwarded list entry are not decided");
    s.add("remote-and-host", move |ch| {
        let fw = forwarded(ch, n);
        let x = ch.pick(X);
        let short = fw.is_none();
        // a further line counts after the first
        let more = fw.as_ref().map_or(false, |f| f.1.is_some() && f.2.is_some()) && ch.flag();
        let host_header = ch.flag();
        let url = if short { *ch.pick(&["https://url.example:99/p", "https://[::1]/", "x:", "unix:/run/x", "http://192.0.2.9/"]) } else { *ch.pick(&["https://url.example/p", "x:"]) };
        let peer = ch.flag();
        let mut r = Request::new(Method::Get, Url::parse(url).unwrap());
        if let Some((t, _, _)) = &fw {
            r.insert_header("Forwarded", t.as_str()).unwrap();
        }
        if more {
            r.append_header("forwarded", "for=later;host=later").unwrap();
        }
        for l in x.iter() {
            r.append_header("x-forwarded-for", *l).unwrap();
            r.append_header("X-Forwarded-Host", *l).unwrap();
        }
        if host_header {
            r.insert_header("host", "hh.example:1").unwrap();
        }
        if peer {
            r.set_peer_addr(Some("203.0.113.7:1234"));
            r.set_local_addr(Some("10.0.0.1:80"));
        }
        ch.step();
        ch.note(|| format!("forwarded {fw:?} x {x:?} host {host_header} url {url} peer {peer}"));
        let xf = x.first().map(|_| "x1.example");
        let url_host = match url {
            "https://[::1]/" => Some("[::1]"),
            "http://192.0.2.9/" => Some("192.0.2.9"),
            "x:" | "unix:/run/x" => None,
            _ => Some("url.example"),
        };
        let remote = fw.as_ref().and_then(|f| f.1).or(xf).or(if peer { Some("203.0.113.7:1234") } else { None });
        let host = fw.as_ref().and_then(|f| f.2).or(xf).or(if host_header { Some("hh.example:1") } else { None }).or(url_host);
        ch.state(&(remote, host));
        req_eq!(r.remote().map(str::trim), remote, "request-remote", "remote() with Forwarded {fw:?}, X-Forwarded-For {x:?}, peer {peer}");
        req_eq!(r.host().map(str::trim), host, "request-host", "host() with Forwarded {fw:?}, X-Forwarded-Host {x:?}, Host {host_header}, url {url}");
        req_eq!(r.peer_addr(), if peer { Some("203.0.113.7:1234") } else { None }, "request-addr", "peer_addr()");
        req_eq!(r.local_addr(), if peer { Some("10.0.0.1:80") } else { None }, "request-addr", "local_addr()");
        let c = r.clone();
        req_eq!((c.remote(), c.host()), (r.remote(), r.host()), "request-clone", "clone");
        if peer {
            r.set_peer_addr(None::<String>);
            r.set_local_addr(None::<String>);
            req_eq!((r.peer_addr(), r.local_addr()), (None, None), "request-addr", "cleared addresses");
            let remote = fw.as_ref().and_then(|f| f.1).or(xf);
            req_eq!(r.remote().map(str::trim), remote, "request-remote", "remote() after clearing the peer address");
        }
        Ok(())
    });
    s.bound("every asked-for value of up to 4 pieces out of 9 (escaped quotes and backslashes, separators, equals signs, blanks), plain or quoted, between other parameters, with every blank around it");
    s.add("values", |ch| {
        // The value is given as written between the quotes, or with its escapes undone.
        let quoted = ch.flag();
        let pieces: &[(&str, &str)] = if quoted {
            &[("\\\"", "\""), ("\\\\", "\\"), (";", ";"), (",", ","), ("=", "="), (" ", " "), ("host=evil", "host=evil"), ("for=evil", "for=evil"), ("v", "v")]
        } else {
            &[("v", "v"), ("=", "="), ("[", "["), (":", ":"), ("_", "_"), ("%20", "%20"), ("'", "'")]
        };
        let v: Vec<(&str, &str)> = ch.seq(pieces, 4);
        let raw: String = v.iter().map(|p| p.0).collect();
        let plain: String = v.iter().map(|p| p.1).collect();
        if raw.is_empty() || (!quoted && raw.starts_with('=')) {
            return Ok(());
        }
        let q = if quoted { "\"" } else { "" };
        let first = ch.flag();
        let (before, after) = *ch.pick(&[("", ""), (" ", " "), ("\t", "\t"), ("proto=http;", ";by=x"), ("by=\"\\\\\", ", " ,by=\"\\\"\"")]);
        let (a, b) = if first { ("for", "host") } else { ("host", "for") };
        let t = format!("{before}{a}={q}{raw}{q}{after};{b}=other");
        let mut r = new_req();
        r.insert_header("forwarded", t.as_str()).unwrap();
        ch.step();
        ch.note(|| t.clone());
        ch.state(&t);
        let (x, y) = if first { (r.remote(), r.host()) } else { (r.host(), r.remote()) };
        req!(x == Some(raw.as_str()) || x == Some(plain.as_str()), "request-value", "{a} of Forwarded: {t:?} is {x:?}");
        req_eq!(y, Some("other"), "request-value", "{b} of Forwarded: {t:?}");
        Ok(())
    });
    s.bound("every source alone with 16 texts: addresses with ports, IPv6, obfuscated and unknown nodes, trailing dots, upper case, empty ones; URLs with 12 hosts");
    s.add("sources", |ch| {
        const TEXTS: &[&str] = &[
            "h.example", "h.example:80", "h.example:443", "H.Example", "h.example.", "[2001:db8::1]", "[2001:db8::1]:80", "192.0.2.1:8080", "unknown", "_hidden", "_", "localhost", "::1", "xn--9ca", "a=b", "",
        ];
        let t = *ch.pick(TEXTS);
        let from = ch.choose(5);
        let (url, url_host) = *ch.pick(&[
            ("http://base.example/", Some("base.example")),
            ("https://base.example:443/x", Some("base.example")),
            ("http://BASE.Example:81/?q", Some("base.example")),
            ("http://u:p@base.example./", Some("base.example.")),
            ("http://[2001:DB8:0::1]:80/", Some("[2001:db8::1]")),
            ("http://192.0.2.9:9/", Some("192.0.2.9")),
            ("http://\u{e9}.example/", Some("xn--9ca.example")),
            ("x://A.b%20c/", Some("A.b%20c")),
            ("file:///p", None),
            ("mailto:a@b.c", None),
            ("x:/p", None),
            ("ws://localhost", Some("localhost")),
        ]);
        let mut r = Request::new(Method::Get, Url::parse(url).unwrap());
        // nothing but the text's own source is there, except that a lower one must not get in its way
        let lower = ch.flag();
        if lower && from < 3 {
            r.insert_header("host", "lower").unwrap();
            r.set_peer_addr(Some("lower"));
        }
        let lower = if lower { Some("lower") } else { None };
        let mut local = "";
        let (mut remote, mut host) = (lower.filter(|_| from < 3), lower.filter(|_| from < 3).or(url_host));
        match from {
            0 => {
                let plain = !t.is_empty() && !t.contains(|c| ":[]=".contains(c));
                let q = if plain && ch.flag() { "" } else { "\"" };
                r.insert_header("forwarded", format!("for={q}{t}{q};host={q}{t}{q}").as_str()).unwrap();
                remote = Some(t);
                host = Some(t);
            }
            1 => {
                r.insert_header("x-forwarded-for", t).unwrap();
                remote = Some(t);
            }
            2 => {
                r.insert_header("x-forwarded-host", t).unwrap();
                host = Some(t);
            }
            3 => {
                r.insert_header("Host", t).unwrap();
                host = Some(t);
            }
            _ => {
                r.set_peer_addr(Some(t));
                local = *ch.pick(&["local", t]);
                r.set_local_addr(Some(local));
                remote = Some(t);
            }
        }
        ch.step();
        ch.state(&(t, from, url, lower));
        if t.is_empty() && from < 3 {
            // an empty forwarding element is not decided
            return Ok(());
        }
        req_eq!(r.remote(), remote, "request-remote", "remote() with {t:?} from source {from}, lower {lower:?}");
        req_eq!(r.host(), host, "request-host", "host() with {t:?} from source {from}, lower {lower:?}, URL {url}");
        if from == 4 {
            req_eq!((r.peer_addr(), r.local_addr()), (Some(t), Some(local)), "request-addr", "addresses");
        }
        let c = r.clone();
        req_eq!((c.remote(), c.host(), c.peer_addr(), c.local_addr()), (remote, host, r.peer_addr(), r.local_addr()), "request-clone", "clone");
        Ok(())
    });
    s.add("independent-x-headers", |ch| {
        // X-Forwarded-For feeds only remote(), X-Forwarded-Host only host()
        let which = ch.choose(4);
        let mut r = new_req();
        for (i, n) in ["x-forwarded-for", "x-forwarded-host", "x-forwarded-by", "x-forwarded-proto"].iter().enumerate() {
            if i == which {
                r.insert_header(*n, "v.example").unwrap();
            }
        }
        ch.step();
        ch.state(&which);
        req_eq!(r.remote(), if which == 0 { Some("v.example") } else { None }, "request-remote", "remote()");
        req_eq!(r.host(), Some(if which == 1 { "v.example" } else { "base.example" }), "request-host", "host()");
        Ok(())
    });
    s.bound("lists of up to 1000 Forwarded elements with the asked-for one first, in the middle or last, and X-Forwarded lists as long; addresses of up to 1000 characters");
    s.add("scale", |ch| {
        let n = *ch.pick(&sizes(40, 1000));
        let at = *ch.pick(&[0, n / 2, n]);
        let sep = *ch.pick(SEPS);
        let long = "a".repeat(n);
        let mut els: Vec<String> = (0..n).map(|i| format!("ext{i}=\"for=evil{i},host=evil\"")).collect();
        let quoted = ch.flag();
        let q = if quoted { "\"" } else { "" };
        els.insert(at, format!("for={q}x{long}{q};host={q}h{long}{q}"));
        els.push("for=later;host=later".into());
        let mut r = new_req();
        if ch.flag() {
            r.insert_header("forwarded", els.join(sep).as_str()).unwrap();
        } else {
            let l: Vec<String> = (0..=n).map(|i| format!("y{i}")).collect();
            r.insert_header("x-forwarded-for", format!("x{long}{}{}", if sep == ";" { "," } else { sep }, l.join(",")).as_str()).unwrap();
            r.insert_header("x-forwarded-host", format!("h{long},{}", l.join(",")).as_str()).unwrap();
        }
        r.set_peer_addr(Some("203.0.113.7:1234"));
        ch.step();
        req_eq!(r.remote(), Some(format!("x{long}").as_str()), "request-remote", "element {at} of {n}");
        req_eq!(r.host(), Some(format!("h{long}").as_str()), "request-host", "element {at} of {n}");
        Ok(())
    });
    s.add("arbitrary-forwarded", |ch| {
        let t = tokens(ch, &["for=", "host=", "\"", "\\", ";", ",", "=", "a", " "], 5);
        let mut r = new_req();
        r.insert_header("forwarded", t.as_str()).unwrap();
        ch.step();
        ch.state(&t);
        let (a, b) = match no_panic(|| (r.remote().map(String::from), r.host().map(String::from))) {
            Ok(x) => x,
            Err(p) => return viol("request-panic", format!("Forwarded: {t:?}: {p}")),
        };
        if !t.contains("for=") {
            req_eq!(a, None, "request-remote", "remote() with Forwarded: {t:?}");
        }
        if !t.contains("host=") {
            req_eq!(b.as_deref(), Some("base.example"), "request-host", "host() with Forwarded: {t:?}");
        }
        Ok(())
    });
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Q {
    a: String,
    n: i64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    o: Option<String>,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct V {
    v: Vec<String>,
    k: u8,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct M {
    m: BTreeMap<String, String>,
    i: Inner,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Inner {
    b: bool,
    e: Kind,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Copy)]
enum Kind {
    One,
    Two,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Optional {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    a: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    old: Option<u8>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    list: Vec<Kind>,
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    map: BTreeMap<String, bool>,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Empty {}
#[derive(Deserialize, Debug, PartialEq)]
struct Opt {
    a: Option<String>,
    b: Option<u8>,
}

const URLS: &[&str] = &["https://q.example/p", "https://q.example/p?old=1&a=z#frag", "https://u:p@q.example:8/a/b?", "http://q.example", "http://q.example/#", "http://q.example/?#"];

fn round<T>(ch: &mut Ch, q: &T) -> R
where
    T: Serialize + for<'de> Deserialize<'de> + PartialEq + std::fmt::Debug,
{
    let u = Url::parse(ch.pick(URLS)).unwrap();
    let mut r = Request::new(Method::Get, u.clone());
    ch.step();
    ch.note(|| format!("{q:?} on {u}"));
    if let Err(e) = r.set_query(q) {
        return viol("query-set", format!("set_query({q:?}): {e}"));
    }
    let text = r.url().query().map(String::from);
    ch.state(&(&text, u.as_str()));
    let mut v = u.clone();
    v.set_query(text.as_deref());
    req_eq!(r.url(), &v, "query-url", "set_query changed more than the query of {u}");
    match r.query::<T>() {
        Ok(got) => req_eq!(&got, q, "query-round-trip", "query string {text:?}"),
        Err(e) => return viol("query-round-trip", format!("{q:?} was written as {text:?} and read back as {e}")),
    }
    // and over the wire
    let again = Request::new(Method::Get, Url::parse(r.url().as_str()).unwrap());
    match again.query::<T>() {
        Ok(got) => req_eq!(&got, q, "query-round-trip", "reparsed {}", again.url()),
        Err(e) => return viol("query-round-trip", format!("reparsed {}: {e}", again.url())),
    }
    Ok(())
}

pub fn build_c17(s: &mut Suite, thorough: bool) {
    s.assume("an optional field holding the empty string cannot be told from an absent one in a query string and is not decided; structures are serde_qs-representable");
    s.bound("every string of up to 2 (thorough 3) characters over 24 characters (reserved, percent, plus, space, brackets, quotes, non-ASCII, control) as value, in lists of up to 3 and as map keys; i64 boundaries; 4 URLs; every Latin-1 and selected other characters alone; malformed query strings of up to 4 tokens");
    const CS: &str = "a&=+% #?/;[]\"'\\<\u{e9}\u{20ac}\u{1f600}\n\0~.0";
    let n = if thorough { 3 } else { 2 };
    let text = move |ch: &mut Ch, n: usize| -> String {
        let cs: Vec<char> = CS.chars().collect();
        let k = ch.choose(n + 1);
        (0..k).map(|_| *ch.pick(&cs)).collect()
    };
    s.add("struct", move |ch| {
        let a = text(ch, n);
        let o = match ch.choose(4) {
            0 => None,
            1 if !a.is_empty() => Some(a.clone()),
            1 => None,
            2 => Some("x".into()),
            _ => Some("&n=5".into()),
        };
        let q = Q { a, n: *ch.pick(&[0, -1, 7, i64::MAX, i64::MIN]), o };
        round(ch, &q)
    });
    s.add("list", move |ch| {
        let k = 1 + ch.choose(3);
        let first = text(ch, n);
        let mut v = vec![first];
        for i in 1..k {
            v.push(["x", "", "&v[0]=y", "y z"][(ch.choose(2) + i) % 4].into());
        }
        let q = V { v, k: *ch.pick(&[0u8, 255]) };
        round(ch, &q)
    });
    s.add("long-list", |ch| {
        let k = 1 + ch.choose(300);
        let q = V { v: (0..k).map(|i| format!("e{i}")).collect(), k: 1 };
        round(ch, &q)
    });
    s.bound("structures of which any part, or everything, is absent");
    s.add("optional", move |ch| {
        let a = text(ch, n.min(2));
        let q = Optional {
            a: Some(a).filter(|a| !a.is_empty()),
            old: *ch.pick(&[None, Some(0), Some(255)]),
            list: ch.seq(&[Kind::One, Kind::Two], 2),
            map: (0..ch.choose(3)).map(|i| (format!("k{i}"), i == 0)).collect(),
        };
        round(ch, &q)
    });
    s.add("empty", |ch| match ch.choose(2) {
        0 => round(ch, &Empty {}),
        _ => round(ch, &BTreeMap::<String, String>::new()),
    });
    s.add("replaced", |ch| {
        // whatever was set before, the last one counts
        let all = [
            Optional { a: None, old: None, list: vec![], map: BTreeMap::new() },
            Optional { a: Some("x".into()), old: None, list: vec![Kind::Two], map: BTreeMap::new() },
            Optional { a: None, old: Some(3), list: vec![], map: vec![("k".to_string(), true)].into_iter().collect() },
        ];
        let mut r = Request::new(Method::Get, Url::parse(ch.pick(URLS)).unwrap());
        for q in ch.seq(&all, 4) {
            ch.step();
            r.set_query(&q).unwrap();
            match r.query::<Optional>() {
                Ok(got) => req_eq!(got, q, "query-round-trip", "{}", r.url()),
                Err(e) => return viol("query-round-trip", format!("{q:?} on {}: {e}", r.url())),
            }
        }
        Ok(())
    });
    s.bound("lists and maps of up to 300 entries, texts of up to 5000 characters");
    s.add("long-texts", |ch| {
        let n = *ch.pick(&sizes(40, 5000));
        let t = *ch.pick(&["x", "&", "%", "+", " ", "\u{e9}"]);
        let q = Q { a: t.repeat(n), n: 7, o: Some(format!("{}!", t.repeat(n))) };
        round(ch, &q)
    });
    s.add("long-maps", |ch| {
        let k = 1 + ch.choose(300);
        let m = (0..k).map(|i| (format!("k {i}"), format!("v&{i}"))).collect();
        let q = M { m, i: Inner { b: true, e: Kind::One } };
        round(ch, &q)
    });
    s.add("nested", move |ch| {
        let v = text(ch, n);
        let key = *ch.pick(&["k", "key with space", "%41", "\u{e9}", "a&b=c"]);
        let mut m = BTreeMap::new();
        m.insert(key.to_string(), v);
        if ch.flag() {
            m.insert("second".into(), "s".into());
        }
        let q = M { m, i: Inner { b: ch.flag(), e: *ch.pick(&[Kind::One, Kind::Two]) } };
        round(ch, &q)
    });
    s.add("characters", |ch| {
        let c = char::from_u32(ch.choose(0x180) as u32).unwrap();
        let q = Q { a: format!("x{c}y"), n: 1, o: Some(c.to_string()) };
        round(ch, &q)
    });
    s.bound("maps of up to two names of up to two characters each over the same 24, alone and within another map");
    s.assume("an empty name within a map has no spelling in a query string, and one that begins with a digit within a nested map is that of a list element: both are not decided");
    s.add("map-names", move |ch| {
        let (a, b) = (text(ch, 2), *ch.pick(&["", "b", "b[0]", "[b]", "?b", "a=b"]));
        if a.is_empty() {
            return Ok(());
        }
        let mut m = BTreeMap::new();
        m.insert(a, "v".to_string());
        if !b.is_empty() {
            m.insert(b.to_string(), "w=".into());
        }
        if ch.flag() || m.keys().any(|k| k.starts_with(|c: char| c.is_ascii_digit())) {
            round(ch, &m)
        } else {
            round(ch, &std::iter::once(("m".to_string(), m)).collect::<BTreeMap<_, _>>())
        }
    });
    s.bound("every query string of one parameter whose name is up to 3 pieces out of 13, with a neighbour or stray separators");
    s.add("read-name", |ch| {
        let v: Vec<(&str, &str)> = ch.seq(&[("x", "x"), ("?", "?"), ("%3D", "="), ("%26", "&"), ("+", " "), ("%20", " "), ("%2B", "+"), ("%25", "%"), ("/", "/"), ("%C3%A9", "\u{e9}"), ("%5B0%5D", "[0]"), (".", "."), (";", ";")], 3);
        let raw: String = v.iter().map(|p| p.0).collect();
        let name: String = v.iter().map(|p| p.1).collect();
        if raw.is_empty() {
            return Ok(());
        }
        let (before, after) = *ch.pick(&[("", ""), ("q=7&", ""), ("", "&q=7"), ("&", ""), ("", "&"), ("", "&&q=7")]);
        let (vraw, val) = *ch.pick(&[("=1", "1"), ("=", ""), ("", ""), ("==&", "="), ("=?#x", "?#x")]);
        let mut u = Url::parse(ch.pick(URLS)).unwrap();
        u.set_query(Some(&format!("{before}{raw}{vraw}{after}")));
        let r = Request::new(Method::Get, u);
        ch.step();
        ch.state(&r.url().as_str());
        let mut want = BTreeMap::new();
        want.insert(name, val.to_string());
        if before.len() + after.len() > 2 {
            want.insert("q".into(), "7".into());
        }
        match r.query::<BTreeMap<String, String>>() {
            Ok(got) => req_eq!(got, want, "query-read", "{}", r.url()),
            Err(e) => return viol("query-read", format!("{}: {e}", r.url())),
        }
        Ok(())
    });
    s.bound("every query string of one parameter whose value is up to 4 pieces out of 13; unfit values of up to 5000 characters");
    s.add("read-value", |ch| {
        let v: Vec<(&str, &str)> = ch.seq(&[("x", "x"), ("=", "="), ("%3D", "="), ("%26", "&"), ("+", " "), ("%20", " "), ("%2B", "+"), ("%25", "%"), ("?", "?"), ("/", "/"), ("%C3%A9", "\u{e9}"), ("%23", "#"), (";", ";")], 4);
        let raw: String = v.iter().map(|p| p.0).collect();
        let want: String = v.iter().map(|p| p.1).collect();
        if raw.is_empty() {
            return Ok(());
        }
        let (before, after, b) = *ch.pick(&[("", "", None), ("b=7&", "", Some(7)), ("", "&b=7", Some(7)), ("c=1&", "&d=2", None)]);
        let mut u = Url::parse(ch.pick(URLS)).unwrap();
        u.set_query(Some(&format!("{before}a={raw}{after}")));
        let r = Request::new(Method::Get, u);
        ch.step();
        ch.state(&r.url().as_str());
        match r.query::<Opt>() {
            Ok(got) => req_eq!(got, Opt { a: Some(want), b }, "query-read", "{}", r.url()),
            Err(e) => return viol("query-read", format!("{}: {e}", r.url())),
        }
        Ok(())
    });
    s.add("unfit", |ch| {
        let n = *ch.pick(&sizes(40, 5000));
        let mut u = Url::parse("https://q.example/p").unwrap();
        u.set_query(Some(&match ch.choose(3) {
            0 => format!("b={}", "9".repeat(n + 3)),
            1 => format!("a={}&b=q", "x".repeat(n)),
            _ => format!("{}b=-1", "c=1&".repeat(n)),
        }));
        let r = Request::new(Method::Get, u);
        ch.step();
        req_eq!(st(&r.query::<Opt>()), 400, "query-error", "status for an unfit query of {n} characters");
        req_eq!(st(&r.query::<Q>()), 400, "query-error", "status for a query of {n} characters with missing fields");
        Ok(())
    });
    s.add("read", |ch| {
        // a missing query is an empty one; what does not fit is a 400
        let t = tokens(ch, &["a=x", "b=7", "&", "b=300", "b=q", "a=%41", "a=+", "=", "c=1"], 3);
        let mut u = Url::parse("https://q.example/p").unwrap();
        let with = ch.flag();
        if with {
            u.set_query(Some(&t));
        }
        let r = Request::new(Method::Get, u);
        ch.step();
        ch.state(&(with, &t));
        let got = match no_panic(|| r.query::<Opt>().map_err(|e| e.status() as u16)) {
            Ok(g) => g,
            Err(p) => return viol("query-panic", format!("{t:?}: {p}")),
        };
        if let Err(code) = got {
            req_eq!(code, 400, "query-error", "status of the error for query {t:?}");
        }
        if !with || t.is_empty() {
            req_eq!(got, Ok(Opt { a: None, b: None }), "query-empty", "no query");
            let r: Result<Q, _> = r.query();
            match r {
                Ok(q) => return viol("query-error", format!("no query deserialized into {q:?}")),
                Err(e) => req_eq!(e.status() as u16, 400, "query-error", "status for missing fields"),
            }
            return Ok(());
        }
        let parts: Vec<&str> = t.split('&').filter(|p| !p.is_empty()).collect();
        let fits = |p: &str| matches!(p, "a=x" | "b=7" | "a=%41" | "a=+" | "c=1");
        let keys: Vec<&str> = parts.iter().map(|p| &p[..1]).collect();
        let distinct = ["a", "b", "c"].iter().all(|k| keys.iter().filter(|x| x == &k).count() <= 1);
        if parts.iter().all(|p| fits(p)) && distinct {
            let val = |k: &str| parts.iter().find(|p| p.starts_with(k)).map(|p| &p[2..]);
            let a = val("a").map(|v| match v {
                "%41" => "A".to_string(),
                "+" => " ".into(),
                v => v.into(),
            });
            req_eq!(got, Ok(Opt { a, b: val("b").map(|v| v.parse().unwrap()) }), "query-read", "query {t:?}");
        } else if distinct && parts.iter().any(|p| matches!(*p, "b=300" | "b=q")) && parts.iter().all(|p| fits(p) || matches!(*p, "b=300" | "b=q")) {
            req!(got.is_err(), "query-read", "query {t:?} gave {got:?}");
        }
        Ok(())
    });
}
