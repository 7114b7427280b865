//! C15: conversions to and from the `http` crate lose nothing both sides can express.
use super::c12_tokens::{CODES, METHODS};
use crate::engine::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::headers::Headers;
use http_types::{Body, Method, Request, Response, StatusCode, Version};
use std::collections::BTreeMap;
use std::convert::{TryFrom, TryInto};

type Map = BTreeMap<String, Vec<String>>;
const NAMES: &[&str] = &["x-a", "X-B", "content-type"];
const VALUES: &[&str] = &["1", "", "text/css; q=\"a,b\""];
const VERSIONS: &[(Version, http::Version)] = &[
    (Version::Http1_1, http::Version::HTTP_11),
    (Version::Http0_9, http::Version::HTTP_09),
    (Version::Http1_0, http::Version::HTTP_10),
    (Version::Http2_0, http::Version::HTTP_2),
    (Version::Http3_0, http::Version::HTTP_3),
];

fn of_headers(h: &Headers) -> Map {
    h.iter()
        .map(|(n, v)| (n.as_str().to_string(), v.iter().map(|v| v.as_str().to_string()).collect()))
        .collect()
}
fn empty_headers() -> Headers {
    AsRef::<Headers>::as_ref(&Response::new(200)).clone()
}
fn of_map(h: &http::HeaderMap) -> Map {
    let mut m = Map::new();
    for (n, v) in h.iter() {
        m.entry(n.as_str().to_string()).or_default().push(v.to_str().unwrap().to_string());
    }
    m
}
fn lines(ch: &mut Ch, max: usize) -> Vec<(&'static str, &'static str)> {
    let n = ch.choose(max + 1);
    (0..n)
        .map(|_| {
            let n = *ch.pick(NAMES);
            (n, *ch.pick(VALUES))
        })
        .collect()
}
fn model(ls: &[(&str, &str)]) -> Map {
    let mut m = Map::new();
    for (n, v) in ls {
        m.entry(n.to_ascii_lowercase()).or_default().push(v.to_string());
    }
    m
}
fn hmap(ls: &[(&'static str, &'static str)]) -> http::HeaderMap {
    let mut m = http::HeaderMap::new();
    for (n, v) in ls {
        m.append(http::header::HeaderName::from_bytes(n.as_bytes()).unwrap(), http::HeaderValue::from_static(v));
    }
    m
}

const BODIES: &[&str] = &["empty", "string", "bytes", "json", "unnamed", "stream"];
fn body(k: &str) -> (Body, Option<&'static str>, &'static [u8]) {
    match k {
        "empty" => (Body::empty(), Some("application/octet-stream"), b""),
        "string" => (Body::from_string("hello".into()), Some("text/plain;charset=utf-8"), b"hello"),
        "unnamed" => {
            let mut b = Body::from("unnamed");
            b.set_mime(None);
            (b, None, b"unnamed")
        }
        "stream" => (
            Body::from_reader(futures_lite::io::Cursor::new("stream"), None),
            Some("application/octet-stream"),
            b"stream",
        ),
        "bytes" => (Body::from_bytes(b"\x00\xff".to_vec()), Some("application/octet-stream"), b"\x00\xff"),
        _ => (Body::from_json(&[1, 2]).unwrap(), Some("application/json"), b"[1,2]"),
    }
}
fn bytes_of(b: Body) -> Vec<u8> {
    run_future(b.into_bytes(), 50).unwrap().unwrap()
}

const URLS: &[&str] = &[
    "http://h.example/",
    "https://h.example:8443/a/b%20c?x=1&y=%41",
    "http://user:pw@h.example/",
    "http://[2001:db8::1]:81/p",
    "http://127.0.0.1/?",
    "https://h.example//a//b/./?x=//y&&z",
    "https://xn--bcher-kva.example/%C3%A9;p=1/../z",
];

pub fn build(s: &mut Suite, thorough: bool) {
    let depth = if thorough { 5 } else { 4 };
    s.bound("every sequence of up to 4 (thorough 5) header lines over 3 names x 3 values, both directions; requests and responses over all methods / all status codes x versions x 6 URLs x 4 bodies x up to 2 header lines; every byte 0..=255 as header value content; every Latin-1 character in path and query; unknown methods and status codes");
    s.add("headers", move |ch| {
        let ls = lines(ch, depth);
        let want = model(&ls);
        ch.note(|| format!("{ls:?}"));
        ch.step();
        ch.state(&want);
        let m = hmap(&ls);
        let h: Headers = match Headers::try_from(m.clone()) {
            Ok(h) => h,
            Err(e) => return viol("hyperium-headers", format!("HeaderMap {m:?} rejected: {e}")),
        };
        req_eq!(of_headers(&h), want, "hyperium-headers", "HeaderMap -> Headers");
        let mut h2 = empty_headers();
        for (n, v) in &ls {
            h2.append(*n, *v).unwrap();
        }
        req_eq!(of_headers(&h2), want, "hyperium-headers", "model");
        let back: http::HeaderMap = match h2.try_into() {
            Ok(h) => h,
            Err(e) => return viol("hyperium-headers", format!("Headers {want:?} rejected: {e}")),
        };
        req_eq!(of_map(&back), want, "hyperium-headers", "Headers -> HeaderMap");
        let again: http::HeaderMap = h.try_into().unwrap();
        req_eq!(of_map(&again), want, "hyperium-headers", "round trip");
        Ok(())
    });
    let large = if thorough { 5000 } else { 600 };
    s.bound(&format!("up to {large} header lines, over as many names, over one, and over seven; values as long"));
    s.add("scale", move |ch| {
        let n = *ch.pick(&sizes(70, large));
        let mode = ch.choose(5);
        let c = *ch.pick(CYCLES);
        let ls: Vec<(String, String)> = match mode {
            0 => (0..n).map(|i| (format!("x-n{i}"), format!("v{}", i % c))).collect(),
            1 => (0..n).map(|i| ("x-one".to_string(), format!("v{}", i % c))).collect(),
            3 if n < STANDARD.len() => vec![(STANDARD[n].into(), "1".into()), ("x".into(), "2".into()), (STANDARD[n].into(), format!("v{c}")), (STANDARD[n].into(), "1".into())],
            3 => STANDARD.iter().chain(STANDARD).map(|s| (s.to_string(), format!("v{n}"))).collect(),
            2 => (0..n).map(|i| (format!("x-n{}", i % 7), format!("v{}", i % c))).collect(),
            _ => vec![("x-long".into(), "v".repeat(n)), (format!("x-{}", "n".repeat(n)), "w".into())],
        };
        let mut want = Map::new();
        let mut m = http::HeaderMap::new();
        let mut h = empty_headers();
        for (n, v) in &ls {
            want.entry(n.clone()).or_default().push(v.clone());
            m.append(http::header::HeaderName::from_bytes(n.as_bytes()).unwrap(), http::HeaderValue::from_str(v).unwrap());
            h.append(n.as_str(), v.as_str()).unwrap();
        }
        ch.step();
        ch.note(|| format!("{n} lines, mode {mode}"));
        let mut rq = http::Request::builder().uri("http://h.example/").body(Body::empty()).unwrap();
        *rq.headers_mut() = m.clone();
        let mut rs = http::Response::new(Body::empty());
        *rs.headers_mut() = m.clone();
        for (what, r) in [
            ("HeaderMap", no_panic(|| Headers::try_from(m))),
            ("Request", no_panic(|| Request::try_from(rq).map(|r| AsRef::<Headers>::as_ref(&r).clone()))),
            ("Response", no_panic(|| Response::try_from(rs).map(|r| AsRef::<Headers>::as_ref(&r).clone()))),
        ] {
            match r {
                Ok(Ok(mut got)) => {
                    if what != "HeaderMap" && !want.contains_key("content-type") {
                        got.remove("content-type");
                    }
                    req_eq!(of_headers(&got), want, "hyperium-scale", "{what}, {n} lines");
                }
                o => return viol("hyperium-scale", format!("{what}, {n} lines: {:?}", o.map(|r| r.map_err(|e| e.to_string())))),
            }
        }
        let mut rq = Request::new(Method::Put, "http://h.example/");
        let mut rs = Response::new(200);
        for (n, v) in &ls {
            rq.append_header(n.as_str(), v.as_str()).unwrap();
            rs.append_header(n.as_str(), v.as_str()).unwrap();
        }
        let back = http::Request::<Body>::from(rq);
        req_eq!(of_map(back.headers()), want, "hyperium-scale", "Request -> http, {n} lines");
        let back = http::Response::<Body>::from(rs);
        let mut got = of_map(back.headers());
        if !want.contains_key("content-type") {
            got.remove("content-type");
        }
        req_eq!(got, want, "hyperium-scale", "Response -> http, {n} lines");
        let back: http::HeaderMap = h.try_into().unwrap();
        req_eq!(of_map(&back), want, "hyperium-scale", "Headers -> HeaderMap, {n} lines");
        Ok(())
    });
    s.bound("up to 4 header lines of which any are marked as sensitive");
    s.add("sensitive", |ch| {
        // the mark is an instruction for indexing; the line itself is one like any other
        let ls = lines(ch, 4);
        let want = model(&ls);
        let mut m = http::HeaderMap::new();
        let mut marks = vec![];
        for (n, v) in &ls {
            let mut v = http::HeaderValue::from_str(v).unwrap();
            let mark = ch.flag();
            v.set_sensitive(mark);
            marks.push(mark);
            m.append(http::header::HeaderName::from_bytes(n.to_ascii_lowercase().as_bytes()).unwrap(), v);
        }
        ch.step();
        ch.state(&(&want, &marks));
        ch.note(|| format!("{ls:?} sensitive {marks:?}"));
        let mut rq = http::Request::builder().uri("http://h.example/").body(Body::empty()).unwrap();
        *rq.headers_mut() = m.clone();
        let mut rs = http::Response::new(Body::empty());
        *rs.headers_mut() = m.clone();
        let (rq, rs) = (Request::try_from(rq).unwrap(), Response::try_from(rs).unwrap());
        for (what, h) in [("HeaderMap", &Headers::try_from(m).unwrap()), ("Request", rq.as_ref()), ("Response", rs.as_ref())] {
            let mut got = of_headers(h);
            if what != "HeaderMap" && !want.contains_key("content-type") {
                got.remove("content-type");
            }
            req_eq!(got, want, "hyperium-headers", "{what}, {ls:?}, sensitive {marks:?}");
        }
        Ok(())
    });
    s.add("value-bytes", |ch| {
        let b = ch.choose(256) as u8;
        let at = ch.choose(3);
        let mut bytes = b"ab".to_vec();
        bytes.insert(at, b);
        ch.step();
        ch.state(&bytes);
        let Ok(v) = http::HeaderValue::from_bytes(&bytes) else { return Ok(()) };
        let mut m = http::HeaderMap::new();
        m.insert("x-v", v.clone());
        let mut rq = http::Request::builder().uri("http://h.example/").body(Body::empty()).unwrap();
        *rq.headers_mut() = m.clone();
        let mut rs = http::Response::new(Body::empty());
        *rs.headers_mut() = m.clone();
        for (what, r) in [
            ("HeaderMap", no_panic(|| Headers::try_from(m))),
            ("Request", no_panic(|| Request::try_from(rq).map(|r| AsRef::<Headers>::as_ref(&r).clone()))),
            ("Response", no_panic(|| Response::try_from(rs).map(|r| AsRef::<Headers>::as_ref(&r).clone()))),
        ] {
            let r = match r {
                Ok(r) => r,
                Err(p) => return viol("hyperium-value", format!("{what} with value {bytes:?}: {p}")),
            };
            if b < 0x80 {
                let h = r.map_err(|e| Viol { key: "hyperium-value".into(), msg: format!("{bytes:?} rejected: {e}") })?;
                req_eq!(h["x-v"].last().as_str().as_bytes(), &bytes[..], "hyperium-value", "{what}");
                let v2 = http::HeaderValue::try_from(h["x-v"].last().clone()).unwrap();
                req_eq!(v2, v, "hyperium-value", "{what} back");
            } else {
                req!(r.is_err(), "hyperium-value", "{what}: non-ASCII value {bytes:?} accepted");
            }
        }
        Ok(())
    });
    s.add("reject-unrepresentable-headers", |ch| {
        // http-types allows any ASCII; the fallible conversion must report what hyperium cannot hold
        let b = ch.choose(128) as u8;
        let as_name = ch.flag();
        let b2 = b as char;
        let t = match ch.choose(4) {
            0 => format!("a{b2}b"),
            1 => format!("{b2}ab"),
            2 => format!("ab{b2}"),
            _ => b2.to_string(),
        };
        let mut h = empty_headers();
        if as_name {
            h.insert(t.as_str(), "v").unwrap();
        } else {
            h.insert("x", t.as_str()).unwrap();
        }
        ch.step();
        ch.state(&(&t, as_name));
        let ok = if as_name {
            http::header::HeaderName::from_bytes(t.as_bytes()).is_ok()
        } else {
            http::HeaderValue::from_bytes(t.as_bytes()).is_ok()
        };
        match no_panic(|| http::HeaderMap::try_from(h.clone())) {
            Err(p) => viol("hyperium-reject", format!("{t:?}: {p}")),
            Ok(r) => {
                req_eq!(r.is_ok(), ok, "hyperium-reject", "Headers with {t:?} (name: {as_name}) accepted");
                if let Ok(m) = r {
                    req_eq!(of_map(&m), of_headers(&h), "hyperium-headers", "{t:?}");
                }
                Ok(())
            }
        }
    });
    s.add("request-to-hyperium", |ch| {
        let (m, name) = *ch.pick(METHODS);
        let v = ch.choose(VERSIONS.len() + 1);
        let url = *ch.pick(URLS);
        let (b, mime, data) = body(ch.pick(BODIES));
        let (hs, has_body) = (lines(ch, if name.len() < 5 { 2 } else { 1 }), ch.flag());
        let mut r = Request::new(m, url);
        for (n, v) in &hs {
            r.append_header(*n, *v).unwrap();
        }
        let mut want = model(&hs);
        if has_body {
            r.set_body(b);
            if let (Some(m), false) = (mime, want.contains_key("content-type")) {
                want.insert("content-type".into(), vec![m.into()]);
            }
        }
        if v > 0 {
            r.set_version(Some(VERSIONS[v - 1].0));
        }
        let href = r.url().as_str().to_string();
        ch.step();
        ch.note(|| format!("{name} {url} {hs:?} version {v}"));
        let h: http::Request<Body> = r.into();
        req_eq!(h.method().as_str(), name, "hyperium-request", "method");
        req_eq!(h.uri().to_string(), href, "hyperium-request", "uri");
        let hv = if v > 0 { VERSIONS[v - 1].1 } else { http::Version::HTTP_11 };
        req_eq!(h.version(), hv, "hyperium-request", "version");
        req_eq!(of_map(h.headers()), want, "hyperium-request", "headers");
        ch.state(&(name, url, v, &want));
        // and back again
        let back = Request::try_from(h).unwrap();
        req_eq!(back.method(), m, "hyperium-request", "method back");
        req_eq!(back.url().as_str(), href, "hyperium-request", "url back");
        if v > 0 {
            req_eq!(back.version(), Some(VERSIONS[v - 1].0), "hyperium-request", "version back");
        }
        let got = of_headers(back.as_ref());
        if has_body || want.contains_key("content-type") {
            req_eq!(got, want, "hyperium-request", "headers back");
        }
        let mut back = back;
        req_eq!(bytes_of(back.take_body()), if has_body { data.to_vec() } else { vec![] }, "hyperium-request", "body");
        Ok(())
    });
    s.add("request-from-hyperium", |ch| {
        let (m, name) = *ch.pick(METHODS);
        let v = ch.pick(VERSIONS);
        let url = *ch.pick(&URLS[..3]);
        let (b, mime, data) = body(ch.pick(BODIES));
        let hs = lines(ch, if name.len() < 5 { 2 } else { 1 });
        let mut want = model(&hs);
        let mut h = http::Request::new(b);
        *h.method_mut() = http::Method::from_bytes(name.as_bytes()).unwrap();
        *h.version_mut() = v.1;
        *h.uri_mut() = url.parse().unwrap();
        *h.headers_mut() = hmap(&hs);
        ch.step();
        ch.note(|| format!("{name} {url} {hs:?} {v:?}"));
        let mut r = Request::try_from(h).unwrap();
        req_eq!(r.method(), m, "hyperium-request", "method");
        req_eq!(r.version(), Some(v.0), "hyperium-request", "version");
        req_eq!(r.url().as_str(), http_types::Url::parse(url).unwrap().as_str(), "hyperium-request", "url");
        if let (Some(m), false) = (mime, want.contains_key("content-type")) {
            want.insert("content-type".into(), vec![m.into()]);
        }
        req_eq!(of_headers(r.as_ref()), want, "hyperium-request", "headers");
        req_eq!(r.len(), if data == b"stream" { None } else { Some(data.len() as u64) }, "hyperium-request", "declared length");
        req_eq!(bytes_of(r.take_body()), data.to_vec(), "hyperium-request", "body");
        ch.state(&(name, url, &want));
        Ok(())
    });
    s.add("response-both-ways", |ch| {
        let c = ch.pick(CODES);
        let v = ch.choose(VERSIONS.len() + 1);
        let (b, mime, data) = body(ch.pick(BODIES));
        let hs = lines(ch, if c.1 < 205 { 2 } else { 1 });
        let from = ch.flag();
        let mut want = model(&hs);
        ch.step();
        ch.note(|| format!("{} {hs:?} version {v} from-hyperium {from}", c.1));
        if let (Some(m), false) = (mime, want.contains_key("content-type")) {
            want.insert("content-type".into(), vec![m.into()]);
        }
        ch.state(&(c.1, v, &want));
        let (mut r, hv) = if from {
            let mut h = http::Response::new(b);
            *h.status_mut() = http::StatusCode::from_u16(c.1).unwrap();
            if v > 0 {
                *h.version_mut() = VERSIONS[v - 1].1;
            }
            *h.headers_mut() = hmap(&hs);
            let hv = h.version();
            (Response::try_from(h).unwrap(), Some(hv))
        } else {
            let mut r = Response::new(c.0);
            for (n, v) in &hs {
                r.append_header(*n, *v).unwrap();
            }
            r.set_body(b);
            if v > 0 {
                r.set_version(Some(VERSIONS[v - 1].0));
            }
            let h: http::Response<Body> = r.into();
            req_eq!(h.status().as_u16(), c.1, "hyperium-response", "status");
            if v > 0 {
                req_eq!(h.version(), VERSIONS[v - 1].1, "hyperium-response", "version");
            }
            req_eq!(of_map(h.headers()), want, "hyperium-response", "headers");
            let hv = h.version();
            (Response::try_from(h).unwrap(), Some(hv))
        };
        req_eq!(r.status(), c.0, "hyperium-response", "status back");
        let wv = VERSIONS.iter().find(|x| Some(x.1) == hv).map(|x| x.0);
        req_eq!(r.version(), wv, "hyperium-response", "version back");
        req_eq!(of_headers(r.as_ref()), want, "hyperium-response", "headers back");
        req_eq!(bytes_of(r.take_body()), data.to_vec(), "hyperium-response", "body");
        Ok(())
    });
    s.add("standard-headers", |ch| {
        // every standard name, with one value, two, and an empty one, on requests of every method and
        // responses of every status code, with and without a body, both ways
        let name = *ch.pick(STANDARD);
        let vals = *ch.pick(&[&["v"] as &[&str], &["1", "a, b"], &["", " "]]);
        let (b, mime, data) = body(ch.pick(&["empty", "string", "unnamed", "stream"]));
        let mut want = Map::new();
        want.insert(name.to_string(), vals.iter().map(|v| v.to_string()).collect());
        let k = ch.choose(METHODS.len() + CODES.len());
        ch.step();
        ch.note(|| format!("{name}: {vals:?}, body {:?}, {k}", String::from_utf8_lossy(data)));
        let mut hm = http::HeaderMap::new();
        for v in vals {
            hm.append(http::header::HeaderName::from_bytes(name.as_bytes()).unwrap(), http::HeaderValue::from_static(v));
        }
        let mut with_mime = want.clone();
        if let (Some(m), false) = (mime, want.contains_key("content-type")) {
            with_mime.insert("content-type".into(), vec![m.into()]);
        }
        ch.state(&(k, &with_mime));
        if k < METHODS.len() {
            let (m, mname) = METHODS[k];
            let mut h = http::Request::new(b);
            *h.method_mut() = http::Method::from_bytes(mname.as_bytes()).unwrap();
            *h.uri_mut() = "http://h.example/".parse().unwrap();
            *h.headers_mut() = hm;
            let r = Request::try_from(h).unwrap();
            req_eq!(r.method(), m, "hyperium-request", "method");
            req_eq!(of_headers(r.as_ref()), with_mime, "hyperium-request", "headers");
            let h: http::Request<Body> = r.into();
            req_eq!(of_map(h.headers()), with_mime, "hyperium-request", "headers back");
            req_eq!(h.method().as_str(), mname, "hyperium-request", "method back");
            req_eq!(bytes_of(h.into_body()), data.to_vec(), "hyperium-request", "body");
        } else {
            let c = CODES[k - METHODS.len()];
            let mut h = http::Response::new(b);
            *h.status_mut() = http::StatusCode::from_u16(c.1).unwrap();
            *h.headers_mut() = hm;
            let r = Response::try_from(h).unwrap();
            req_eq!(r.status(), c.0, "hyperium-response", "status");
            req_eq!(of_headers(r.as_ref()), with_mime, "hyperium-response", "headers");
            let h: http::Response<Body> = r.into();
            req_eq!(of_map(h.headers()), with_mime, "hyperium-response", "headers back");
            req_eq!(h.status().as_u16(), c.1, "hyperium-response", "status back");
            req_eq!(bytes_of(h.into_body()), data.to_vec(), "hyperium-response", "body");
        }
        Ok(())
    });
    s.add("body-keeps-its-description", |ch| {
        // the body that travels along keeps its media type and its length
        let kind = *ch.pick(BODIES);
        let (b, mime, data) = body(kind);
        let (resp, from) = (ch.flag(), ch.flag());
        // the header is taken out, which the body is not told by
        let gone = !from && ch.flag();
        ch.step();
        ch.state(&(kind, resp, from, gone));
        let len = if kind == "stream" { None } else { Some(data.len() as u64) };
        let got = match (resp, from) {
            (false, false) => {
                let mut r = Request::new(Method::Post, "http://h.example/");
                r.set_body(b);
                if gone {
                    r.remove_header("content-type");
                }
                http::Request::<Body>::from(r).into_body()
            }
            (false, true) => {
                let h = http::Request::builder().uri("http://h.example/").body(b).unwrap();
                Request::try_from(h).unwrap().take_body()
            }
            (true, false) => {
                let mut r = Response::new(200);
                r.set_body(b);
                if gone {
                    r.remove_header("content-type");
                }
                http::Response::<Body>::from(r).into_body()
            }
            _ => Response::try_from(http::Response::new(b)).unwrap().take_body(),
        };
        req_eq!(got.mime().map(|m| m.to_string()), mime.map(|m| m.to_string()), "hyperium-body", "{kind}: media type (response {resp}, from {from})");
        req_eq!(got.len(), len, "hyperium-body", "{kind}: length (response {resp}, from {from})");
        req_eq!(bytes_of(got), data.to_vec(), "hyperium-body", "{kind}: content (response {resp}, from {from})");
        Ok(())
    });
    s.add("url-characters", |ch| {
        // every Latin-1 character in the path and in the query
        let c = ch.choose(256) as u8 as char;
        let u = if ch.flag() { format!("http://h.example/a{c}b") } else { format!("http://h.example/p?a{c}b") };
        ch.step();
        ch.state(&u);
        let Ok(u) = http_types::Url::parse(&u) else { return Ok(()) };
        let r = Request::new(Method::Get, u.clone());
        let h: http::Request<Body> = r.into();
        req_eq!(h.uri().to_string(), u.as_str().split('#').next().unwrap(), "hyperium-request", "uri of {u}");
        let back = Request::try_from(h).unwrap();
        req_eq!(back.url().as_str(), u.as_str().split('#').next().unwrap(), "hyperium-request", "url back");
        Ok(())
    });
    s.bound("URLs over 5 schemes x 5 user infos x 7 hosts x 4 ports x 9 paths x 7 queries, both directions; request targets that are no URL");
    s.add("url-parts", |ch| {
        let scheme = *ch.pick(&["http", "https", "ws", "x+y-z.1", "ftp"]);
        let user = *ch.pick(&["", "u@", "u:p@", ":p@", "a%40b:c%3Ad@"]);
        let host = *ch.pick(&["h.example", "127.0.0.1", "[::1]", "[2001:db8::a:0:1]", "a_b", "xn--9ca", "localhost."]);
        let port = *ch.pick(&["", ":1", ":80", ":65535"]);
        let path = *ch.pick(&["/", "/a", "/a/", "//a//", "/a;b=c,d:e@f!$&'()*+~", "/%2F%00%ff", "/a|b", "/..%2f", "/*"]);
        let query = *ch.pick(&["", "?", "?a=b&a=c", "?/?:@", "?a+b%20c", "?%26=%3D", "?[]={}|"]);
        let u = format!("{scheme}://{user}{host}{port}{path}{query}");
        ch.step();
        ch.state(&u);
        let u = http_types::Url::parse(&u).unwrap();
        let h = match no_panic(|| http::Request::<Body>::from(Request::new(Method::Get, u.clone()))) {
            Ok(h) => h,
            Err(p) => return viol("hyperium-request", format!("{u}: {p}")),
        };
        req_eq!(h.uri().to_string(), u.as_str(), "hyperium-request", "uri of {u}");
        let back = Request::try_from(h).unwrap();
        req_eq!(back.url(), &u, "hyperium-request", "url back");
        Ok(())
    });
    s.add("targets", |ch| {
        // what an http request can carry as its target: only an absolute URL is one
        let t = *ch.pick(&["/", "/p?q", "*", "h.example", "h.example:80", "[::1]:80", "//h/p", "http://h.example", "http://h.example?q", "HTTP://H.Example/P", "http://h.example:80/", "http://h.example/a/../b", "x://y"]);
        let Ok(uri) = t.parse::<http::Uri>() else { return Ok(()) };
        ch.step();
        ch.state(&t);
        let text = uri.to_string();
        let mut h = http::Request::new(Body::empty());
        *h.uri_mut() = uri;
        match (no_panic(|| Request::try_from(h)), http_types::Url::parse(&text)) {
            (Err(p), _) => viol("hyperium-request", format!("target {t}: {p}")),
            (Ok(Ok(r)), Ok(u)) => {
                req_eq!(r.url(), &u, "hyperium-request", "target {t}");
                Ok(())
            }
            (Ok(r), u) => {
                req_eq!(r.is_ok(), u.is_ok(), "hyperium-request", "target {t} accepted");
                Ok(())
            }
        }
    });
    s.add("scalars", |ch| {
        ch.step();
        match ch.choose(3) {
            0 => {
                let (m, name) = *ch.pick(METHODS);
                let h: http::Method = m.into();
                req_eq!(h.as_str(), name, "hyperium-method", "to");
                req_eq!(Method::from(h), m, "hyperium-method", "back");
                ch.state(&name);
            }
            1 => {
                let c = ch.pick(CODES);
                let h: http::StatusCode = c.0.into();
                req_eq!(h.as_u16(), c.1, "hyperium-status", "to");
                req_eq!(StatusCode::from(h), c.0, "hyperium-status", "back");
                ch.state(&c.1);
            }
            _ => {
                let v = *ch.pick(VERSIONS);
                req_eq!(http::Version::from(v.0), v.1, "hyperium-version", "to");
                req_eq!(Version::from(v.1), v.0, "hyperium-version", "from");
                ch.state(&v.0.as_ref());
            }
        }
        Ok(())
    });
    s.add("unknown-codes-and-methods", |ch| {
        // what http-types cannot represent is an error of the fallible conversion, not a panic
        ch.step();
        if ch.flag() {
            let n = 100 + ch.choose(900) as u16;
            ch.state(&n);
            let mut h = http::Response::new(Body::empty());
            *h.status_mut() = http::StatusCode::from_u16(n).unwrap();
            match no_panic(|| Response::try_from(h)) {
                Err(p) => return viol("hyperium-unknown", format!("status {n}: {p}")),
                Ok(r) => {
                    req_eq!(r.is_ok(), CODES.iter().any(|c| c.1 == n), "hyperium-unknown", "status {n} accepted");
                    if let Ok(r) = r {
                        req!(r.status() == n, "hyperium-response", "status {n} became {}", r.status());
                    }
                }
            }
        } else {
            let m = *ch.pick(&["FOO", "GETS", "M-SEARCH", "PURGE", "X", "!"]);
            ch.state(&m);
            let mut h = http::Request::new(Body::empty());
            *h.method_mut() = http::Method::from_bytes(m.as_bytes()).unwrap();
            *h.uri_mut() = "http://h.example/".parse().unwrap();
            match no_panic(|| Request::try_from(h)) {
                Err(p) => return viol("hyperium-unknown", format!("method {m}: {p}")),
                Ok(r) => req!(r.is_err(), "hyperium-unknown", "method {m} accepted"),
            }
        }
        Ok(())
    });
    s.bound("the infallible conversions of values the other side cannot hold: unknown method and status, URLs without authority or over 64 KiB, header names that are no tokens, header values with control characters, in requests and responses");
    s.add("infallible-unrepresentable", |ch| {
        // the keys name the case, so that the recorded findings cover exactly their inputs
        let what = *ch.pick(&["method", "status", "url-opaque", "url-no-host", "url-long", "request-name", "request-value", "response-name", "response-value"]);
        ch.step();
        ch.state(&what);
        let r = no_panic(|| {
            let mut rq = Request::new(Method::Get, "http://h.example/");
            let mut rs = Response::new(200);
            match what {
                "method" => return format!("{:?}", Method::from(http::Method::from_bytes(b"FOO").unwrap())),
                "status" => return format!("{:?}", StatusCode::from(http::StatusCode::from_u16(299).unwrap())),
                "url-opaque" => rq = Request::new(Method::Get, "data:text/plain,x"),
                "url-no-host" => rq = Request::new(Method::Get, "file:///p"),
                "url-long" => rq = Request::new(Method::Get, format!("http://h.example/{}", "p".repeat(1 << 16)).as_str()),
                "request-name" => drop(rq.insert_header("a b", "v")),
                "request-value" => drop(rq.insert_header("x", "a\nb")),
                "response-name" => drop(rs.insert_header("a b", "v")),
                _ => drop(rs.insert_header("x", "a\nb")),
            }
            if what.starts_with("response") {
                format!("{:?}", http::Response::<Body>::from(rs).headers())
            } else {
                format!("{:?}", http::Request::<Body>::from(rq).headers())
            }
        });
        match r {
            Err(p) => viol(&format!("hyperium-infallible:{what}"), format!("{what}: {p}")),
            Ok(_) => Ok(()),
        }
    });
}
