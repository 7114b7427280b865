//! C07: body and content type of a message.  C10: message head and clones.  C11: extensions.
use crate::engine::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::headers::CONTENT_TYPE;
use http_types::mime::{self, Mime};
use http_types::{Body, Extensions, Method, Request, Response, StatusCode, Url, Version};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct MBody {
    data: Vec<u8>,
    len: Option<u64>,
    mime: Option<String>,
}

enum Msg {
    Req(Request),
    Res(Response),
}
macro_rules! both {
    ($s:expr, $r:ident => $e:expr) => {
        match $s {
            Msg::Req($r) => $e,
            Msg::Res($r) => $e,
        }
    };
}

fn bodies(k: usize) -> (Body, MBody) {
    let mk = |d: &[u8], len: Option<u64>, m: Option<&str>| MBody {
        data: d.to_vec(),
        len,
        mime: m.map(|s| s.to_string()),
    };
    match k {
        0 => (Body::from("text"), mk(b"text", Some(4), Some("text/plain;charset=utf-8"))),
        1 => (Body::from(vec![1u8, 2]), mk(&[1, 2], Some(2), Some("application/octet-stream"))),
        2 => (Body::from_json(&7).unwrap(), mk(b"7", Some(1), Some("application/json"))),
        3 => {
            let mut b = Body::from("nomime");
            b.set_mime(None);
            (b, mk(b"nomime", Some(6), None))
        }
        4 => (
            Body::from_reader(futures_lite::io::Cursor::new("stream"), None),
            mk(b"stream", None, Some("application/octet-stream")),
        ),
        5 => {
            let mut b = Body::empty();
            b.set_mime(Some("text/html;charset=utf-8;a=1;b=\"2 3\"".into()));
            (b, mk(b"", Some(0), Some("text/html;charset=utf-8;a=1;b=\"2 3\"")))
        }
        _ => (
            Body::from_reader(futures_lite::io::Cursor::new("longer than said"), Some(6)),
            mk(b"longer", Some(6), Some("application/octet-stream")),
        ),
    }
}
fn empty() -> MBody {
    MBody {
        data: vec![],
        len: Some(0),
        mime: Some("application/octet-stream".into()),
    }
}

fn read_out(b: Body, want: &MBody, key: &str, what: &str) -> R {
    req_eq!(b.len(), want.len, key, "len() of {what}");
    req_eq!(b.is_empty(), want.len.map(|l| l == 0), key, "is_empty() of {what}");
    req_eq!(b.mime().map(|m| m.to_string()), want.mime.clone(), key, "mime() of {what}");
    let bytes = run_future(async move { b.into_bytes().await }, 20);
    match bytes {
        Some(Ok(v)) => {
            req_eq!(v, want.data, key, "content of {what}");
            Ok(())
        }
        o => viol(key, format!("reading {what}: {o:?}")),
    }
}

fn copy_ct(ct: &mut Option<Vec<String>>, b: &MBody) {
    if ct.is_none() {
        if let Some(m) = &b.mime {
            *ct = Some(vec![m.clone()]);
        }
    }
}

fn ct_parsed(ct: &Option<Vec<String>>) -> Option<Mime> {
    ct.as_ref().and_then(|v| v.last().unwrap().parse().ok())
}

fn run(ch: &mut Ch, depth: usize, nb: usize) -> R {
    let (mut m, mut cur, mut ct): (Msg, MBody, Option<Vec<String>>) = match ch.choose(2) {
        0 => (Msg::Req(new_req()), empty(), None),
        _ => (Msg::Res(Response::new(200)), empty(), None),
    };
    let steps = ch.choose(depth + 1);
    for _ in 0..steps {
        ch.step();
        let op = ch.choose(11);
        match op {
            0 => {
                let k = ch.choose(nb);
                ch.note(|| format!("set_body(#{k})"));
                let (b, mb) = bodies(k);
                both!(&mut m, r => r.set_body(b));
                cur = mb;
                copy_ct(&mut ct, &cur);
            }
            1 => {
                let k = ch.choose(nb);
                ch.note(|| format!("replace_body(#{k})"));
                let (b, mb) = bodies(k);
                let old = both!(&mut m, r => r.replace_body(b));
                read_out(old, &cur, "replace_body", "the body returned by replace_body")?;
                cur = mb;
                copy_ct(&mut ct, &cur);
            }
            2 => {
                let k = ch.choose(nb);
                ch.note(|| format!("swap_body(#{k})"));
                let (mut b, mb) = bodies(k);
                both!(&mut m, r => r.swap_body(&mut b));
                read_out(b, &cur, "swap_body", "the body swapped out")?;
                cur = mb;
                copy_ct(&mut ct, &cur);
            }
            3 => {
                ch.note(|| "take_body".into());
                let old = both!(&mut m, r => r.take_body());
                read_out(old, &cur, "take_body", "the body taken")?;
                cur = empty();
                copy_ct(&mut ct, &cur);
            }
            4 => {
                let k = ch.choose(2);
                let (mm, text) = [(mime::CSS, "text/css;charset=utf-8"), (mime::PNG, "image/png")][k].clone();
                ch.note(|| format!("set_content_type({text})"));
                let old = both!(&mut m, r => r.set_content_type(mm));
                req_eq!(old.map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>()), ct, "set_content_type", "previous value returned");
                ct = Some(vec![text.into()]);
            }
            5 => {
                ch.note(|| "remove content-type".into());
                let old = both!(&mut m, r => r.remove_header("Content-Type"));
                req_eq!(old.map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>()), ct, "remove_header", "previous value returned");
                ct = None;
            }
            6 => {
                let v = *ch.pick(&["text/x-a", "not a mime"]);
                ch.note(|| format!("append content-type {v:?}"));
                both!(&mut m, r => r.append_header(CONTENT_TYPE, v)).unwrap();
                ct.get_or_insert_with(Vec::new).push(v.into());
            }
            7 => {
                ch.note(|| "body_bytes".into());
                let got = both!(&mut m, r => run_future(async { r.body_bytes().await }, 20));
                req!(matches!(&got, Some(Ok(v)) if *v == cur.data), "body_bytes", "body_bytes gave {got:?}, expected {:?}", cur.data);
                cur = empty();
                copy_ct(&mut ct, &cur);
            }
            8 => {
                ch.note(|| "body_string".into());
                let got = both!(&mut m, r => run_future(async { r.body_string().await }, 20));
                let want = String::from_utf8(cur.data.clone()).ok();
                req!(matches!((&got, &want), (Some(Ok(v)), Some(w)) if v == w), "body_string", "body_string gave {got:?}, expected {want:?}");
                cur = empty();
                copy_ct(&mut ct, &cur);
            }
            9 => {
                ch.note(|| "read 1 byte from the message".into());
                let got = both!(&mut m, r => step_read(r, 1))?;
                let want = if cur.data.is_empty() { Got::Eof } else { Got::Bytes(vec![cur.data.remove(0)]) };
                req_eq!(got, want, "partial-read", "reading one byte through the message");
            }
            _ => {
                ch.note(|| "clone".into());
                // A clone keeps the head (and so the content type) but starts with an empty body;
                // the original is unaffected.
                let c = match &m {
                    Msg::Req(r) => Msg::Req(r.clone()),
                    Msg::Res(r) => Msg::Res(r.clone()),
                };
                let want = MBody { data: vec![], len: Some(0), mime: Some("application/octet-stream".into()) };
                let c_ct = both!(&c, r => r.header(CONTENT_TYPE).map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
                req_eq!(c_ct, ct, "clone-ct", "content-type of a clone");
                let mut c = c;
                let b = both!(&mut c, r => r.take_body());
                read_out(b, &want, "clone-body", "the body of a clone")?;
            }
        }
        let now = both!(&m, r => r.header(CONTENT_TYPE).map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
        req_eq!(now, ct, "content-type", "Content-Type header");
        let want_parsed = ct_parsed(&ct);
        req_eq!(both!(&m, r => r.content_type()), want_parsed, "content_type()", "content_type()");
        req_eq!(both!(&m, r => (r.len(), r.is_empty())), (cur.len, cur.len.map(|l| l == 0)), "len", "len()/is_empty()");
        ch.state(&(&cur, &ct));
    }
    // Finally the whole body.
    let b: Body = match m {
        Msg::Req(r) => r.into(),
        Msg::Res(mut r) => r.take_body(),
    };
    read_out(b, &cur, "final-body", "the body at the end")
}

pub fn build_c07(s: &mut Suite, thorough: bool) {
    let d = if thorough { 5 } else { 4 };
    s.bound(&format!("histories of <= {d} operations out of 11 (set/replace/swap/take body, set/remove/append content type, read out as bytes/string, partial read, clone) with 7 kinds of body (2 deeper than {}) on Request and Response", d - 1));
    s.add("histories", move |ch| run(ch, d, 4));
    s.add("all-bodies", move |ch| run(ch, d - 1, 7));
    let large = if thorough { 1 << 20 } else { 70_000 };
    s.bound(&format!("bodies of every size up to 70 and around powers of two and ten up to {large}; the media types the crate names and others; next to each of {} other headers", STANDARD.len()));
    s.bound("24 content types set by hand in 4 ways (empty, blank and malformed ones and several lines among them), before each of 8 ways of changing the body, by each of 7 bodies, and a second change with or without the header");
    s.add("explicit-types", |ch| {
        const TYPES: &[&[&str]] = &[
            &[""],
            &[" "],
            &["*"],
            &["*/*"],
            &["/"],
            &[";"],
            &["text"],
            &["text/"],
            &["text/plain"],
            &["text/plain;charset=utf-8"],
            &["Text/Plain; charset=UTF-8"],
            &["application/octet-stream"],
            &["application/json"],
            &["application/x-www-form-urlencoded"],
            &["multipart/form-data; boundary=x"],
            &["multipart/form-data; boundary=\"a;b\""],
            &["text/html;a=\"\""],
            &["application/octet-stream", "text/html"],
            &["", "text/plain"],
            &["text/plain", ""],
            &["", ""],
            &["x/x", "y/y", "z/z"],
            &["text/plain, text/html"],
            &["\t"],
        ];
        let texts = *ch.pick(TYPES);
        let how = ch.choose(4);
        let mut m = if ch.flag() { Msg::Req(new_req()) } else { Msg::Res(Response::new(200)) };
        let values: Vec<http_types::headers::HeaderValue> = texts.iter().map(|t| t.parse().unwrap()).collect();
        both!(&mut m, r => match how {
            0 => drop(r.insert_header("Content-Type", &values[..]).unwrap()),
            1 => texts.iter().for_each(|t| r.append_header("content-type", *t).unwrap()),
            2 => {
                let h: &mut http_types::headers::Headers = r.as_mut();
                texts.iter().for_each(|t| h.append(CONTENT_TYPE, *t).unwrap());
            }
            _ => {
                // changed in place
                r.insert_header(CONTENT_TYPE, "to/replace").unwrap();
                let vs = r.header_mut(CONTENT_TYPE).unwrap();
                *vs.get_mut(0).unwrap() = texts[0].parse().unwrap();
                texts[1..].iter().for_each(|t| r.append_header(CONTENT_TYPE, *t).unwrap());
            }
        });
        let mut ct = Some(texts.iter().map(|t| t.to_string()).collect::<Vec<_>>());
        for step in 0..2 {
            let (b, mb) = bodies(ch.choose(if step == 0 { 7 } else { 2 }));
            let op = ch.choose(9);
            ch.step();
            ch.note(|| format!("content type {ct:?}, change {op} to {mb:?}"));
            let mut b = b;
            if op == 8 {
                // set to what it is, or to another
                let t = ct_parsed(&ct).filter(|_| ch.flag()).unwrap_or(mime::CSS);
                let old = both!(&mut m, r => r.set_content_type(t.clone())).map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>());
                req_eq!(old, ct, "set_content_type", "what set_content_type replaced");
                ct = Some(vec![t.to_string()]);
            }
            both!(&mut m, r => match op {
                0 => r.set_body(b),
                1 => drop(r.replace_body(b)),
                2 => r.swap_body(&mut b),
                3 => drop(r.take_body()),
                4 => drop(run_future(async { r.body_bytes().await }, 20)),
                5 => drop(run_future(async { r.body_string().await }, 20)),
                6 => drop(run_future(async { r.body_json::<u8>().await }, 20)),
                8 => {}
                _ => drop(run_future(async { r.body_form::<Vec<(String, String)>>().await }, 20)),
            });
            if op < 8 {
                copy_ct(&mut ct, &if op < 3 { mb } else { empty() });
            }
            let now = both!(&m, r => r.header(CONTENT_TYPE).map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
            req_eq!(now, ct, "content-type", "Content-Type header");
            req_eq!(both!(&m, r => r.content_type()), ct_parsed(&ct), "content_type()", "content_type()");
            if ch.flag() {
                both!(&mut m, r => r.remove_header(CONTENT_TYPE));
                ct = None;
            }
        }
        ch.state(&(texts, how));
        Ok(())
    });
    s.add("bodies-and-heads", move |ch| {
        // what varies: the size, the media type, or a header that is already there
        let (mut n, mut ty, mut other) = (3usize, None, None);
        match ch.choose(3) {
            0 => n = *ch.pick(&sizes(70, large)),
            1 => {
                const MORE: &[&str] = &["a/b", "application/vnd.api+json", "text/html", "text/plain;charset=latin1", "multipart/mixed;boundary=\"a b\"", "x/y;q=1;q=2"];
                let named: Vec<Mime> = vec![
                    mime::ANY, mime::JAVASCRIPT, mime::JSON, mime::CSS, mime::HTML, mime::PLAIN, mime::XML, mime::RSS, mime::ATOM, mime::FORM, mime::MULTIPART_FORM,
                    mime::BYTE_STREAM, mime::SSE, mime::WASM, mime::ICO, mime::PNG, mime::JPEG, mime::SVG,
                ];
                let k = ch.choose(named.len() + MORE.len());
                ty = Some(if k < named.len() { named[k].clone() } else { MORE[k - named.len()].parse().unwrap() });
            }
            _ => other = Some(*ch.pick(STANDARD)).filter(|h| *h != "content-type"),
        }
        let data: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
        let text = String::from_utf8(data.clone()).unwrap();
        let mk = |k: usize| -> (Body, Option<u64>, &'static str) {
            match k {
                0 => (Body::from_string(text.clone()), Some(n as u64), "text/plain;charset=utf-8"),
                1 => (Body::from_bytes(data.clone()), Some(n as u64), "application/octet-stream"),
                2 => (Body::from_reader(futures_lite::io::Cursor::new(data.clone()), None), None, "application/octet-stream"),
                _ => (Body::from_reader(futures_lite::io::Cursor::new(data.clone()), Some(n as u64)), Some(n as u64), "application/octet-stream"),
            }
        };
        let (mut b, len, mut want_ct) = mk(ch.choose(4));
        let held;
        if let Some(t) = &ty {
            b.set_mime(Some(t.clone()));
            held = t.to_string();
            want_ct = &held;
        }
        let mb = MBody { data: data.clone(), len, mime: Some(want_ct.to_string()) };
        let mut m = if ch.flag() { Msg::Req(new_req()) } else { Msg::Res(Response::new(200)) };
        let mut heads: BTreeMap<String, Vec<String>> = BTreeMap::new();
        if let Some(o) = other {
            both!(&mut m, r => r.insert_header(o, "7")).unwrap();
            heads.insert(o.into(), vec!["7".into()]);
        }
        let explicit = ch.flag();
        let before = ch.flag();
        if explicit {
            both!(&mut m, r => r.set_content_type(mime::CSS));
            want_ct = "text/css;charset=utf-8";
        }
        if before {
            // a body of another type set before; its type stays unless removed
            both!(&mut m, r => r.set_body(Body::from_json(&1).unwrap()));
            if !explicit {
                want_ct = "application/json";
            }
        }
        ch.step();
        match ch.choose(3) {
            0 => both!(&mut m, r => r.set_body(b)),
            1 => {
                let _old = both!(&mut m, r => r.replace_body(b));
            }
            _ => both!(&mut m, r => r.swap_body(&mut b)),
        }
        heads.insert("content-type".into(), vec![want_ct.into()]);
        let got: BTreeMap<String, Vec<String>> = both!(&m, r => r.iter().map(|(n, v)| (n.as_str().to_string(), v.iter().map(|x| x.to_string()).collect())).collect());
        ch.state(&(n, &got));
        req_eq!(got, heads, "content-type", "headers after setting a body of {n} bytes");
        req_eq!(both!(&m, r => (r.len(), r.is_empty())), (len, len.map(|l| l == 0)), "len", "len()/is_empty() of {n} bytes");
        let b = both!(&mut m, r => r.take_body());
        read_out(b, &mb, "final-body", "the body set")?;
        let got: BTreeMap<String, Vec<String>> = both!(&m, r => r.iter().map(|(n, v)| (n.as_str().to_string(), v.iter().map(|x| x.to_string()).collect())).collect());
        req_eq!(got, heads, "content-type", "headers after taking the body");
        Ok(())
    });
    s.bound("bodies taken in every way from messages of every method, status and version and with each of 40 header lines");
    s.add("contexts", |ch| {
        const LINES: &[(&str, &str)] = &[
            ("content-type", "text/plain;charset=utf-16"), ("content-type", "text/plain;charset=latin1"), ("content-type", "text/html"), ("content-type", "application/json;charset=utf-16le"), ("content-type", "multipart/form-data; boundary=x"),
            ("content-type", "application/x-www-form-urlencoded"), ("content-type", "message/http"), ("content-type", "image/png"), ("content-type", "*/*"), ("content-type", ""), ("content-length", "0"), ("content-length", "1"),
            ("content-length", "99"), ("content-length", "x"), ("content-encoding", "gzip"), ("content-encoding", "identity"), ("transfer-encoding", "chunked"), ("transfer-encoding", "gzip, chunked"), ("content-range", "bytes 0-1/9"),
            ("content-location", "/x"), ("content-md5", "x"), ("content-disposition", "attachment"), ("connection", "close"), ("connection", "upgrade"), ("upgrade", "websocket"), ("expect", "100-continue"), ("trailer", "x"), ("te", "trailers"),
            ("range", "bytes=0-1"), ("if-none-match", "*"), ("if-match", "*"), ("host", "x"), ("etag", "\"x\""), ("vary", "*"), ("cache-control", "no-store"), ("allow", ""), ("location", "/"), ("retry-after", "1"), ("warning", "x"), ("x", "y"),
        ];
        let line = ch.choose(LINES.len() + 1);
        let line = if line == 0 { None } else { Some(LINES[line - 1]) };
        let v = *ch.pick(&[None, Some(Version::Http0_9), Some(Version::Http1_0), Some(Version::Http1_1), Some(Version::Http2_0), Some(Version::Http3_0)]);
        let k = *ch.pick(&[0usize, 1, 2, 3, 4, 5, 6]);
        let how = ch.choose(5);
        // the methods and codes take turns, so that each meets every body and every way
        let late = ch.flag();
        let turns = if ch.flag() { super::c12_tokens::METHODS.len() } else { 0 };
        let n = if turns > 0 { turns } else { super::c12_tokens::CODES.len() };
        ch.step();
        for i in 0..n {
            let (b, mb) = bodies(k);
            let mut m = if turns > 0 { Msg::Req(new_req()) } else { Msg::Res(Response::new(200)) };
            let mut b = Some(b);
            if late {
                both!(&mut m, r => r.set_body(b.take().unwrap()));
            }
            match &mut m {
                Msg::Req(r) => r.set_method(super::c12_tokens::METHODS[i].0),
                Msg::Res(r) => r.set_status(super::c12_tokens::CODES[i].0),
            }
            both!(&mut m, r => r.set_version(v));
            if let Some((n, t)) = line {
                both!(&mut m, r => r.insert_header(n, t)).unwrap();
            }
            if let Some(b) = b {
                both!(&mut m, r => r.set_body(b));
            }
            let ctx = || format!("body {mb:?} in {:?} {v:?} {line:?}", if turns > 0 { super::c12_tokens::METHODS[i].1.to_string() } else { super::c12_tokens::CODES[i].1.to_string() });
            let mut hdr: BTreeMap<String, Vec<String>> = line.iter().map(|(n, t)| (n.to_string(), vec![t.to_string()])).collect();
            if let Some(t) = mb.mime.as_ref().filter(|_| line.map_or(true, |l| l.0 != "content-type")) {
                hdr.insert("content-type".into(), vec![t.clone()]);
            }
            req_eq!(head_of(&m).hdr, hdr, "context-headers", "{}", ctx());
            req_eq!(both!(&m, r => (r.len(), r.is_empty())), (mb.len, mb.len.map(|l| l == 0)), "context-len", "{}", ctx());
            let (data, left): (Result<Vec<u8>, String>, &MBody) = match how {
                0 => (run_future(async { both!(&mut m, r => r.body_bytes().await) }, 20).map_or(Err("pends".into()), |r| r.map_err(|e| e.to_string())), &MBody { mime: None, ..empty() }),
                1 => (run_future(async { both!(&mut m, r => r.body_string().await) }, 20).map_or(Err("pends".into()), |r| r.map(String::into_bytes).map_err(|e| e.to_string())), &MBody { mime: None, ..empty() }),
                2 => {
                    read_out(both!(&mut m, r => r.take_body()), &mb, "context-body", &ctx())?;
                    continue;
                }
                3 => {
                    let mut out = vec![];
                    loop {
                        match both!(&mut m, r => step_read(r, 3))? {
                            Got::Bytes(d) => out.extend(d),
                            Got::Eof => break (Ok(out), &mb),
                            o => return viol("context-body", format!("{}: {o:?}", ctx())),
                        }
                    }
                }
                _ => {
                    let mut out = vec![];
                    loop {
                        match both!(&mut m, r => step_fill(r, usize::MAX))? {
                            Got::Bytes(d) => out.extend(d),
                            Got::Eof => break (Ok(out), &mb),
                            o => return viol("context-body", format!("{}: {o:?}", ctx())),
                        }
                    }
                }
            };
            req_eq!(data, Ok(mb.data.clone()), "context-body", "{}", ctx());
            if how < 2 {
                req_eq!(both!(&m, r => r.len()), left.len, "context-len", "after taking {}", ctx());
            }
        }
        ch.state(&(line, k, how));
        Ok(())
    });
    s.add("from-body", |ch| {
        let k = ch.choose(7);
        let (b, mb) = bodies(k);
        ch.step();
        ch.state(&k);
        let mut r: Response = b.into();
        req_eq!(r.status(), StatusCode::Ok, "from-body", "status of Response::from(body)");
        req_eq!(r.header(CONTENT_TYPE).map(|v| v.last().to_string()), mb.mime.clone(), "from-body", "content type of Response::from(body)");
        read_out(r.take_body(), &mb, "from-body", "body of Response::from(body)")?;
        let r: Response = ().into();
        req_eq!((r.status(), r.len(), r.header(CONTENT_TYPE).is_none()), (StatusCode::NoContent, Some(0), true), "from-unit", "Response::from(())");
        let r: Response = StatusCode::Gone.into();
        req_eq!((r.status(), r.len(), r.header(CONTENT_TYPE).is_none()), (StatusCode::Gone, Some(0), true), "from-status", "Response::from(status)");
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Head {
    method: String,
    url: String,
    status: u16,
    version: Option<&'static str>,
    peer: Option<String>,
    local: Option<String>,
    hdr: BTreeMap<String, Vec<String>>,
}

fn head_of(m: &Msg) -> Head {
    let mut h = Head {
        version: both!(m, r => r.version()).map(|v| match v {
            Version::Http0_9 => "0.9",
            Version::Http1_0 => "1.0",
            Version::Http1_1 => "1.1",
            Version::Http2_0 => "2",
            Version::Http3_0 => "3",
            _ => "?",
        }),
        peer: both!(m, r => r.peer_addr().map(|s| s.to_string())),
        local: both!(m, r => r.local_addr().map(|s| s.to_string())),
        hdr: both!(m, r => r.iter().map(|(n, v)| (n.as_str().to_string(), v.iter().map(|x| x.to_string()).collect())).collect()),
        ..Head::default()
    };
    match m {
        Msg::Req(r) => {
            h.method = r.method().to_string();
            h.url = r.url().to_string();
        }
        Msg::Res(r) => h.status = r.status().into(),
    }
    h
}

fn head_run(ch: &mut Ch, depth: usize) -> R {
    let mut h = Head::default();
    let mut m = if ch.flag() {
        h.status = 200;
        Msg::Res(Response::new(200))
    } else {
        h.method = "GET".into();
        h.url = base_url().to_string();
        Msg::Req(new_req())
    };
    let mut ext: Option<u32> = None;
    let mut had_trailers = false;
    let steps = ch.choose(depth + 1);
    let mut originals: Vec<(Msg, Head, Option<u32>, bool)> = vec![];
    for _ in 0..steps {
        ch.step();
        match ch.choose(9) {
            0 => {
                let (v, t) = *ch.pick(&[
                    (None, None),
                    (Some(Version::Http1_1), Some("1.1")),
                    (Some(Version::Http3_0), Some("3")),
                ]);
                both!(&mut m, r => r.set_version(v));
                h.version = t;
                ch.note(|| format!("set_version({v:?})"));
            }
            1 => {
                let a = *ch.pick(&[None, Some("127.0.0.1:80"), Some("/dev/sock")]);
                both!(&mut m, r => r.set_peer_addr(a));
                h.peer = a.map(|s| s.to_string());
                ch.note(|| format!("set_peer_addr({a:?})"));
            }
            2 => {
                let a = *ch.pick(&[None, Some("10.0.0.1:81")]);
                both!(&mut m, r => r.set_local_addr(a));
                h.local = a.map(|s| s.to_string());
                ch.note(|| format!("set_local_addr({a:?})"));
            }
            3 => match &mut m {
                Msg::Req(r) => {
                    let x = *ch.pick(&[Method::Post, Method::Patch]);
                    r.set_method(x);
                    h.method = x.to_string();
                    ch.note(|| format!("set_method({x})"));
                }
                Msg::Res(r) => {
                    let x = *ch.pick(&[StatusCode::NotFound, StatusCode::ImATeapot]);
                    r.set_status(x);
                    h.status = x as u16;
                    ch.note(|| format!("set_status({x})"));
                }
            },
            4 => {
                if let Msg::Req(r) = &mut m {
                    let x = *ch.pick(&["http://other.example/", "http://u:p@h.example:8080/a%20b?q=1#f"]);
                    *r.url_mut() = Url::parse(x).unwrap();
                    h.url = x.into();
                    ch.note(|| format!("url = {x}"));
                }
            }
            5 => {
                let v = *ch.pick(&["1", "2"]);
                both!(&mut m, r => r.append_header("X-A", v)).unwrap();
                h.hdr.entry("x-a".into()).or_default().push(v.into());
                ch.note(|| format!("append_header(x-a,{v})"));
            }
            6 => {
                let v = *ch.pick(&[1u32, 2]);
                let old = both!(&mut m, r => r.ext_mut().insert(v));
                req_eq!(old, ext, "ext-insert", "previous extension");
                ext = Some(v);
                ch.note(|| format!("ext insert {v}"));
            }
            7 => {
                if !had_trailers {
                    let _s = both!(&mut m, r => r.send_trailers());
                    had_trailers = true;
                    ch.note(|| "send_trailers".into());
                }
            }
            _ => {
                // continue with a clone; the original must not change any more
                ch.note(|| "clone, continue with the clone".into());
                let c = match &m {
                    Msg::Req(r) => Msg::Req(r.clone()),
                    Msg::Res(r) => Msg::Res(r.clone()),
                };
                let old = std::mem::replace(&mut m, c);
                originals.push((old, h.clone(), ext, had_trailers));
                ext = None;
                had_trailers = false;
                req!(!both!(&m, r => r.has_trailers()), "clone-trailers", "a clone reports trailers");
                // no further trailers on clones: whether a clone can send is unspecified
                had_trailers |= true;
                let _ = had_trailers;
            }
        }
        ch.state(&(&h, ext));
        req_eq!(head_of(&m), h, "head", "message head");
        req_eq!(both!(&m, r => r.ext().get::<u32>().copied()), ext, "ext", "extension");
    }
    if originals.is_empty() {
        req_eq!(both!(&m, r => r.has_trailers()), had_trailers, "has_trailers", "has_trailers()");
    }
    for (o, oh, oe, ot) in &originals {
        req_eq!(head_of(o), *oh, "clone-aliasing", "original after mutating its clone");
        req_eq!(both!(o, r => r.ext().get::<u32>().copied()), *oe, "clone-aliasing", "extension of the original");
        if originals.len() == 1 {
            req_eq!(both!(o, r => r.has_trailers()), *ot, "clone-aliasing", "has_trailers of the original");
        }
    }
    Ok(())
}

pub fn build_c10(s: &mut Suite, thorough: bool) {
    let d = if thorough { 5 } else { 4 };
    s.bound(&format!("histories of <= {d} operations out of 9 (version, peer, local address, method/status, URL, headers, extensions, trailers flag, clone-and-continue) on Request and Response"));
    s.add("head-histories", move |ch| head_run(ch, d));
    s.bound("every pair of a standard header name and a version, method or status set after it: the header stays, also on the clone");
    s.add("standard-headers", |ch| {
        let name = *ch.pick(STANDARD);
        let vals: &[&str] = *ch.pick(&[&["1"] as &[&str], &["a, b", "1"], &["", "close"]]);
        let with_body = ch.flag();
        let mut want = Head { hdr: std::iter::once((name.to_string(), vals.iter().map(|s| s.to_string()).collect())).collect(), ..Head::default() };
        let v = *ch.pick(&[(None, None), (Some(Version::Http1_0), Some("1.0")), (Some(Version::Http2_0), Some("2"))]);
        want.version = v.1;
        let mut m = if ch.flag() {
            let (x, mname) = *ch.pick(&[(Method::Get, "GET"), (Method::Head, "HEAD"), (Method::Connect, "CONNECT"), (Method::Trace, "TRACE"), (Method::Options, "OPTIONS"), (Method::Post, "POST")]);
            let mut r = new_req();
            for v in vals {
                r.append_header(name, *v).unwrap();
            }
            r.set_method(x);
            *r.url_mut() = Url::parse("http://other.example:81/").unwrap();
            want.method = mname.into();
            want.url = "http://other.example:81/".into();
            Msg::Req(r)
        } else {
            let c = *ch.pick(&[StatusCode::Continue, StatusCode::SwitchingProtocols, StatusCode::Ok, StatusCode::NoContent, StatusCode::ResetContent, StatusCode::NotModified, StatusCode::MethodNotAllowed, StatusCode::UpgradeRequired]);
            let mut r = Response::new(202);
            for v in vals {
                r.append_header(name, *v).unwrap();
            }
            r.set_status(c);
            want.status = c as u16;
            Msg::Res(r)
        };
        both!(&mut m, r => r.set_version(v.0));
        if with_body {
            both!(&mut m, r => r.set_body("x"));
            if name != "content-type" {
                want.hdr.insert("content-type".into(), vec!["text/plain;charset=utf-8".into()]);
            }
        }
        ch.step();
        ch.note(|| format!("{want:?}"));
        ch.state(&want);
        req_eq!(head_of(&m), want, "head", "message head");
        let mut c = match &m {
            Msg::Req(r) => Msg::Req(r.clone()),
            Msg::Res(r) => Msg::Res(r.clone()),
        };
        req_eq!(head_of(&c), want, "clone-head", "head of the clone");
        // taking something from one leaves the other alone
        let old = both!(&mut c, r => r.remove_header(name));
        req_eq!(old.map(|o| o.iter().map(|v| v.to_string()).collect::<Vec<_>>()), want.hdr.get(name).cloned(), "clone-head", "removed from the clone");
        req_eq!(head_of(&m), want, "clone-aliasing", "original after a removal from its clone");
        want.hdr.remove(name);
        req_eq!(head_of(&c), want, "clone-head", "head of the clone after a removal");
        Ok(())
    });
    s.bound("every version x every method / status code x addresses, set on a message and on its clone");
    s.add("values", |ch| {
        let v = *ch.pick(&[None, Some(Version::Http0_9), Some(Version::Http1_0), Some(Version::Http1_1), Some(Version::Http2_0), Some(Version::Http3_0)]);
        let t = v.map(|v| ["0.9", "1.0", "1.1", "2", "3"][[Version::Http0_9, Version::Http1_0, Version::Http1_1, Version::Http2_0, Version::Http3_0].iter().position(|x| *x == v).unwrap()]);
        const ADDRS: &[Option<&str>] = &[
            None, Some("127.0.0.1:80"), Some("[::1]:65535"), Some(""), Some(" "), Some(" a b "), Some("unix"), Some("UNIX:/Run/X"), Some("\u{e9}"), Some("a\nb"), Some("0.0.0.0:0"), Some("[::ffff:1.2.3.4]:5"), Some("h.example:80"), Some("1.2.3.4"),
        ];
        let peer = *ch.pick(ADDRS);
        let local = *ch.pick(&ADDRS[..if peer.is_none() { ADDRS.len() } else { 4 }]);
        let mut want = Head { version: t, peer: peer.map(str::to_string), local: local.map(str::to_string), ..Head::default() };
        let mut m = if ch.flag() {
            let (x, name) = *ch.pick(super::c12_tokens::METHODS);
            let mut r = Request::new(Method::Get, base_url());
            r.set_method(x);
            want.method = name.into();
            want.url = base_url().to_string();
            req_eq!(head_of(&Msg::Req(Request::new(x, base_url()))), Head { method: name.into(), url: base_url().to_string(), ..Head::default() }, "head", "Request::new");
            Msg::Req(r)
        } else {
            let c = ch.pick(super::c12_tokens::CODES);
            let mut r = Response::new(200);
            r.set_status(c.0);
            want.status = c.1;
            req_eq!(head_of(&Msg::Res(Response::new(c.0))), Head { status: c.1, ..Head::default() }, "head", "Response::new");
            req_eq!(head_of(&Msg::Res(Response::new(c.1))), Head { status: c.1, ..Head::default() }, "head", "Response::new");
            Msg::Res(r)
        };
        let hs: &[(&str, &str)] = if ch.flag() { &[("host", "a"), ("Connection", "close"), ("transfer-encoding", "chunked"), ("x", "1")] } else { &[] };
        for (n, t) in hs {
            both!(&mut m, r => r.append_header(*n, *t)).unwrap();
            want.hdr.insert(n.to_ascii_lowercase(), vec![t.to_string()]);
        }
        both!(&mut m, r => r.set_version(v));
        both!(&mut m, r => r.set_peer_addr(peer));
        both!(&mut m, r => r.set_local_addr(local));
        ch.step();
        ch.state(&want);
        req_eq!(head_of(&m), want, "head", "message head");
        let mut c = match &m {
            Msg::Req(r) => Msg::Req(r.clone()),
            Msg::Res(r) => Msg::Res(r.clone()),
        };
        req_eq!(head_of(&c), want, "clone", "head of the clone");
        req!(!both!(&c, r => r.has_trailers()), "clone-trailers", "a clone reports trailers");
        both!(&mut c, r => r.set_version(Some(Version::Http0_9)));
        both!(&mut c, r => r.set_peer_addr(Some("p")));
        both!(&mut c, r => r.set_local_addr(Some("l")));
        both!(&mut c, r => r.insert_header("x", "y")).unwrap();
        req_eq!(head_of(&m), want, "clone-aliasing", "original after changing its clone");
        Ok(())
    });
    s.bound("34 URLs of every sort, through every way of setting one, in a request and in its clone");
    s.add("urls", |ch| {
        const URLS: &[&str] = &[
            "http://a/", "http://a/#", "http://a/#f", "http://a/?", "http://a/?#", "http://a/?q#f?g", "http://a:8080/", "https://a:443/", "http://a:80/x", "http://u@a/", "http://u:p@a/p", "http://:p@a/", "http://u:@a/",
            "http://[::1]/", "http://[::1]:81/x?y", "http://127.1/", "http://a./", "http://A.Example/%41%2f%2F%00", "http://a//b///c/", "http://a/./b/../c", "http://a/ b", "http://a/\u{e9}?\u{e9}#\u{e9}",
            "http://xn--4ca.example/", "http://\u{e9}.example/", "http://a/?a=1&a=2;b", "http://a/?x=http://b/#y", "http://a/;p=1", "http://a/*", "ws://a/s", "file:///p/q", "data:text/plain,x", "mailto:a@b", "unix:/run/x.sock", "a:b?c#d",
        ];
        let t = *ch.pick(URLS);
        let u = Url::parse(t).map_err(|e| Viol { key: "url".into(), msg: e.to_string() })?;
        let mut r = match ch.choose(6) {
            0 => Request::new(Method::Get, t),
            1 => Request::new(Method::Get, u.clone()),
            2 => Request::get(t),
            3 => Request::get(u.clone()),
            4 => {
                let mut r = Request::new(Method::Get, "http://other.example/p?q#f");
                *r.url_mut() = u.clone();
                r
            }
            _ => {
                let mut r = Request::new(Method::Get, "http://other.example/p?q#f").clone();
                *r.url_mut() = u.clone();
                r
            }
        };
        ch.step();
        ch.state(&t);
        let want = Head { method: "GET".into(), url: u.to_string(), ..Head::default() };
        let msg = |r: &Request| head_of(&Msg::Req(r.clone()));
        req_eq!((r.url(), r.url().as_str()), (&u, u.as_str()), "url", "request for {t:?}");
        req_eq!(msg(&r), want, "head", "request for {t:?}");
        let mut c = r.clone();
        req_eq!(c.url(), &u, "clone-url", "clone of the request for {t:?}");
        r.set_method(Method::Put);
        r.set_version(Some(Version::Http1_0));
        r.insert_header("host", "other.example").unwrap();
        r.set_body("x");
        let _ = (r.host().is_some(), r.remote().is_some());
        let _ = r.take_body();
        req_eq!(r.url(), &u, "url", "request for {t:?} after changing all else");
        c.url_mut().set_fragment(Some("changed"));
        req_eq!(r.url(), &u, "clone-aliasing", "request for {t:?} after changing its clone");
        r.url_mut().set_query(Some("changed"));
        let mut f = u.clone();
        f.set_fragment(Some("changed"));
        req_eq!(c.url(), &f, "clone-aliasing", "clone after changing the request for {t:?}");
        Ok(())
    });
    s.bound("the flags of a message with every standard header, method or status and version");
    s.add("flags", |ch| {
        let name = *ch.pick(STANDARD);
        let v = *ch.pick(&[None, Some(Version::Http1_0), Some(Version::Http2_0)]);
        let mut m = if ch.flag() {
            Msg::Req(Request::new(ch.pick(super::c12_tokens::METHODS).0, base_url()))
        } else {
            Msg::Res(Response::new(ch.pick(super::c12_tokens::CODES).0))
        };
        both!(&mut m, r => r.insert_header(name, "x")).unwrap();
        both!(&mut m, r => r.set_version(v));
        ch.step();
        let head = head_of(&m);
        let t = ch.flag();
        if t {
            let _s = both!(&mut m, r => r.send_trailers());
        }
        let _r = both!(&mut m, r => r.recv_trailers());
        req_eq!(both!(&m, r => r.has_trailers()), t, "has_trailers", "has_trailers() of a message with {name}");
        if let Msg::Res(r) = &mut m {
            req!(!r.has_upgrade(), "has_upgrade", "has_upgrade() at first");
            if ch.flag() {
                let _s = r.send_upgrade();
            } else {
                let _r = run_future(r.recv_upgrade(), 3);
            }
            req!(r.has_upgrade(), "has_upgrade", "has_upgrade() with {name} and {:?}", r.status());
            req!(!r.clone().has_upgrade(), "has_upgrade", "has_upgrade() of a clone");
        }
        req_eq!(both!(&m, r => r.has_trailers()), t, "has_trailers", "has_trailers() of a message with {name}");
        req_eq!(head_of(&m), head, "head", "head after taking the channels");
        Ok(())
    });
    s.add("shorthands", |ch| {
        type Ctor = fn(&str) -> Request;
        const T: &[(Ctor, &str)] = &[
            (|u| Request::get(u), "GET"),
            (|u| Request::head(u), "HEAD"),
            (|u| Request::post(u), "POST"),
            (|u| Request::put(u), "PUT"),
            (|u| Request::delete(u), "DELETE"),
            (|u| Request::connect(u), "CONNECT"),
            (|u| Request::options(u), "OPTIONS"),
            (|u| Request::trace(u), "TRACE"),
            (|u| Request::patch(u), "PATCH"),
        ];
        let (f, m) = ch.pick(T);
        let u = *ch.pick(&["http://h.example/", "https://h.example:8443/p/a/t/h?q=1&r=2#frag", "x:"]);
        ch.step();
        ch.state(&(m, u));
        let r = f(u);
        req_eq!(r.method().to_string(), m.to_string(), "shorthand", "method");
        req_eq!(r.url().as_str(), u, "shorthand", "url");
        req_eq!(r.len(), Some(0), "shorthand", "len");
        req!(r.version().is_none() && r.peer_addr().is_none() && r.local_addr().is_none() && !r.has_trailers(), "shorthand", "fresh request carries metadata");
        req_eq!(r.iter().count(), 0, "shorthand", "fresh request carries headers");
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
struct A(u8);
#[derive(Clone, Debug, PartialEq)]
struct B(u8);
type C = Vec<u8>;
type D = &'static str;
type E = ();

fn ext_run(ch: &mut Ch, depth: usize, filled: bool) -> R {
    let mut own = Response::new(200);
    let mut dflt = Extensions::default();
    let which = ch.flag();
    let m: &mut Extensions = if which { own.ext_mut() } else { &mut dflt };
    // model: slot per type
    let (mut a, mut b, mut c, mut d, mut e): (Option<A>, Option<B>, Option<C>, Option<D>, Option<E>) =
        (None, None, None, None, None);
    if filled {
        // start from every subset of the five types
        let set = ch.choose(32);
        if set & 1 != 0 {
            a = Some(A(200));
            m.insert(A(200));
        }
        if set & 2 != 0 {
            b = Some(B(200));
            m.insert(B(200));
        }
        if set & 4 != 0 {
            c = Some(vec![200]);
            m.insert::<C>(vec![200]);
        }
        if set & 8 != 0 {
            d = Some("start");
            m.insert::<D>("start");
        }
        if set & 16 != 0 {
            e = Some(());
            m.insert(());
        }
        ch.note(|| format!("start with the set {set:05b} of the types E,D,C,B,A"));
    }
    let n = ch.choose(depth + 1);
    macro_rules! slot {
        ($ty:ty, $m:ident, $op:expr, $v:expr, $v2:expr) => {{
            match $op {
                0 => {
                    let v: $ty = $v;
                    req_eq!(m.insert(v.clone()), $m, "ext-insert", "insert::<{}>", stringify!($ty));
                    $m = Some(v);
                }
                1 => {
                    req_eq!(m.remove::<$ty>(), $m, "ext-remove", "remove::<{}>", stringify!($ty));
                    $m = None;
                }
                _ => {
                    let g = m.get_mut::<$ty>();
                    req_eq!(g.is_some(), $m.is_some(), "ext-get_mut", "get_mut::<{}>", stringify!($ty));
                    if let Some(g) = g {
                        *g = $v2;
                        $m = Some($v2);
                    }
                }
            }
        }};
    }
    for i in 0..n {
        ch.step();
        let op = ch.choose(4);
        if op == 3 {
            m.clear();
            a = None;
            b = None;
            c = None;
            d = None;
            e = None;
            ch.note(|| "clear".into());
        } else {
            let t = ch.choose(5);
            ch.note(|| format!("{} of type {t}", ["insert", "remove", "get_mut"][op]));
            let x = i as u8;
            match t {
                0 => slot!(A, a, op, A(x), A(x + 100)),
                1 => slot!(B, b, op, B(x), B(x + 100)),
                2 => slot!(C, c, op, vec![x], vec![x, x]),
                3 => slot!(D, d, op, ["p", "q", "r", "s", "t", "u"][i], "zz"),
                _ => slot!(E, e, op, (), ()),
            }
        }
        req_eq!(m.get::<A>().cloned(), a, "ext-get", "get::<A>");
        req_eq!(m.get::<B>().cloned(), b, "ext-get", "get::<B>");
        req_eq!(m.get::<C>().cloned(), c, "ext-get", "get::<C>");
        req_eq!(m.get::<D>().cloned(), d, "ext-get", "get::<D>");
        req_eq!(m.get::<E>().cloned(), e, "ext-get", "get::<E>");
        req_eq!(
            (m.contains::<A>(), m.contains::<B>(), m.contains::<C>(), m.contains::<D>(), m.contains::<E>(), m.contains::<u64>()),
            (a.is_some(), b.is_some(), c.is_some(), d.is_some(), e.is_some(), false),
            "ext-contains",
            "contains"
        );
        ch.state(&format!("{a:?}{b:?}{c:?}{d:?}{e:?}"));
    }
    Ok(())
}

pub fn build_c11(s: &mut Suite, thorough: bool) {
    let d = if thorough { 5 } else { 4 };
    s.bound(&format!("histories of <= {d} operations (insert/remove/get_mut over 5 value types, clear), every type observed after each step"));
    s.add("ext-histories", move |ch| ext_run(ch, d, false));
    let f = if thorough { 3 } else { 2 };
    s.bound(&format!("histories of <= {f} of these operations from a map holding any of the 32 subsets of the 5 types"));
    s.add("ext-histories-from-filled", move |ch| ext_run(ch, f, true));
    // Many types at once: 24 distinct types present, any one removed or replaced.
    s.add("ext-many-types", |ch| {
        #[derive(Debug, PartialEq, Clone)]
        struct T<const N: usize>(usize);
        macro_rules! all {
            ($f:ident, $m:expr, $x:expr) => {{
                $f!($m, $x, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23)
            }};
        }
        macro_rules! ins { ($m:expr, $x:expr, $($n:literal),*) => {{ $( req_eq!($m.insert(T::<$n>($x + $n)), None, "ext-insert", "insert of type {}", $n); )* }}; }
        macro_rules! obs { ($m:expr, $x:expr, $($n:literal),*) => { vec![$( $m.get::<T<$n>>().map(|t| t.0) ),*] }; }
        macro_rules! rem { ($m:expr, $x:expr, $($n:literal),*) => { match $x { $( $n => $m.remove::<T<$n>>().map(|t| t.0), )* _ => None } }; }
        macro_rules! put { ($m:expr, $x:expr, $($n:literal),*) => { match $x { $( $n => $m.insert(T::<$n>(7777)).map(|t| t.0), )* _ => None } }; }
        let mut m = Extensions::default();
        all!(ins, m, 1000usize);
        let mut want: Vec<Option<usize>> = (0..24).map(|i| Some(1000 + i)).collect();
        // only the first of them stay
        let first = 24 - ch.choose(24);
        for (i, w) in want.iter_mut().enumerate().skip(first) {
            req_eq!(all!(rem, m, i), w.take(), "ext-remove", "remove of type {i}");
        }
        macro_rules! std_types { ($op:ident $($t:ty = $v:expr),+) => { $( std_types!(@$op $t, $v); )* };
            (@put $t:ty, $v:expr) => { req_eq!(m.insert::<$t>($v), None, "ext-insert", "insert of {}", stringify!($t)); };
            (@has $t:ty, $v:expr) => { req_eq!(m.get::<$t>(), Some(&$v), "ext-get", "value of type {}", stringify!($t)); };
            (@not $t:ty, $v:expr) => { req!(m.get::<$t>().is_none() && !m.contains::<$t>(), "ext-clear", "{} after clear", stringify!($t)); };
            ($op:ident) => { std_types!($op
                f64 = 1.5, f32 = 2.5, u8 = 1, u16 = 2, u32 = 3, u64 = 4, u128 = 5, usize = 6, i8 = -1, i16 = -2, i32 = -3, i64 = -4, isize = -5,
                bool = true, char = 'x', String = "s".to_string(), Vec<String> = vec!["v".to_string()], Vec<u8> = vec![7], &'static str = "t",
                Option<u8> = None, Option<String> = Some("o".into()), Box<str> = "b".into(), std::sync::Arc<str> = "a".into(), (u8, u8) = (8, 9),
                std::time::Duration = std::time::Duration::from_secs(3), () = (), [u8; 4] = [1, 2, 3, 4], http_types::StatusCode = StatusCode::Ok, Method = Method::Put) };
        }
        std_types!(put);
        let end = ch.flag();
        for _ in 0..2 {
            ch.step();
            let i = ch.choose(24);
            if ch.flag() {
                let got = all!(rem, m, i);
                req_eq!(got, want[i].take(), "ext-remove", "remove of type {i}");
            } else {
                let got = all!(put, m, i);
                req_eq!(got, want[i].replace(7777), "ext-insert", "second insert of type {i}");
            }
            req_eq!(all!(obs, m, ()), want, "ext-get", "contents of a map of 24 types");
            ch.state(&want);
        }
        std_types!(has);
        if end {
            m.clear();
            req_eq!(all!(obs, m, ()), vec![None; 24], "ext-clear", "contents after clear");
            std_types!(not);
        }
        Ok(())
    });
    s.bound("the drops of up to 8 values of different types, when replaced, removed, cleared or with the message");
    s.add("ext-drop-many", |ch| {
        use std::sync::atomic::{AtomicUsize, Ordering};
        use std::sync::Arc;
        struct Noisy<const N: usize>(Arc<[AtomicUsize; 8]>);
        impl<const N: usize> Drop for Noisy<N> {
            fn drop(&mut self) {
                self.0[N].fetch_add(1, Ordering::SeqCst);
            }
        }
        let drops: Arc<[AtomicUsize; 8]> = Default::default();
        let mut r = Response::new(200);
        let n = 1 + ch.choose(8);
        macro_rules! each { ($f:ident) => {{ each!(@$f 0 1 2 3 4 5 6 7) }};
            (@put $($n:literal)*) => {{ $( if $n < n { r.ext_mut().insert(Noisy::<$n>(drops.clone())); } )* }};
            (@odd $($n:literal)*) => {{ $( if $n % 2 == 1 { drop(r.ext_mut().remove::<Noisy<$n>>()); } )* }};
        }
        each!(put);
        let mut want: Vec<usize> = vec![0; 8];
        ch.step();
        match ch.choose(4) {
            0 => {
                each!(put);
                (0..n).for_each(|i| want[i] += 1);
            }
            1 => {
                each!(odd);
                (0..n).for_each(|i| want[i] += i % 2);
            }
            2 => {
                r.ext_mut().clear();
                (0..n).for_each(|i| want[i] += 1);
            }
            _ => {}
        }
        let count = || drops.iter().map(|d| d.load(Ordering::SeqCst)).collect::<Vec<_>>();
        req_eq!(count(), want, "ext-drop", "drops of {n} values");
        let cleared = want[0] == 1 && r.ext().get::<Noisy<0>>().is_none();
        let replaced = want[0] == 1 && !cleared;
        drop(r);
        for (i, w) in want.iter_mut().enumerate().take(n) {
            *w = if replaced { 2 } else { 1 };
            let _ = i;
        }
        req_eq!(count(), want, "ext-drop", "drops of {n} values at the end");
        Ok(())
    });
    s.add("ext-drop-once", |ch| {
        // Values are dropped exactly once, when replaced, removed, cleared or with the map.
        use std::sync::atomic::{AtomicUsize, Ordering};
        use std::sync::Arc;
        struct Noisy(Arc<AtomicUsize>);
        impl Drop for Noisy {
            fn drop(&mut self) {
                self.0.fetch_add(1, Ordering::SeqCst);
            }
        }
        let drops = Arc::new(AtomicUsize::new(0));
        let mut made = 0;
        let mut live = 0;
        let mut r = Response::new(200);
        let n = ch.choose(6);
        for _ in 0..n {
            ch.step();
            match ch.choose(3) {
                0 => {
                    drop(r.ext_mut().insert(Noisy(drops.clone())));
                    made += 1;
                    live = 1;
                }
                1 => {
                    drop(r.ext_mut().remove::<Noisy>());
                    live = 0;
                }
                _ => {
                    r.ext_mut().clear();
                    live = 0;
                }
            }
            ch.state(&(made, live));
            req_eq!(drops.load(Ordering::SeqCst), made - live, "ext-drop", "number of dropped values");
        }
        drop(r);
        req_eq!(drops.load(Ordering::SeqCst), made, "ext-drop", "number of dropped values at the end");
        Ok(())
    });
}
