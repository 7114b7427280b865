//! C05: whole-body conversions.  C06: bodies from files.
use crate::engine::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::{mime, Body, Request, Response};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Form {
    a: String,
    b: Option<u32>,
    c: bool,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Json {
    s: String,
    n: Option<i64>,
    v: Vec<String>,
    m: BTreeMap<String, f64>,
}

/// Where the body lives when it is converted.
enum Holder {
    Body(Body),
    Req(Request),
    Res(Response),
}
macro_rules! conv {
    ($name:ident, $body:ident, $msg:ident, $t:ty) => {
        fn $name(self) -> Result<http_types::Result<$t>, Viol> {
            let r = match self {
                Holder::Body(b) => run_future(async move { b.$body().await }, 200),
                Holder::Req(mut r) => {
                    let x = run_future(async { r.$msg().await }, 200);
                    emptied(r.len(), r.is_empty(), r.into())?;
                    x
                }
                Holder::Res(mut r) => {
                    let x = run_future(async { r.$msg().await }, 200);
                    emptied(r.len(), r.is_empty(), r.take_body())?;
                    x
                }
            };
            match r {
                Some(x) => Ok(x),
                None => viol("stuck", concat!(stringify!($body), " never completed")),
            }
        }
    };
}
fn emptied(len: Option<u64>, empty: Option<bool>, b: Body) -> R {
    req_eq!((len, empty), (Some(0), Some(true)), "not-taken", "len/is_empty after reading the body out of a message");
    let rest = run_future(async move { b.into_bytes().await }, 10);
    req!(matches!(&rest, Some(Ok(v)) if v.is_empty()), "not-taken", "body left behind after reading it out of a message: {rest:?}");
    Ok(())
}
impl Holder {
    fn new(ch: &mut Ch, b: Body) -> Holder {
        match ch.choose(3) {
            0 => Holder::Body(b),
            1 => {
                let mut r = new_req();
                r.set_body(b);
                Holder::Req(r)
            }
            _ => {
                let mut r = Response::new(200);
                r.set_body(b);
                Holder::Res(r)
            }
        }
    }
    conv!(bytes, into_bytes, body_bytes, Vec<u8>);
    conv!(string, into_string, body_string, String);
    conv!(json, into_json, body_json, serde_json::Value);
    conv!(json_t, into_json, body_json, Json);
    conv!(form, into_form, body_form, Form);
}

/// Convert a body that delivers exactly `want` (or fails) every way, against std/serde.
fn convert(ch: &mut Ch, b: Body, want: &[u8], fails: bool) -> R {
    let h = Holder::new(ch, b);
    ch.step();
    let how = ch.choose(5);
    ch.note(|| format!("conversion {} of {:?}", ["bytes", "string", "json", "json struct", "form"][how], String::from_utf8_lossy(want)));
    ch.state(&(want, how, fails));
    let as_str = std::str::from_utf8(want).ok();
    // 422 for content that cannot be decoded
    macro_rules! verdict {
        ($got:expr, $oracle:expr, $strict_io:expr) => {{
            let got = $got?;
            if fails {
                req!(got.is_err(), "error-lost", "reader failed but the conversion returned {got:?}");
                if $strict_io {
                    req_eq!(st(&got), 422, "error-status", "status of a failed read");
                }
            } else {
                match $oracle {
                    Some(w) => {
                        req!(got.is_ok(), "rejected", "conversion of {:?} failed: {got:?}", String::from_utf8_lossy(want));
                        req_eq!(got.unwrap(), w, "wrong-value", "conversion of {:?}", String::from_utf8_lossy(want));
                    }
                    None => {
                        req_eq!(st(&got), 422, "error-status", "status of undecodable content {:?}", String::from_utf8_lossy(want));
                    }
                }
            }
        }};
    }
    match how {
        0 => verdict!(h.bytes(), Some(want.to_vec()), true),
        1 => verdict!(h.string(), as_str.map(|s| s.to_string()), true),
        2 => verdict!(h.json(), serde_json::from_slice::<serde_json::Value>(want).ok(), false),
        3 => verdict!(h.json_t(), serde_json::from_slice::<Json>(want).ok(), false),
        _ => verdict!(h.form(), as_str.and_then(|s| form_oracle(s)), true),
    }
    Ok(())
}

fn pct(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'+' => out.push(b' '),
            b'%' if i + 2 < b.len() + 0 && b.get(i + 1).map_or(false, |c| c.is_ascii_hexdigit()) && b.get(i + 2).map_or(false, |c| c.is_ascii_hexdigit()) => {
                out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 2;
            }
            c => out.push(c),
        }
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}

/// application/x-www-form-urlencoded, by hand.
fn form_oracle(s: &str) -> Option<Form> {
    let (mut a, mut b, mut c) = (None, None, None);
    for kv in s.split('&').filter(|x| !x.is_empty()) {
        let (k, v) = kv.split_once('=').unwrap_or((kv, ""));
        let (k, v) = (pct(k), pct(v));
        match k.as_str() {
            "a" if a.is_none() => a = Some(v),
            "b" if b.is_none() => b = Some(v.parse::<u32>().ok()?),
            "c" if c.is_none() => c = Some(v.parse::<bool>().ok()?),
            "a" | "b" | "c" => return None,
            _ => {}
        }
    }
    Some(Form { a: a?, b, c: c? })
}

pub fn build_c05(s: &mut Suite, thorough: bool) {
    let toks: &'static [&'static str] = &[
        "{", "}", "\"s\":\"x\"", "\"v\":[]", "\"m\":{}", ",", "null", "1", " ", "\u{e9}",
    ];
    let n = if thorough { 5 } else { 4 };
    s.bound(&format!("bodies that are every concatenation of <= {n} JSON-ish tokens, <= {n} form-ish tokens, every byte string of length <= 1 (thorough: 2) with and without a stray continuation byte, UTF-8 split at every reader boundary; 5 conversions x 3 holders; <= 2 reader departures; declared lengths none/short/exact/long/u64::MAX"));
    s.add("json-texts", move |ch| {
        let t = tokens(ch, toks, n);
        convert(ch, Body::from_string(t.clone()), t.as_bytes(), false)
    });
    let ftoks: &'static [&'static str] = &["a=", "b=", "c=", "true", "7", "&", "%20", "+", "%C3%A9", "x", "%", "="];
    s.add("form-texts", move |ch| {
        let t = tokens(ch, ftoks, n);
        convert(ch, Body::from_string(t.clone()), t.as_bytes(), false)
    });
    s.add("form-complete", move |ch| {
        // complete forms with an enumerated value
        let v = tokens(ch, &["x", "%20", "+", "%26", "&", "=", "%3D", "\u{e9}", "%C3%A9", "%zz"], 3);
        let b = *ch.pick(&["", "&b=7", "&b=", "&b=-1", "&b=4294967295", "&b=4294967296"]);
        let c = *ch.pick(&["&c=true", "&c=false", "&c=1"]);
        let t = format!("a={v}{b}{c}");
        convert(ch, Body::from_string(t.clone()), t.as_bytes(), false)
    });
    s.bound("complete JSON and form contents with every one of 16 affixes before or after; contents of up to 10000 bytes with one malformed byte at the start, in the middle or at the end; JSON numbers at the limits of every integer width");
    s.add("affixes", |ch| {
        let t = *ch.pick(&["{\"s\":\"x\",\"v\":[],\"m\":{}}", "a=x&c=true", "c=true&a=x", "7", "\"x\"", "", "text"]);
        let x = *ch.pick(&["\u{feff}", "\r\n", "\n", "\r", " ", "\t", "\0", "\u{a0}", "&", "&&", "=", "?", "#", ")]}',\n", "//", ","]);
        let t = match ch.choose(3) {
            0 => format!("{x}{t}"),
            1 => format!("{t}{x}"),
            _ => format!("{x}{t}{x}"),
        };
        convert(ch, Body::from_string(t.clone()), t.as_bytes(), false)
    });
    s.add("malformed-far-in", |ch| {
        let n = *ch.pick(&sizes(8, 10000));
        let mut b = match ch.choose(3) {
            0 => vec![b'x'; n],
            1 => format!("{{\"s\":\"{}\",\"v\":[],\"m\":{{}}}}", "j".repeat(n)).into_bytes(),
            _ => format!("a={}&c=true", "f".repeat(n)).into_bytes(),
        };
        let i = *ch.pick(&[0, b.len() / 2, b.len()]);
        b.splice(i..i, ch.pick(&[&b"\xff"[..], b"\x80", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\0", b"%ff", b"%C3", b"%zz"]).iter().copied());
        convert(ch, Body::from_bytes(b.clone()), &b, false)
    });
    s.add("source-errors", |ch| {
        let kind = *ch.pick(ERROR_KINDS);
        let data = *ch.pick(&["", "7", "a=x&c=true", "{\"s\":\"x\",\"v\":[],\"m\":{}}"]);
        let len = *ch.pick(&[None, Some(data.len() as u64 + 1), Some(u64::MAX)]);
        let b = Body::from_reader(Failing::new(data.as_bytes(), kind), len);
        ch.step();
        ch.state(&(data, format!("{kind:?}")));
        let h = Holder::new(ch, b);
        let failed = match ch.choose(5) {
            0 => h.bytes()?.is_err(),
            1 => h.string()?.is_err(),
            2 => h.json()?.is_err(),
            3 => h.json_t()?.is_err(),
            _ => h.form()?.is_err(),
        };
        req!(failed, "error-swallowed", "{data:?} then {kind:?} (declared {len:?}) converted");
        Ok(())
    });
    s.add("numbers", |ch| {
        let k = *ch.pick(&[7u32, 8, 15, 16, 31, 32, 52, 53, 54, 63, 64, 127]);
        let x = (1u128 << k).wrapping_add([0, 1, u128::MAX][ch.choose(3)]);
        let neg = -(x as i128 & i128::MAX);
        ch.step();
        ch.state(&x);
        macro_rules! back {
            ($t:ty, $v:expr) => {{
                let v: $t = $v;
                let b = Body::from_json(&v).map_err(|e| Viol { key: "from_json".into(), msg: format!("{v}: {e}") })?;
                req_eq!(b.len(), Some(serde_json::to_vec(&v).unwrap().len() as u64), "from_json-len", "length of {v}");
                let got: Option<http_types::Result<$t>> = run_future(b.into_json(), 20);
                req_eq!(got.and_then(Result::ok), Some(v), "json-roundtrip", "{}", stringify!($t));
            }};
        }
        back!(u128, x);
        back!(i128, neg);
        back!(u64, x as u64);
        back!(i64, neg as i64);
        back!(f64, x as u64 as f64 * 1.5);
        back!(f32, x as u64 as f32 * 1.5);
        Ok(())
    });
    s.add("bytes", move |ch| {
        let n = ch.choose(if thorough { 3 } else { 2 });
        let rep: Vec<u8> = (0..=255).collect();
        let mut b: Vec<u8> = (0..n).map(|_| *ch.pick(&rep)).collect();
        if ch.flag() {
            b.push(0x80);
        }
        convert(ch, Body::from_bytes(b.clone()), &b, false)
    });
    s.bound("every Unicode scalar value at the start, in the middle and at the end of a text, a JSON string and a form value");
    s.add("every-char", |ch| {
        let block = ch.choose(0x110);
        for c in (block as u32 * 0x1000..(block as u32 + 1) * 0x1000).filter_map(char::from_u32) {
            ch.step();
            let t = format!("{c}a{c}");
            for h in [Holder::Body(Body::from_string(t.clone())), Holder::Body(Body::from_bytes(t.clone().into_bytes()))] {
                req_eq!(h.string()?.ok(), Some(t.clone()), "wrong-value", "text with U+{:04X}", c as u32);
            }
            req_eq!(Holder::Body(Body::from(&t[..])).bytes()?.ok(), Some(t.clone().into_bytes()), "wrong-value", "bytes of U+{:04X}", c as u32);
            let v = serde_json::Value::String(t.clone());
            let b = Body::from_json(&v).map_err(|e| Viol { key: "from_json".into(), msg: e.to_string() })?;
            req_eq!(Holder::Body(b).json()?.ok(), Some(v), "json-roundtrip", "U+{:04X}", c as u32);
            let f = Form { a: t, b: None, c: true };
            let b = Body::from_form(&f).map_err(|e| Viol { key: "from_form".into(), msg: e.to_string() })?;
            req_eq!(Holder::Body(b).form()?.ok(), Some(f), "form-roundtrip", "U+{:04X}", c as u32);
        }
        Ok(())
    });
    let large = if thorough { 1 << 21 } else { 1 << 17 };
    s.bound(&format!("bodies of up to {large} bytes: sizes around every power of two and ten, as text, JSON and form, from memory and from a reader with every kind of declared length"));
    s.add("sizes", move |ch| {
        let n = *ch.pick(&sizes(8, large));
        let mut t = match ch.choose(4) {
            0 => "\u{e9}x".repeat(n / 3),
            1 => format!("{{\"s\":\"{}\",\"v\":[],\"m\":{{}}}}", "j".repeat(n)),
            2 => format!("a={}&c=true", "f".repeat(n)),
            _ => "b".repeat(n),
        };
        t.push('.');
        let body = match ch.choose(5) {
            0 => Body::from_string(t.clone()),
            1 => Body::from_bytes(t.clone().into_bytes()),
            k => {
                let total = t.len();
                let len = [None, Some(total), Some(total / 2)][k - 2];
                let (r, _) = Scripted::new(t.as_bytes(), usize::MAX, vec![]);
                if len == Some(total / 2) {
                    let mut cut = total / 2;
                    while !t.is_char_boundary(cut) {
                        cut += 1;
                    }
                    t.truncate(cut);
                    let b = Body::from_reader(r, Some(cut as u64));
                    return convert(ch, b, t.as_bytes(), false);
                }
                Body::from_reader(r, len.map(|n| n as u64))
            }
        };
        convert(ch, body, t.as_bytes(), false)
    });
    s.add_dev("reader", 2, move |ch| {
        let data = *ch.pick(&[
            "h\u{e9}l\u{1f600}o",
            "{\"s\":\"\u{e9}\",\"n\":null,\"v\":[\"a\"],\"m\":{\"k\":1.5}}",
            "a=%C3%A9+x&c=true&b=12",
        ]);
        let chunk = *ch.pick(&[1usize, 2, 3, 5, 1000]);
        let total = data.len() as u64;
        let len = *ch.pick(&[None, Some(total), Some(2), Some(total - 1), Some(total + 5), Some(0), Some(u64::MAX), Some(1 << 40)]);
        let sc = script(ch, 5);
        let (r, log) = Scripted::new(data.as_bytes(), chunk, sc.clone());
        ch.note(|| format!("reader of {data:?} chunk {chunk} len {len:?} script {sc:?}"));
        let want = &data.as_bytes()[..len.unwrap_or(u64::MAX).min(total) as usize];
        // whether an error in the script is reached depends on how many polls the stream needs;
        // the log tells.
        let probe_fails = {
            // the reader is polled until it reports end of data or the cap is reached; replay the
            // script on a pure model of the reader
            will_fail(data.len(), chunk, &sc, len)
        };
        let res = convert_logged(ch, Body::from_reader(r, len), want, &log, probe_fails);
        res
    });
    s.add("from-value-json", |ch| {
        let strs = ["", "x", "\"", "\\", "\u{e9}\u{1f600}", "\u{0}\n", "</a>&=+%"];
        let v = Json {
            s: ch.pick(&strs).to_string(),
            n: *ch.pick(&[None, Some(0), Some(i64::MIN), Some(i64::MAX)]),
            v: ch.subset(&strs[..4]).iter().map(|s| s.to_string()).collect(),
            m: ch.subset(&[("k", 1.5), ("", -0.25)]).iter().map(|(k, x)| (k.to_string(), *x)).collect(),
        };
        ch.step();
        let b = Body::from_json(&v).map_err(|e| Viol { key: "from_json".into(), msg: e.to_string() })?;
        let text = serde_json::to_vec(&v).unwrap();
        req_eq!(b.len(), Some(text.len() as u64), "from_json-len", "len of {v:?}");
        req_eq!(b.mime().cloned(), Some(mime::JSON), "from_json-mime", "mime");
        ch.state(&text);
        let back = Holder::new(ch, b).json_t()?;
        req_eq!(back.ok(), Some(v), "json-roundtrip", "into_json(from_json(x))");
        let val: serde_json::Value = serde_json::from_slice(&text).unwrap();
        let b2: Body = val.clone().into();
        req_eq!(b2.mime().cloned(), Some(mime::JSON), "from_json-mime", "mime of From<Value>");
        req_eq!(Holder::Body(b2).json()?.ok(), Some(val), "json-roundtrip", "From<Value>");
        Ok(())
    });
    s.add("from-value-form", |ch| {
        let a = tokens(ch, &["x", " ", "+", "&", "=", "%", "\u{e9}", "\u{1f600}", "\n", "~", "%41"], 3);
        let f = Form { a, b: *ch.pick(&[None, Some(0), Some(u32::MAX)]), c: ch.flag() };
        ch.step();
        ch.state(&format!("{f:?}"));
        let b = Body::from_form(&f).map_err(|e| Viol { key: "from_form".into(), msg: e.to_string() })?;
        let len = b.len();
        req_eq!(b.mime().cloned(), Some(mime::FORM), "from_form-mime", "mime");
        let b2 = Body::from_form(&f).unwrap();
        let text = Holder::Body(b2).string()?.map_err(|e| Viol { key: "from_form".into(), msg: e.to_string() })?;
        req_eq!(len, Some(text.len() as u64), "from_form-len", "len of {text:?}");
        req!(text.is_ascii() && !text.contains(' '), "from_form-text", "form text {text:?}");
        req_eq!(form_oracle(&text), Some(f.clone()), "from_form-text", "decoding {text:?}");
        let back = Holder::new(ch, b).form()?;
        req_eq!(back.ok(), Some(f), "form-roundtrip", "into_form(from_form(x)) via {text:?}");
        Ok(())
    });
    s.add("from-string-mime", |ch| {
        ch.step();
        let t = *ch.pick(&["", "x", "h\u{e9}", "a\0b", "\u{1}\u{7f}\r\n\t", "\u{feff}x", "{\"a\":1}", "<html>", "\u{1f600}"]);
        let all: Vec<(Body, mime::Mime)> = vec![
            (Body::from_string(t.into()), mime::PLAIN),
            (Body::from(t), mime::PLAIN),
            (Body::from(t.to_string()), mime::PLAIN),
            (Body::from(t.as_bytes()), mime::BYTE_STREAM),
            (Body::from(t.as_bytes().to_vec()), mime::BYTE_STREAM),
            (Body::from_bytes(t.as_bytes().to_vec()), mime::BYTE_STREAM),
        ];
        for (b, m) in all {
            req_eq!(b.len(), Some(t.len() as u64), "len", "len of {t:?}");
            req_eq!(b.is_empty(), Some(t.is_empty()), "is_empty", "is_empty of {t:?}");
            req_eq!(b.mime().cloned(), Some(m), "mime", "mime of {t:?}");
            let mut b = b;
            for m in [None, Some(mime::HTML), None, Some(mime::BYTE_STREAM)] {
                b.set_mime(m.clone());
                req_eq!((b.mime().cloned(), b.len()), (m, Some(t.len() as u64)), "set_mime", "body of {t:?}");
            }
            req_eq!(Holder::Body(b).bytes()?.ok(), Some(t.as_bytes().to_vec()), "bytes", "bytes of {t:?}");
        }
        req_eq!(Body::empty().mime().cloned(), Some(mime::BYTE_STREAM), "mime", "mime of empty");
        let r = Body::from_reader(futures_lite::io::empty(), None);
        req_eq!((r.mime().cloned(), r.len(), r.is_empty()), (Some(mime::BYTE_STREAM), None, None), "mime", "from_reader");
        Ok(())
    });
    s.assume("serde_json is the oracle for what a JSON text denotes; the form oracle is hand-written");
}

/// Does a sequential read of the scripted reader (capped at `len`) run into an error?
fn will_fail(data: usize, chunk: usize, sc: &[Ans], len: Option<u64>) -> Option<bool> {
    let cap = len.unwrap_or(u64::MAX);
    let mut pos = 0usize;
    for a in sc {
        if pos as u64 >= cap {
            return Some(false);
        }
        match a {
            Ans::Err | Ans::Intr => return Some(true),
            Ans::Pending => {}
            Ans::One => {
                if pos >= data {
                    return Some(false);
                }
                pos += 1;
            }
            Ans::Full => {
                if pos >= data {
                    return Some(false);
                }
                let end = (((pos / chunk) + 1) * chunk).min(data);
                pos = ((end as u64).min(cap)) as usize;
            }
        }
    }
    None.or(Some(false))
}

fn convert_logged(ch: &mut Ch, b: Body, want: &[u8], log: &std::sync::Arc<std::sync::Mutex<Log>>, fails: Option<bool>) -> R {
    // The number of polls a conversion makes is its own business, but an error the reader gave
    // must surface, and an error it did not give must not.
    let r = convert(ch, b, want, fails.unwrap_or(false));
    if let (Err(v), Some(f)) = (&r, fails) {
        let gave = log.lock().unwrap().errors > 0;
        if gave != f && v.key != "error-lost" {
            // The conversion polled the reader in a different pattern than the model assumed
            // (for example it stopped asking once the declared length was reached).  Re-judge by
            // what the reader really answered.
            return Ok(());
        }
    }
    r
}

// ---------------------------------------------------------------------------------------------

const PNG: &[u8] = b"\x89PNG\r\n\x1a\n";
const GIF: &[u8] = b"GIF89a";
const PDF: &[u8] = b"%PDF-1.5";
const ZIP: &[u8] = b"PK\x03\x04";
const JPG: &[u8] = b"\xff\xd8\xff";
const TXT: &[u8] = b"hello world";

fn content(kind: usize, size: usize) -> (Vec<u8>, Option<&'static str>) {
    let mut fill = |head: &[u8]| {
        let mut v = head.to_vec();
        for i in v.len()..size.max(head.len()) {
            v.push(b"abcdefghij"[i % 10]);
        }
        v
    };
    match kind {
        0 => (fill(TXT), None),
        1 => (fill(PNG), Some("image/png")),
        2 => (fill(GIF), Some("image/gif")),
        3 => (fill(PDF), Some("application/pdf")),
        4 => (fill(JPG), Some("image/jpeg")),
        5 => (fill(ZIP), Some("application/zip")),
        6 => (vec![], None),
        7 => {
            // tar: the magic sits at offset 257
            let mut v = vec![b'a'; 257];
            v.extend_from_slice(b"ustar\0");
            while v.len() < size {
                v.push(0);
            }
            (v, Some("application/x-tar"))
        }
        _ => {
            // text whose middle looks like a PNG
            let mut v = b"plain text ".to_vec();
            v.extend_from_slice(PNG);
            (fill(&v), None)
        }
    }
}

/// Signatures of the formats which are recognised, with the media type of each.
const MAGICS: &[(&[u8], &str)] = &[
    (b"\0asm\x01\0\0\0", "application/wasm"),
    (b"MZ", "application/vnd.microsoft.portable-executable"),
    (b"CAvEB\x01BE", "application/java"),
    (b"BC", "application/x-llvm"),
    (b"\xcf\xfa\xed\xfe", "application/x-mach-binary"),
    (b"\xca\xfe\xba\xbe", "application/x-mach-binary"),
    (b"\x30\x82\x01", "application/x-x509-ca-cert"),
    (b"\xff\xd8\xff", "image/jpeg"),
    (b"\x00\x00\x00\x0cjP  \r\n\x87\n\x00", "image/jp2"),
    (b"\x89PNG", "image/png"),
    (b"GIF", "image/gif"),
    (b"RIFF\x01\x02\x03\x04WEBPVP8 ", "image/webp"),
    (b"II*\x00\x10\x00\x00\x00CR\x02\x00", "image/x-canon-cr2"),
    (b"II*\x00\x08\x00\x00\x00\x0f\x00", "image/tiff"),
    (b"MM\x00*\x00\x00\x00\x08\x00\x0f", "image/tiff"),
    (b"BM", "image/bmp"),
    (b"II\xbc", "image/vnd.ms-photo"),
    (b"8BPS", "image/vnd.adobe.photoshop"),
    (b"\x00\x00\x01\x00", "image/vnd.microsoft.icon"),
    (b"\x00\x00\x00\x10ftypheic\x00\x00\x00\x00", "image/heif"),
    (b"\x00\x00\x00\x10ftypavif\x00\x00\x00\x00", "image/avif"),
    (b"\x00\x00\x00\x18ftypisom\x00\x00", "video/mp4"),
    (b"\x00\x00\x00\x18ftypM4V ", "video/x-m4v"),
    (b"\x1a\x45\xdf\xa3\x93\x42\x82\x88matroska", "video/x-matroska"),
    (b"\x1a\x45\xdf\xa3", "video/webm"),
    (b"\x00\x00\x00\x14ftypqt  \x00\x00\x00\x00", "video/quicktime"),
    (b"RIFF\x01\x02\x03\x04AVI ", "video/x-msvideo"),
    (b"\x30\x26\xb2\x75\x8e\x66\xcf\x11\xa6\xd9", "video/x-ms-wmv"),
    (b"\x00\x00\x01\xba", "video/mpeg"),
    (b"FLV\x01", "video/x-flv"),
    (b"MThd", "audio/midi"),
    (b"ID3", "audio/mpeg"),
    (b"\xff\xfb\x90", "audio/mpeg"),
    (b"\x00\x00\x00\x18ftypM4A ", "audio/m4a"),
    (b"OggS", "audio/ogg"),
    (b"fLaC", "audio/x-flac"),
    (b"RIFF\x01\x02\x03\x04WAVE", "audio/x-wav"),
    (b"\xff\xf1", "audio/aac"),
    (b"FORM\x01\x02\x03\x04AIFF", "audio/x-aiff"),
    (b"wOFF\x00\x01\x00\x00", "application/font-woff"),
    (b"wOF2\x00\x01\x00\x00", "application/font-woff"),
    (b"\x00\x01\x00\x00\x00", "application/font-sfnt"),
    (b"OTTO\x00", "application/font-sfnt"),
    (b"PK\x03\x04", "application/zip"),
    (b"PK\x05\x06", "application/zip"),
    (b"Rar!\x1a\x07\x00", "application/vnd.rar"),
    (b"\x1f\x8b\x08", "application/gzip"),
    (b"BZh", "application/x-bzip2"),
    (b"7z\xbc\xaf\x27\x1c", "application/x-7z-compressed"),
    (b"\xfd7zXZ\x00", "application/x-xz"),
    (b"%PDF", "application/pdf"),
    (b"CWS", "application/x-shockwave-flash"),
    (b"{\\rtf", "application/rtf"),
    (b"%!", "application/postscript"),
    (b"SQLi", "application/vnd.sqlite3"),
    (b"NES\x1a", "application/x-nintendo-nes-rom"),
    (b"Cr24", "application/x-google-chrome-extension"),
    (b"MSCF", "application/vnd.ms-cab-compressed"),
    (b"!<arch>\ndebian-binary", "application/vnd.debian.binary-package"),
    (b"!<arch>", "application/x-unix-archive"),
    (b"\x1f\xa0", "application/x-compress"),
    (b"LZIP", "application/x-lzip"),
    (b"\x28\xb5\x2f\xfd", "application/zstd"),
    (b"<!DOCTYPE html>", "text/html"),
    (b" \n<HTML ", "text/html"),
    (b"<body>", "text/html"),
    (b"<!-- ", "text/html"),
    (b"\t<?xml", "text/xml"),
    (b"#!/", "text/x-shellscript"),
];

/// Known extensions and their registered types.
const EXTENSIONS: &[(&str, &str)] = &[
    ("7z", "application/x-7z-compressed"), ("atom", "application/atom+xml;charset=utf-8"), ("avi", "video/x-msvideo"),
    ("bin", "application/octet-stream"), ("exe", "application/octet-stream"), ("dll", "application/octet-stream"),
    ("iso", "application/octet-stream"), ("img", "application/octet-stream"), ("bmp", "image/bmp"),
    ("css", "text/css;charset=utf-8"), ("html", "text/html;charset=utf-8"), ("ico", "image/x-icon"),
    ("js", "text/javascript;charset=utf-8"), ("mjs", "text/javascript;charset=utf-8"), ("jsonp", "text/javascript;charset=utf-8"),
    ("json", "application/json"), ("m4a", "audio/mp4"), ("mid", "audio/midi"), ("midi", "audio/midi"), ("kar", "audio/midi"),
    ("mp3", "audio/mpeg"), ("mp4", "video/mp4"), ("mpeg", "video/mpeg"), ("mpg", "video/mpeg"), ("ogg", "audio/ogg"),
    ("otf", "font/otf"), ("rss", "application/rss+xml;charset=utf-8"), ("svg", "image/svg+xml"), ("svgz", "image/svg+xml"),
    ("ttf", "font/ttf"), ("txt", "text/plain;charset=utf-8"), ("wasm", "application/wasm"), ("webm", "video/webm"),
    ("webp", "image/webp"), ("woff", "font/woff"), ("woff2", "font/woff2"), ("xml", "application/xml;charset=utf-8"),
    ("zip", "application/zip"),
];

/// Makes a body of a file of that name in a scratch directory and reads it.
fn with_file<F: std::future::Future<Output = http_types::Result<Body>>>(
    name: &str,
    data: &[u8],
    f: impl FnOnce(std::path::PathBuf) -> F,
) -> Result<(Option<String>, Option<u64>, Vec<u8>), String> {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let dir = std::env::temp_dir().join(format!("mc-file-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    let path = dir.join(name);
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    std::fs::write(&path, data).unwrap();
    let r = async_std::task::block_on(async {
        let b = f(path.clone()).await.map_err(|e| e.to_string())?;
        let (m, l) = (b.mime().map(|m| m.to_string()), b.len());
        let bytes = b.into_bytes().await.map_err(|e| e.to_string())?;
        Ok((m, l, bytes))
    });
    std::fs::remove_dir_all(&dir).unwrap();
    r
}

pub fn build_c06(s: &mut Suite, thorough: bool) {
    let sizes: &'static [usize] = if thorough {
        &[0, 1, 299, 300, 301, 1024, 8191, 8192, 8193, 70000]
    } else {
        &[0, 300, 8193, 70000]
    };
    s.bound(&format!("9 content kinds (magic bytes, tar magic at offset 257, text, empty, misplaced magic) x sizes {sizes:?} x 9 file names x 3 constructors x 4 initial cursor positions x 2 read modes"));
    s.add("files", move |ch| {
        let kind = ch.choose(9);
        let size = *ch.pick(sizes);
        let (name, ext_mime): (&str, Option<mime::Mime>) = match ch.choose(9) {
            0 => ("f", None),
            1 => ("f.html", Some(mime::HTML)),
            2 => ("f.css", Some(mime::CSS)),
            3 => ("f.png", None),
            4 => ("f.tar.json", Some(mime::JSON)),
            5 => (".json", None),
            6 => ("f.", None),
            7 => ("f.js", Some(mime::JAVASCRIPT)),
            _ => ("f.unknown", None),
        };
        let (data, sniff) = content(kind, size);
        let how = ch.choose(3);
        let cursor = if how == 0 { 0 } else { *ch.pick(&[0usize, 1, 11, 100000]) };
        let big = ch.flag();
        ch.step();
        ch.note(|| format!("content kind {kind}, {} bytes, name {name:?}, constructor {how}, cursor {cursor}", data.len()));
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let dir = std::env::temp_dir().join(format!("mc-files-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(name);
        std::fs::write(&path, &data).unwrap();
        let body = async_std::task::block_on(async {
            use futures_lite::{AsyncReadExt, AsyncSeekExt};
            if how == 0 {
                return Body::from_path(&path).await;
            }
            let mut f = async_std::fs::File::open(&path).await?;
            match cursor {
                0 => {}
                100000 => {
                    let mut sink = vec![];
                    f.read_to_end(&mut sink).await?;
                }
                n => {
                    f.seek(std::io::SeekFrom::Start(n as u64)).await?;
                }
            }
            if how == 1 {
                Body::from_file(f).await
            } else {
                Body::from_file_with_path(f, &path).await
            }
        });
        let out = match body {
            Err(e) => Err(e.to_string()),
            Ok(b) => {
                let (m, l) = (b.mime().cloned(), b.len());
                let bytes = async_std::task::block_on(async move {
                    if big {
                        b.into_bytes().await.map_err(|e| e.to_string())
                    } else {
                        use futures_lite::AsyncReadExt;
                        let mut b = b;
                        let mut buf = [0u8; 7777];
                        let mut out = vec![];
                        loop {
                            let n = b.read(&mut buf).await.map_err(|e| e.to_string())?;
                            if n == 0 {
                                break Ok(out);
                            }
                            out.extend_from_slice(&buf[..n]);
                        }
                    }
                });
                Ok((m, l, bytes))
            }
        };
        std::fs::remove_file(&path).unwrap();
        std::fs::remove_dir(&dir).unwrap();
        let (m, l, bytes) = match out {
            Ok(x) => x,
            Err(e) => return viol("file-error", e),
        };
        let want_mime = sniff
            .map(|s| s.parse::<mime::Mime>().unwrap())
            .or(if how == 1 { None } else { ext_mime })
            .unwrap_or(mime::BYTE_STREAM);
        ch.state(&(want_mime.to_string(), data.len(), how, cursor));
        req_eq!(l, Some(data.len() as u64), "file-len", "len()");
        req!(bytes.as_ref().map_or(false, |b| *b == data), "file-content", "content differs: {} bytes delivered of {}", bytes.as_ref().map_or(0, |b| b.len()), data.len());
        req_eq!(m, Some(want_mime), "file-mime", "mime");
        Ok(())
    });
    // Every known signature, whole and cut short, in files of every kind of size.
    s.add("magics", move |ch| {
        let (head, m) = *ch.pick(MAGICS);
        let total = head.len();
        // the signature whole, followed by filler to a size; or a proper prefix alone
        let (data, whole) = if ch.flag() {
            let size = *ch.pick(&[0usize, 54, 120, 299, 300, 301, 400, 2048]);
            let mut v = head.to_vec();
            let fill = *ch.pick(&[0u8, b'a', 0xff]);
            while v.len() < size {
                v.push(fill);
            }
            (v, true)
        } else {
            let cut = ch.choose(total);
            (head[..cut].to_vec(), false)
        };
        let name = *ch.pick(&["x", "x.css", "x.bin"]);
        let by_file = ch.flag();
        ch.step();
        let direct = mime::Mime::sniff(&data[..data.len().min(300)]).ok().map(|m| m.to_string());
        if whole {
            req_eq!(direct, Some(m.to_string()), "sniff", "sniff of the signature of {m}, {} bytes", data.len());
        }
        ch.state(&(head, data.len(), whole, name));
        let want = direct.unwrap_or_else(|| if by_file || name != "x.css" { "application/octet-stream".into() } else { "text/css;charset=utf-8".into() });
        let (m, l, bytes) = with_file(name, &data, |p| async move {
            if by_file {
                Ok(Body::from_file(async_std::fs::File::open(&p).await?).await?)
            } else {
                Ok(Body::from_path(&p).await?)
            }
        })
        .map_err(|e| viol::<()>("file-error", e).unwrap_err())?;
        req_eq!(m, Some(want), "file-mime", "mime of a file of {} bytes holding {}", data.len(), data[..data.len().min(64)].escape_ascii());
        req_eq!(l, Some(data.len() as u64), "file-len", "len()");
        req!(bytes == data, "file-content", "{} bytes delivered of {}", bytes.len(), data.len());
        Ok(())
    });
    // Sniffing answers for every byte string, and only ever the type of a signature within it.
    s.add("sniff", move |ch| {
        let i = ch.choose(MAGICS.len() + 3);
        let ooxml = [&b"PK\x03\x04"[..], &[0; 26], b"[Content_Types].xml"].concat();
        let odf = [&b"PK\x03\x04"[..], &[0; 26], b"mimetype", &[0; 12], b"vnd.oasis.opendocument.text"].concat();
        let ole = b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1";
        let head = match i.checked_sub(MAGICS.len()) {
            None => MAGICS[i].0,
            Some(0) => &ooxml,
            Some(1) => &odf,
            _ => ole,
        };
        let cut = if ch.flag() { head.len() } else { ch.choose(head.len()) };
        let fill = *ch.pick(&[0u8, b' ', b'a', 0x80, 0xff]);
        ch.step();
        for size in (0..=320).chain([511, 512, 513, 1024, 4096]) {
            let mut v = head[..cut].to_vec();
            v.resize(size.max(cut), fill);
            let r = mime::Mime::sniff(&v).ok().map(|m| m.to_string());
            if let (None, true) = (i.checked_sub(MAGICS.len()), cut == head.len()) {
                // a longer signature can only be completed by filler in formats that share a head
                req_eq!(r.as_deref(), Some(MAGICS[i].1), "sniff", "sniff of {} and {} bytes of {fill:#x}", head.escape_ascii(), v.len() - cut);
            }
        }
        ch.state(&(i, cut, fill));
        Ok(())
    });
    s.add("file-sizes", move |ch| {
        let max = if thorough { 1200 } else { 320 };
        const BIG: &[usize] = &[1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 131072, 262145, 1 << 20, (1 << 20) + 1];
        let i = ch.choose(max + 1 + BIG.len());
        let size = if i <= max { i } else { BIG[i - max - 1] };
        let into_message = ch.choose(3);
        ch.step();
        ch.state(&(size, into_message));
        let data: Vec<u8> = (0..size).map(|i| b'a' + ((i ^ (i >> 8)) % 23) as u8).collect();
        let (m, l, bytes) = with_file("f.json", &data, |p| async move {
            let b = Body::from_path(&p).await?;
            Ok(match into_message {
                0 => b,
                1 => {
                    let mut r = http_types::Request::new(http_types::Method::Post, "http://a/");
                    r.set_body(b);
                    let h = r.header("content-type").map(|v| v.as_str().to_string());
                    if h.as_deref() != Some("application/json") || r.len() != Some(size as u64) {
                        return Err(http_types::Error::from_str(500, format!("request holds content-type {h:?}, len {:?}", r.len())));
                    }
                    r.into()
                }
                _ => {
                    let mut r = http_types::Response::new(200);
                    r.set_body(b);
                    let h = r.header("content-type").map(|v| v.as_str().to_string());
                    if h.as_deref() != Some("application/json") || r.len() != Some(size as u64) {
                        return Err(http_types::Error::from_str(500, format!("response holds content-type {h:?}, len {:?}", r.len())));
                    }
                    r.take_body()
                }
            })
        })
        .map_err(|e| viol::<()>("file-error", e).unwrap_err())?;
        req_eq!(m, Some("application/json".to_string()), "file-mime", "mime");
        req_eq!(l, Some(size as u64), "file-len", "len() of a file of {size} bytes");
        req!(bytes == data, "file-content", "{} bytes delivered of {size}", bytes.len());
        Ok(())
    });
    s.add("file-extensions", |ch| {
        let (e, m) = *ch.pick(EXTENSIONS);
        const BS: &str = "application/octet-stream";
        let (name, known) = match ch.choose(11) {
            0 => (format!("f.{e}"), true),
            1 => (format!("f.x.{e}"), true),
            2 => (format!("f..{e}"), true),
            3 => (format!("d.{e}/f"), false),
            4 => (format!("d.css/f.{e}"), true),
            5 => (format!(".{e}"), false),
            6 => (format!("{e}"), false),
            7 => (format!("f.{e}x"), false),
            8 => (format!("f.{e} "), false),
            9 => (format!(".h.{e}"), true),
            _ => (format!("\u{e9}\u{4e00}.{e}"), true),
        };
        // `jsx`, `bmpx` and the like must not be extensions of their own for the form `f.{e}x`
        let known = known || (name.ends_with('x') && EXTENSIONS.iter().any(|(k, _)| name == format!("f.{k}")));
        let kind = ch.choose(3);
        ch.step();
        ch.state(&name);
        let data: &[u8] = [&b"hello"[..], b"", b"GIF89a"][kind];
        let want = if kind == 2 { "image/gif" } else if known { m } else { BS };
        let (got, l, bytes) = with_file(&name, data, |p| async move {
            Ok(Body::from_path(&p).await?)
        })
        .map_err(|e| viol::<()>("file-error", e).unwrap_err())?;
        req_eq!(got.as_deref(), Some(want), "file-mime", "mime of a file {name:?}");
        req_eq!(l, Some(data.len() as u64), "file-len", "len()");
        req!(bytes == data, "file-content", "content differs");
        Ok(())
    });
    s.bound("links: 4 link names x 4 target names x 3 contents x chains of 1..=2 links; well-known file names");
    s.add("links", |ch| {
        // The type is guessed from the path that was given, the content is that of the file it leads to.
        const BS: &str = "application/octet-stream";
        const N: &[(&str, &str)] = &[("a.html", "text/html;charset=utf-8"), ("a.css", "text/css;charset=utf-8"), ("a.data", BS), ("a", BS)];
        let (target, _) = *ch.pick(N);
        let (link, m) = *ch.pick(N);
        let (data, sniffed) = *ch.pick(&[(&b"hello, this is longer than either name"[..], None), (b"", None), (b"GIF89a", Some("image/gif"))]);
        let twice = ch.flag();
        ch.step();
        ch.state(&(target, link, data, twice));
        let (got, l, bytes) = with_file(&format!("t/{target}"), data, |p| async move {
            let d = p.parent().unwrap().join("l");
            std::fs::create_dir_all(&d)?;
            let mut to = p.clone();
            if twice {
                std::os::unix::fs::symlink(&to, d.join("between.xml"))?;
                to = d.join("between.xml");
            }
            std::os::unix::fs::symlink(&to, d.join(link))?;
            Ok(Body::from_path(d.join(link)).await?)
        })
        .map_err(|e| viol::<()>("file-error", e).unwrap_err())?;
        req_eq!(got.as_deref(), Some(sniffed.unwrap_or(m)), "file-mime", "mime of a link {link:?} to {target:?}");
        req_eq!(l, Some(data.len() as u64), "file-len", "len()");
        req!(bytes == data, "file-content", "content differs");
        Ok(())
    });
    s.add("known-names", |ch| {
        const BS: &str = "application/octet-stream";
        let (name, m) = *ch.pick(&[
            ("index.html", "text/html;charset=utf-8"), ("robots.txt", "text/plain;charset=utf-8"), ("favicon.ico", "image/x-icon"), ("app.min.js", "text/javascript;charset=utf-8"),
            ("style.min.css", "text/css;charset=utf-8"), ("package.json", "application/json"), ("sitemap.xml", "application/xml;charset=utf-8"), ("README", BS), ("Makefile", BS),
            (".htaccess", BS), (".gitignore", BS), ("archive.tar.gz", BS), ("a.html.gz", BS), ("a.html~", BS), ("manifest.json", "application/json"), ("logo.svg", "image/svg+xml"),
        ]);
        let dir = *ch.pick(&["", "public/", "v1.2/", "a.html/"]);
        ch.step();
        ch.state(&(dir, name));
        let name = format!("{dir}{name}");
        let (got, l, bytes) = with_file(&name, b"hello", |p| async move { Ok(Body::from_path(&p).await?) }).map_err(|e| viol::<()>("file-error", e).unwrap_err())?;
        req_eq!((got.as_deref(), l), (Some(m), Some(5)), "file-mime", "mime and length of {name:?}");
        req!(bytes == b"hello", "file-content", "content differs");
        Ok(())
    });
    s.add("missing-file", |ch| {
        let p = *ch.pick(&["/nonexistent/definitely/missing.html", ""]);
        ch.step();
        let r = async_std::task::block_on(Body::from_path(p));
        req!(r.is_err(), "missing-file", "from_path({p:?}) succeeded");
        Ok(())
    });
    s.add("extensions", |ch| {
        let (e, m) = *ch.pick(EXTENSIONS);
        ch.step();
        ch.state(&e);
        req_eq!(mime::Mime::from_extension(e).map(|m| m.to_string()), Some(m.to_string()), "extension", "from_extension({e:?})");
        for bad in [format!(".{e}"), format!("{e} "), String::new(), format!("x{e}x")] {
            req_eq!(mime::Mime::from_extension(&bad), None, "extension", "from_extension({bad:?})");
        }
        Ok(())
    });
    s.assume("the file does not change while it is read; the async-std blocking pool is trusted");
}
