//! C18 media types, C19 media type matching and Accept.
use crate::engine::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::content::{Accept, MediaTypeProposal};
use http_types::headers::{Header, HeaderValue, ToHeaderValues};
use http_types::mime::{self, Mime};
use http_types::Response;
use std::str::FromStr;

// -- an independent implementation of the WHATWG MIME Sniffing algorithms ---------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ref {
    pub ty: String,
    pub sub: String,
    pub params: Vec<(String, String)>,
}

fn ws(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\t' | ' ')
}
fn qtext(c: char) -> bool {
    c == '\t' || ('\u{20}'..='\u{7e}').contains(&c) || ('\u{80}'..='\u{ff}').contains(&c)
}

pub fn ref_parse(s: &str) -> Option<Ref> {
    let v: Vec<char> = s.chars().collect();
    let mut a = 0;
    let mut b = v.len();
    while a < b && ws(v[a]) {
        a += 1;
    }
    while b > a && ws(v[b - 1]) {
        b -= 1;
    }
    let v = &v[a..b];
    let mut p = 0;
    let mut ty = String::new();
    while p < v.len() && v[p] != '/' {
        ty.push(v[p]);
        p += 1;
    }
    if !is_token(&ty) || p >= v.len() {
        return None;
    }
    p += 1;
    let mut sub = String::new();
    while p < v.len() && v[p] != ';' {
        sub.push(v[p]);
        p += 1;
    }
    while sub.chars().last().map_or(false, ws) {
        sub.pop();
    }
    if !is_token(&sub) {
        return None;
    }
    let mut params: Vec<(String, String)> = vec![];
    while p < v.len() {
        p += 1;
        while p < v.len() && ws(v[p]) {
            p += 1;
        }
        let mut name = String::new();
        while p < v.len() && v[p] != ';' && v[p] != '=' {
            name.push(v[p].to_ascii_lowercase());
            p += 1;
        }
        if p >= v.len() {
            break;
        }
        if v[p] == ';' {
            continue;
        }
        p += 1;
        let mut value = String::new();
        if p < v.len() && v[p] == '"' {
            p += 1;
            loop {
                if p >= v.len() {
                    break;
                }
                match v[p] {
                    '"' => {
                        p += 1;
                        break;
                    }
                    '\\' => {
                        p += 1;
                        if p >= v.len() {
                            value.push('\\');
                            break;
                        }
                        value.push(v[p]);
                        p += 1;
                    }
                    c => {
                        value.push(c);
                        p += 1;
                    }
                }
            }
            while p < v.len() && v[p] != ';' {
                p += 1;
            }
        } else {
            while p < v.len() && v[p] != ';' {
                value.push(v[p]);
                p += 1;
            }
            while value.chars().last().map_or(false, ws) {
                value.pop();
            }
            if value.is_empty() {
                continue;
            }
        }
        if is_token(&name) && value.chars().all(qtext) && !params.iter().any(|(n, _)| *n == name) {
            params.push((name, value));
        }
    }
    Some(Ref { ty: ty.to_ascii_lowercase(), sub: sub.to_ascii_lowercase(), params })
}

fn ref_format(r: &Ref) -> String {
    let mut s = format!("{}/{}", r.ty, r.sub);
    for (n, v) in &r.params {
        s.push(';');
        s.push_str(n);
        s.push('=');
        if is_token(v) {
            s.push_str(v);
        } else {
            s.push('"');
            for c in v.chars() {
                if c == '"' || c == '\\' {
                    s.push('\\');
                }
                s.push(c);
            }
            s.push('"');
        }
    }
    s
}

/// The serializations a media type may have: the order of declaration, except that
/// `charset=utf-8`, which the crate stores apart, may come first.
fn ref_formats(r: &Ref) -> Vec<String> {
    let mut first = r.clone();
    if let Some(i) = first.params.iter().position(|(n, v)| n == "charset" && v == "utf-8") {
        let c = first.params.remove(i);
        first.params.insert(0, c);
    }
    vec![ref_format(r), ref_format(&first)]
}

fn check(ch: &mut Ch, s: &str) -> R {
    ch.note(|| format!("media type {s:?}"));
    let got = match no_panic(|| Mime::from_str(s)) {
        Ok(g) => g,
        Err(p) => return viol("mime-panic", format!("{s:?}: {p}")),
    };
    ch.step();
    let want = ref_parse(s);
    let (m, r) = match (got, want) {
        (Err(_), None) => {
            ch.state(&0u8);
            return Ok(());
        }
        (Ok(m), Some(r)) => (m, r),
        (Ok(m), None) => return viol("mime-accepts", format!("{s:?} is no media type, but parses as {m:?}")),
        (Err(e), Some(r)) => return viol("mime-rejects", format!("{s:?} is {r:?}, but: {e}")),
    };
    ch.state(&ref_format(&r));
    matches_ref(&m, &r, s)
}

fn matches_ref(m: &Mime, r: &Ref, s: &str) -> R {
    req_eq!(m.basetype(), r.ty, "mime-basetype", "basetype of {s:?}");
    req_eq!(m.subtype(), r.sub, "mime-subtype", "subtype of {s:?}");
    req_eq!(m.essence(), format!("{}/{}", r.ty, r.sub), "mime-essence", "essence of {s:?}");
    for (n, v) in &r.params {
        req_eq!(m.param(n.as_str()).map(|v| v.as_str()), Some(v.as_str()), "mime-param", "param {n:?} of {s:?}");
        req_eq!(
            m.param(n.to_ascii_uppercase().as_str()).map(|v| v.to_string()),
            Some(v.clone()),
            "mime-param-case",
            "upper-case param {n:?} of {s:?}"
        );
    }
    for n in ["charset", "a", "b", "q", "x", "boundary"] {
        if !r.params.iter().any(|(k, _)| k == n) {
            req!(m.param(n).is_none(), "mime-param-extra", "{s:?} has no parameter {n}, got {:?}", m.param(n));
        }
    }
    for (n, _) in &r.params {
        // names of no parameter, though close to one
        for near in [format!(" {n}"), format!("{n} "), format!("{n}="), format!("x-{n}"), format!("{n}*"), n[..n.len() - 1].to_string(), format!("\t{n}\n")] {
            if !near.is_empty() && !r.params.iter().any(|(k, _)| *k == near) {
                let got = no_panic(|| m.param(near.as_str()).map(|v| v.to_string()));
                req!(!matches!(got, Ok(Some(_))), "mime-param-extra", "{s:?} has no parameter {near:?}, got {got:?}");
            }
        }
    }
    let text = m.to_string();
    req_eq!(format!("{m:#}"), text, "mime-format", "alternate Display of {s:?}");
    for (n, v) in &r.params {
        req_eq!(m.param(n.as_str()).map(|v| format!("{v:#}")), Some(v.clone()), "mime-format", "alternate Display of {n:?} of {s:?}");
    }
    req!(
        ref_formats(r).contains(&text),
        "mime-format",
        "{s:?} is formatted as {text:?}, not as {:?}",
        ref_format(r)
    );
    let again = Mime::from_str(&text);
    req!(
        again.as_ref().ok() == Some(m),
        "mime-round-trip",
        "{s:?} is formatted as {text:?}, which parses as {again:?} rather than {m:?}"
    );
    if text.is_ascii() {
        let hv: HeaderValue = m.clone().into();
        req_eq!(hv.as_str(), text, "mime-header-value", "HeaderValue from {s:?}");
        let vs: Vec<HeaderValue> = m.to_header_values().unwrap().collect();
        req_eq!(vs.len(), 1, "mime-header-values", "number of header values of {s:?}");
        req_eq!(vs[0].as_str(), text, "mime-header-values", "header values of {s:?}");
    }
    Ok(())
}

const CONSTANTS: &[(&str, Mime, &str)] = &[
    ("JAVASCRIPT", mime::JAVASCRIPT, "text/javascript"),
    ("CSS", mime::CSS, "text/css"),
    ("HTML", mime::HTML, "text/html"),
    ("PLAIN", mime::PLAIN, "text/plain"),
    ("XML", mime::XML, "application/xml"),
    ("RSS", mime::RSS, "application/rss+xml"),
    ("ATOM", mime::ATOM, "application/atom+xml"),
    ("ANY", mime::ANY, "*/*"),
    ("JSON", mime::JSON, "application/json"),
    ("SSE", mime::SSE, "text/event-stream"),
    ("BYTE_STREAM", mime::BYTE_STREAM, "application/octet-stream"),
    ("FORM", mime::FORM, "application/x-www-form-urlencoded"),
    ("MULTIPART_FORM", mime::MULTIPART_FORM, "multipart/form-data"),
    ("WASM", mime::WASM, "application/wasm"),
    ("BMP", mime::BMP, "image/bmp"),
    ("JPEG", mime::JPEG, "image/jpeg"),
    ("PNG", mime::PNG, "image/png"),
    ("SVG", mime::SVG, "image/svg+xml"),
    ("WEBP", mime::WEBP, "image/webp"),
    ("ICO", mime::ICO, "image/x-icon"),
    ("MIDI", mime::MIDI, "audio/midi"),
    ("MP3", mime::MP3, "audio/mpeg"),
    ("OGG", mime::OGG, "audio/ogg"),
    ("OPUS", mime::OPUS, "audio/opus"),
    ("M4A", mime::M4A, "audio/mp4"),
    ("MP4", mime::MP4, "video/mp4"),
    ("MPEG", mime::MPEG, "video/mpeg"),
    ("WEBM", mime::WEBM, "video/webm"),
    ("AVI", mime::AVI, "video/x-msvideo"),
    ("TTF", mime::TTF, "font/ttf"),
    ("OTF", mime::OTF, "font/otf"),
    ("WOFF", mime::WOFF, "font/woff"),
    ("WOFF2", mime::WOFF2, "font/woff2"),
    ("ZIP", mime::ZIP, "application/zip"),
    ("SEVENZIP", mime::SEVENZIP, "application/x-7z-compressed"),
];

pub fn build_c18(s: &mut Suite, thorough: bool) {
    s.bound("every sequence of at most 6 (thorough 7) tokens over 10 after 'a/b', and of 5 (6) over 9 from the empty string; every character up to U+0180 and three beyond, in 13 positions; every sequence of at most 4 (5) of 14 parameters; every sequence of at most 3 removals");
    s.assume("the order in which a charset=utf-8 parameter is serialized among the others is unspecified: the crate stores it apart and writes it first");

    let n = if thorough { 7 } else { 6 };
    s.add("parameter-syntax", move |ch| {
        let t = tokens(ch, &[";", "=", "\"", "\\", " ", "a", "B", "(", "\u{e9}", "charset"], n);
        check(ch, &format!("a/b{t}"))
    });
    let n = if thorough { 6 } else { 5 };
    s.add("type-syntax", move |ch| {
        let t = tokens(ch, &["a", "B", "/", ";", " ", "\t", "=", "\u{e9}", "*"], n);
        check(ch, &t)
    });
    s.add("characters", |ch| {
        let mut cs: Vec<char> = (0..0x180u32).filter_map(char::from_u32).collect();
        // with some whose lower or upper case is ASCII, or that are blanks only by Unicode
        cs.extend(['\u{2003}', '\u{3b1}', '\u{1f600}', '\u{212a}', '\u{17f}', '\u{1e9e}', '\u{2028}', '\u{3000}', '\u{feff}', '\u{ff0f}', '\u{ff1b}', '\u{ff1d}']);
        let c = *ch.pick(&cs);
        let t = *ch.pick(&[
            "@a/b", "a@/b", "a/b;@=1;k=2", "a/b;@=1;K=2;s=3", "@/@", "a/@b", "a/b@", "a/b@;a=1", "a/b;@a=1", "a/b;a@=1", "a/b;a=@1", "a/b;a=1@",
            "a/b;a=\"1@2\"", "a/b;a=\"1\\@2\"", "a/b;a=\"1\"@;b=2", "a/b;charset=utf-8@",
        ]);
        check(ch, &t.replace('@', &c.to_string()))
    });
    let n = if thorough { 5 } else { 4 };
    s.add("parameters", move |ch| {
        let t = tokens(
            ch,
            &[
                ";charset=utf-8", ";charset=UTF-8", ";CHARSET=\"utf-8\"", ";charset=x", ";charset=", ";charset=\"\"",
                ";charset=\"utf\\-8\"", ";a=1", ";A=2", ";a=\"1 \\\" ; 2\"", ";b", ";b=\u{100}", "; b=c ", ";x=y=z", ";a*=3", ";a*0=4",
            ],
            n,
        );
        check(ch, &format!("a/b{t}"))
    });
    s.bound("up to 300 parameters; types, subtypes, names and values (plain, quoted, escaped) of up to 5000 characters");
    s.add("scale", |ch| {
        let t = match ch.choose(3) {
            0 => {
                let n = ch.choose(301);
                let mut t = String::from("a/b");
                for i in 0..n {
                    t.push_str(&match i % 3 {
                        0 => format!(";p{i}=v{i}"),
                        1 => format!("; P{i}=\"q {i};\""),
                        _ => format!(";p{}=dup", i - 1),
                    });
                }
                t
            }
            1 => {
                let n = *ch.pick(&sizes(40, 5000));
                let x = *ch.pick(&["x", "X", "-"]);
                let x = x.repeat(n);
                ch.pick(&["@/b", "a/@", "a/b;@=1", "a/b;k=@", "a/b;k=\"@\";l=1", "a/b;k=@;K=2;charset=@"]).replace('@', &x)
            }
            _ => {
                let n = *ch.pick(&sizes(40, 5000));
                let x = *ch.pick(&["\\\"", "\\\\", ";", " ", "\u{e9}", "\\a"]);
                format!("a/b;k=\"{}\";l=1", x.repeat(n))
            }
        };
        check(ch, &t)
    });
    s.bound("charset names and parameters as used in practice, each in 6 spellings, before and after charset=utf-8, on 40 media types");
    s.add("in-practice", |ch| {
        let e = *ch.pick(ESSENCES);
        let (name, v) = *ch.pick(PRACTICE);
        let p = match ch.choose(6) {
            0 => format!("{name}={v}"),
            1 => format!("{name}=\"{v}\""),
            2 => format!("{}={}", name.to_uppercase(), v.to_uppercase()),
            3 => format!(" {name}=\"{}\"", v.chars().flat_map(|c| ['\\', c]).collect::<String>()),
            4 => format!("{name}={v};{name}=other"),
            _ => format!("{name} = {v}"),
        };
        let t = match ch.choose(4) {
            0 => format!("{e};{p}"),
            1 => format!("{e};charset=utf-8;{p}"),
            2 => format!("{e};{p}; charset=utf-8"),
            _ => format!("{};{p};a=1", e.to_uppercase()),
        };
        check(ch, &t)
    });
    s.add("removal", |ch| {
        let t = tokens(ch, &[";charset=utf-8", ";charset=x", ";a=1", ";b=\"q r\"", ";a=2", ";boundary=--x", ";q=1"], 3);
        let text = format!("a/b{t}");
        let (Ok(mut m), Some(mut r)) = (Mime::from_str(&text), ref_parse(&text)) else {
            return viol("mime-rejects", format!("{text:?}"));
        };
        for _ in 0..ch.choose(4) {
            let name = *ch.pick(&["charset", "CHARSET", "a", "b", "c", "Boundary", "q"]);
            let key = name.to_ascii_lowercase();
            let want = r.params.iter().position(|(n, _)| *n == key).map(|i| r.params.remove(i).1);
            let got = m.remove_param(name);
            req_eq!(got.map(|v| v.to_string()), want, "mime-remove", "remove_param({name:?}) after {text:?}");
            ch.step();
            ch.note(|| format!("remove {name}"));
            matches_ref(&m, &r, &text)?;
        }
        ch.state(&m.to_string());
        Ok(())
    });
    s.add("constants", |ch| {
        let (name, m, essence) = ch.pick(CONSTANTS).clone();
        req_eq!(m.essence(), essence, "mime-constant", "essence of {name}");
        let text = m.to_string();
        let r = match ref_parse(&text) {
            Some(r) => r,
            None => return viol("mime-constant", format!("{name} is formatted as {text:?}")),
        };
        req_eq!(format!("{}/{}", r.ty, r.sub), essence, "mime-constant", "serialization of {name}");
        let cs = m.param("charset").map(|v| v.to_string());
        let utf8 = ["JAVASCRIPT", "CSS", "HTML", "PLAIN", "XML", "RSS", "ATOM"].contains(&name);
        req_eq!(cs.as_deref(), if utf8 { Some("utf-8") } else { None }, "mime-constant", "charset of {name}");
        req_eq!(text, if utf8 { format!("{essence};charset=utf-8") } else { essence.to_string() }, "mime-constant", "text of {name}");
        ch.step();
        matches_ref(&m, &r, name)?;
        // equality follows the observable parts
        let (oname, o, _) = ch.pick(CONSTANTS).clone();
        req_eq!(m == o, name == oname, "mime-constant-eq", "{name} == {oname}");
        Ok(())
    });
}

const ESSENCES: &[&str] = &[
    "text/html", "text/plain", "text/css", "text/xml", "text/javascript", "text/event-stream", "text/csv", "text/markdown", "text/vcard", "text/x-c++",
    "application/json", "application/ld+json", "application/xml", "application/xhtml+xml", "application/octet-stream", "application/pdf", "application/zip",
    "application/x-www-form-urlencoded", "application/vnd.api+json", "application/vnd.ms-excel", "application/javascript", "application/problem+json",
    "application/grpc", "application/wasm", "multipart/form-data", "multipart/mixed", "multipart/byteranges", "image/png", "image/svg+xml", "image/jpeg",
    "image/x-icon", "audio/mpeg", "audio/mp4", "video/mp4", "video/webm", "font/woff2", "message/rfc822", "model/gltf+json", "x/x", "*/*", "x-world/x-3d", "x-x/x-x-y", "chemical/x-pdb", "text/x-", "x-/y", "text/vnd.a.", "text/.a", "text/a+", "text/+xml", "text/-", "x.y/prs.z",
];
const PRACTICE: &[(&str, &str)] = &[
    ("charset", "utf-8"), ("charset", "utf8"), ("charset", "UTF-8"), ("charset", "Utf-8"), ("charset", "utf-16"), ("charset", "unicode-1-1-utf-8"), ("charset", "utf-8-sig"),
    ("charset", "utf_8"), ("charset", "us-ascii"), ("charset", "ascii"), ("charset", "iso-8859-1"), ("charset", "latin1"), ("charset", "windows-1252"), ("charset", "shift_jis"),
    ("charset", "gbk"), ("charset", "binary"), ("charset", "utf-8;"), ("charset", "utf-8 "), ("charset", " utf-8"), ("charset", "utf-8\t"), ("boundary", "----WebKitFormBoundary7MA4YWxk"), ("boundary", "'gc0p4Jq0M:2Yt08jU534c0p'"), ("q", "0.5"),
    ("version", "1.0"), ("version", "2"), ("profile", "http://www.w3.org/ns/json-ld#compacted"), ("codecs", "avc1.42E01E, mp4a.40.2"), ("level", "1"), ("format", "flowed"),
    ("delsp", "yes"), ("name", "a file.txt"), ("type", "text/xml"), ("start", "<id@x>"), ("encoding", "utf-8"), ("action", "urn:x:y"), ("odata.metadata", "minimal"), ("utf-8", "charset"), ("x-charset", "utf-8"), ("x-charset", "x"), ("accept-charset", "utf-8"), ("charsets", "utf-8"), ("charset-x", "utf-8"), ("xcharset", "a"),
    ("chars", "utf-8"), ("charset*", "utf-8''x"), ("x-mac-type", "54455854"), ("x-", "1"), ("-", "1"), ("q1", "1"), ("qs", "0.7"), ("xq", "0.7"),
];

// -- C19 ---------------------------------------------------------------------------------------

fn ref_subset(a: &Ref, b: &Ref) -> bool {
    (b.ty == "*" || a.ty == b.ty)
        && (b.sub == "*" || a.sub == b.sub)
        && b.params.iter().all(|p| a.params.contains(p))
}

struct Entry {
    range: Ref,
    weight: f32,
}

/// What a negotiation over `available` must give: `None` where a type is at once within a refused
/// and an accepted range (which of the two prevails is unspecified).
fn ref_negotiate(entries: &[Entry], wildcard: bool, available: &[Ref]) -> Option<Option<usize>> {
    let within = |a: &Ref, zero: bool| entries.iter().any(|e| (e.weight == 0.0) == zero && ref_subset(a, &e.range));
    if available.iter().any(|a| within(a, true) && within(a, false)) {
        return None;
    }
    let mut order: Vec<usize> = (0..entries.len()).filter(|i| entries[*i].weight > 0.0).collect();
    // heaviest first, then latest declared first
    order.sort_by(|a, b| entries[*b].weight.partial_cmp(&entries[*a].weight).unwrap().then(b.cmp(a)));
    for i in order {
        if let Some(j) = available.iter().position(|a| ref_subset(a, &entries[i].range)) {
            return Some(Some(j));
        }
    }
    if wildcard {
        return Some(available.iter().position(|a| !within(a, true)));
    }
    Some(None)
}

fn check_negotiation(ch: &mut Ch, accept: &mut Accept, entries: &[Entry], wildcard: bool, ctx: &str) -> R {
    let avail = ch.seq(&["text/html", "text/css", "image/png", "text/html;charset=utf-8", "text/html;a=1"], 2);
    let refs: Vec<Ref> = avail.iter().map(|a| ref_parse(a).unwrap()).collect();
    let mimes: Vec<Mime> = avail.iter().map(|a| Mime::from_str(a).unwrap()).collect();
    let want = ref_negotiate(entries, wildcard, &refs);
    for round in 0..2 {
        let got = match no_panic(|| accept.negotiate(&mimes)) {
            Ok(g) => g,
            Err(p) => return viol("accept-panic", format!("{ctx}: {p}")),
        };
        ch.step();
        let st = st(&got);
        let got: Option<String> = got.ok().map(|ct| ct.header_value().to_string());
        req!(st == 0 || st == 406, "accept-status", "{ctx}: failing to negotiate {avail:?} has status {st}");
        match want {
            None => {
                if let Some(g) = &got {
                    req!(
                        mimes.iter().any(|m| m.to_string() == *g),
                        "accept-invents",
                        "{ctx}: {g} is not among {avail:?}"
                    );
                }
            }
            Some(w) => {
                let w = w.map(|i| mimes[i].to_string());
                req_eq!(got, w, "accept-negotiate", "round {round}: {ctx} negotiated over {avail:?}");
            }
        }
    }
    Ok(())
}

crate::listed!(
    Accept, MediaTypeProposal, "accept", &["text/html;q=0.5", "*", "a/b;c=\"d, *\", *, */*;q=0.1"],
    vec![
        MediaTypeProposal::new(mime::JSON, Some(0.8)).unwrap(),
        MediaTypeProposal::new(Mime::from_str("text/*").unwrap(), Some(0.0)).unwrap(),
        MediaTypeProposal::new(mime::HTML, None).unwrap(),
    ],
    |e: &MediaTypeProposal| format!("{};q={:.3}", e.media_type(), e.weight().unwrap_or(1.0))
);

pub fn build_c19(s: &mut Suite, thorough: bool) {
    super::edits::edits::<Accept>(s, "history", if thorough { 5 } else { 4 });
    s.bound("Accept headers of up to 3 ranges, sorted or negotiated, then one or two ranges replaced in place, then negotiated again");
    s.add("edited", |ch| {
        const RANGES: [&str; 3] = ["text/html", "image/*", "a/b;c=d"];
        const AVAIL: [&str; 3] = ["a/b;c=d", "image/png", "text/html"];
        let n = 1 + ch.choose(3);
        let p = |i: usize, w: f32| MediaTypeProposal::new(Mime::from_str(RANGES[i]).unwrap(), Some(w)).unwrap();
        let mut acc = Accept::new();
        for i in 0..n {
            acc.push(p(i, *ch.pick(&[0.9, 0.6, 0.3])));
        }
        let avail: Vec<Mime> = AVAIL.iter().map(|a| a.parse().unwrap()).collect();
        match ch.choose(3) {
            0 => {}
            1 => acc.sort(),
            _ => drop(acc.negotiate(&avail)),
        }
        // new weights, all different, in the order which the list has by now
        let ws = *ch.pick(&[[0.2, 0.4, 0.8], [0.2, 0.8, 0.4], [0.4, 0.2, 0.8], [0.4, 0.8, 0.2], [0.8, 0.2, 0.4], [0.8, 0.4, 0.2], [0.0, 1.0, 0.5], [1.0, 0.5, 0.0], [0.5, 0.0, 1.0]]);
        let rot = ch.choose(n);
        let mut want = vec![];
        let whole = ch.flag();
        for (i, x) in acc.iter_mut().enumerate() {
            let r = if whole {
                (i + rot) % n
            } else {
                (0..n).find(|k| p(*k, 1.0).media_type() == x.media_type()).unwrap()
            };
            *x = p(r, ws[i]);
            want.push((r, ws[i]));
        }
        ch.step();
        let ctx = format!("{acc:?}");
        ch.note(|| ctx.clone());
        ch.state(&ctx);
        want.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
        let best = want.iter().find(|w| w.1 > 0.0).map(|w| avail[2 - w.0].clone());
        for _ in 0..2 {
            let best = best.clone().filter(|_| true);
            req_eq!(acc.negotiate(&avail).ok().map(|c| c.header_value().to_string()), best.map(|m| m.to_string()), "edited", "{ctx}");
        }
        acc.sort();
        let got: Vec<_> = acc.iter().map(|x| x.clone()).collect();
        req!(got == want.iter().map(|w| p(w.0, w.1)).collect::<Vec<_>>(), "edited-sort", "{ctx} sorted {got:?}");
        Ok(())
    });
    s.bound("subset_eq over every pair of 108 media types; Accept lists of at most 3 (thorough 4) entries over 9 ranges and 6 weights, split over header lines in every way, against every list of at most 2 of 5 available types, negotiated twice; every sequence of at most 5 (6) tokens of a header line");
    s.assume("a type that is at once within a range refused with q=0 and within another, accepted range may be chosen or not (the crate does not rank ranges by specificity); weights within the RFC grammar (0 to 1, at most three decimals)");

    s.add("subset", |ch| {
        let mut mk = |ch: &mut Ch| {
            let ty = *ch.pick(&["text", "*", "image"]);
            let sub = *ch.pick(&["css", "*", "html"]);
            let cs = *ch.pick(&["", ";charset=utf-8", ";charset=x"]);
            let a = *ch.pick(&["", ";a=1", ";a=\"1\"", ";a=2"]);
            format!("{ty}/{sub}{a}{cs}")
        };
        let (a, b) = (mk(ch), mk(ch));
        let (ma, mb) = (Mime::from_str(&a).unwrap(), Mime::from_str(&b).unwrap());
        let want = ref_subset(&ref_parse(&a).unwrap(), &ref_parse(&b).unwrap());
        ch.step();
        ch.state(&(ref_format(&ref_parse(&a).unwrap()), ref_format(&ref_parse(&b).unwrap())));
        req_eq!(ma.subset_eq(&mb), want, "subset", "{a} subset_eq {b}");
        Ok(())
    });

    s.bound("subset_eq of every pair of 40 media types as used in practice, and of every pair of 16 parameter lists that nearly agree");
    s.add("near-misses", |ch| {
        let (a, b) = if ch.flag() {
            (ch.pick(ESSENCES).to_string(), ch.pick(ESSENCES).to_string())
        } else {
            const PARAMS: &[&str] = &[
                "", ";a=1", ";a=12", ";a=\"1 \"", ";a=b", ";a=B", ";ab=1", ";b=1", ";a=1;b=1", ";b=1;a=1", ";a=\"\"", ";a=1;charset=utf-8", ";charset=utf-8", ";charset=utf-16",
                ";charset=x;a=1", ";a=1;b=2;c=3", ";a=1;b=2;c=4", ";a=1;b=2", ";c=3", ";x-a=1", ";x-a=2", ";x-a=1;x-b=2", ";a=1;b=2;c=3;d=4;e=5", ";a=1;b=2;c=3;d=4;e=6", ";a=1;b=2;c=3;d=4;charset=utf-8",
                ";a=1;b=2;c=3;d=4;charset=utf-16", ";version=1", ";VERSION=1", ";level=1", ";q1=1", ";qs=1", ";qs=0.5", ";boundary=x", ";charset=utf-8;x-charset=utf-8",
            ];
            (format!("text/x{}", ch.pick(PARAMS)), format!("{}{}", ch.pick(&["text/x", "text/*", "*/*"]), ch.pick(PARAMS)))
        };
        let (ra, rb) = (ref_parse(&a).unwrap(), ref_parse(&b).unwrap());
        let want = ref_subset(&ra, &rb);
        let (ma, mb) = (Mime::from_str(&a).unwrap(), Mime::from_str(&b).unwrap());
        ch.step();
        ch.state(&(&a, &b));
        req_eq!(ma.subset_eq(&mb), want, "subset", "{a} subset_eq {b}");
        let mut acc = Accept::from_headers(response("accept", &[b.clone()])).unwrap().unwrap();
        req_eq!(acc.negotiate(&[ma]).is_ok(), want, "accept-negotiate", "Accept: {b} over {a}");
        Ok(())
    });
    s.bound("36 malformed weights and ranges, first, amid or last among others; weights below a thousandth as proposed");
    s.add("malformed", |ch| {
        const BAD: &[&str] = &[
            "text/html;q=1.1", "text/html;q=2", "text/html;q=1.0001", "text/html;q=-1", "text/html;q=-0.5", "text/html;q=NaN", "text/html;q=inf", "text/html;q=-inf", "text/html;q=infinity",
            "text/html;q=abc", "text/html;q=\"\"", "text/html;q=0x1", "text/html;q=1e", "text/html;q=..5", "text/html;q=1_0", "text/html;q=1.0.0", "text/html;q=\"0,5\"", "text/html;Q=10",
            "text/html;q=1;q=x;a=b;q=2x/", "text", "text/", "/html", "/", "te xt/html", "text/ht ml", "text/html/x", "text\\html", "text/(x)", "text;q=1", "\"text\"/html", "*/", "**", "text/html;q=1e9", "text/html;q=1=2", "text/html;q==1", "text/html;q=0.5=", "text/html;q=\" 0.5\"", "text/html;q=\"0.5 \"", "text/html;q=\"\t1\"", "text/html;q= 0.5", "text/html;q=\" \"",
        ];
        let b = *ch.pick(BAD);
        if b.contains("q=1;q=x") {
            // the first q counts
            return Ok(());
        }
        let line = match ch.choose(4) {
            0 => b.to_string(),
            1 => format!("{b}, image/png"),
            2 => format!("image/png;q=0.5,{b},*"),
            _ => format!("image/*, text/css;q=0 ,{b}"),
        };
        ch.step();
        ch.state(&line);
        let got = Accept::from_headers(res_with(&[("accept", &line)]));
        req_eq!(st(&got), 400, "accept-malformed", "Accept: {line}");
        let two = res_with(&[("accept", "image/png"), ("accept", &line), ("accept", "text/css")]);
        req_eq!(st(&Accept::from_headers(two)), 400, "accept-malformed", "Accept: {line} between others");
        Ok(())
    });
    s.bound("every sequence of at most 3 of 14 parameters beside the weight, one of them possibly the weight, on 3 ranges, read, written and negotiated");
    s.add("parameters", |ch| {
        // only q is the weight; every other parameter belongs to the range
        let r = *ch.pick(&["text/html", "text/*", "*/*"]);
        let mut rr = ref_parse(r).unwrap();
        let mut text = r.to_string();
        let mut w: Option<f32> = None;
        for _ in 0..ch.choose(4) {
            let (n, v) = *ch.pick(&[
                ("qs", "0.7"), ("q1", "0.1"), ("xq", "0.2"), ("x-q", "0.3"), ("level", "1"), ("quality", "0"), ("weight", "0"), ("charset", "utf-8"), ("charset", "x"), ("a", "q=0"), ("b", "1;q=0.3"),
                ("q", "0.5"), ("Q", "1"), ("q", "0"),
            ]);
            text.push_str(&if is_token(v) { format!(";{n}={v}") } else { format!("; {n}=\"{v}\"") });
            if n.eq_ignore_ascii_case("q") {
                w = w.or(Some(v.parse().unwrap()));
            } else if !rr.params.iter().any(|p| p.0 == n) {
                rr.params.push((n.to_string(), v.to_string()));
            }
        }
        ch.note(|| format!("Accept: {text}"));
        ch.state(&text);
        let mut acc = match Accept::from_headers(res_with(&[("accept", &format!("image/a;q=0.25, {text}"))])) {
            Ok(Some(a)) => a,
            o => return viol("accept-rejects", format!("{text}: {o:?}")),
        };
        let w = w.unwrap_or(1.0);
        let view = |a: &Accept| -> Vec<(String, Option<f32>)> { a.iter().map(|p| (p.media_type().to_string(), p.weight())).collect() };
        let got = view(&acc);
        req!(
            got.len() == 2 && ref_formats(&rr).contains(&got[1].0) && got[1].1 == Some(w),
            "accept-entries",
            "{text} is read as {got:?}, not as {} with weight {w}",
            ref_format(&rr)
        );
        let again = Accept::from_headers(applied(&acc, "accept")?).unwrap().unwrap();
        req_eq!(view(&again), got, "accept-round-trip", "{text} written as {:?}", acc.header_value());
        // over what has exactly these parameters, and what has one less
        let (base, full) = ("text/html", {
            let mut f = rr.clone();
            f.ty = "text".into();
            f.sub = "html".into();
            ref_format(&f)
        });
        let mk = |t: &str| Mime::from_str(t).unwrap();
        req_eq!(acc.negotiate(&[mk(&full)]).is_ok(), w > 0.0, "accept-negotiate", "{text} over {full}");
        req_eq!(acc.negotiate(&[mk(base)]).is_ok(), w > 0.0 && rr.params.is_empty(), "accept-negotiate", "{text} over {base}");
        Ok(())
    });
    s.add("pushed", |ch| {
        // what is pushed is written in full, with its weight or none
        let t = *ch.pick(&["text/html", "text/html;charset=utf-8", "text/html;a=1", "a/b;c=\"d e\";f=g;charset=utf-8", "*/*", "text/*;level=1"]);
        let m = Mime::from_str(t).unwrap();
        let w = *ch.pick(&[None, Some(0.0f32), Some(0.5), Some(1.0)]);
        let mut acc = Accept::new();
        let first = ch.flag();
        if first {
            acc.push(Mime::from_str("image/x").unwrap());
        }
        match w {
            None if ch.flag() => acc.push(m.clone()),
            w => acc.push(MediaTypeProposal::new(m.clone(), w).unwrap()),
        }
        let q = w.map_or(String::new(), |w| format!(";q={w:.3}"));
        let want = format!("{}{m}{q}", if first { "image/x, " } else { "" });
        ch.step();
        ch.state(&want);
        let text = acc.header_value().to_string();
        let plain = text.replace("image/x;q=1.000", "image/x");
        let plain = if w.is_none() { plain.strip_suffix(";q=1.000").unwrap_or(&plain) } else { &plain };
        req_eq!(plain, want, "accept-pushed", "{t} with weight {w:?}");
        let mut again = Accept::from_headers(applied(&acc, "accept")?).unwrap().unwrap();
        let got: Vec<(Mime, f32)> = again.iter().map(|p| (p.media_type().clone(), p.weight().unwrap_or(1.0))).collect();
        req_eq!(got.last().cloned(), Some((m.clone(), w.unwrap_or(1.0))), "accept-pushed", "{want}");
        for a in [&mut acc, &mut again] {
            req_eq!(a.negotiate(&[m.clone()]).is_ok(), w != Some(0.0), "accept-pushed", "{want} over {t}");
        }
        Ok(())
    });
    s.add("tiny-weights", |ch| {
        let ws = [0.0f32, f32::MIN_POSITIVE, 1e-30, 1e-6, 0.0001, 0.0009, 0.00099, 0.001, 0.9999, 0.99999994, 1.0];
        let (i, j) = (ch.choose(ws.len()), ch.choose(ws.len()));
        ch.step();
        ch.state(&(i, j));
        let (a, b) = (Mime::from_str("text/a").unwrap(), Mime::from_str("text/b").unwrap());
        let mut acc = Accept::new();
        acc.push(MediaTypeProposal::new(a.clone(), Some(ws[i])).unwrap());
        acc.push(MediaTypeProposal::new(b.clone(), Some(ws[j])).unwrap());
        let want = if i == 0 && j == 0 { None } else if i > j { Some("text/a") } else { Some("text/b") };
        let got = acc.negotiate(&[a.clone(), b.clone()]).ok().map(|c| c.header_value().to_string());
        req_eq!(got.as_deref(), want, "accept-weight-order", "weights {} and {}", ws[i], ws[j]);
        req_eq!(acc.negotiate(&[a]).is_ok(), i > 0, "accept-weight-order", "weight {}", ws[i]);
        Ok(())
    });

    const RANGES: &[&str] = &[
        "text/html", "text/*", "*/*", "image/png", "text/html;charset=utf-8", "TEXT/css", "text/html;a=1", "*", "", "text/html;a=\"x, */*\\\\\"",
    ];
    const QS: &[(&str, f32)] = &[("", 1.0), (";q=1", 1.0), (";q=0.5", 0.5), ("; Q=0.500", 0.5), (" ;q=0", 0.0), (";q=0.001", 0.001)];
    let n = if thorough { 3 } else { 2 };
    s.add("negotiation", move |ch| {
        let mut res = Response::new(200);
        let k = 1 + ch.choose(n);
        let mut entries = vec![];
        let mut wildcard = false;
        let mut line = String::new();
        let mut all = vec![];
        for i in 0..k {
            let r = *ch.pick(RANGES);
            let el = if r == "*" {
                wildcard = true;
                r.to_string()
            } else if r.is_empty() {
                r.to_string()
            } else {
                let (q, w) = *ch.pick(QS);
                entries.push(Entry { range: ref_parse(r).unwrap(), weight: w });
                format!("{r}{q}")
            };
            if i > 0 {
                match ch.choose(3) {
                    0 => line.push(','),
                    1 => line.push_str(" ,\t"),
                    _ => {
                        res.append_header("accept", line.as_str()).unwrap();
                        all.push(std::mem::take(&mut line));
                    }
                }
            }
            line.push_str(&el);
        }
        res.append_header("accept", line.as_str()).unwrap();
        all.push(line);
        let ctx = format!("Accept {all:?}");
        ch.note(|| ctx.clone());
        let mut accept = match Accept::from_headers(&res) {
            Ok(Some(a)) => a,
            Ok(None) => return viol("accept-absent", ctx),
            Err(e) => return viol("accept-rejects", format!("{ctx}: {e}")),
        };
        req_eq!(accept.wildcard(), wildcard, "accept-wildcard", "{ctx}");
        let got: Vec<(String, Option<f32>)> = accept.iter().map(|p| (p.media_type().to_string(), p.weight())).collect();
        let want: Vec<(String, Option<f32>)> = entries.iter().map(|e| (ref_format(&e.range), Some(e.weight))).collect();
        req_eq!(got, want, "accept-entries", "entries of {ctx}");
        // every way to walk through it
        let view = |p: &MediaTypeProposal| (p.media_type().to_string(), p.weight());
        req_eq!(drained(accept.iter())?.into_iter().map(view).collect::<Vec<_>>(), want, "accept-iter", "{ctx}");
        req_eq!(drained((&accept).into_iter())?.into_iter().map(view).collect::<Vec<_>>(), want, "accept-iter", "{ctx}");
        req_eq!(drained(accept.iter_mut())?.len(), want.len(), "accept-iter", "{ctx}");
        req_eq!(drained((&mut accept).into_iter())?.len(), want.len(), "accept-iter", "{ctx}");
        // round trip through its own header
        let res2 = applied(&accept, "accept")?;
        if !entries.is_empty() || wildcard {
            let mut again = match Accept::from_headers(&res2) {
                Ok(Some(a)) => a,
                o => return viol("accept-round-trip", format!("{ctx}: written as {:?} reads {o:?}", accept.header_value())),
            };
            let g2: Vec<(String, Option<f32>)> = again.iter().map(|p| (p.media_type().to_string(), p.weight())).collect();
            req_eq!((g2, again.wildcard()), (want, wildcard), "accept-round-trip", "{ctx}");
            if ch.flag() {
                return check_negotiation(ch, &mut again, &entries, wildcard, &ctx);
            }
            req_eq!(drained(again.into_iter())?.iter().map(view).collect::<Vec<_>>().len(), entries.len(), "accept-iter", "{ctx}");
        }
        if ch.flag() {
            accept.sort();
        }
        check_negotiation(ch, &mut accept, &entries, wildcard, &ctx)
    });
    let n = if thorough { 4 } else { 3 };
    s.add("ties", move |ch| {
        // programs over push, sort and negotiate
        let mut accept = Accept::new();
        let mut entries: Vec<Entry> = vec![];
        let mut ctx = String::from("program");
        if ch.flag() {
            accept.sort();
            ctx.push_str(" sort");
        }
        for _ in 0..ch.choose(n + 1) {
            let r = *ch.pick(&["text/html", "text/css", "image/*"]);
            let w = *ch.pick(&[1.0f32, 0.5, 0.0]);
            accept.push(MediaTypeProposal::new(Mime::from_str(r).unwrap(), Some(w)).unwrap());
            entries.push(Entry { range: ref_parse(r).unwrap(), weight: w });
            ctx.push_str(&format!(" push({r},{w})"));
            if ch.flag() {
                accept.sort();
                ctx.push_str(" sort");
                let mut idx: Vec<usize> = (0..entries.len()).collect();
                idx.sort_by(|a, b| entries[*b].weight.partial_cmp(&entries[*a].weight).unwrap().then(b.cmp(a)));
                let want: Vec<String> = idx.iter().map(|i| ref_format(&entries[*i].range)).collect();
                let got: Vec<String> = accept.iter().map(|p| p.media_type().to_string()).collect();
                req_eq!(got, want, "accept-sort", "{ctx}");
            }
        }
        let wildcard = ch.flag();
        if wildcard || ch.flag() {
            accept.set_wildcard(wildcard);
        }
        req_eq!(accept.wildcard(), wildcard, "accept-wildcard", "{ctx}");
        ch.note(|| ctx.clone());
        check_negotiation(ch, &mut accept, &entries, wildcard, &ctx)
    });
    s.bound("every pair of weights of up to three decimals; lists of up to 300 (thorough 1000) ranges with falling, rising, equal and cycling weights, over 1 or 3 header lines or one for each");
    s.add("weights", |ch| {
        let a = ch.choose(1001);
        let (wa, ta) = (a as f32 / 1000.0, format!("{}.{:03}", a / 1000, a % 1000));
        // as read
        for t in [ta.as_str(), ta.trim_end_matches('0'), ta.trim_end_matches('0').trim_end_matches('.')] {
            let res = res_with(&[("accept", &format!("text/a;q={t}, text/b"))]);
            let got = Accept::from_headers(&res).ok().flatten().map(|a| a.iter().map(|p| p.weight()).collect::<Vec<_>>());
            req_eq!(got, Some(vec![Some(wa), Some(1.0)]), "accept-weight", "q={t}");
        }
        let (ma, mb) = (Mime::from_str("text/a").unwrap(), Mime::from_str("text/b").unwrap());
        let p = |m: &Mime, w| MediaTypeProposal::new(m.clone(), Some(w)).unwrap();
        let v: HeaderValue = p(&ma, wa).into();
        req_eq!(v.as_str(), format!("text/a;q={ta}"), "accept-weight", "{wa}");
        for b in 0..=1000 {
            let wb = b as f32 / 1000.0;
            let mut acc = Accept::new();
            acc.push(p(&ma, wa));
            acc.push(p(&mb, wb));
            let want = match (a, b) {
                (0, 0) => None,
                _ if a > b => Some(&ma),
                _ => Some(&mb),
            };
            let got = acc.negotiate(&[ma.clone(), mb.clone()]).ok();
            req_eq!(got.map(|c| c.header_value().to_string()), want.map(|m| m.to_string()), "accept-weight-order", "text/a;q={wa}, text/b;q={wb}");
            req_eq!(p(&ma, wa).partial_cmp(&p(&mb, wb)), Some(a.cmp(&b)), "accept-weight-order", "{wa} and {wb}");
        }
        ch.step();
        Ok(())
    });
    let large = if thorough { 1000 } else { 300 };
    s.add("scale", move |ch| {
        let n = 1 + ch.choose(large);
        let how = ch.choose(4);
        let w = |i: usize| match how {
            0 => 1000 - i % 1000,
            1 => 1 + i % 1000,
            2 => 500,
            _ => 1 + i * 7 % 13,
        };
        let els: Vec<String> = (0..n).map(|i| format!("text/t{i};q={}.{:03}", w(i) / 1000, w(i) % 1000)).collect();
        let ls = spread(ch, &els, ", ");
        let mut accept = match Accept::from_headers(response("accept", &ls)) {
            Ok(Some(a)) => a,
            o => return viol("accept-scale", format!("{n} ranges: {o:?}")),
        };
        let entries: Vec<Entry> = (0..n).map(|i| Entry { range: ref_parse(&format!("text/t{i}")).unwrap(), weight: w(i) as f32 / 1000.0 }).collect();
        let got: Vec<String> = accept.iter().map(|p| p.media_type().to_string()).collect();
        let want: Vec<String> = (0..n).map(|i| format!("text/t{i}")).collect();
        req_eq!(got, want, "accept-scale", "{n} ranges");
        let again = Accept::from_headers(applied(&accept, "accept")?).unwrap().unwrap();
        req_eq!(again.iter().map(|p| (p.to_string(), p.weight())).collect::<Vec<_>>(), accept.iter().map(|p| (p.to_string(), p.weight())).collect::<Vec<_>>(), "accept-scale", "round trip of {n} ranges");
        let mut idx: Vec<usize> = (0..n).collect();
        idx.sort_by(|a, b| w(*b).cmp(&w(*a)).then(b.cmp(a)));
        let all: Vec<Mime> = entries.iter().map(|e| Mime::from_str(&ref_format(&e.range)).unwrap()).collect();
        // the best of all, and of some that are not the best
        for avail in [idx.clone(), idx[n / 2..].to_vec(), vec![idx[n - 1]], vec![0], vec![n - 1]] {
            let mimes: Vec<Mime> = avail.iter().map(|i| all[*i].clone()).collect();
            let got = accept.negotiate(&mimes).ok().map(|c| c.header_value().to_string());
            ch.step();
            req_eq!(got, Some(mimes[0].to_string()), "accept-scale", "{n} ranges");
        }
        let got: Vec<String> = accept.iter().map(|p| p.media_type().to_string()).collect();
        let want: Vec<String> = idx.iter().map(|i| all[*i].to_string()).collect();
        req_eq!(got, want, "accept-scale", "order of {n} ranges");
        Ok(())
    });
    let n = if thorough { 6 } else { 5 };
    s.add("totality", move |ch| {
        let t = tokens(ch, &["a/b", "*", ",", ";q=", "0.5", "1.1", "-1", "NaN", " ", "\"", "/"], n);
        ch.note(|| format!("Accept: {t:?}"));
        let res = res_with(&[("accept", &t)]);
        let got = match no_panic(|| Accept::from_headers(&res)) {
            Ok(g) => g,
            Err(p) => return viol("accept-panic", format!("Accept {t:?}: {p}")),
        };
        ch.step();
        let code = st(&got);
        req!(code == 0 || code == 400, "accept-parse-status", "Accept {t:?} is reported with status {code}");
        if let Ok(a) = got {
            let Some(a) = a else { return viol("accept-absent", t) };
            for p in a.iter() {
                let w = p.weight();
                req!(
                    w.map_or(true, |w| (0.0..=1.0).contains(&w)),
                    "accept-weight-range",
                    "Accept {t:?} has weight {w:?}"
                );
            }
        }
        Ok(())
    });
    s.add("proposals", |ch| {
        let w = *ch.pick(&[0.0f32, 0.001, 0.5, 1.0, -0.0, -0.1, 1.001, 1.1, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -f32::NAN]);
        let got = MediaTypeProposal::new(mime::HTML, Some(w));
        let ok = w.is_sign_positive() && w <= 1.0;
        req_eq!(got.is_ok(), ok, "proposal-range", "MediaTypeProposal with weight {w}");
        if let Ok(p) = got {
            req_eq!(p.weight(), Some(w), "proposal-weight", "weight {w}");
            req_eq!((&*p, p.media_type()), (&mime::HTML, &mime::HTML), "proposal-type", "weight {w}");
            req!(p == mime::HTML && &p == mime::HTML && p != mime::XML && &p != mime::XML, "proposal-type", "weight {w}");
            let mut q = p.clone();
            *q = mime::SVG;
            req_eq!((Mime::from(q.clone()), q.weight()), (mime::SVG, Some(w)), "proposal-type", "changed in place, weight {w}");
            req_eq!(Mime::from(p), mime::HTML, "proposal-type", "weight {w}");
            for p in [MediaTypeProposal::from(mime::CSS), MediaTypeProposal::new(mime::CSS, None).unwrap()] {
                // A missing weight and the default one rank alike.
                req_eq!((p.media_type(), p.weight().unwrap_or(1.0)), (&mime::CSS, 1.0), "proposal-type", "without weight");
            }
        }
        req!(matches!(Accept::from_headers(Response::new(200)), Ok(None)), "accept-absent", "absent Accept");
        ch.step();
        Ok(())
    });
}
