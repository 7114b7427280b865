//! C02: header names and values are ASCII; names are case-insensitive and lowercase.
use crate::engine::*;
use crate::{req, req_eq};
use crate::util::*;
use http_types::headers::{self, HeaderName, HeaderValue, Header, HeaderValues, ToHeaderValues};
use std::borrow::Cow;
use std::convert::TryFrom;
use std::str::FromStr;

fn check_bytes(ch: &mut Ch, bytes: &[u8]) -> R {
    ch.step();
    let ascii = bytes.iter().all(|b| *b < 0x80);
    let s = std::str::from_utf8(bytes).ok();
    ch.state(&bytes);
    // names
    let mut names = vec![("from_bytes", HeaderName::from_bytes(bytes.to_vec()))];
    if let Some(s) = s {
        names.push(("from_string", HeaderName::from_string(s.to_string())));
        names.push(("from_str", HeaderName::from_str(s)));
    }
    if ascii {
        names.push(("from_bytes_unchecked", Ok(unsafe { HeaderName::from_bytes_unchecked(bytes.to_vec()) })));
        names.push(("From<&str>", Ok(HeaderName::from(s.unwrap()))));
    }
    for (how, n) in names {
        req_eq!(n.is_ok(), ascii, "name-accept", "HeaderName::{how}({bytes:?}) accepted");
        if let Ok(n) = n {
            let lower = s.unwrap().to_ascii_lowercase();
            let upper = s.unwrap().to_ascii_uppercase();
            req_eq!(n.as_str(), lower.as_str(), "name-lower", "HeaderName::{how}({bytes:?})");
            req_eq!(n.to_string(), lower, "name-display", "Display of {how}({bytes:?})");
            req_eq!(format!("{n:#}"), lower, "name-display", "alternate Display of {how}({bytes:?})");
            req_eq!(format!("{n:?}"), format!("{lower:?}"), "name-debug", "Debug of {how}({bytes:?})");
            for other in [s.unwrap().to_string(), lower.clone(), upper.clone()] {
                let o = HeaderName::from_str(&other).unwrap();
                req!(n == o, "name-eq", "{how}({bytes:?}) == {other:?}");
                use std::hash::{Hash, Hasher};
                let h = |x: &HeaderName| {
                    let mut s = std::collections::hash_map::DefaultHasher::new();
                    x.hash(&mut s);
                    s.finish()
                };
                req_eq!(h(&n), h(&o), "name-hash", "hash of {how}({bytes:?})");
                req!(n == other.as_str() && n == *other.as_str(), "name-eq", "{how}({bytes:?}) == {other:?}");
                req!(n == other && n == &other, "name-eq", "{how}({bytes:?}) == {other:?}");
            }
            let longer = format!("{lower}x");
            req!(n != longer.as_str() && n != HeaderName::from(longer.as_str()), "name-neq", "{how}({bytes:?}) == {longer:?}");
            req!(n != format!("{lower}\u{e9}"), "name-neq", "{how}({bytes:?}) equals non-ASCII text");
            if lower.contains('k') {
                req!(n != lower.replace('k', "\u{212a}").as_str(), "name-neq", "Kelvin sign folded");
            }
        }
    }
    if let (Some(s), false) = (s, ascii) {
        req!(no_panic(|| HeaderName::from(s)).is_err(), "name-from", "HeaderName::from({s:?}) accepted non-ASCII text");
    }
    // values
    let mut values = vec![("from_bytes", HeaderValue::from_bytes(bytes.to_vec()))];
    if let Some(s) = s {
        values.push(("from_str", HeaderValue::from_str(s)));
        values.push(("try_from", HeaderValue::try_from(s)));
        values.push(("str::to_header_values", s.to_header_values().map(|mut i| i.next().unwrap())));
        values.push(("String::to_header_values", s.to_string().to_header_values().map(|mut i| i.next().unwrap())));
    }
    if let Some(s) = s {
        let owned = s.to_string();
        values.push(("&String::to_header_values", (&owned).to_header_values().map(|mut i| i.next().unwrap())));
        values.push(("Cow::to_header_values", Cow::Borrowed(s).to_header_values().map(|mut i| i.next().unwrap())));
        values.push(("Cow::to_header_values", Cow::<str>::Owned(owned).to_header_values().map(|mut i| i.next().unwrap())));
        match no_panic(|| ("X-Name", s).header_value()) {
            Ok(v) => values.push(("(&str, &str) as Header", Ok(v))),
            Err(_) => req!(!ascii, "value-tuple", "(name, {s:?}) panicked"),
        }
        match no_panic(|| (s, "v").header_name()) {
            Ok(n) => req_eq!(n.as_str(), s.to_ascii_lowercase().as_str(), "name-tuple", "header name of ({s:?}, value)"),
            Err(_) => req!(!ascii, "name-tuple", "({s:?}, value) panicked"),
        }
    }
    if ascii {
        let v = HeaderValue::from_bytes(bytes.to_vec());
        if let Ok(v) = v {
            values.push(("HeaderValue::to_header_values", v.to_header_values().map(|mut i| i.next().unwrap())));
            values.push(("[HeaderValue]::to_header_values", (&[v.clone()][..]).to_header_values().map(|mut i| i.next().unwrap())));
            values.push(("HeaderValues::to_header_values", (&HeaderValues::from(v)).to_header_values().map(|mut i| i.next().unwrap())));
        }
        values.push(("from_bytes_unchecked", Ok(unsafe { HeaderValue::from_bytes_unchecked(bytes.to_vec()) })));
    }
    for (how, v) in values {
        req_eq!(v.is_ok(), ascii, "value-accept", "HeaderValue::{how}({bytes:?}) accepted");
        if let Ok(v) = v {
            let s = s.unwrap();
            req_eq!(v.as_str(), s, "value-text", "HeaderValue::{how}({bytes:?})");
            req_eq!(v.to_string(), s, "value-display", "Display of {how}");
            req_eq!(format!("{v:#}"), s, "value-display", "alternate Display of {how}");
            req_eq!(format!("{v:?}"), format!("{s:?}"), "value-debug", "Debug of {how}");
            req!(v == s && v == *s && v == s.to_string() && v == &s.to_string(), "value-eq", "{how}({bytes:?}) == {s:?}");
            let other = format!("{s}x");
            req!(v != other.as_str() && v != other, "value-neq", "{how}({bytes:?}) == {other:?}");
            let swapped: String = s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            req_eq!(v == swapped.as_str(), swapped == s, "value-case", "value comparison is case sensitive: {s:?} vs {swapped:?}");
            let vs: HeaderValues = v.clone().into();
            req_eq!(vs.last().as_str(), s, "value-wrap", "HeaderValues::from");
            let swap = HeaderValue::from_str(&swapped).unwrap();
            req!(vs.contains(&v), "value-list", "contains({s:?})");
            req_eq!(vs.contains(&swap), swapped == s, "value-list", "contains of {swapped:?} in {s:?}");
            req_eq!(vs.to_string(), format!("{:?}", [s]), "value-list", "Display of a list of {s:?}");
            req_eq!(format!("{vs:?}"), format!("{s:?}"), "value-list", "Debug of a list of {s:?}");
            let three: HeaderValues = vec![swap.clone(), swap.clone(), swap.clone()].into();
            req_eq!(three.contains(&v), swapped == s, "value-list", "contains of {s:?} in three times {swapped:?}");
            let two: HeaderValues = vec![v.clone(), swap].into_iter().collect();
            req_eq!(two.to_string(), format!("{:?}", [s, &swapped]), "value-list", "Display of two values");
            req_eq!(format!("{two:?}"), format!("{:?}", [s, &swapped]), "value-list", "Debug of two values");
            req!(two == [s, &swapped][..] && !(two == [s][..]) && !(two == *s), "value-list", "list of {s:?} and {swapped:?} compared");
            req_eq!(two == [&*swapped, s][..], swapped == s, "value-list", "list of {s:?} and {swapped:?} compared");
        }
    }
    Ok(())
}

macro_rules! consts {
    ($($c:ident),* $(,)?) => {
        &[$((stringify!($c), &headers::$c)),*]
    };
}

static CONSTS: &[(&str, &HeaderName)] = consts! {
CONTENT_ENCODING, CONTENT_LANGUAGE, CONTENT_LENGTH, CONTENT_LOCATION, CONTENT_MD5, CONTENT_RANGE, CONTENT_TYPE, COOKIE, SET_COOKIE, TRANSFER_ENCODING, DATE, HOST, ORIGIN, ACCESS_CONTROL_MAX_AGE, ACCESS_CONTROL_ALLOW_ORIGIN, ACCESS_CONTROL_ALLOW_HEADERS, ACCESS_CONTROL_ALLOW_METHODS, ACCESS_CONTROL_EXPOSE_HEADERS, ACCESS_CONTROL_REQUEST_METHOD, ACCESS_CONTROL_REQUEST_HEADERS, ACCESS_CONTROL_ALLOW_CREDENTIALS, ACCEPT, ACCEPT_CHARSET, ACCEPT_ENCODING, ACCEPT_LANGUAGE, ACCEPT_RANGES, AGE, ALLOW, AUTHORIZATION, CACHE_CONTROL, CLEAR_SITE_DATA, CONNECTION, ETAG, EXPECT, EXPIRES, FORWARDED, FROM, IF_MATCH, IF_MODIFIED_SINCE, IF_NONE_MATCH, IF_RANGE, IF_UNMODIFIED_SINCE, LAST_MODIFIED, LOCATION, MAX_FORWARDS, PRAGMA, PROXY_AUTHENTICATE, PROXY_AUTHORIZATION, PROXY_CONNECTION, REFERER, RETRY_AFTER, SERVER, SERVER_TIMING, SOURCE_MAP, STRICT_TRANSPORT_SECURITY, TE, TIMING_ALLOW_ORIGIN, TRACEPARENT, TRAILER, UPGRADE, USER_AGENT, VARY, VIA, WARNING, WWW_AUTHENTICATE
};

pub fn build(s: &mut Suite, thorough: bool) {
    s.bound("every byte string of length 0..=2 over all 256 bytes; length 3 over 40 class representatives (quick) or every 3-byte string with first byte in the representatives (thorough); all header name constants");
    s.add("bytes-up-to-2", |ch| {
        let n = ch.choose(3);
        let b: Vec<u8> = (0..n).map(|_| ch.choose(256) as u8).collect();
        check_bytes(ch, &b)
    });
    const REP: &[u8] = b"aAkKzZ09-_ :;,=\"\\\r\n\0\t~\x7f\x80\xbf\xc2\xc3\xa9\xe2\x84\xaa\xf0\x9f\xff/!#'^`{@[";
    s.add("bytes-3", move |ch| {
        let a = *ch.pick(REP);
        let b = if thorough { ch.choose(256) as u8 } else { *ch.pick(REP) };
        let c = if thorough { ch.choose(256) as u8 } else { *ch.pick(REP) };
        check_bytes(ch, &[a, b, c])
    });
    s.add("long-values", |ch| {
        // one non-ASCII character at every position of longer texts
        let len = *ch.pick(&[4usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65]);
        let pos = ch.choose(len + 1);
        let mut b: Vec<u8> = (0..len).map(|i| b"aB-c9X"[i % 6]).collect();
        if pos < len {
            b[pos] = 0x80;
            check_bytes(ch, &b)?;
            let mut t = String::from_utf8(b.iter().map(|x| if *x == 0x80 { b'q' } else { *x }).collect()).unwrap();
            t.replace_range(pos..pos + 1, "\u{e9}");
            check_bytes(ch, t.as_bytes())
        } else {
            check_bytes(ch, &b)
        }
    });
    let large = if thorough { 70_000 } else { 9000 };
    s.bound(&format!("{large} characters at most: all lengths to 300 and those around powers of two and ten, with a foreign byte first, in the middle, last or nowhere"));
    s.add("long-lengths", move |ch| {
        let len = *ch.pick(&sizes(300, large));
        let mut b: Vec<u8> = (0..len).map(|i| b"aB-c9X_zZ"[i % 9]).collect();
        let at = match ch.choose(4) {
            0 => 0,
            1 => len / 2,
            2 => len.saturating_sub(1),
            _ => len,
        };
        if at < len {
            b[at] = *ch.pick(&[0x80, b'\x7f', b' ', b'K']);
        }
        check_bytes(ch, &b)
    });
    s.bound("media types and cookies with every printable ASCII character or one beyond in 7 places, converted into header values");
    s.add("conversions", |ch| {
        use http_types::cookies::Cookie;
        use http_types::mime::Mime;
        let i = ch.choose(97);
        let c = match i {
            95 => '\u{e9}',
            96 => '\u{80}',
            _ => (b' ' + i as u8) as char,
        };
        ch.step();
        let check = |key: &str, what: &str, text: String, v: HeaderValue| -> R {
            let v2 = v.clone();
            req_eq!(v2.as_str(), text, "convert-text", "{what}");
            req!(v2.as_str().is_ascii(), key, "the header value of {what} is {:?}", v2.as_str());
            Ok(())
        };
        match ch.choose(3) {
            0 => {
                let t = match ch.choose(3) {
                    0 => format!("text/plain; a=\"x{c}y\""),
                    1 => format!("text/x{c}; charset=utf-8"),
                    _ => format!("text/plain;a{c}=b"),
                };
                let Ok(m) = Mime::from_str(&t) else { return Ok(()) };
                for v in [HeaderValue::from(m.clone()), HeaderValue::from(&m), m.to_header_values().unwrap().next().unwrap()] {
                    check("convert-mime-ascii", &format!("the media type {t:?}"), m.to_string(), v)?;
                }
                let mut r = http_types::Response::new(200);
                r.set_content_type(m.clone());
                check("convert-mime-ascii", &format!("the media type {t:?}"), m.to_string(), r.header("content-type").unwrap().last().clone())
            }
            1 => {
                let k = Cookie::new("name", format!("x{c}y"));
                let t = k.to_string();
                check("convert-cookie-ascii", &format!("the cookie {t:?}"), t.clone(), k.into())
            }
            _ => {
                let b = Cookie::build("n-1", "v").http_only(ch.flag()).secure(ch.flag());
                let k = match ch.choose(3) {
                    0 => b.path(format!("/p{c}")),
                    1 => b.domain(format!("d{c}.example")),
                    _ => b.permanent(),
                }
                .finish();
                let t = k.to_string();
                check("convert-cookie-ascii", &format!("the cookie {t:?}"), t.clone(), k.into())
            }
        }
    });
    s.add("constants", |ch| {
        let (ident, name) = *ch.pick(CONSTS);
        ch.step();
        ch.state(&ident);
        let want = match ident {
            // the one registered name that is not its identifier with dashes
            "SOURCE_MAP" => "sourcemap".to_string(),
            _ => ident.to_ascii_lowercase().replace('_', "-"),
        };
        req_eq!(name.as_str(), want.as_str(), "constant", "headers::{ident}");
        req!(*name == HeaderName::from_str(&want.to_ascii_uppercase()).unwrap(), "constant", "headers::{ident} equality");
        Ok(())
    });
}
