//! C12 status codes, C13 methods and versions, C14 errors, C15 hyperium conversions.
use crate::engine::*;
use crate::{req, req_eq};
use http_types::{Method, StatusCode, Version};
use serde::de::value::Error as DeErr;
use serde::de::IntoDeserializer;
use serde::Deserialize;
use std::convert::TryFrom;
use std::str::FromStr;

/// The codes the crate names: variant, code, registered reason phrases (RFC 2616, 7231, 9110 and
/// the IANA registry).
pub const CODES: &[(StatusCode, u16, &[&str])] = {
    use StatusCode::*;
    &[
        (Continue, 100, &["Continue"]),
        (SwitchingProtocols, 101, &["Switching Protocols"]),
        (EarlyHints, 103, &["Early Hints"]),
        (Ok, 200, &["OK"]),
        (Created, 201, &["Created"]),
        (Accepted, 202, &["Accepted"]),
        (NonAuthoritativeInformation, 203, &["Non-Authoritative Information"]),
        (NoContent, 204, &["No Content"]),
        (ResetContent, 205, &["Reset Content"]),
        (PartialContent, 206, &["Partial Content"]),
        (MultiStatus, 207, &["Multi-Status"]),
        (ImUsed, 226, &["IM Used"]),
        (MultipleChoice, 300, &["Multiple Choices", "Multiple Choice"]),
        (MovedPermanently, 301, &["Moved Permanently"]),
        (Found, 302, &["Found"]),
        (SeeOther, 303, &["See Other"]),
        (NotModified, 304, &["Not Modified"]),
        (TemporaryRedirect, 307, &["Temporary Redirect"]),
        (PermanentRedirect, 308, &["Permanent Redirect"]),
        (BadRequest, 400, &["Bad Request"]),
        (Unauthorized, 401, &["Unauthorized"]),
        (PaymentRequired, 402, &["Payment Required"]),
        (Forbidden, 403, &["Forbidden"]),
        (NotFound, 404, &["Not Found"]),
        (MethodNotAllowed, 405, &["Method Not Allowed"]),
        (NotAcceptable, 406, &["Not Acceptable"]),
        (ProxyAuthenticationRequired, 407, &["Proxy Authentication Required"]),
        (RequestTimeout, 408, &["Request Timeout"]),
        (Conflict, 409, &["Conflict"]),
        (Gone, 410, &["Gone"]),
        (LengthRequired, 411, &["Length Required"]),
        (PreconditionFailed, 412, &["Precondition Failed"]),
        (PayloadTooLarge, 413, &["Payload Too Large", "Content Too Large", "Request Entity Too Large"]),
        (UriTooLong, 414, &["URI Too Long", "Request-URI Too Long"]),
        (UnsupportedMediaType, 415, &["Unsupported Media Type"]),
        (RequestedRangeNotSatisfiable, 416, &["Requested Range Not Satisfiable", "Range Not Satisfiable"]),
        (ExpectationFailed, 417, &["Expectation Failed"]),
        (ImATeapot, 418, &["I'm a teapot"]),
        (MisdirectedRequest, 421, &["Misdirected Request"]),
        (UnprocessableEntity, 422, &["Unprocessable Entity", "Unprocessable Content"]),
        (Locked, 423, &["Locked"]),
        (FailedDependency, 424, &["Failed Dependency"]),
        (TooEarly, 425, &["Too Early"]),
        (UpgradeRequired, 426, &["Upgrade Required"]),
        (PreconditionRequired, 428, &["Precondition Required"]),
        (TooManyRequests, 429, &["Too Many Requests"]),
        (RequestHeaderFieldsTooLarge, 431, &["Request Header Fields Too Large"]),
        (UnavailableForLegalReasons, 451, &["Unavailable For Legal Reasons"]),
        (InternalServerError, 500, &["Internal Server Error"]),
        (NotImplemented, 501, &["Not Implemented"]),
        (BadGateway, 502, &["Bad Gateway"]),
        (ServiceUnavailable, 503, &["Service Unavailable"]),
        (GatewayTimeout, 504, &["Gateway Timeout"]),
        (HttpVersionNotSupported, 505, &["HTTP Version Not Supported"]),
        (VariantAlsoNegotiates, 506, &["Variant Also Negotiates"]),
        (InsufficientStorage, 507, &["Insufficient Storage"]),
        (LoopDetected, 508, &["Loop Detected"]),
        (NotExtended, 510, &["Not Extended"]),
        (NetworkAuthenticationRequired, 511, &["Network Authentication Required"]),
    ]
};

pub const METHODS: &[(Method, &str)] = {
    use Method::*;
    &[
        (Get, "GET"),
        (Head, "HEAD"),
        (Post, "POST"),
        (Put, "PUT"),
        (Delete, "DELETE"),
        (Connect, "CONNECT"),
        (Options, "OPTIONS"),
        (Trace, "TRACE"),
        (Patch, "PATCH"),
        (Acl, "ACL"),
        (BaselineControl, "BASELINE-CONTROL"),
        (Bind, "BIND"),
        (Checkin, "CHECKIN"),
        (Checkout, "CHECKOUT"),
        (Copy, "COPY"),
        (Label, "LABEL"),
        (Link, "LINK"),
        (Lock, "LOCK"),
        (Merge, "MERGE"),
        (MkActivity, "MKACTIVITY"),
        (MkCalendar, "MKCALENDAR"),
        (MkCol, "MKCOL"),
        (MkRedirectRef, "MKREDIRECTREF"),
        (MkWorkspace, "MKWORKSPACE"),
        (Move, "MOVE"),
        (OrderPatch, "ORDERPATCH"),
        (Pri, "PRI"),
        (PropFind, "PROPFIND"),
        (PropPatch, "PROPPATCH"),
        (Rebind, "REBIND"),
        (Report, "REPORT"),
        (Search, "SEARCH"),
        (Unbind, "UNBIND"),
        (Uncheckout, "UNCHECKOUT"),
        (Unlink, "UNLINK"),
        (Unlock, "UNLOCK"),
        (Update, "UPDATE"),
        (UpdateRedirectRef, "UPDATEREDIRECTREF"),
        (VersionControl, "VERSION-CONTROL"),
    ]
};
/// RFC 9110 section 9.2.1 and the "Safe" column of the IANA method registry.
const SAFE: &[&str] = &["GET", "HEAD", "OPTIONS", "PRI", "PROPFIND", "REPORT", "SEARCH", "TRACE"];

/// A reason phrase in lower case, with spaces for hyphens.
fn letters(s: &str) -> String {
    s.to_ascii_lowercase().replace('-', " ")
}

fn known(n: u64) -> Option<&'static (StatusCode, u16, &'static [&'static str])> {
    CODES.iter().find(|c| c.1 as u64 == n)
}

fn check_de(n: i128, how: &str, r: Result<StatusCode, String>) -> R {
    let want = u64::try_from(n).ok().and_then(known).map(|k| k.0);
    match (want, r) {
        (Some(k), Ok(c)) => req!(c == k, "status-serde", "{n} via {how} gave {c:?}"),
        (None, Err(_)) => {}
        (w, r) => return viol("status-serde", format!("deserializing {n} via {how}: observed {r:?}, expected {w:?}")),
    }
    Ok(())
}

pub fn build_c12(s: &mut Suite, _t: bool) {
    s.bound("all 65536 numbers through TryFrom/comparison/class predicates; all 59 named codes; serde: every n in -70000..=140000 plus boundary values of every integer width, through serde_json and serde's value deserializers of each width that can represent n");
    s.add("numbers", |ch| {
        let hi = ch.choose(256) as u16;
        for lo in 0..256u16 {
            let n = hi << 8 | lo;
            ch.step();
            let r = StatusCode::try_from(n);
            let k = known(n as u64);
            ch.state(&(n, r.is_ok()));
            req_eq!(r.is_ok(), k.is_some(), "status-try-from", "StatusCode::try_from({n}) accepted");
            let Ok(c) = r else { continue };
            let k = k.unwrap();
            req_eq!(c, k.0, "status-try-from", "StatusCode::try_from({n})");
            req_eq!(u16::from(c), n, "status-number", "u16::from({c:?})");
            req!(c == n && n == c, "status-eq", "{c:?} == {n}");
            for d in 0..=u16::MAX {
                req_eq!((c == d, d == c), (d == n, d == n), "status-eq", "{c:?} compared with {d}");
            }
            let class = (c.is_informational(), c.is_success(), c.is_redirection(), c.is_client_error(), c.is_server_error());
            let want = (n / 100 == 1, n / 100 == 2, n / 100 == 3, n / 100 == 4, n / 100 == 5);
            req_eq!(class, want, "status-class", "classes of {n}");
            let reason = c.canonical_reason();
            req!(
                k.2.iter().any(|r| letters(r) == letters(reason)),
                "status-reason",
                "reason of {n} is {reason:?}, registered as {:?}",
                k.2
            );
            req_eq!(c.to_string(), format!("{n}: {reason}"), "status-display", "Display of {n}");
            req_eq!(format!("{c:?}"), format!("{n}: {reason}"), "status-display", "Debug of {n}");
            req_eq!(format!("{c:#}"), format!("{n}: {reason}"), "status-display", "alternate Display of {n}");
            req_eq!(serde_json::to_string(&c).unwrap(), n.to_string(), "status-serde", "serialized {n}");
            let r = http_types::Response::new(n);
            req!(r.status() == c, "status-response", "Response::new({n})");
            let r = http_types::Response::new(c);
            req!(r.status() == n, "status-response", "Response::new({c:?})");
        }
        Ok(())
    });
    s.add("pairs", |ch| {
        let a = ch.pick(CODES);
        for b in CODES {
            ch.step();
            req_eq!(a.0 == b.0, a.1 == b.1, "status-eq", "{:?} == {:?}", a.0, b.0);
            use std::collections::HashSet;
            let h: HashSet<_> = [a.0, b.0].into_iter().collect();
            req_eq!(h.len(), if a.1 == b.1 { 1 } else { 2 }, "status-hash", "set of {:?} and {:?}", a.0, b.0);
        }
        ch.state(&a.1);
        req_eq!(a.0 as u16, a.1, "status-number", "discriminant of {:?}", a.0);
        Ok(())
    });
    s.add("serde-range", |ch| {
        let blk = ch.choose(211) as i128;
        for i in 0..1000 {
            check_widths(ch, -70_000 + blk * 1000 + i)?;
        }
        Ok(())
    });
    s.add("serde-boundaries", |ch| {
        let base = *ch.pick(&[0i128, 1 << 8, 1 << 16, 1 << 17, 1 << 31, 1 << 32, 1 << 63, 1 << 64, -(1 << 7), -(1 << 15), -(1 << 16), -(1 << 31), -(1 << 32), -(1 << 63)]);
        let c = ch.pick(CODES).1 as i128;
        for d in [-1i128, 0, 1, c - 1, c, c + 1, -c, c << 16, c << 32, c << 48] {
            check_widths(ch, base + d)?;
        }
        for bad in [format!("{c}.5"), format!("\"{c}\""), format!("[{c}]"), format!("{{\"{c}\":1}}"), "null".into(), "true".into(), format!("-{c}")] {
            ch.step();
            req!(serde_json::from_str::<StatusCode>(&bad).is_err(), "status-serde", "{bad} deserialized as a status code");
        }
        Ok(())
    });
}

fn check_widths(ch: &mut Ch, n: i128) -> R {
    ch.step();
    ch.state(&n);
    let de = |r: Result<StatusCode, DeErr>| r.map_err(|e| e.to_string());
    macro_rules! w { ($($t:ty),*) => { $(
        if let Ok(v) = <$t>::try_from(n) {
            let d: <$t as IntoDeserializer<DeErr>>::Deserializer = v.into_deserializer();
            check_de(n, stringify!($t), de(StatusCode::deserialize(d)))?;
        } )* } }
    w!(u8, u16, u32, u64, i8, i16, i32, i64);
    if i64::try_from(n).is_ok() || u64::try_from(n).is_ok() {
        check_de(n, "json", serde_json::from_str::<StatusCode>(&n.to_string()).map_err(|e| e.to_string()))?;
    } else {
        req!(serde_json::from_str::<StatusCode>(&n.to_string()).is_err(), "status-serde", "{n} deserialized");
    }
    Ok(())
}

fn check_method(ch: &mut Ch, s: &str) -> R {
    ch.step();
    ch.state(&s);
    let want = METHODS.iter().find(|m| m.1.eq_ignore_ascii_case(s));
    let json = serde_json::to_string(s).unwrap();
    for (how, got) in [
        ("from_str", Method::from_str(s).ok()),
        ("try_from", Method::try_from(s).ok()),
        ("serde", serde_json::from_str::<Method>(&json).ok()),
    ] {
        req_eq!(got, want.map(|w| w.0), "method-parse", "Method {how}({s:?})");
    }
    Ok(())
}

pub fn build_c13(s: &mut Suite, thorough: bool) {
    s.bound("all 39 registered methods; all case variants of every name (all 2^n up to 10 letters, every adjacent-pair flip beyond); every string within one edit of a name over 40 characters; every string of length 0..=3 (thorough: 4) over letters, digit, '-', ' '; version strings within one edit");
    s.add("names", |ch| {
        let (m, name) = *ch.pick(METHODS);
        ch.step();
        ch.state(&name);
        req_eq!(m.as_ref(), name, "method-name", "as_ref");
        req_eq!(m.to_string(), name, "method-name", "Display");
        req_eq!(format!("{m:#}"), name, "method-name", "alternate Display");
        req_eq!(serde_json::to_string(&m).unwrap(), format!("{name:?}"), "method-name", "serde");
        req_eq!(m.is_safe(), SAFE.contains(&name), "method-safe", "{name}.is_safe()");
        for (o, oname) in METHODS {
            req_eq!(m == *o, name == *oname, "method-eq", "{name} == {oname}");
        }
        let u: http_types::Url = "https://h.example/p?q=1".parse().unwrap();
        let r = http_types::Request::new(m, u.clone());
        req_eq!(r.method(), m, "method-request", "Request::new({name}).method()");
        req_eq!(r.url(), &u, "method-request", "url");
        let mut r = http_types::Request::new(Method::Get, u);
        r.set_method(m);
        req_eq!(r.method(), m, "method-request", "set_method({name})");
        Ok(())
    });
    s.add("case", |ch| {
        let (_, name) = *ch.pick(METHODS);
        let t: String = if name.len() <= 10 {
            name.chars().map(|c| if ch.flag() { c.to_ascii_lowercase() } else { c }).collect()
        } else {
            let i = ch.choose(name.len());
            let j = ch.choose(name.len());
            let low = ch.flag();
            name.char_indices()
                .map(|(k, c)| if (k == i || k == j) != low { c.to_ascii_lowercase() } else { c })
                .collect()
        };
        check_method(ch, &t)
    });
    s.add("edits", |ch| {
        let (_, name) = *ch.pick(METHODS);
        const CS: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZk5- _\t\0\n\u{17f}\u{131}\u{212a}/,";
        let cs: Vec<char> = CS.chars().collect();
        match ch.choose(3) {
            0 => {
                let i = ch.choose(name.len());
                let mut t = name.to_string();
                t.remove(i);
                check_method(ch, &t)
            }
            1 => {
                let i = ch.choose(name.len());
                let c = *ch.pick(&cs);
                let mut t = name.to_string();
                t.replace_range(i..i + 1, &c.to_string());
                check_method(ch, &t)
            }
            _ => {
                let i = ch.choose(name.len() + 1);
                let c = *ch.pick(&cs);
                let mut t = name.to_string();
                t.insert(i, c);
                check_method(ch, &t)
            }
        }
    });
    s.add("short", move |ch| {
        const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZgetpu0- ";
        let n = ch.choose(if thorough { 5 } else { 4 });
        let t: String = (0..n).map(|_| *ch.pick(A) as char).collect();
        check_method(ch, &t)
    });
    const VERS: &[(Version, &str)] = &[
        (Version::Http0_9, "HTTP/0.9"),
        (Version::Http1_0, "HTTP/1.0"),
        (Version::Http1_1, "HTTP/1.1"),
        (Version::Http2_0, "HTTP/2"),
        (Version::Http3_0, "HTTP/3"),
    ];
    s.add("versions", |ch| {
        let i = ch.choose(VERS.len());
        let (v, name) = VERS[i];
        ch.step();
        ch.state(&name);
        req_eq!(v.as_ref(), name, "version-name", "as_ref");
        req_eq!(v.to_string(), name, "version-name", "Display");
        req_eq!(format!("{v:#}"), name, "version-name", "alternate Display");
        req_eq!(serde_json::to_string(&v).unwrap(), format!("{name:?}"), "version-serde", "serde");
        for (j, (o, oname)) in VERS.iter().enumerate() {
            req_eq!(v.cmp(o), i.cmp(&j), "version-order", "{name} vs {oname}");
            req_eq!(v.partial_cmp(o), Some(i.cmp(&j)), "version-order", "{name} vs {oname}");
            req_eq!(v == *o, i == j, "version-order", "{name} == {oname}");
        }
        Ok(())
    });
    s.bound("48 names that are not registered, and 30 texts that are no versions");
    s.add("unknown", |ch| {
        const M: &[&str] = &[
            "M-SEARCH", "QUERY", "PURGE", "NOTIFY", "SUBSCRIBE", "UNSUBSCRIBE", "BREW", "WHEN", "DEBUG", "TRACK", "INDEX", "SPACEJUMP", "TEXTSEARCH", "SHOWMETHOD", "BCOPY", "BMOVE", "BDELETE", "BPROPFIND", "BPROPPATCH", "POLL",
            "MKDIR", "MKREDIRREF", "UPDATEREDIRREF", "BASELINE", "BASELINE_CONTROL", "VERSION", "CONTROL", "CHECK-IN", "CHECK-OUT", "UN-LOCK", "SOURCE", "DESCRIBE", "SETUP", "PLAY", "PAUSE", "ANNOUNCE", "REGISTER", "INVITE", "ACK", "BYE",
            "*", "-", "HTTP/1.1", "EXTENSION", "UNKNOWN", "CREATE", "READ", "LIST",
        ];
        const V: &[&str] = &[
            "h2", "h2c", "h3", "spdy/3", "http/1.1", "Http/1.1", "HTTP", "HTTP/", "HTTP/1", "HTTP/2.0", "HTTP/3.0", "HTTP/1.2", "HTTP/4", "HTTP/0", "HTTP/11", "HTTP1.1", "HTTP 1.1", "HTTP-1.1", "HTTP/1_1", "HTTPS/1.1", "1.1", "2", "1.0", "0.9", "*", "", "Http1_1", "Http2_0", "RTSP/1.0", "SHTTP/1.3",
        ];
        if ch.flag() {
            let t = *ch.pick(M);
            return check_method(ch, t);
        }
        let t = *ch.pick(V);
        ch.step();
        req!(serde_json::from_str::<Version>(&format!("{t:?}")).is_err(), "version-serde", "{t:?} is read as a version");
        req!(serde_json::from_value::<Version>(serde_json::Value::String(t.into())).is_err(), "version-serde", "owned {t:?} is read as a version");
        Ok(())
    });
    s.add("version-edits", |ch| {
        let (_, name) = *ch.pick(VERS);
        let cs: Vec<char> = "0123456789./ HhTtPp\u{131}".chars().collect();
        let mut t = name.to_string();
        match ch.choose(4) {
            0 => {
                let i = ch.choose(name.len());
                t.remove(i);
            }
            1 => {
                let i = ch.choose(name.len());
                t.replace_range(i..i + 1, &ch.pick(&cs).to_string());
            }
            2 => {
                let i = ch.choose(name.len() + 1);
                t.insert(i, *ch.pick(&cs));
            }
            _ => {}
        }
        ch.step();
        ch.state(&t);
        let want = VERS.iter().find(|v| v.1 == t).map(|v| v.0);
        let got = serde_json::from_str::<Version>(&format!("{t:?}")).ok();
        req_eq!(got, want, "version-serde", "deserializing {t:?}");
        let got = serde_json::from_value::<Version>(serde_json::Value::String(t.clone())).ok();
        req_eq!(got, want, "version-serde", "deserializing owned {t:?}");
        Ok(())
    });
}
