//! C34 reading is total, C35 what is read is written back: both over every typed header.
use crate::engine::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::auth::{Authorization, BasicAuth, WwwAuthenticate};
use http_types::cache::{Age, CacheControl, ClearSiteData, Expires};
use http_types::conditional::{ETag, IfMatch, IfModifiedSince, IfNoneMatch, IfUnmodifiedSince, LastModified, Vary};
use http_types::content::{Accept, AcceptEncoding, ContentEncoding, ContentLength, ContentLocation, ContentType};
use http_types::headers::{Header, HeaderValue, Headers};
use http_types::other::{Date, Expect, Referer, RetryAfter, SourceMap};
use http_types::proxies::Forwarded;
use http_types::security::{StrictTransportSecurity, TimingAllowOrigin};
use http_types::server::Allow;
use http_types::trace::{ServerTiming, TraceContext};
use http_types::transfer::{TransferEncoding, TE};
use http_types::{Method, Request, Response, Url};
use std::fmt::Debug;

/// What one reader makes of a message.
#[derive(Debug, Clone, PartialEq)]
enum Got {
    Absent,
    Refused(Option<u16>),
    Is { seen: String, name: String, line: String },
}

fn is<T: Header + Debug>(t: T) -> Got {
    let (name, value) = (t.header_name(), t.header_value());
    let name = name.as_str().to_string();
    let mut seen = format!("{t:?}");
    if name == "traceparent" {
        // each reading draws a random id, see C28
        return Got::Is { seen: String::new(), line: canonical(&name, value.as_str()), name };
    }
    match name.as_str() {
        // a set: only the line is compared
        "allow" => seen.clear(),
        // three decimals of a weight are written
        "accept" | "accept-encoding" | "te" => seen = three_decimals(&seen),
        _ => {}
    }
    Got::Is { seen, line: canonical(&name, value.as_str()), name }
}

/// Rounds the numbers of a text.
fn three_decimals(text: &str) -> String {
    let part = |c: char| c.is_ascii_alphanumeric() || matches!(c, '.' | '-' | '+');
    let mut out = String::new();
    let mut rest = text;
    while let Some(i) = rest.find(part) {
        let (before, token) = rest.split_at(i);
        let (token, after) = token.split_at(token.find(|c| !part(c)).unwrap_or(token.len()));
        out.push_str(before);
        match token.parse::<f32>() {
            Ok(n) if token.starts_with(|c: char| c.is_ascii_digit()) => out.push_str(&format!("{n:.3}")),
            _ => out.push_str(token),
        }
        rest = after;
    }
    out + rest
}

/// Methods of Allow have no order.
fn canonical(name: &str, line: &str) -> String {
    if name == "traceparent" {
        let mut p: Vec<&str> = line.split('-').collect();
        p[2] = "0000000000000001";
        return p.join("-");
    }
    if name != "allow" {
        return line.to_string();
    }
    let mut ms: Vec<&str> = line.split(", ").collect();
    ms.sort_unstable();
    ms.join(", ")
}

fn of<T: Header + Debug>(r: http_types::Result<Option<T>>) -> Got {
    match r {
        Err(e) => Got::Refused(Some(e.status() as u16)),
        Ok(None) => Got::Absent,
        Ok(Some(t)) => is(t),
    }
}

struct Reader {
    header: &'static str,
    read: fn(&Headers) -> Got,
    write: fn(&Headers, &mut Headers),
    seeds: &'static [&'static str],
}

fn base() -> Url {
    Url::parse("http://h.example/a/b?q#f").unwrap()
}

macro_rules! reader {
    ($header:literal, $t:ty, $from:expr, $seeds:expr) => {
        Reader {
            header: $header,
            read: |h| of(($from)(h)),
            write: |h, out| {
                let r: http_types::Result<Option<$t>> = ($from)(h);
                if let Ok(Some(t)) = r {
                    t.apply_header(out)
                }
            },
            seeds: $seeds,
        }
    };
    ($header:literal, $t:ty, $seeds:expr) => {
        reader!($header, $t, |h: &Headers| <$t>::from_headers(h), $seeds)
    };
}

const DATES: &[&str] = &[
    "Sun, 06 Nov 1994 08:49:37 GMT",
    "Sunday, 06-Nov-94 08:49:37 GMT",
    "Sun Nov  6 08:49:37 1994",
    "Thu, 01 Jan 1970 00:00:00 GMT",
    "Tue, 29 Feb 2000 23:59:59 GMT",
    "Saturday, 01-Jan-00 00:00:00 GMT",
    "Fri, 31 Dec 9999 23:59:59 GMT",
];

const TAGS: &[&str] = &["*", "\"a\"", "W/\"a\"", "\"a\", W/\"b\"", "\"a,b\" , \"\"", "W/\"\",*"];

fn readers() -> Vec<Reader> {
    vec![
        reader!("authorization", Authorization, &["Basic dTpw", "bearer a.b", "Digest a=\"b\", c=d", "Basic  x"]),
        reader!("authorization", BasicAuth, &["Basic dTpw", "basic dTpwOnE=", "Basic OnA=", "Basic dTo=", "Basic w7w6cA==", "Basic Og==", "Basic /zo="]),
        reader!(
            "www-authenticate",
            WwwAuthenticate,
            &["Basic realm=\"a\", charset=\"UTF-8\"", "Digest realm=a", "basic realm=\"a\\\"b\"", "Basic charset=utf-8,realm=\"\"", "Basic realm=a, x=\"1, realm=2\""]
        ),
        reader!("age", Age, &["0", "12", "18446744073709551615", "18446744073709551616"]),
        reader!(
            "cache-control",
            CacheControl,
            &["max-age=10, public", "max-stale", "max-stale=5", "private, no-cache=\"a, b\"", "s-maxage=\"7\"", "Immutable,no-store", "stale-if-error=1 , x=y", "min-fresh=0,only-if-cached", "max-age=18446744073709551615"]
        ),
        reader!("clear-site-data", ClearSiteData, &["\"*\"", "\"cache\", \"cookies\"", "\"executionContexts\"", "\"storage\",\"x\""]),
        reader!("expires", Expires, DATES),
        reader!("etag", ETag, &["\"a\"", "W/\"a\"", "\"\"", "\"a,b W/\"", "W/\"!#~\""]),
        reader!("if-match", IfMatch, TAGS),
        reader!("if-none-match", IfNoneMatch, TAGS),
        reader!("if-modified-since", IfModifiedSince, DATES),
        reader!("if-unmodified-since", IfUnmodifiedSince, DATES),
        reader!("last-modified", LastModified, DATES),
        reader!("vary", Vary, &["*", "accept", "Accept, x-y", "a,*", "a ,b, "]),
        reader!("accept", Accept, &["*/*", "text/html", "text/*;q=0.5, a/b", "a/b;c=\"d,;e\";q=1", "a/b; q=0.001 , *", "a/b;c=d", "a/b;q=NaN", "a/b;q=-inf"]),
        reader!("accept-encoding", AcceptEncoding, &["gzip", "gzip;q=0.5, br", "*", "identity; q=0.0 , deflate;q=1", "zstd,x,br;q=.9", "br;q=NaN", "br;q=-inf"]),
        reader!("content-encoding", ContentEncoding, &["gzip", "br", "gzip, br", "identity", "deflate"]),
        reader!("content-length", ContentLength, &["0", "12", "18446744073709551615", "18446744073709551616"]),
        reader!(
            "content-location",
            ContentLocation,
            |h: &Headers| ContentLocation::from_headers(base(), h),
            &["/x", "http://a.b/c", "../d?e#f", "//g/h", "?i"]
        ),
        reader!("content-type", ContentType, &["text/html", "text/html; charset=utf-8", "a/b;c=\"d\\\"e;\"", "a/b;c=d;C=e;f", "A/B ; x=y"]),
        reader!("date", Date, DATES),
        reader!("expect", Expect, &["100-continue", "100-Continue"]),
        reader!("referer", Referer, |h: &Headers| Referer::from_headers(base(), h), &["/x", "http://a.b/c", "../d?e#f", "//g/h", "?i"]),
        reader!("retry-after", RetryAfter, &["0", "12", "18446744073709551615", "18446744073709551616", "Sun, 06 Nov 1994 08:49:37 GMT", "Sunday, 06-Nov-94 08:49:37 GMT"]),
        reader!("sourcemap", SourceMap, |h: &Headers| SourceMap::from_headers(base(), h), &["/x", "http://a.b/c", "../d?e#f", "//g/h", "?i"]),
        reader!(
            "forwarded",
            Forwarded<'_>,
            |h: &Headers| match Forwarded::from_headers(h) {
                Ok(f) => Ok(f.map(|f| f.into_owned())),
                Err(_) => Err(http_types::Error::from_str(400, "")),
            },
            &["for=a;by=b;host=c;proto=d", "for=\"[::1]:8\", for=2.3.4.5", "For=a , for=\"b,c\\\"d\";proto=https", "host=x, by=\"y;z\"", "for=unknown;for=b", "for=_a;x=y", "for=\"a\\\\b\"", "for=\"a:8\";by=\"1.2.3.4:\""]
        ),
        reader!("strict-transport-security", StrictTransportSecurity, &["max-age=31536000", "max-age=\"1\"; includeSubDomains", "preload;max-age=0 ;x=\"a;b\"", "MAX-AGE=5;IncludeSubdomains;Preload", "max-age=18446744073709551615"]),
        reader!("timing-allow-origin", TimingAllowOrigin, &["*", "https://a.b", "https://a.b, http://c:8/", "*, https://a"]),
        reader!("allow", Allow, &["GET", "GET, put", "M-SEARCH,GET ,", "BIND"]),
        reader!(
            "server-timing",
            ServerTiming,
            // (a quote in a metric's name is not a quoted string, nor a token: left open)
            |h: &Headers| ServerTiming::from_headers(h).map(|t| t.filter(|t| !t.iter().any(|m| m.name().contains('"')))),
            &["a", "a;dur=1.5", "a;desc=\"x, \\\"y\\\"\";dur=0", "a , b;desc=c", "a;x=y;dur=1e2", "a;Dur=1, b; dur = 2", "a;dur=1.5e19", "a;dur=-1e-9"]
        ),
        reader!(
            "traceparent",
            TraceContext,
            &["00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", "01-0-1-00-x", "ff-ffffffffffffffffffffffffffffffff-ffffffffffffffff-ff", "00-00000000000000000000000000000001-0000000000000000-02"]
        ),
        reader!("te", TE, &["trailers", "gzip;q=0.5, chunked", "*", "deflate; q=0.0 , trailers;q=1", "identity,x", "gzip;q=NaN", "gzip;q=-inf"]),
        reader!("transfer-encoding", TransferEncoding, &["chunked", "gzip", "gzip, chunked", "identity", "deflate"]),
    ]
}

/// The characters that separate or mark anything in some header, and one of each other class.
const MARKS: &[u8] = b",;=\"\\ \t*/:-.+%&?#[]0a9AzZqW_\0\n\x7f";

/// One edit of a text: deleting, doubling, replacing or inserting one character, swapping
/// neighbours, or cutting an end off.
fn edited(ch: &mut Ch, text: &mut Vec<u8>, with: &[u8]) {
    let (n, k) = (text.len(), with.len());
    // 0: nothing; then insertions, replacements, deletions, swaps, doubled and cut ones
    let mut i = ch.choose(1 + (n + 1) * k + n * k + 5 * n);
    if i == 0 {
        return;
    }
    i -= 1;
    if i < (n + 1) * k {
        return text.insert(i / k, with[i % k]);
    }
    i -= (n + 1) * k;
    if i < n * k {
        text[i / k] = with[i % k];
        return;
    }
    i -= n * k;
    match (i / n, i % n) {
        (0, j) => {
            text.remove(j);
        }
        (1, j) => text.swap(j, (j + 1) % n),
        (2, j) => text.insert(j, text[j]),
        (3, j) => text.truncate(j),
        (_, j) => {
            text.drain(..j);
        }
    }
}

fn message(name: &str, lines: &[String]) -> Headers {
    let mut res = Response::new(200);
    res.remove_header("content-type");
    for l in lines {
        // (constructed as parsers of HTTP/1 do)
        let v = HeaderValue::from_bytes(l.clone().into_bytes()).unwrap();
        res.append_header(name, v).unwrap();
    }
    let h: &Headers = res.as_ref();
    h.clone()
}

fn total(ch: &mut Ch, r: &Reader, lines: &[String]) -> R {
    ch.step();
    ch.note(|| format!("{}: {lines:?}", r.header));
    let h = message(r.header, lines);
    let got = no_panic(|| (r.read)(&h));
    let got = match got {
        Ok(got) => got,
        Err(e) => return viol("reader-panics", format!("reading {} from {lines:?} panics: {e}", r.header)),
    };
    if let Got::Refused(Some(s)) = &got {
        // (a malformed location is reported as 500 by two of the readers, as their tests demand)
        let want = if matches!(r.header, "referer" | "sourcemap") { 500 } else { 400 };
        req_eq!(*s, want, "reader-status", "{} from {lines:?}", r.header);
    }
    if let Got::Is { line, .. } = &got {
        req!(line.is_ascii(), "reader-ascii", "{} from {lines:?} is written as {line:?}", r.header);
    }
    Ok(())
}

fn stable(ch: &mut Ch, r: &Reader, lines: &[String]) -> R {
    ch.step();
    let h = message(r.header, lines);
    let first = (r.read)(&h);
    if lines.iter().any(|l| l.bytes().any(|b| b.is_ascii_control() && b != b'\t')) {
        return Ok(()); // not a field value
    }
    let Got::Is { seen, name, line } = &first else {
        return Ok(());
    };
    ch.note(|| format!("{}: {lines:?} written as {line:?}", r.header));
    req_eq!(name, r.header, "reader-name", "{lines:?}");
    // read-only: a second look shows the same
    req_eq!((r.read)(&h), first, "reader-again", "{} from {lines:?}", r.header);
    // writing replaces what was there, and touches nothing else
    let mut out = message(r.header, &["left".into(), "over".into()]);
    out.insert("x-other", "kept").unwrap();
    (r.write)(&h, &mut out);
    let mut after: Vec<(String, Vec<String>)> = out.iter().map(|(n, v)| (n.as_str().to_string(), v.iter().map(|v| canonical(n.as_str(), v.as_str())).collect())).collect();
    after.sort();
    let mut want = vec![(name.clone(), vec![line.clone()]), ("x-other".to_string(), vec!["kept".to_string()])];
    want.sort();
    req_eq!(after, want, "reader-apply", "{} from {lines:?}", r.header);
    let back = (r.read)(&message(r.header, &[line.clone()]));
    match &back {
        Got::Is { seen: s, line: l, .. } => {
            req_eq!(l, line, "reader-fixpoint", "{} from {lines:?}: written again", r.header);
            req_eq!(s, seen, "reader-back", "{} from {lines:?}, written as {line:?}", r.header);
        }
        other => return viol("reader-back", format!("{} from {lines:?} is {seen}, written as {line:?}, which reads as {other:?}", r.header)),
    }
    Ok(())
}

fn scenarios(s: &mut Suite, thorough: bool, check: fn(&mut Ch, &Reader, &[String]) -> R) {
    s.assume("typed headers are compared by their Debug output together with the line they write; the methods of Allow are a set, and only three decimals of a weight are kept; the random id of a trace context is left to C28; metrics whose name holds a quote are left open");
    let ascii: Vec<u8> = (0..128).collect();
    s.bound("each of 33 typed headers; values: everything one edit (any ASCII character inserted or replacing one, a character deleted or doubled, neighbours swapped, an end cut off) from a list of valid values");
    s.add("one-edit", move |ch| {
        let rs = readers();
        let r = ch.pick(&rs);
        let mut v = ch.pick(r.seeds).as_bytes().to_vec();
        edited(ch, &mut v, &ascii);
        check(ch, r, &[String::from_utf8(v).unwrap()])
    });
    s.bound(if thorough { "two edits with 30 marking characters" } else { "two edits with 6 marking characters, of the first 24 characters" });
    s.add("two-edits", move |ch| {
        let rs = readers();
        let r = ch.pick(&rs);
        let mut v = ch.pick(r.seeds).as_bytes().to_vec();
        let marks: &[u8] = if thorough { MARKS } else { b",;=\" 0" };
        if !thorough {
            v.truncate(24);
        }
        edited(ch, &mut v, marks);
        edited(ch, &mut v, marks);
        check(ch, r, &[String::from_utf8(v).unwrap()])
    });
    let depth = if thorough { 6 } else { 4 };
    s.bound(&format!("every value of up to {depth} of 12 marking characters"));
    s.add("short", move |ch| {
        let rs = readers();
        let r = ch.pick(&rs);
        let v = ch.seq(b",;=\"\\ */-0aW", depth);
        check(ch, r, &[String::from_utf8(v).unwrap()])
    });
    s.bound("two to three lines: every two or three of the valid values, cut at every place, with a line of a marking character between");
    s.add("lines", move |ch| {
        let rs = readers();
        let r = ch.pick(&rs);
        let mut ls: Vec<String> = vec![];
        for _ in 0..2 {
            let v = *ch.pick(r.seeds);
            let a = if thorough || ls.is_empty() { ch.choose(v.len() + 1) } else { *ch.pick(&[0, 1, v.len() / 2, v.len() - 1, v.len()]) };
            ls.push(if ch.flag() { v[..a].into() } else { v[a..].into() });
        }
        if ch.flag() {
            let x = *ch.pick(&["", " ", ",", "\"", "*", ";", "x"]);
            ls.insert(ch.choose(3), x.to_string());
        }
        check(ch, r, &ls)
    });
    let most = if thorough { 5000 } else { 1100 };
    s.bound(&format!("a valid value repeated up to {most} times with and without a comma, or followed or preceded by so many marking characters"));
    s.add("long", move |ch| {
        let rs = readers();
        let r = ch.pick(&rs);
        let v = *ch.pick(r.seeds);
        let n = *ch.pick(&sizes(8, most));
        let l = match ch.choose(5) {
            0 => vec![v; n].join(", "),
            1 => vec![v; n].join(","),
            2 => v.repeat(n),
            3 => format!("{v}{}", (*ch.pick(MARKS) as char).to_string().repeat(n)),
            _ => format!("{}{v}", (*ch.pick(MARKS) as char).to_string().repeat(n)),
        };
        check(ch, r, &[l])
    });
}

pub fn build_c34(s: &mut Suite, thorough: bool) {
    scenarios(s, thorough, total);
    s.bound("the holder: bare headers, a request, a response, trailers");
    s.add("holders", |ch| {
        let rs = readers();
        let r = ch.pick(&rs);
        let v = *ch.pick(r.seeds);
        let two = ch.flag();
        let mut req = Request::new(Method::Get, "http://h.example/");
        let mut res = Response::new(200);
        let mut tr = http_types::trailers::Trailers::new();
        let mut h = message(r.header, &[]);
        for v in [v, r.seeds[0]].iter().take(1 + two as usize) {
            req.append_header(r.header, *v).unwrap();
            res.append_header(r.header, *v).unwrap();
            tr.append(r.header, *v).unwrap();
            h.append(r.header, *v).unwrap();
        }
        ch.step();
        let want = (r.read)(&h);
        for (what, h) in [("request", AsRef::<Headers>::as_ref(&req)), ("response", res.as_ref()), ("trailers", tr.as_ref())] {
            req_eq!((r.read)(h), want, "reader-holder", "{} from a {what} with {v:?}", r.header);
        }
        Ok(())
    });
}

pub fn build_c35(s: &mut Suite, thorough: bool) {
    s.assume("values hold no control characters but tab");
    scenarios(s, thorough, stable);
}
