//! C36: comparing values compares what they stand for.
use super::c12_tokens::{CODES, METHODS};
use crate::engine::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::auth::AuthenticationScheme;
use http_types::cache::{Age, CacheDirective, ClearDirective, Expires};
use http_types::conditional::{ETag, IfModifiedSince, IfUnmodifiedSince, LastModified};
use http_types::content::{self, ContentEncoding, ContentType, MediaTypeProposal};
use http_types::headers::{HeaderName, HeaderValue, Headers};
use http_types::mime::Mime;
use http_types::other::{Date, RetryAfter};
use http_types::proxies::Forwarded;
use http_types::security::{Source, TimingAllowOrigin};
use http_types::trace::Metric;
use http_types::transfer::{self, TransferEncoding};
use http_types::{Method, StatusCode, Url, Version};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::time::{Duration, SystemTime};

/// `==` and `!=` of two values say whether their keys are the same.
fn eqs<T: PartialEq + Debug, K: PartialEq + Debug>(a: (&T, &K), b: (&T, &K)) -> R {
    let want = a.1 == b.1;
    req_eq!(a.0 == b.0, want, "compare-eq", "{:?} == {:?}", a.1, b.1);
    req_eq!(a.0 != b.0, !want, "compare-eq", "{:?} != {:?}", a.1, b.1);
    Ok(())
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Equal values have equal hashes.
fn hashes<T: PartialEq + Hash + Debug>(a: &T, b: &T) -> R {
    req!(a != b || hash(a) == hash(b), "compare-hash", "{a:?} and {b:?} are equal and hash differently");
    Ok(())
}

/// The order of two values is that of their keys.
fn ords<T: Ord + Debug, K: Ord + Debug>(a: (&T, &K), b: (&T, &K)) -> R {
    eqs(a, b)?;
    req_eq!(a.0.cmp(b.0), a.1.cmp(b.1), "compare-order", "{:?} and {:?}", a.1, b.1);
    partial(a.0, b.0, a.1.partial_cmp(b.1))?;
    req_eq!(a.0 == a.0.max(b.0), a.1 == a.1.max(b.1), "compare-order", "maximum of {:?} and {:?}", a.1, b.1);
    Ok(())
}

fn partial<T: PartialOrd + Debug>(a: &T, b: &T, want: Option<std::cmp::Ordering>) -> R {
    use std::cmp::Ordering::*;
    req_eq!(a.partial_cmp(b), want, "compare-order", "{a:?} and {b:?}");
    req_eq!(b.partial_cmp(a), want.map(|o| o.reverse()), "compare-order", "{b:?} and {a:?}");
    req_eq!(a < b, want == Some(Less), "compare-order", "{a:?} < {b:?}");
    req_eq!(a > b, want == Some(Greater), "compare-order", "{a:?} > {b:?}");
    req_eq!(a <= b, matches!(want, Some(Less | Equal)), "compare-order", "{a:?} <= {b:?}");
    req_eq!(a >= b, matches!(want, Some(Greater | Equal)), "compare-order", "{a:?} >= {b:?}");
    Ok(())
}

const CS: &[char] = &['a', 'A', 'b', '-', ' ', '\u{e9}', '\u{212a}', 'k'];

fn text(ch: &mut Ch, max: usize) -> String {
    ch.seq(CS, max).into_iter().collect()
}

fn pair<'a, T>(ch: &mut Ch, xs: &'a [T]) -> (&'a T, &'a T) {
    ch.step();
    let a = ch.choose(xs.len());
    let b = ch.choose(xs.len());
    (&xs[a], &xs[b])
}

fn two<'a, T, K>(ch: &mut Ch, xs: &'a [(T, K)]) -> ((&'a T, &'a K), (&'a T, &'a K)) {
    let (a, b) = pair(ch, xs);
    ((&a.0, &a.1), (&b.0, &b.1))
}

fn times() -> Vec<SystemTime> {
    let e = SystemTime::UNIX_EPOCH;
    let mut v: Vec<SystemTime> = [0u64, 1, 59, 60, 3600, 86400, 784111777, 951868799, 951868800, u32::MAX as u64, 253402300799].iter().map(|s| e + Duration::from_secs(*s)).collect();
    v.push(e + Duration::from_nanos(1));
    v.push(e + Duration::from_millis(784111777999));
    v
}

fn durations() -> Vec<Duration> {
    let mut v: Vec<Duration> = [0u64, 1, 2, 10, 1 << 32, u64::MAX].iter().map(|s| Duration::from_secs(*s)).collect();
    v.extend([Duration::from_nanos(1), Duration::from_millis(999), Duration::MAX]);
    v
}

pub fn build(s: &mut Suite, thorough: bool) {
    let n = if thorough { 4 } else { 3 };
    s.bound(&format!("all pairs of texts of up to {n} and 2 of 8 characters as names, values, lists of values and parameter values, in each comparable form"));
    s.add("names", move |ch| {
        let (a, b) = (text(ch, n), text(ch, 2));
        ch.step();
        let Ok(x) = HeaderName::from_str(&a) else { return Ok(()) };
        // a text that is no name equals no name
        let want = b.is_ascii() && a.eq_ignore_ascii_case(&b);
        for (form, got) in [("str", x == *b.as_str()), ("&str", x == b.as_str()), ("String", x == b), ("&String", x == &b)] {
            req_eq!(got, want, "compare-name", "{a:?} == {b:?} as {form}");
        }
        let y = match HeaderName::from_str(&b) {
            Ok(y) => y,
            Err(_) => return Ok(()),
        };
        eqs((&x, &a.to_ascii_lowercase()), (&y, &b.to_ascii_lowercase()))?;
        hashes(&x, &y)
    });
    s.add("values", move |ch| {
        let (a, b) = (text(ch, n), text(ch, 2));
        ch.step();
        let Ok(x) = HeaderValue::from_str(&a) else { return Ok(()) };
        for (form, got) in [("str", x == *b.as_str()), ("&str", x == b.as_str()), ("String", x == b), ("&String", x == &b)] {
            req_eq!(got, a == b, "compare-value", "{a:?} == {b:?} as {form}");
        }
        if let Ok(y) = HeaderValue::from_str(&b) {
            eqs((&x, &a), (&y, &b))?;
            hashes(&x, &y)?;
        }
        Ok(())
    });
    s.bound("texts of up to 1000 characters that differ at one end, in the middle, in length or in case only");
    s.add("long", |ch| {
        let n = *ch.pick(&sizes(70, 1000));
        let a = "x".repeat(n);
        let mut b = a.clone().into_bytes();
        let at = *ch.pick(&[0, n / 2, n.saturating_sub(1)]);
        match ch.choose(4) {
            0 if n > 0 => b[at] = b'y',
            1 if n > 0 => b[at] = b'X',
            2 => b.insert(at, b'x'),
            _ => {}
        }
        let b = String::from_utf8(b).unwrap();
        ch.step();
        let (x, y) = (HeaderName::from_str(&a).unwrap(), HeaderName::from_str(&b).unwrap());
        eqs((&x, &a.to_ascii_lowercase()), (&y, &b.to_ascii_lowercase()))?;
        hashes(&x, &y)?;
        req_eq!((x == *b.as_str(), x == b.as_str(), x == b, x == &b), { let e = a.eq_ignore_ascii_case(&b); (e, e, e, e) }, "compare-name", "{n} characters");
        let (x, y) = (HeaderValue::from_str(&a).unwrap(), HeaderValue::from_str(&b).unwrap());
        eqs((&x, &a), (&y, &b))?;
        hashes(&x, &y)?;
        req_eq!((x == *b.as_str(), x == b.as_str(), x == b, x == &b), { let e = a == b; (e, e, e, e) }, "compare-value", "{n} characters");
        let (x, y) = (Metric::new(a.clone(), None, Some(a.clone())).unwrap(), Metric::new(a.clone(), None, Some(b.clone())).unwrap());
        eqs((&x, &a), (&y, &b))?;
        let (x, y) = (ETag::new(a.clone()), ETag::new(b.clone()));
        eqs((&x, &a), (&y, &b))?;
        let (x, y) = (Mime::from_str(&format!("a/b;p=\"{a}\"")).unwrap(), Mime::from_str(&format!("a/b;p=\"{b}\"")).unwrap());
        eqs((&x, &a), (&y, &b))
    });
    s.add("lists-of-values", |ch| {
        let vs: Vec<&str> = ch.seq(&["a", "A", "b", "", "a, b"], 3);
        let ws: Vec<&str> = ch.seq(&["a", "A", "b", "", "a, b"], 3);
        ch.step();
        if vs.is_empty() {
            return Ok(());
        }
        let mut res = res_with(&[]);
        let h: &mut Headers = res.as_mut();
        for v in &vs {
            h.append("x", *v).unwrap();
        }
        let l = h.get("x").unwrap();
        req_eq!(*l == ws[..], vs == ws, "compare-values", "{vs:?} and {ws:?}");
        if ws.len() == 1 {
            let w = ws[0].to_string();
            let want = vs == ws;
            for (form, got) in [("str", *l == *w.as_str()), ("&str", *l == w.as_str()), ("String", *l == w), ("&String", *l == &w)] {
                req_eq!(got, want, "compare-values", "{vs:?} == {w:?} as {form}");
            }
        }
        Ok(())
    });
    s.bound("lists of up to 300 values differing in one place or in length");
    s.add("long-lists", |ch| {
        let n = 1 + *ch.pick(&sizes(40, 300));
        let own: Vec<String> = (0..n).map(|i| format!("v{i}")).collect();
        let mut other = own.clone();
        let i = *ch.pick(&[0, 1, n / 2, n - 1]);
        match ch.choose(4) {
            0 => {}
            1 => other[i.min(n - 1)].push('x'),
            2 => drop(other.remove(i.min(n - 1))),
            _ => other.insert(i.min(n), "x".into()),
        }
        let mut res = res_with(&[]);
        let h: &mut Headers = res.as_mut();
        for v in &own {
            h.append("x", v.as_str()).unwrap();
        }
        let ws: Vec<&str> = other.iter().map(|s| s.as_str()).collect();
        ch.step();
        let l = h.get("x").unwrap();
        req_eq!(*l == ws[..], own == other, "compare-values", "{n} values against {} values", ws.len());
        req_eq!(*l == *own[0].as_str(), n == 1, "compare-values", "{n} values against the first");
        req_eq!(*l == own[0], n == 1, "compare-values", "{n} values against the first");
        req_eq!(*l == &own[0], n == 1, "compare-values", "{n} values against the first");
        Ok(())
    });
    s.add("parameters", move |ch| {
        // (a parameter's value is compared by case)
        let a = *ch.pick(&["a", "A", "utf-8", "UTF-8", "", " ", "a b"]);
        let b = *ch.pick(&["a", "A", "utf-8", "UTF-8", "", " ", "a b", "\"a\""]);
        ch.step();
        let m = Mime::from_str(&format!("x/y;p=\"{a}\"")).unwrap();
        let Some(p) = m.param("p") else {
            return viol("compare-parameter", format!("the parameter {a:?} is lost"));
        };
        req_eq!(*p == *b, a == b, "compare-parameter", "{a:?} == {b:?}");
        req_eq!(*p == b, a == b, "compare-parameter", "{a:?} == {b:?}");
        Ok(())
    });
    s.bound("all pairs of 12 media types, the content and transfer codings, 306 status code and number pairs per code, methods, versions, schemes and the other enumerations");
    s.add("media-types", |ch| {
        let texts = ["a/b", "a/c", "b/b", "*/*", "a/*", "a/b;x=y", "a/b;x=Y", "a/b;y=x", "a/b;x=y;z=w", "text/plain;charset=utf-8", "text/plain", "a/b;x=\"\""];
        let (a, b) = pair(ch, &texts);
        let (x, y) = (Mime::from_str(a).unwrap(), Mime::from_str(b).unwrap());
        eqs((&x, a), (&y, b))?;
        let t = ContentType::new(x.clone());
        req_eq!(t == y, a == b, "compare-type", "Content-Type {a} == {b}");
        req_eq!(t == &y, a == b, "compare-type", "Content-Type {a} == &{b}");
        for w in [None, Some(0.5)] {
            let p = MediaTypeProposal::new(x.clone(), w).unwrap();
            req_eq!(p == y, a == b, "compare-type", "proposal {a} == {b}");
            req_eq!(&p == y, a == b, "compare-type", "&proposal {a} == {b}");
        }
        // case of names does not matter
        let upper = Mime::from_str(&a.replace("text", "TEXT").replace("a/", "A/").replace("x=", "X=")).unwrap();
        req_eq!(upper, x, "compare-type", "{a} and its upper-case form");
        Ok(())
    });
    s.add("codings", |ch| {
        use content::Encoding as C;
        use transfer::Encoding as T;
        let c = [C::Gzip, C::Deflate, C::Brotli, C::Zstd, C::Identity];
        let (i, j) = pair(ch, &[0, 1, 2, 3, 4]);
        let (a, b) = (c[*i], c[*j]);
        eqs((&a, i), (&b, j))?;
        let h = ContentEncoding::new(a);
        req_eq!((h == b, h == &b), (i == j, i == j), "compare-coding", "Content-Encoding {a:?} == {b:?}");
        for w in [None, Some(0.0), Some(1.0)] {
            let p = content::EncodingProposal::new(a, w).unwrap();
            req_eq!((p == b, &p == b), (i == j, i == j), "compare-coding", "proposal {a:?};q={w:?} == {b:?}");
        }
        let t = [T::Chunked, T::Deflate, T::Gzip, T::Identity];
        if *i < t.len() && *j < t.len() {
            let (a, b) = (t[*i], t[*j]);
            eqs((&a, i), (&b, j))?;
            let h = TransferEncoding::new(a);
            req_eq!((h == b, h == &b), (i == j, i == j), "compare-coding", "Transfer-Encoding {a:?} == {b:?}");
            for w in [None, Some(0.0), Some(1.0)] {
                let p = transfer::EncodingProposal::new(a, w).unwrap();
                req_eq!((p == b, &p == b), (i == j, i == j), "compare-coding", "proposal {a:?};q={w:?} == {b:?}");
            }
        }
        Ok(())
    });
    s.bound("all pairs of 11 weights of proposals, of dates and of durations as each date or duration header");
    s.add("weights", |ch| {
        let ws = [None, Some(0.0f32), Some(0.001), Some(0.009), Some(0.1), Some(0.5), Some(0.499), Some(0.999), Some(1.0), Some(0.1 + 0.2), Some(f32::MIN_POSITIVE)];
        let (a, b) = pair(ch, &ws);
        // a weight is more than none, and without weights there is no order
        let want = match (a, b) {
            (None, None) => None,
            _ => a.partial_cmp(b),
        };
        let same = ch.flag();
        {
            use content::{Encoding as E, EncodingProposal as P};
            partial(&P::new(E::Gzip, *a).unwrap(), &P::new(if same { E::Gzip } else { E::Brotli }, *b).unwrap(), want)?;
        }
        {
            use transfer::{Encoding as E, EncodingProposal as P};
            partial(&P::new(E::Gzip, *a).unwrap(), &P::new(if same { E::Gzip } else { E::Chunked }, *b).unwrap(), want)?;
        }
        let m = Mime::from_str("a/b").unwrap();
        let o = if same { m.clone() } else { Mime::from_str("*/*").unwrap() };
        let p = |m: Mime, w: Option<f32>| match w {
            // (a media type as it is has no weight, and one proposed without has 1)
            None => MediaTypeProposal::from(m),
            w => MediaTypeProposal::new(m, w).unwrap(),
        };
        partial(&p(m.clone(), *a), &p(o.clone(), *b), want)?;
        let (one, other) = (MediaTypeProposal::new(m, None).unwrap(), p(o, *b));
        partial(&one, &other, Some(1.0).partial_cmp(b))
    });
    s.add("dates", |ch| {
        let ts = times();
        let (a, b) = pair(ch, &ts);
        ords((&Expires::new_at(*a), a), (&Expires::new_at(*b), b))?;
        ords((&LastModified::new(*a), a), (&LastModified::new(*b), b))?;
        ords((&IfModifiedSince::new(*a), a), (&IfModifiedSince::new(*b), b))?;
        ords((&IfUnmodifiedSince::new(*a), a), (&IfUnmodifiedSince::new(*b), b))?;
        ords((&RetryAfter::new_at(*a), a), (&RetryAfter::new_at(*b), b))?;
        hashes(&RetryAfter::new_at(*a), &RetryAfter::new_at(*b))?;
        req_eq!(Date::new(*a) == *b, a == b, "compare-date", "{a:?} and {b:?}");
        Ok(())
    });
    s.add("durations", |ch| {
        let ds = durations();
        let (a, b) = pair(ch, &ds);
        ords((&Age::new(*a), a), (&Age::new(*b), b))?;
        ords((&RetryAfter::new(*a), a), (&RetryAfter::new(*b), b))?;
        hashes(&RetryAfter::new(*a), &RetryAfter::new(*b))?;
        // and a delay is not a date
        let at = SystemTime::UNIX_EPOCH + Duration::from_secs(10);
        req!(RetryAfter::new(*a) != RetryAfter::new_at(at), "compare-retry", "a delay equals a date");
        for kind in 0..6 {
            let of = |d: Duration| match kind {
                0 => CacheDirective::MaxAge(d),
                1 => CacheDirective::MaxStale(Some(d)),
                2 => CacheDirective::MinFresh(d),
                3 => CacheDirective::SMaxAge(d),
                4 => CacheDirective::StaleIfError(d),
                _ => CacheDirective::StaleWhileRevalidate(d),
            };
            eqs((&of(*a), a), (&of(*b), b))?;
        }
        Ok(())
    });
    s.add("status-codes", |ch| {
        let (c, n, _) = CODES[ch.choose(CODES.len())];
        let m = ch.choose(1000) as u16;
        ch.step();
        use std::convert::TryFrom;
        req_eq!((c == m, m == c), (n == m, n == m), "compare-status", "{n} and {m}");
        if let Ok(d) = StatusCode::try_from(m) {
            eqs((&c, &n), (&d, &m))?;
            hashes(&c, &d)?;
        }
        Ok(())
    });
    s.add("methods", |ch| {
        let (a, b) = two(ch, METHODS);
        eqs(a, b)?;
        hashes(a.0, b.0)?;
        eqs((&Method::from_str(a.1).unwrap(), a.1), b)
    });
    s.add("versions", |ch| {
        use Version::*;
        let vs = [(Http0_9, 9), (Http1_0, 10), (Http1_1, 11), (Http2_0, 20), (Http3_0, 30)];
        let (a, b) = two(ch, &vs);
        ords(a, b)
    });
    s.add("enumerations", |ch| {
        use AuthenticationScheme as A;
        let a = [(A::Basic, 0), (A::Bearer, 1), (A::Digest, 2), (A::Hoba, 3), (A::Mutual, 4), (A::Negotiate, 5), (A::OAuth, 6), (A::ScramSha1, 7), (A::ScramSha256, 8), (A::Vapid, 9)];
        let (x, y) = two(ch, &a);
        eqs(x, y)?;
        use CacheDirective as C;
        let c = [
            (C::Immutable, 0),
            (C::MustRevalidate, 1),
            (C::NoCache, 2),
            (C::NoStore, 3),
            (C::NoTransform, 4),
            (C::OnlyIfCached, 5),
            (C::Private, 6),
            (C::ProxyRevalidate, 7),
            (C::Public, 8),
            (C::MaxStale(None), 9),
        ];
        eqs((&c[*x.1].0, x.1), (&c[*y.1].0, y.1))?;
        use Source as S;
        let c = [S::SameOrigin, S::Src, S::None, S::UnsafeInline, S::Data, S::Mediastream, S::Https, S::Blob, S::Filesystem, S::Wildcard];
        eqs((&c[*x.1], x.1), (&c[*y.1], y.1))?;
        hashes(&c[*x.1], &c[*y.1])?;
        use ClearDirective as D;
        let d = [D::Cache, D::Cookies, D::Storage, D::ExecutionContexts];
        if *x.1 < 4 && *y.1 < 4 {
            eqs((&d[*x.1], x.1), (&d[*y.1], y.1))?;
            hashes(&d[*x.1], &d[*y.1])?;
        }
        Ok(())
    });
    s.bound("all pairs of 10 entity tags, 36 metrics, 27 forwarded elements and 12 sets of allowed origins");
    s.add("records", |ch| {
        match ch.choose(4) {
            0 => {
                let all: Vec<(ETag, (bool, &str))> = ["", "a", "A", "b", "a,b"].iter().flat_map(|t| [(ETag::new(t.to_string()), (false, *t)), (ETag::new_weak(t.to_string()), (true, *t))]).collect();
                let (a, b) = two(ch, &all);
                eqs(a, b)
            }
            1 => {
                let mut all = vec![];
                for name in ["a", "A", "ab"] {
                    for dur in [None, Some(Duration::ZERO), Some(Duration::from_nanos(1)), Some(Duration::from_millis(1))] {
                        for desc in [None, Some(""), Some("x")] {
                            all.push((Metric::new(name.into(), dur, desc.map(String::from)).unwrap(), (name, dur, desc)));
                        }
                    }
                }
                let (a, b) = two(ch, &all);
                eqs(a, b)
            }
            2 => {
                let mut all = vec![];
                for f in [&[][..], &["a"], &["a", "b"]] {
                    for host in [None, Some("a"), Some("b")] {
                        for proto in [None, Some("a"), Some("http")] {
                            let mut x = Forwarded::new();
                            f.iter().for_each(|f| x.add_for(*f));
                            host.iter().for_each(|h| x.set_host(*h));
                            proto.iter().for_each(|p| x.set_proto(*p));
                            proto.iter().for_each(|p| x.set_by(format!("{p}-by")));
                            // owned and borrowed are the same
                            all.push((if f.len() == 1 { x.into_owned() } else { x }, (f, host, proto)));
                        }
                    }
                }
                let (a, b) = two(ch, &all);
                eqs(a, b)
            }
            _ => {
                let mut all = vec![];
                for wild in [false, true] {
                    for os in [&[][..], &["http://a"], &["http://b"], &["http://a", "http://b"], &["http://b", "http://a"], &["http://a", "http://a"]] {
                        let mut t = TimingAllowOrigin::new();
                        t.set_wildcard(wild);
                        os.iter().for_each(|o| t.push(Url::parse(o).unwrap()));
                        all.push((t, (wild, os)));
                    }
                }
                let (a, b) = two(ch, &all);
                eqs(a, b)
            }
        }
    });
}
