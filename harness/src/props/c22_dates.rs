//! C22 HTTP dates, C23 headers that hold one date or a number of seconds.
use crate::engine::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::cache::{Age, Expires};
use http_types::conditional::{IfModifiedSince, IfUnmodifiedSince, LastModified};
use http_types::headers::{Header, Headers};
use http_types::other::{Date, RetryAfter};
use http_types::Response;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

const DAYS: [&str; 7] = ["Thursday", "Friday", "Saturday", "Sunday", "Monday", "Tuesday", "Wednesday"];
const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

fn leap(y: u32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
fn month_len(y: u32, m: u32) -> u32 {
    match m {
        2 => 28 + leap(y) as u32,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Days since the epoch by counting (years, months) one by one.
fn day_number(y: u32, m: u32, d: u32) -> u64 {
    thread_local!(static STARTS: Vec<u64> = {
        let mut v = vec![];
        let mut n = 0u64;
        for y in 1970..=10000u32 {
            v.push(n);
            n += 365 + leap(y) as u64;
        }
        v
    });
    let mut n = STARTS.with(|s| s[(y - 1970) as usize]);
    for k in 1..m {
        n += month_len(y, k) as u64;
    }
    n + d as u64 - 1
}
fn instant(y: u32, m: u32, d: u32, hh: u32, mm: u32, ss: u32) -> (SystemTime, usize) {
    let n = day_number(y, m, d);
    (
        UNIX_EPOCH + Duration::from_secs(n * 86400 + (hh * 3600 + mm * 60 + ss) as u64),
        (n % 7) as usize,
    )
}

fn imf(wd: usize, y: u32, m: u32, d: u32, hh: u32, mm: u32, ss: u32) -> String {
    format!("{}, {d:02} {} {y:04} {hh:02}:{mm:02}:{ss:02} GMT", &DAYS[wd][..3], MONTHS[m as usize - 1])
}
fn rfc850(wd: usize, y: u32, m: u32, d: u32, hh: u32, mm: u32, ss: u32) -> String {
    format!("{}, {d:02}-{}-{:02} {hh:02}:{mm:02}:{ss:02} GMT", DAYS[wd], MONTHS[m as usize - 1], y % 100)
}
fn asctime(wd: usize, y: u32, m: u32, d: u32, hh: u32, mm: u32, ss: u32) -> String {
    format!("{} {} {d:2} {hh:02}:{mm:02}:{ss:02} {y:04}", &DAYS[wd][..3], MONTHS[m as usize - 1])
}

struct Kind {
    name: &'static str,
    read: fn(&Headers) -> http_types::Result<Option<SystemTime>>,
    write: fn(SystemTime) -> (String, String),
}

fn hv<H: Header>(h: H) -> (String, String) {
    (h.header_name().to_string(), h.header_value().to_string())
}

const KINDS: &[Kind] = &[
    Kind { name: "if-modified-since", read: |h| Ok(IfModifiedSince::from_headers(h)?.map(|x| x.modified())), write: |t| hv(IfModifiedSince::new(t)) },
    Kind { name: "date", read: |h| Ok(Date::from_headers(h)?.map(|x| x.into())), write: |t| hv(Date::new(t)) },
    Kind { name: "expires", read: |h| Ok(Expires::from_headers(h)?.map(|x| x.expiration())), write: |t| hv(Expires::new_at(t)) },
    Kind { name: "last-modified", read: |h| Ok(LastModified::from_headers(h)?.map(|x| x.modified())), write: |t| hv(LastModified::new(t)) },
    Kind { name: "if-unmodified-since", read: |h| Ok(IfUnmodifiedSince::from_headers(h)?.map(|x| x.modified())), write: |t| hv(IfUnmodifiedSince::new(t)) },
    Kind {
        name: "retry-after",
        // the instant is observable only through a duration for dates
        read: |h| {
            Ok(match RetryAfter::from_headers(h)? {
                None => None,
                Some(r) => Some(SystemTime::from(r)),
            })
        },
        write: |t| hv(RetryAfter::new_at(t)),
    },
];

fn read(k: &Kind, text: &str) -> Result<Result<SystemTime, u16>, Viol> {
    let mut res = Response::new(200);
    res.insert_header(k.name, text).unwrap();
    match no_panic(|| (k.read)(hdrs(&res))) {
        Ok(Ok(Some(t))) => Ok(Ok(t)),
        Ok(Ok(None)) => viol("date-absent", format!("{} {text:?} reads as absent", k.name)),
        Ok(Err(e)) => Ok(Err(e.status() as u16)),
        Err(p) => viol("date-panic", format!("{} {text:?}: {p}", k.name)),
    }
}

enum Want {
    Is(SystemTime),
    Reject,
    Open,
}

/// The three formats of RFC 7231 section 7.1.1.1, read by shape.
fn reference(s: &str) -> Want {
    if s.trim_matches(|c| c == ' ' || c == '\t') != s.trim() {
        return Want::Open;
    }
    let s = s.trim();
    let num = |t: &str| -> Option<u32> {
        if !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit()) {
            t.parse().ok()
        } else {
            None
        }
    };
    let mon = |t: &str| MONTHS.iter().position(|m| *m == t).map(|i| i as u32 + 1);
    let time = |t: &str| -> Option<(u32, u32, u32)> {
        let p: Vec<&str> = t.split(':').collect();
        if p.len() != 3 || p.iter().any(|x| x.len() != 2) {
            return None;
        }
        Some((num(p[0])?, num(p[1])?, num(p[2])?))
    };
    let parse = || -> Option<(usize, u32, u32, u32, (u32, u32, u32))> {
        if let Some((wd, rest)) = s.split_once(", ") {
            let f: Vec<&str> = rest.split(' ').collect();
            if let Some(wd) = DAYS.iter().position(|d| &d[..3] == wd) {
                if f.len() != 5 || f[0].len() != 2 || f[2].len() != 4 || f[4] != "GMT" {
                    return None;
                }
                return Some((wd, num(f[2])?, mon(f[1])?, num(f[0])?, time(f[3])?));
            }
            let wd = DAYS.iter().position(|d| *d == wd)?;
            if f.len() != 3 || f[2] != "GMT" {
                return None;
            }
            let d: Vec<&str> = f[0].split('-').collect();
            if d.len() != 3 || d[0].len() != 2 || d[2].len() != 2 {
                return None;
            }
            let y = num(d[2])?;
            return Some((wd, if y < 70 { 2000 + y } else { 1900 + y }, mon(d[1])?, num(d[0])?, time(f[1])?));
        }
        // Sun Nov  6 08:49:37 1994
        if !s.is_ascii() || s.len() != 24 {
            return None;
        }
        let (wd, m, d, t, y) = (&s[0..3], &s[4..7], &s[8..10], &s[11..19], &s[20..24]);
        if [3, 7, 10, 19].iter().any(|i| s.as_bytes()[*i] != b' ') {
            return None;
        }
        let d = if d.starts_with(' ') { num(&d[1..])? } else { num(d)? };
        Some((DAYS.iter().position(|x| &x[..3] == wd)?, num(y)?, mon(m)?, d, time(t)?))
    };
    match parse() {
        None => Want::Reject,
        Some((wd, y, m, d, (hh, mm, ss))) => {
            if d == 0 || d > month_len(y, m) || hh > 23 || mm > 59 || ss > 60 {
                return Want::Reject;
            }
            if y < 1970 || ss == 60 {
                return Want::Open;
            }
            let (t, real) = instant(y, m, d, hh, mm, ss);
            if wd != real {
                Want::Open
            } else {
                Want::Is(t)
            }
        }
    }
}

fn check(k: &Kind, ch: &mut Ch, s: &str) -> R {
    ch.note(|| format!("{}: {s:?}", k.name));
    let got = read(k, s)?;
    ch.step();
    match (reference(s), got) {
        (Want::Is(t), g) => req_eq!(g, Ok(t), "date-parse", "{} {s:?}", k.name),
        (Want::Reject, g) => {
            let digits = k.name == "retry-after" && s.trim().trim_start_matches('+').bytes().all(|b| b.is_ascii_digit());
            req!(digits || g == Err(400), "date-accepts", "{} {s:?} is no HTTP date, but: {g:?}", k.name)
        }
        (Want::Open, g) => req!(!matches!(g, Err(c) if c != 400), "date-status", "{} {s:?}: {g:?}", k.name),
    }
    Ok(())
}

pub fn build_c22(s: &mut Suite, thorough: bool) {
    s.bound("every day from 1970-01-01 to 9999-12-31 at 2 (thorough 8) times, every second of 6 days with and without a fraction, written and read back in the three formats; every value 00..99 of every numeric field and all day and month names; every single-character substitution (256 characters), insertion, deletion and truncation of 6 valid texts; thorough: every pair of substitutions over 8 characters; every date header");
    s.assume("a date whose weekday is not that of the day, the leap second 60 and years before 1970 may be read or rejected; header values are written only for instants in 1970 to 9999 (others are a documented panic)");
    const TIMES: &[(u32, u32, u32)] = &[(0, 0, 0), (23, 59, 59), (12, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (9, 9, 9), (10, 59, 10)];
    let nt = if thorough { 8 } else { 2 };
    s.add("every-day", move |ch| {
        let y = 1970 + ch.choose(8030) as u32;
        let m = 1 + ch.choose(12) as u32;
        let (hh, mm, ss) = TIMES[ch.choose(nt)];
        for d in 1..=month_len(y, m) {
            let (t, wd) = instant(y, m, d, hh, mm, ss);
            let want = imf(wd, y, m, d, hh, mm, ss);
            let k = &KINDS[0];
            req_eq!((k.write)(t).1, want, "date-format", "{y}-{m}-{d}");
            ch.step();
            req_eq!(read(k, &want)?, Ok(t), "date-parse", "{want}");
            ch.step();
            let a = asctime(wd, y, m, d, hh, mm, ss);
            req_eq!(read(k, &a)?, Ok(t), "date-parse", "{a}");
            ch.step();
            if y < 2070 {
                let r = rfc850(wd, y, m, d, hh, mm, ss);
                req_eq!(read(k, &r)?, Ok(t), "date-parse", "{r}");
                ch.step();
            }
        }
        Ok(())
    });
    s.bound("every day that does not exist (0, and from the end of the month to 32) of every month of every year from 1970 to 9999");
    s.add("missing-days", |ch| {
        let y = 1970 + ch.choose(8030) as u32;
        let m = 1 + ch.choose(12) as u32;
        for d in std::iter::once(0).chain(month_len(y, m) + 1..=32) {
            let natural = if d == 0 { instant(y, m, 1, 0, 0, 0).1 + 6 } else { instant(y, m, 1, 0, 0, 0).1 + d as usize - 1 };
            for wd in 0..7 {
                // February under each weekday, the other months under that which the day would have
                if m != 2 && wd != natural % 7 {
                    continue;
                }
                check(&KINDS[0], ch, &imf(wd, y, m, d, 8, 49, 37))?;
                check(&KINDS[0], ch, &asctime(wd, y, m, d, 8, 49, 37))?;
                if y < 2070 {
                    check(&KINDS[0], ch, &rfc850(wd, y, m, d, 8, 49, 37))?;
                }
            }
        }
        Ok(())
    });
    s.add("every-second", |ch| {
        const D: &[(u32, u32, u32)] = &[(1970, 1, 1), (1999, 12, 31), (2000, 2, 29), (2024, 2, 29), (2069, 12, 31), (9999, 12, 31)];
        let (y, m, d) = *ch.pick(D);
        let hh = ch.choose(24) as u32;
        let mm = ch.choose(60) as u32;
        for ss in 0..60 {
            let (t, wd) = instant(y, m, d, hh, mm, ss);
            let want = imf(wd, y, m, d, hh, mm, ss);
            for nanos in [0, 1, 999_999_999] {
                req_eq!((KINDS[0].write)(t + Duration::from_nanos(nanos)).1, want, "date-format", "{want} + {nanos} ns");
            }
            req_eq!(read(&KINDS[0], &want)?, Ok(t), "date-parse", "{want}");
            ch.step();
        }
        Ok(())
    });
    s.add("fields", |ch| {
        // one field takes every two-digit value
        let fmt: fn(usize, u32, u32, u32, u32, u32, u32) -> String = *ch.pick(&[imf as fn(usize, u32, u32, u32, u32, u32, u32) -> String, rfc850, asctime]);
        let v = ch.choose(100) as u32;
        let which = ch.choose(4);
        let y = *ch.pick(&[1994u32, 1996, 2000, 2023]);
        let m = 1 + ch.choose(12) as u32;
        let text = match which {
            0 => {
                // the day, under every weekday
                let wd = ch.choose(7);
                fmt(wd, y, m, v, 8, 49, 37)
            }
            1 => fmt(instant(y, m, 6, 0, 0, 0).1, y, m, 6, v, 49, 37),
            2 => fmt(instant(y, m, 6, 0, 0, 0).1, y, m, 6, 8, v, 37),
            _ => fmt(instant(y, m, 6, 0, 0, 0).1, y, m, 6, 8, 49, v),
        };
        check(&KINDS[0], ch, &text)
    });
    s.add("years", |ch| {
        let y = ch.choose(10000) as u32;
        let text = if y >= 1970 {
            imf(instant(y, 11, 6, 0, 0, 0).1, y, 11, 6, 8, 49, 37)
        } else {
            imf(3, y, 11, 6, 8, 49, 37)
        };
        check(&KINDS[0], ch, &text)?;
        check(&KINDS[0], ch, &text.replace("08:", "8:"))
    });
    const VALID: &[&str] = &[
        "Sun, 06 Nov 1994 08:49:37 GMT", "Sunday, 06-Nov-94 08:49:37 GMT", "Sun Nov  6 08:49:37 1994",
        "Sat, 29 Feb 2020 23:59:59 GMT", "Wednesday, 31-Dec-69 10:00:00 GMT", "Tue Dec 31 00:00:00 2069",
    ];
    s.bound("6 dates with each of 36 pieces of text before, after and within");
    s.add("junk", |ch| {
        const J: &[&str] = &[
            "xx", "00", "  ", ", ", "GMT", " GMT", "Z", "+0", "+00", "+0000", " +0000", " UTC", " (x)", ";x", ";x=1", ".0", ".00", ".000", ",0", ":0", ":00", "-", "--", "0 ", " 0", "AM", " PM", "\"", "''", "\u{0}", "Sun", "Sunday, ",
            "Sun, ", "1", "2023", " 2023",
        ];
        let base = *ch.pick(VALID);
        let j = *ch.pick(J);
        let k = &KINDS[0];
        check(k, ch, &format!("{base}{j}"))?;
        check(k, ch, &format!("{j}{base}"))?;
        for at in 1..base.len() {
            check(k, ch, &format!("{}{j}{}", &base[..at], &base[at..]))?;
        }
        Ok(())
    });
    s.add("edits", |ch| {
        let base: Vec<u8> = ch.pick(VALID).as_bytes().to_vec();
        let k = ch.choose(KINDS.len());
        let pos = ch.choose(base.len() + 1);
        let mut v = base.clone();
        match ch.choose(5) {
            0 => {
                if pos < v.len() {
                    v[pos] = ch.choose(128) as u8;
                }
            }
            1 => v.insert(pos, ch.choose(128) as u8),
            2 => {
                if pos < v.len() {
                    v.remove(pos);
                }
            }
            3 => v.truncate(pos),
            _ => {
                v.drain(..pos);
            }
        }
        let text = String::from_utf8(v).unwrap();
        check(&KINDS[k], ch, &text)
    });
    let n2 = thorough;
    s.add("double-edits", move |ch| {
        let base: Vec<u8> = VALID[ch.choose(if n2 { VALID.len() } else { 3 })].as_bytes().to_vec();
        let mut v = base.clone();
        let a = ch.choose(base.len());
        let b = ch.choose(base.len());
        let cs: &[u8] = if n2 { b"09 +-:aG" } else { b"09 +" };
        v[a] = *ch.pick(cs);
        v[b] = *ch.pick(cs);
        check(&KINDS[0], ch, &String::from_utf8(v).unwrap())
    });
    s.add("names", |ch| {
        // names in every case variation, and exchanged
        let wd = *ch.pick(&["Sun", "SUN", "sun", "Sunday", "SUNDAY", "Mon", "Fri", "Thursday", "", "Su"]);
        let m = *ch.pick(&["Jan", "JAN", "jan", "Dec", "Jul", "July", "", "Nov"]);
        let tz = *ch.pick(&["GMT", "gmt", "UTC", "+0000", "", "GMT "]);
        for text in [
            format!("{wd}, 06 {m} 1994 08:49:37 {tz}"),
            format!("{wd}, 06-{m}-94 08:49:37 {tz}"),
            format!("{wd} {m}  6 08:49:37 1994{tz}"),
            format!("{wd} {m}  6 08:49:37 1994"),
        ] {
            check(&KINDS[0], ch, &text)?;
        }
        Ok(())
    });
}

pub fn build_c23(s: &mut Suite, thorough: bool) {
    s.bound("the six date headers over every sequence of at most 3 (thorough 4) header lines out of 5 texts; Age and Retry-After over 0..=70000, every power of two and ten and their neighbours in u64, and every sequence of at most 4 (5) of 9 tokens");
    s.assume("a sign before, or whitespace around, a number of seconds is not decided; conversions that read the clock are checked to within the time the call took; a duration the clock cannot represent counts as at least 2^31 seconds");
    let n = if thorough { 4 } else { 3 };
    s.add("last-line-counts", move |ch| {
        let k = ch.pick(KINDS);
        const T: &[&str] = &["Sun, 06 Nov 1994 08:49:37 GMT", "Sun Nov  6 08:49:38 1994", " Sunday, 06-Nov-94 08:49:39 GMT ", "nonsense", ""];
        let ls = ch.seq(T, n);
        let mut res = Response::new(200);
        for l in &ls {
            res.append_header(k.name, *l).unwrap();
        }
        ch.note(|| format!("{}: {ls:?}", k.name));
        let got = match no_panic(|| (k.read)(hdrs(&res))) {
            Ok(g) => g,
            Err(p) => return viol("date-panic", format!("{} {ls:?}: {p}", k.name)),
        };
        ch.step();
        ch.state(&ls);
        let code = st(&got);
        match ls.last() {
            None => req!(matches!(got, Ok(None)), "date-absent", "{} without lines is {got:?}", k.name),
            Some(l) => match reference(l) {
                Want::Is(t) => {
                    req_eq!(got.ok(), Some(Some(t)), "date-last", "{} {ls:?}", k.name);
                    let (name, value) = (k.write)(t);
                    req_eq!(name, k.name, "date-name", "name of {}", k.name);
                    let again = read(k, &value)?;
                    req_eq!(again, Ok(t), "date-round-trip", "{} {value:?}", k.name);
                }
                _ => req_eq!(code, 400, "date-status", "{} {ls:?}", k.name),
            },
        }
        Ok(())
    });
    s.bound("for all six: the first and last second and one more of every year, with and without a fraction, written and read; 16 texts which are no dates");
    s.add("instants", |ch| {
        let k = ch.pick(KINDS);
        let y = 1970 + ch.choose(8030) as u32;
        for (m, d, hh, mm, ss) in [(1, 1, 0, 0, 0), (12, 31, 23, 59, 59), (1 + y % 12, 1 + y % 28, y % 24, y % 60, y % 59)] {
            let (t, wd) = instant(y, m, d, hh, mm, ss);
            let want = imf(wd, y, m, d, hh, mm, ss);
            for nanos in [0, 999_999_999] {
                req_eq!((k.write)(t + Duration::from_nanos(nanos)), (k.name.to_string(), want.clone()), "date-format", "{} of {want} + {nanos} ns", k.name);
            }
            req_eq!(read(k, &want)?, Ok(t), "date-parse", "{} {want}", k.name);
            ch.step();
        }
        Ok(())
    });
    s.add("no-dates", |ch| {
        let k = ch.pick(KINDS);
        const T: &[&str] = &["0", "-1", "1", "now", "never", "0000-00-00", "1994-11-06T08:49:37Z", "784111777", "06 Nov 1994 08:49:37 GMT", "Sun, 06 Nov 1994", "Thu, 01 Jan 1970", "GMT", "null", "*", "\"\"", "\"Sun, 06 Nov 1994 08:49:37 GMT\"", "\"0\"", "'Sun, 06 Nov 1994 08:49:37 GMT'", "<Sun, 06 Nov 1994 08:49:37 GMT>", "Sun, 06 Nov 1994 08:49:37 GMT;", "Sun, 06 Nov 1994 08:49:37 GMT; length=5", "@784111777", "784111777000", "Sun, 06 Nov 1994 08:49:37 GMT (x)", "Sun, 06 Nov 1994 08:49:37 GMT, Sun, 06 Nov 1994 08:49:37 GMT"];
        let t = *ch.pick(T);
        check(k, ch, t)
    });
    s.add("equality-and-order", |ch| {
        let a = ch.choose(4) as u64;
        let b = ch.choose(4) as u64;
        // instants, and lengths of time, apart by less than a second
        let (na, nb) = (Duration::from_nanos(*ch.pick(&[0, 1, 999_999_999])), Duration::from_nanos(*ch.pick(&[0, 1, 999_999_999])));
        let (da, db) = (Duration::from_secs(a) + na, Duration::from_secs(b) + nb);
        let (ua, ub) = (UNIX_EPOCH + da, UNIX_EPOCH + db);
        req_eq!(Expires::new_at(ua).cmp(&Expires::new_at(ub)), da.cmp(&db), "date-order", "Expires");
        req_eq!(LastModified::new(ua).cmp(&LastModified::new(ub)), da.cmp(&db), "date-order", "LastModified");
        req_eq!(IfModifiedSince::new(ua).cmp(&IfModifiedSince::new(ub)), da.cmp(&db), "date-order", "IfModifiedSince");
        req_eq!(IfUnmodifiedSince::new(ua).cmp(&IfUnmodifiedSince::new(ub)), da.cmp(&db), "date-order", "IfUnmodifiedSince");
        req_eq!(Date::new(ua) == ub, da == db, "date-eq", "Date");
        req_eq!(RetryAfter::new_at(ua) == RetryAfter::new_at(ub), da == db, "retry-eq", "RetryAfter");
        req_eq!(RetryAfter::new(da) == RetryAfter::new(db), da == db, "retry-eq", "RetryAfter");
        req_eq!(Age::new(da).cmp(&Age::new(db)), da.cmp(&db), "age-order", "Age");
        let (ta, tb) = (UNIX_EPOCH + Duration::from_secs(a), UNIX_EPOCH + Duration::from_secs(b));
        req_eq!(Expires::new_at(ta).cmp(&Expires::new_at(tb)), a.cmp(&b), "date-order", "Expires");
        req_eq!(LastModified::new(ta) == LastModified::new(tb), a == b, "date-eq", "LastModified");
        req_eq!(IfModifiedSince::new(ta) < IfModifiedSince::new(tb), a < b, "date-order", "IfModifiedSince");
        req_eq!(IfUnmodifiedSince::new(ta) < IfUnmodifiedSince::new(tb), a < b, "date-order", "IfUnmodifiedSince");
        req_eq!(Date::new(ta) == tb, a == b, "date-eq", "Date");
        req_eq!(SystemTime::from(Date::from(ta)), ta, "date-eq", "Date");
        req_eq!(Age::from_secs(a) < Age::new(Duration::from_secs(b)), a < b, "age-order", "Age");
        req_eq!(RetryAfter::new_at(ta) == RetryAfter::new_at(tb), a == b, "retry-eq", "RetryAfter");
        req_eq!(RetryAfter::new_at(ta).duration_since(tb).ok(), ta.duration_since(tb).ok(), "retry-since", "RetryAfter");
        ch.step();
        Ok(())
    });
    fn seconds(ch: &mut Ch, text: &str, n: Option<u64>) -> R {
        ch.note(|| format!("seconds {text:?}"));
        ch.step();
        // Age
        let res = res_with(&[("age", "junk"), ("age", text)]);
        let age = match no_panic(|| Age::from_headers(&res)) {
            Ok(a) => a,
            Err(p) => return viol("age-panic", format!("Age {text:?}: {p}")),
        };
        let lenient = !text.bytes().all(|b| b.is_ascii_digit()) && text.trim().trim_start_matches('+').bytes().all(|b| b.is_ascii_digit());
        match (n, &age) {
            (Some(n), Ok(Some(a))) => {
                req_eq!(a.duration(), Duration::from_secs(n), "age-value", "Age {text:?}");
                req_eq!(a.header_value().as_str(), n.to_string(), "age-write", "Age {text:?}");
                req_eq!(Age::new(Duration::new(n, 999_999_999)).header_value().as_str(), n.to_string(), "age-write", "{n} s and a fraction");
                req_eq!(Age::from_secs(n), Age::new(Duration::from_secs(n)), "age-new", "{n}");
            }
            (Some(_), o) => return viol("age-value", format!("Age {text:?} reads {o:?}")),
            (None, Ok(_)) if lenient => {}
            (None, Ok(o)) => return viol("age-accepts", format!("Age {text:?} reads {o:?}")),
            (None, Err(e)) => req_eq!(e.status() as u16, 400, "age-status", "Age {text:?}"),
        }
        // Retry-After
        let res = res_with(&[("retry-after", "junk"), ("retry-after", text)]);
        let got = match no_panic(|| RetryAfter::from_headers(&res)) {
            Ok(a) => a,
            Err(p) => return viol("retry-panic", format!("Retry-After {text:?}: {p}")),
        };
        match (n, got) {
            (Some(n), Ok(Some(r))) => {
                req_eq!(r.header_value().as_str(), n.to_string(), "retry-write", "Retry-After {text:?}");
                req_eq!(r, RetryAfter::new(Duration::from_secs(n)), "retry-value", "Retry-After {text:?}");
                let before = SystemTime::now();
                let at = match no_panic(|| (r.duration_since(before), SystemTime::from(r.clone()))) {
                    Ok(a) => a,
                    Err(p) => return viol("retry-panic", format!("Retry-After {text:?} as a time: {p}")),
                };
                let after = SystemTime::now();
                let d = at.0.unwrap_or_default();
                let d2 = at.1.duration_since(before).unwrap_or_default();
                let slack = after.duration_since(before).unwrap_or_default() + Duration::from_secs(1);
                for d in [d, d2] {
                    let exact = d + Duration::from_secs(1) >= Duration::from_secs(n) && d <= Duration::from_secs(n).saturating_add(slack);
                    let far = n >= 1 << 31 && d >= Duration::from_secs((1 << 31) - 1);
                    req!(exact || far, "retry-time", "Retry-After {text:?} is {d:?} from now");
                }
            }
            (Some(_), o) => return viol("retry-value", format!("Retry-After {text:?} reads {o:?}")),
            (None, Ok(_)) if lenient => {}
            (None, Ok(o)) => return viol("retry-accepts", format!("Retry-After {text:?} reads {o:?}")),
            (None, Err(e)) => req_eq!(e.status() as u16, 400, "retry-status", "Retry-After {text:?}"),
        }
        Ok(())
    }
    s.add("seconds", |ch| {
        let n = ch.choose(70001) as u64;
        seconds(ch, &n.to_string(), Some(n))
    });
    s.add("large-seconds", |ch| {
        let base: u64 = if ch.flag() { 1u64 << ch.choose(64) } else { 10u64.pow(ch.choose(20) as u32) };
        let n = match ch.choose(5) {
            0 => base,
            1 => base.wrapping_sub(1),
            2 => base.wrapping_add(1),
            3 => u64::MAX - base + 1,
            _ => base.wrapping_mul(3),
        };
        seconds(ch, &n.to_string(), Some(n))?;
        // beyond 64 bits
        seconds(ch, &format!("{}{:020}", 1 + n % 9, n), None)
    });
    let n = if thorough { 5 } else { 4 };
    s.add("texts", move |ch| {
        let t = tokens(ch, &["0", "1", "60", "-", "+", ".", " ", "x", "e3"], n);
        let ok = !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
        seconds(ch, &t, if ok { t.parse().ok() } else { None })
    });
    s.add("absent-and-now", |ch| {
        let r = Response::new(200);
        req!(matches!(Age::from_headers(&r), Ok(None)), "age-absent", "absent Age");
        req!(matches!(RetryAfter::from_headers(&r), Ok(None)), "retry-absent", "absent Retry-After");
        let d = Duration::from_millis(*ch.pick(&[0, 1, 500, 999, 1000, 1999, 60_000, 86_400_000]));
        // of a delay the whole seconds are written
        for (how, t) in [("age", Age::new(d).header_value()), ("retry-after", RetryAfter::new(d).header_value())] {
            req_eq!(t.as_str(), d.as_secs().to_string(), "delay-write", "{how} of {d:?}");
        }
        let before = SystemTime::now();
        let e = Expires::new(d).expiration();
        let now: SystemTime = Date::now().into();
        let after = SystemTime::now();
        req!(e >= before + d && e <= after + d, "expires-new", "Expires::new({d:?})");
        req!(now >= before && now <= after, "date-now", "Date::now()");
        ch.step();
        Ok(())
    });
}
