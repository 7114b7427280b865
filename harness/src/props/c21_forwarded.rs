//! C21 the Forwarded header.
use crate::engine::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::headers::Header;
use http_types::proxies::Forwarded;
use http_types::Response;
use std::convert::TryFrom;

#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
struct Fields {
    by: Option<String>,
    fors: Vec<String>,
    host: Option<String>,
    proto: Option<String>,
}

fn view(f: &Forwarded<'_>) -> Fields {
    Fields {
        by: f.by().map(String::from),
        fors: f.forwarded_for().iter().map(|s| s.to_string()).collect(),
        host: f.host().map(String::from),
        proto: f.proto().map(String::from),
    }
}

#[derive(Debug)]
enum Want {
    Is(Fields),
    Reject,
    Open,
}

/// A lexical scan in the loosest reading: pairs `token=(token|quoted)`, and separators. `None`
/// where even that reading fails.
fn scan(s: &str) -> Option<Vec<Result<(String, String), char>>> {
    let v: Vec<char> = s.chars().collect();
    let mut p = 0;
    let mut out = vec![];
    while p < v.len() {
        if matches!(v[p], ';' | ',' | ' ' | '\t') {
            out.push(Err(v[p]));
            p += 1;
            continue;
        }
        if v[p].is_whitespace() {
            out.push(Err(' '));
            p += 1;
            continue;
        }
        let mut name = String::new();
        while p < v.len() && is_token_char(v[p]) {
            name.push(v[p]);
            p += 1;
        }
        if name.is_empty() || p >= v.len() || v[p] != '=' {
            return None;
        }
        p += 1;
        let mut value = String::new();
        if p < v.len() && v[p] == '"' {
            p += 1;
            loop {
                match v.get(p)? {
                    '"' => break,
                    '\\' => {
                        p += 1;
                        value.push(*v.get(p)?);
                    }
                    c => value.push(*c),
                }
                p += 1;
            }
            p += 1;
            if value.chars().any(|c| c.is_ascii_control() && c != '\t') {
                return None;
            }
        } else {
            while p < v.len() && is_token_char(v[p]) {
                value.push(v[p]);
                p += 1;
            }
            if value.is_empty() {
                return None;
            }
        }
        out.push(Ok((name.to_ascii_lowercase(), value)));
    }
    Some(out)
}

/// `pair *( ";" pair ) [ ";" ]` where a run of `for` pairs may be joined by `, `; that is what one
/// proxy writes, and what the crate writes.
fn reference(s: &str) -> Want {
    let Some(items) = scan(s) else { return Want::Reject };
    let mut f = Fields::default();
    let mut i = 0;
    let mut seen_for = false;
    let mut dup = false;
    if items.is_empty() {
        return Want::Open;
    }
    while i < items.len() {
        let Ok((name, value)) = &items[i] else { return Want::Open };
        let slot = match name.as_str() {
            "for" => {
                if seen_for {
                    return Want::Open;
                }
                seen_for = true;
                f.fors.push(value.clone());
                i += 1;
                // further elements of the list
                loop {
                    if !matches!(items.get(i), Some(Err(','))) {
                        break;
                    }
                    i += 1;
                    while matches!(items.get(i), Some(Err(' ' | '\t'))) {
                        i += 1;
                    }
                    match items.get(i) {
                        Some(Ok((n, v))) if n == "for" => {
                            f.fors.push(v.clone());
                            i += 1;
                        }
                        _ => return Want::Open,
                    }
                }
                match items.get(i) {
                    None => break,
                    Some(Err(';')) => {
                        i += 1;
                        continue;
                    }
                    _ => return Want::Open,
                }
            }
            "by" => Some(&mut f.by),
            "host" => Some(&mut f.host),
            "proto" => Some(&mut f.proto),
            _ => None,
        };
        if let Some(slot) = slot {
            dup |= slot.is_some();
            *slot = Some(value.clone());
        }
        i += 1;
        match items.get(i) {
            None => break,
            Some(Err(';')) => i += 1,
            _ => return Want::Open,
        }
    }
    if dup {
        Want::Reject
    } else {
        Want::Is(f)
    }
}

fn check(ch: &mut Ch, s: &str) -> R {
    ch.note(|| format!("Forwarded: {s:?}"));
    let got = match no_panic(|| Forwarded::parse(s).map(|f| f.into_owned())) {
        Ok(g) => g,
        Err(p) => return viol("forwarded-panic", format!("{s:?}: {p}")),
    };
    ch.step();
    req_eq!(
        Forwarded::try_from(s).ok().map(|f| view(&f)),
        got.as_ref().ok().map(view),
        "forwarded-try-from",
        "try_from({s:?})"
    );
    if s.is_ascii() && !s.is_empty() {
        let res = res_with(&[("forwarded", s)]);
        for via in [Forwarded::from_headers(&res), Forwarded::from_forwarded_header(&res)] {
            req_eq!(
                via.ok().map(|f| f.map(|f| view(&f))),
                got.as_ref().ok().map(|f| Some(view(f))),
                "forwarded-headers",
                "from_headers with {s:?}"
            );
        }
    }
    match (reference(s), &got) {
        (Want::Is(f), g) => {
            ch.state(&f);
            req_eq!(g.as_ref().ok().map(view), Some(f), "forwarded-fields", "{s:?}");
        }
        (Want::Reject, Ok(f)) => return viol("forwarded-accepts", format!("{s:?} is malformed, but reads as {f:?}")),
        _ => {}
    }
    if let Ok(f) = &got {
        round_trip(f, s)?;
    }
    Ok(())
}

fn round_trip(f: &Forwarded<'_>, ctx: &str) -> R {
    let want = view(f);
    let text = match no_panic(|| f.to_string()) {
        Ok(t) => t,
        Err(p) => return viol("forwarded-panic", format!("formatting {want:?}: {p}")),
    };
    req_eq!(format!("{f:#}"), text, "forwarded-display", "alternate Display");
    let back = Forwarded::parse(&text).ok().map(|f| view(&f));
    req!(
        back.as_ref() == Some(&want),
        "forwarded-round-trip",
        "{ctx}: {want:?} is written as {text:?}, which reads {back:?}"
    );
    req_eq!(&f.clone().into_owned(), f, "forwarded-owned", "{ctx}");
    if text.is_ascii() {
        req_eq!(f.header_value().as_str(), text, "forwarded-display", "{ctx}");
        let mut res = Response::new(200);
        f.apply_header(&mut res);
        let back = Forwarded::from_headers(&res);
        req_eq!(back.ok().flatten().map(|f| view(&f)), Some(want), "forwarded-apply", "{ctx}");
    }
    Ok(())
}

pub fn build(s: &mut Suite, thorough: bool) {
    s.bound("every sequence of at most 6 (thorough 7) of 11 tokens and of 5 (6) of 17 parameter pieces; every character up to U+0180 in 7 positions; every value of at most 3 (4) characters over 12 in every field of a built header, with every combination of fields; every combination of X-Forwarded headers over 8 address forms");
    s.assume("whitespace around '=' and ';', empty pairs, several list elements with parameters other than 'for', repeated 'for' sections, and several Forwarded or X-Forwarded lines are not decided (only: no panic, and what is read is written back the same)");
    let n = if thorough { 7 } else { 6 };
    s.add("syntax", move |ch| {
        let t = tokens(ch, &["for=", "a", "\"", "\\", ";", ",", " ", "by", "=", "\u{e9}", "\u{1}"], n);
        check(ch, &t)
    });
    let n = if thorough { 6 } else { 5 };
    s.add("parameters", move |ch| {
        let t = tokens(
            ch,
            &[
                "for=192.0.2.43", "For=\"[2001:db8::1]:80\"", "FOR=_x", "by=b", "BY=\"\"", "host=\"h:1\"", "Host=h", "proto=https",
                "PROTO=\"x\\\"y\"", "ext=1", "forx=2", ";", ",", ", ", " ", "fo", "for=",
            ],
            n,
        );
        check(ch, &t)
    });
    s.bound("every parameter twice, with 5 values each, 4 in between and 3 around");
    s.add("twice", |ch| {
        const NAMES: &[[&str; 2]] = &[["by", "BY"], ["host", "Host"], ["proto", "Proto"]];
        const VALUES: &[&str] = &["\"\"", "x", "\"x\"", "unknown", "https"];
        let names = *ch.pick(NAMES);
        let (a, b) = (*ch.pick(VALUES), *ch.pick(VALUES));
        let mid = *ch.pick(&["", "ext=1;", "for=a, for=b;", "ext=\"host=y;by=z\";"]);
        let (pre, post) = *ch.pick(&[("", ""), ("for=c;", ""), ("", ";ext=1")]);
        if pre.contains("for") && mid.contains("for=") {
            return Ok(());
        }
        let text = format!("{pre}{}={a};{mid}{}={b}{post}", names[0], names[1]);
        check(ch, &text)?;
        let text = format!("{pre}{}={a};{mid}{}={b}{post}", names[1], names[1]);
        check(ch, &text)
    });
    s.bound("40 values as used in practice in every field, as tokens where they are, quoted and escaped, built, and by the X-Forwarded headers");
    s.add("in-practice", |ch| {
        const VALUES: &[&str] = &[
            "HTTP", "Https", "https:", "http://", "ws", "WSS", "h2c", "_hidden", "__", "_SEVKISEK", "unknown", "Unknown", "192.0.2.43", "192.0.2.43:47011", "[2001:db8:cafe::17]", "[2001:DB8:CAFE::17]:4711",
            "2001:db8:cafe::17", "::ffff:192.0.2.1", "::192.0.2.1", "[::1]:_port", "192.0.2.1:_obf", "example.com", "Example.COM", "example.com.", "example.com:8080", "xn--bcher-kva.example", "b\u{fc}cher.example", "*",
            "`", "|", "~", "^", "'x'", "a b", " a", "a ", "\t", "a,b", "a;b", "a=b", "for=x", "null", "-", "0",
        ];
        let v = *ch.pick(VALUES);
        let name = *ch.pick(&["by", "for", "host", "proto", "ext"]);
        let value = match ch.choose(3) {
            0 if is_token(v) => v.to_string(),
            0 | 1 => format!("\"{v}\""),
            _ => format!("\"{}\"", v.chars().flat_map(|c| ['\\', c]).collect::<String>()),
        };
        let (pre, post) = *ch.pick(&[("", ""), ("for=a;", ""), ("", ";for=b, for=c")]);
        if name != "for" || pre.is_empty() && post.is_empty() {
            check(ch, &format!("{pre}{name}={value}{post}"))?;
        }
        if name == "for" {
            check(ch, &format!("for=a, {name}={value},For={value};host=x"))?;
        } else if name != "ext" && v.is_ascii() {
            // the X headers hold them as they are
            let mut res = Response::new(200);
            res.insert_header(format!("x-forwarded-{name}").as_str(), v).unwrap();
            let got = Forwarded::from_headers(&res).ok().flatten().map(|f| view(&f));
            let mut want = Fields::default();
            *(match name {
                "by" => &mut want.by,
                "host" => &mut want.host,
                _ => &mut want.proto,
            }) = Some(v.to_string());
            let trimmed = got.clone().map(|g| Fields { by: g.by.map(|s| s.trim().into()), host: g.host.map(|s| s.trim().into()), proto: g.proto.map(|s| s.trim().into()), ..g });
            let mut wt = want.clone();
            for s in [&mut wt.by, &mut wt.host, &mut wt.proto] {
                *s = s.take().map(|s| s.trim().to_string());
            }
            req_eq!(trimmed, Some(wt), "forwarded-x", "x-forwarded-{name}: {v:?}");
            // built from an owned and from a borrowed text
            let mut f = Forwarded::new();
            match name {
                "by" => f.set_by(v),
                "host" => f.set_host(v),
                _ => f.set_proto(v.to_string()),
            }
            req_eq!(view(&f), want, "forwarded-set", "{name} {v:?}");
            req_eq!(view(&f.clone().into_owned()), want, "forwarded-owned", "{name} {v:?}");
            round_trip(&f, "built header")?;
        }
        Ok(())
    });
    s.add("characters", |ch| {
        let mut cs: Vec<char> = (0..0x180u32).filter_map(char::from_u32).collect();
        cs.push('\u{1f600}');
        let c = *ch.pick(&cs);
        let t = *ch.pick(&["for=@", "for=\"@\"", "for=\"a\\@b\"", "@=a", "by=a@", "by=a;@host=b", "for=a,@for=b"]);
        check(ch, &t.replace('@', &c.to_string()))
    });
    s.add("truncation", |ch| {
        let full = "for=192.0.2.43, for=\"[2001:db8::1]\";by=\"\u{e9}\\\"x\";proto=https;host=\u{e9}";
        let idx: Vec<usize> = full.char_indices().map(|(i, _)| i).collect();
        let a = *ch.pick(&idx);
        let b = *ch.pick(&idx);
        if a <= b {
            check(ch, &full[a..b])
        } else {
            Ok(())
        }
    });
    let n = if thorough { 4 } else { 3 };
    s.add("built", move |ch| {
        let alphabet = ["a", "1", ":", "[", "\"", "\\", " ", ",", ";", "=", "\u{e9}", "\t"];
        let v = tokens(ch, &alphabet, n);
        let mut f = Forwarded::new();
        let mut want = Fields::default();
        let w = ["", "x", "q\"r"];
        let target = ch.choose(5);
        if target == 0 || ch.flag() {
            let x = if target == 0 { v.clone() } else { w[ch.choose(3)].to_string() };
            f.set_by(x.clone());
            want.by = Some(x);
        }
        if target == 1 || target == 4 {
            f.add_for(v.clone());
            want.fors.push(v.clone());
        }
        if target == 4 || ch.flag() {
            f.add_for("192.0.2.1");
            want.fors.push("192.0.2.1".into());
        }
        if target == 2 || ch.flag() {
            let x = if target == 2 { v.clone() } else { "h.example".into() };
            f.set_host(x.clone());
            want.host = Some(x);
        }
        if target == 3 || ch.flag() {
            let x = if target == 3 { v.clone() } else { "https".into() };
            f.set_proto(x.clone());
            want.proto = Some(x);
        }
        ch.note(|| format!("{want:?}"));
        ch.step();
        ch.state(&want);
        req_eq!(view(&f), want, "forwarded-set", "setters");
        round_trip(&f, "built header")
    });
    let depth = if thorough { 5 } else { 4 };
    s.bound(&format!("every history of up to {depth} of set_by, set_host, set_proto, add_for, clone, into_owned, and writing and reading, of a header made, parsed, or read from X-Forwarded headers"));
    s.add("history", move |ch| {
        const V: &[&str] = &["x", "", "q\"r", "https"];
        let start = ch.choose(3);
        let res = res_with(&[("x-forwarded-for", "1.2.3.4, p"), ("x-forwarded-by", "b"), ("x-forwarded-host", "h"), ("x-forwarded-proto", "http")]);
        let full = Fields { by: Some("b".into()), fors: vec!["1.2.3.4".into(), "p".into()], host: Some("h".into()), proto: Some("http".into()) };
        let (mut f, mut want) = match start {
            0 => (Forwarded::new(), Fields::default()),
            1 => match Forwarded::parse("by=b;for=1.2.3.4, for=\"p\";host=h;proto=http") {
                Ok(f) => (f, full),
                Err(e) => return viol("forwarded-parse", e.to_string()),
            },
            _ => match Forwarded::from_headers(&res) {
                Ok(Some(f)) => (f, full),
                o => return viol("forwarded-x", format!("{o:?}")),
            },
        };
        let k = ch.choose(depth + 1);
        for _ in 0..k {
            match ch.choose(7) {
                0 => {
                    let v = *ch.pick(V);
                    f.set_by(v);
                    want.by = Some(v.into());
                }
                1 => {
                    let v = *ch.pick(V);
                    f.set_host(v.to_string());
                    want.host = Some(v.into());
                }
                2 => {
                    let v = *ch.pick(V);
                    f.set_proto(v);
                    want.proto = Some(v.into());
                }
                3 => {
                    let v = *ch.pick(V);
                    f.add_for(v);
                    want.fors.push(v.into());
                }
                4 => f = f.clone(),
                5 => f = f.into_owned(),
                _ => round_trip(&f, "history")?,
            }
            ch.step();
            ch.note(|| format!("{want:?}"));
            req_eq!(view(&f), want, "forwarded-history", "start {start}");
            ch.state(&want);
        }
        round_trip(&f, "history")
    });
    let large = if thorough { 5000 } else { 1000 };
    s.bound(&format!("lists of up to 300 addresses, and values of up to {large} characters, plain and quoted, parsed and built"));
    s.add("scale", move |ch| {
        match ch.choose(4) {
            0 => {
                let n = 1 + ch.choose(300);
                let q = ch.flag();
                let c = *ch.pick(CYCLES);
                let els: Vec<String> = (0..n).map(|i| i % c).map(|i| if q { format!("for=\"[::{i}]:1\"") } else { format!("for=a{i}") }).collect();
                check(ch, &format!("by=b;{};host=h;proto=https", els.join(", ")))
            }
            1 => {
                let n = *ch.pick(&sizes(40, large));
                let x = *ch.pick(&["a", "\\\"", "\\\\", "; ", "\u{e9}"]);
                let k = *ch.pick(&["for", "by", "host", "proto", "ext"]);
                check(ch, &format!("for=a;{}={}\"{}\"", if k == "for" { "x" } else { k }, "", x.repeat(n)))?;
                check(ch, &format!("{k}=\"{}\"", x.repeat(n)))?;
                check(ch, &format!("{k}=b{}", "a".repeat(n)))
            }
            2 => {
                let n = 1 + ch.choose(300);
                let mut f = Forwarded::new();
                let mut want = Fields { by: Some("b".repeat(n)), ..Default::default() };
                f.set_by("b".repeat(n));
                let c = *ch.pick(CYCLES);
                for i in (0..n).map(|i| i % c) {
                    f.add_for(format!("a {i}"));
                    want.fors.push(format!("a {i}"));
                }
                ch.step();
                req_eq!(view(&f), want, "forwarded-set", "setters");
                round_trip(&f, "built header")
            }
            _ => {
                let n = 1 + ch.choose(300);
                let c = *ch.pick(CYCLES);
                let els: Vec<String> = (0..n).map(|i| format!("192.0.2.{}", i % c)).collect();
                let mut res = Response::new(200);
                res.insert_header("x-forwarded-for", els.join(", ").as_str()).unwrap();
                ch.step();
                let x = Forwarded::from_headers(&res).ok().flatten().map(|f| view(&f));
                req_eq!(x, Some(Fields { fors: els, ..Default::default() }), "forwarded-x", "{n} addresses");
                Ok(())
            }
        }
    });
    s.add("x-headers", |ch| {
        const ADDR: &[(&str, &str)] = &[
            ("192.0.2.1", "192.0.2.1"), ("2001:db8::1", "[2001:db8::1]"), ("[2001:db8::2]", "[2001:db8::2]"), ("::1", "[::1]"),
            ("192.0.2.1:80", "192.0.2.1:80"), ("host.example", "host.example"), ("unknown", "unknown"), ("2001:DB8::3", "[2001:db8::3]"),
            ("::ffff:192.0.2.1", "[::ffff:192.0.2.1]"), ("_hidden", "_hidden"),
        ];
        let mut res = Response::new(200);
        let mut want = Fields::default();
        let mut text = String::new();
        for i in 0..ch.choose(4) {
            let (a, b) = *ch.pick(ADDR);
            if i > 0 {
                text.push_str(ch.pick(&[",", ", ", " ,\t"]));
            }
            text.push_str(a);
            want.fors.push(b.into());
        }
        if !text.is_empty() {
            res.insert_header("X-Forwarded-For", text.as_str()).unwrap();
        }
        if ch.flag() {
            res.insert_header("X-Forwarded-By", "b.example").unwrap();
            want.by = Some("b.example".into());
        }
        if ch.flag() {
            res.insert_header("x-forwarded-host", "h.example:8").unwrap();
            want.host = Some("h.example:8".into());
        }
        if ch.flag() {
            res.insert_header("x-forwarded-proto", "https").unwrap();
            want.proto = Some("https".into());
        }
        let none = want == Fields::default();
        let x = Forwarded::from_x_headers(&res).ok().map(|f| f.map(|f| view(&f)));
        req_eq!(x, Some(if none { None } else { Some(want.clone()) }), "forwarded-x", "X-Forwarded-For {text:?}");
        ch.step();
        ch.state(&want);
        match ch.choose(3) {
            0 => {
                let g = Forwarded::from_headers(&res).ok().map(|f| f.map(|f| view(&f)));
                req_eq!(g, Some(if none { None } else { Some(want) }), "forwarded-fallback", "X-Forwarded-For {text:?}");
                req!(matches!(Forwarded::from_forwarded_header(&res), Ok(None)), "forwarded-absent", "no Forwarded header");
            }
            1 => {
                res.insert_header("Forwarded", "for=real").unwrap();
                let f = Fields { fors: vec!["real".into()], ..Default::default() };
                let g = Forwarded::from_headers(&res).ok().map(|f| f.map(|f| view(&f)));
                req_eq!(g, Some(Some(f)), "forwarded-precedence", "Forwarded beside X-Forwarded-*");
            }
            _ => {
                res.insert_header("Forwarded", "for=").unwrap();
                req!(Forwarded::from_headers(&res).is_err(), "forwarded-precedence", "a malformed Forwarded header is not an error");
            }
        }
        Ok(())
    });
}
