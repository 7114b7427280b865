//! C27 authentication headers.
use crate::engine::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::auth::{AuthenticationScheme, Authorization, BasicAuth, WwwAuthenticate};
use http_types::headers::Header;
use http_types::Response;
use std::str::FromStr;

const SCHEMES: &[(&str, AuthenticationScheme)] = &[
    ("Basic", AuthenticationScheme::Basic),
    ("Bearer", AuthenticationScheme::Bearer),
    ("Digest", AuthenticationScheme::Digest),
    ("HOBA", AuthenticationScheme::Hoba),
    ("Mutual", AuthenticationScheme::Mutual),
    ("Negotiate", AuthenticationScheme::Negotiate),
    ("OAuth", AuthenticationScheme::OAuth),
    ("SCRAM-SHA-1", AuthenticationScheme::ScramSha1),
    ("SCRAM-SHA-256", AuthenticationScheme::ScramSha256),
    ("vapid", AuthenticationScheme::Vapid),
];

fn scheme(s: &str) -> Option<AuthenticationScheme> {
    SCHEMES.iter().find(|x| x.0.eq_ignore_ascii_case(s)).map(|x| x.1)
}

fn check_scheme(ch: &mut Ch, text: &str) -> R {
    ch.note(|| format!("scheme {text:?}"));
    ch.step();
    let got = AuthenticationScheme::from_str(text);
    match (scheme(text), &got) {
        (Some(s), Ok(g)) => req_eq!(*g, s, "auth-scheme", "{text:?}"),
        (None, Err(e)) => req_eq!(e.status() as u16, 400, "auth-status", "scheme {text:?}"),
        _ => return viol("auth-scheme", format!("scheme {text:?} reads {:?}", got.is_ok())),
    }
    Ok(())
}

/// Reads the last Authorization line.
fn authorization(ch: &mut Ch, text: &str) -> R {
    ch.note(|| format!("authorization {text:?}"));
    let res = res_with(&[("authorization", "Bearer earlier"), ("authorization", text)]);
    let got = match no_panic(|| Authorization::from_headers(&res)) {
        Ok(g) => g,
        Err(p) => return viol("auth-panic", format!("Authorization {text:?}: {p}")),
    };
    ch.step();
    let code = st(&got);
    let want = text.split_once(' ').and_then(|(s, c)| Some((scheme(s)?, c.trim_start_matches(' '))));
    match (want, got) {
        (Some((s, c)), Ok(Some(a))) => {
            req_eq!(a.scheme(), s, "auth-parse", "Authorization {text:?}");
            req!(a.credentials() == c || a.credentials() == c.trim(), "auth-parse", "Authorization {text:?} has credentials {:?}", a.credentials());
        }
        (Some(_), o) => return viol("auth-parse", format!("Authorization {text:?} reads {o:?}")),
        (None, Ok(Some(a))) => {
            // whitespace around the value, or a tab, may be ignored
            let t = text.trim();
            let lenient = t.find([' ', '\t']).and_then(|i| Some((scheme(&t[..i])?, t[i..].trim())));
            req!(text.contains('\t') || text != t, "auth-accepts", "Authorization {text:?} reads {a:?}");
            req_eq!(Some((a.scheme(), a.credentials())), lenient, "auth-accepts", "Authorization {text:?}");
        }
        (None, Ok(None)) => return viol("auth-absent", format!("Authorization {text:?} reads as absent")),
        (None, _) => req_eq!(code, 400, "auth-status", "Authorization {text:?}"),
    }
    Ok(())
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

fn b64_encode(b: &[u8]) -> String {
    let mut out = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                out.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

enum B {
    Is(Vec<u8>),
    Reject,
    Open,
}
fn b64_decode(s: &[u8]) -> B {
    let body: &[u8] = {
        let mut e = s.len();
        while e > 0 && s[e - 1] == b'=' {
            e -= 1;
        }
        &s[..e]
    };
    let pad = s.len() - body.len();
    let mut bits = vec![];
    for c in body {
        match B64.iter().position(|x| x == c) {
            None => return B::Reject,
            Some(v) => (0..6).rev().for_each(|i| bits.push(v >> i & 1)),
        }
    }
    if body.len() % 4 == 1 {
        return B::Reject;
    }
    let n = bits.len() / 8;
    if pad != (4 - body.len() % 4) % 4 || bits[n * 8..].contains(&1) {
        return B::Open;
    }
    B::Is((0..n).map(|i| bits[i * 8..i * 8 + 8].iter().fold(0u8, |a, b| a << 1 | *b as u8)).collect())
}

fn basic(ch: &mut Ch, cred: &[u8]) -> R {
    ch.note(|| format!("credentials {:?}", String::from_utf8_lossy(cred)));
    let got = match no_panic(|| BasicAuth::from_credentials(cred)) {
        Ok(g) => g,
        Err(p) => return viol("basic-panic", format!("credentials {cred:?}: {p}")),
    };
    ch.step();
    let code = st(&got);
    let want = match b64_decode(cred) {
        B::Open => {
            req!(code == 0 || code == 400, "basic-status", "credentials {cred:?}: {code}");
            return Ok(());
        }
        B::Reject => None,
        B::Is(v) => String::from_utf8(v).ok().and_then(|s| s.split_once(':').map(|(u, p)| (u.to_string(), p.to_string()))),
    };
    match (want, got) {
        (Some((u, p)), Ok(a)) => {
            req_eq!((a.username(), a.password()), (u.as_str(), p.as_str()), "basic-parse", "{:?}", String::from_utf8_lossy(cred));
        }
        (None, Err(_)) => req_eq!(code, 400, "basic-status", "credentials {cred:?}"),
        (w, g) => return viol("basic-parse", format!("credentials {:?} read {g:?}, expected {w:?}", String::from_utf8_lossy(cred))),
    }
    Ok(())
}

enum W {
    Is(AuthenticationScheme, String),
    /// This, or an error.
    Maybe(AuthenticationScheme, String),
    Reject,
    Open,
}

/// A challenge read by the grammar of RFC 7235; what follows a complete realm is not decided.
fn challenge(s: &str) -> W {
    let Some((sch, rest)) = s.split_once(' ') else {
        return if s.trim() == s && !s.contains('\t') { W::Reject } else { W::Open };
    };
    let Some(sch) = scheme(sch) else {
        return if s.trim_start() == s && !s.contains('\t') { W::Reject } else { W::Open };
    };
    let v: Vec<char> = rest.chars().collect();
    let mut p = 0;
    let mut realm = None;
    let mut odd = false;
    let mut token = false;
    let mut comma = true;
    loop {
        while p < v.len() && matches!(v[p], ' ' | '\t' | ',') {
            comma |= v[p] == ',';
            p += 1;
        }
        if p == v.len() {
            break;
        }
        let mut name = String::new();
        while p < v.len() && is_token_char(v[p]) {
            name.push(v[p]);
            p += 1;
        }
        // a parameter which no comma precedes
        odd |= !comma && !name.is_empty();
        while p < v.len() && v[p].is_whitespace() {
            odd |= !matches!(v[p], ' ' | '\t');
            p += 1;
        }
        if name.is_empty() || p == v.len() || v[p] != '=' {
            return if realm.is_some() || odd { W::Open } else { W::Reject };
        }
        p += 1;
        while p < v.len() && v[p].is_whitespace() {
            odd |= !matches!(v[p], ' ' | '\t');
            p += 1;
        }
        let mut value = String::new();
        let quoted = p < v.len() && v[p] == '"';
        let mut ok = false;
        if quoted {
            p += 1;
            while p < v.len() {
                match v[p] {
                    '"' => {
                        ok = true;
                        p += 1;
                        break;
                    }
                    '\\' => {
                        p += 1;
                        match v.get(p) {
                            None => break,
                            Some(c) => value.push(*c),
                        }
                    }
                    c => value.push(c),
                }
                p += 1;
            }
            odd |= value.chars().any(|c| c.is_ascii_control() && c != '\t');
        } else {
            while p < v.len() && is_token_char(v[p]) {
                value.push(v[p]);
                p += 1;
            }
            ok = !value.is_empty();
        }
        if !ok {
            return if realm.is_some() || odd { W::Open } else { W::Reject };
        }
        if name.eq_ignore_ascii_case("realm") {
            // twice, or as a token
            odd |= realm.is_some();
            token |= !quoted;
            realm.get_or_insert(value);
        }
        comma = false;
    }
    match realm {
        _ if odd => W::Open,
        Some(r) if token => W::Maybe(sch, r),
        Some(r) => W::Is(sch, r),
        None => W::Reject,
    }
}

fn www(ch: &mut Ch, text: &str) -> R {
    ch.note(|| format!("www-authenticate {text:?}"));
    let res = res_with(&[("www-authenticate", "Basic realm=\"earlier\""), ("www-authenticate", text)]);
    let got = match no_panic(|| WwwAuthenticate::from_headers(&res)) {
        Ok(g) => g,
        Err(p) => return viol("www-panic", format!("WWW-Authenticate {text:?}: {p}")),
    };
    ch.step();
    let code = st(&got);
    match (challenge(text), got) {
        (W::Is(s, r), Ok(Some(a))) => {
            req_eq!((a.scheme(), a.realm()), (s, r.as_str()), "www-parse", "WWW-Authenticate {text:?}");
        }
        (W::Maybe(s, r), Ok(Some(a))) => {
            req_eq!((a.scheme(), a.realm()), (s, r.as_str()), "www-parse", "WWW-Authenticate {text:?}");
        }
        (W::Maybe(..), o) => req!(o.is_err() && code == 400, "www-status", "WWW-Authenticate {text:?}: {code}"),
        (W::Is(..), o) => return viol("www-parse", format!("WWW-Authenticate {text:?} reads {o:?}")),
        (W::Reject, _) => req_eq!(code, 400, "www-accepts", "WWW-Authenticate {text:?}"),
        (W::Open, _) => req!(code == 0 || code == 400, "www-status", "WWW-Authenticate {text:?}: {code}"),
    }
    Ok(())
}

pub fn build(s: &mut Suite, thorough: bool) {
    s.bound("all schemes in every case split and every single-character edit, strings of up to 3 letters; Authorization lines of at most 6 (thorough 7) of 8 tokens and all sequences of up to 3 lines; user names and passwords of up to 3 of 8 characters, credentials of up to 5 (6) of 9 characters and all pairs of bytes; challenges of at most 7 (8) of 10 tokens, and of every order of up to 4 parameter forms; realms of up to 2 printable characters and up to 5 of 6 special ones");
    s.assume("a user name holds no colon; whitespace around a whole value, tabs as separators, unpadded base64, a realm given as a token or twice, and text after a complete realm are not decided");
    s.add("schemes", |ch| {
        let (n, sch) = SCHEMES[ch.choose(SCHEMES.len())];
        req_eq!(sch.to_string(), n, "auth-name", "{sch:?}");
        req_eq!(format!("{sch:#}"), n, "auth-name", "{sch:?}");
        let mut v = n.as_bytes().to_vec();
        let pos = ch.choose(v.len() + 1);
        match ch.choose(5) {
            0 => {
                if pos < v.len() {
                    v[pos] = ch.choose(128) as u8;
                }
            }
            1 => v.insert(pos, ch.choose(128) as u8),
            2 => {
                if pos < v.len() {
                    v.remove(pos);
                }
            }
            3 => v[..pos].make_ascii_uppercase(),
            _ => v[pos..].make_ascii_lowercase(),
        }
        check_scheme(ch, &String::from_utf8(v).unwrap())
    });
    s.add("short-schemes", |ch| {
        let t = tokens(ch, &["a", "b", "B", "o", "A", "-", "1", " ", "K\u{212a}"], 4);
        check_scheme(ch, &t)
    });
    let n = if thorough { 7 } else { 6 };
    s.bound("28 registered and unregistered schemes which are none of these, alone and as the scheme of each header, in 3 cases");
    s.add("other-schemes", |ch| {
        const OTHER: &[&str] = &[
            "NTLM", "Concealed", "DPoP", "GNAP", "PrivateToken", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-512", "SCRAM-SHA-224", "SCRAM-SHA", "SCRAM-SHA-2", "SCRAM-SHA256",
            "SCRAM_SHA_1", "OAuth2", "OAuth-2", "Token", "Bearer-Token", "BearerToken", "Basic64", "Basics", "DigestMD5", "Digest-MD5", "Mutually", "AWS4-HMAC-SHA256", "ApiKey", "WebPush", "Kerberos", "HOBA-RSA",
        ];
        let n = *ch.pick(OTHER);
        let n = match ch.choose(3) {
            0 => n.to_string(),
            1 => n.to_lowercase(),
            _ => n.to_uppercase(),
        };
        check_scheme(ch, &n)?;
        authorization(ch, &format!("{n} abc"))?;
        www(ch, &format!("{n} realm=\"a\""))?;
        let res = res_with(&[("authorization", &format!("{n} YTpi"))]);
        req_eq!(st(&BasicAuth::from_headers(&res)), 400, "basic-scheme", "{n}");
        Ok(())
    });
    s.add("authorization-tokens", move |ch| {
        let t = tokens(ch, &["Basic", "bEaReR", " ", "abc", "=", ",", "\t", "x"], n);
        authorization(ch, &t)
    });
    s.add("authorization-lines", |ch| {
        let ls = ch.seq(&["Basic a", "Bearer b", "", "Nope c", "DIGEST  d=\"e\""], 3);
        let mut res = Response::new(200);
        for l in &ls {
            res.append_header("authorization", *l).unwrap();
        }
        ch.step();
        let got = Authorization::from_headers(&res);
        let basic = BasicAuth::from_headers(&res);
        match ls.last() {
            None => {
                req!(matches!(got, Ok(None)) && matches!(basic, Ok(None)), "auth-absent", "no line: {got:?} {basic:?}");
                req!(matches!(WwwAuthenticate::from_headers(&res), Ok(None)), "auth-absent", "no line");
            }
            Some(l) => {
                let want = l.split_once(' ').and_then(|(s, c)| Some((scheme(s)?, c.trim_start().to_string())));
                req_eq!(got.ok().flatten().map(|a| (a.scheme(), a.credentials().to_string())), want, "auth-last", "{ls:?}");
                // none of these is well-formed basic authentication
                req_eq!(st(&basic), 400, "basic-status", "{ls:?}");
            }
        }
        Ok(())
    });
    s.add("authorization-write", |ch| {
        let (n, sch) = SCHEMES[ch.choose(SCHEMES.len())];
        let c = tokens(ch, &["a", "=", ",", "\"", "b c"], 3);
        let mut a = if ch.flag() {
            Authorization::new(sch, c.clone())
        } else {
            let mut a = Authorization::new(AuthenticationScheme::Bearer, "other".into());
            a.set_scheme(sch);
            a.set_credentials(c.clone());
            a
        };
        ch.step();
        req_eq!(a.header_name().as_str(), "authorization", "auth-header", "{a:?}");
        req_eq!(a.header_value().as_str(), format!("{n} {c}"), "auth-write", "{a:?}");
        let mut res = res_with(&[("authorization", "left")]);
        a.apply_header(&mut res);
        a = Authorization::from_headers(&res).map_err(|e| Viol { key: "auth-round-trip".into(), msg: format!("{e}") })?.unwrap();
        req_eq!((a.scheme(), a.credentials()), (sch, c.as_str()), "auth-round-trip", "{n} {c:?}");
        Ok(())
    });
    s.add("basic-write", |ch| {
        const A: &[&str] = &["a", "~", " ", "=", "\"", "é", "𝄞", "\0"];
        let u = tokens(ch, A, 3);
        let p = tokens(ch, &["a", ":", "\u{ff}", "\n", "?", ">"], 3);
        let a = BasicAuth::new(&u, &p);
        req_eq!((a.username(), a.password()), (u.as_str(), p.as_str()), "basic-new", "new");
        let text = format!("Basic {}", b64_encode(format!("{u}:{p}").as_bytes()));
        ch.step();
        ch.state(&text);
        req_eq!(a.header_value().as_str(), text, "basic-write", "{u:?} {p:?}");
        req_eq!(a.header_name().as_str(), "authorization", "auth-header", "basic");
        let mut res = Response::new(200);
        a.apply_header(&mut res);
        match BasicAuth::from_headers(&res) {
            Ok(Some(b)) => req_eq!((b.username(), b.password()), (u.as_str(), p.as_str()), "basic-round-trip", "{text}"),
            o => return viol("basic-round-trip", format!("{text} reads {o:?}")),
        }
        // the same under another scheme is refused
        let other = SCHEMES[1 + ch.choose(SCHEMES.len() - 1)].0;
        let res = res_with(&[("authorization", &text.replacen("Basic", other, 1))]);
        req_eq!(st(&BasicAuth::from_headers(&res)), 400, "basic-scheme", "{other}");
        let res = res_with(&[("authorization", &text.replacen("Basic", "bASIC ", 1))]);
        req_eq!(BasicAuth::from_headers(&res).ok().flatten().map(|b| b.username().to_string()), Some(u), "basic-scheme", "bASIC");
        Ok(())
    });
    let n = if thorough { 6 } else { 5 };
    s.add("basic-credentials", move |ch| {
        let t = tokens(ch, &["A", "Q", "Z", "/", "+", "=", "-", " ", "o6"], n);
        basic(ch, format!("Oj4{t}").as_bytes())?;
        basic(ch, format!("Oj{t}").as_bytes())?;
        basic(ch, format!("{t}YTpi").as_bytes())?;
        basic(ch, t.as_bytes())
    });
    let large = if thorough { 9000 } else { 2000 };
    s.bound(&format!("user names, passwords, credentials and realms of up to {large} characters"));
    s.add("scale", move |ch| {
        let n = *ch.pick(&sizes(130, large));
        for (u, p) in [("u".repeat(n), "p".to_string()), ("u".into(), "\u{e9}".repeat(n)), ("~?".repeat(n), "?>".repeat(n))] {
            let a = BasicAuth::new(&u, &p);
            let text = format!("Basic {}", b64_encode(format!("{u}:{p}").as_bytes()));
            ch.step();
            req_eq!(a.header_value().as_str(), text, "basic-write", "{n} characters");
            let b = BasicAuth::from_headers(res_with(&[("authorization", &text)])).ok().flatten();
            req_eq!(b.map(|b| (b.username().to_string(), b.password().to_string())), Some((u, p)), "basic-round-trip", "{n} characters");
        }
        authorization(ch, &format!("Bearer {}", "b".repeat(n)))?;
        authorization(ch, &format!("Digest {}", "a=\"b\", ".repeat(n)))?;
        authorization(ch, &format!("{}x y", "Basic".repeat(n)))?;
        for r in ["r".repeat(n), "\\\"".repeat(n), ", realm=".repeat(n)] {
            let w = WwwAuthenticate::new(AuthenticationScheme::Basic, r.clone());
            let text = w.header_value().as_str().to_string();
            www(ch, &text)?;
            match challenge(&text) {
                W::Is(_, r2) => req_eq!(r2, r, "www-write", "{n}"),
                _ => return viol("www-write", format!("{w:?} is written {text:?}")),
            }
            www(ch, &format!("Basic {}{}", "k=\"v,\", ".repeat(n), &text[6..]))?;
        }
        Ok(())
    });
    s.bound("decoded texts of up to 6 of 5 pieces, with and without a colon");
    s.add("basic-texts", |ch| {
        let t = tokens(ch, &["user", ":", "\n", "%3A", "\u{ff1a}", "\u{feff}"], 6);
        basic(ch, b64_encode(t.as_bytes()).as_bytes())
    });
    s.add("basic-colons", |ch| {
        // what is decoded runs over all pairs of bytes around a colon or its absence
        let a = ch.choose(256) as u8;
        for b in 0..=255u8 {
            for v in [vec![a, b], vec![a, b':', b], vec![b':', a, b, b':'], vec![b'x', a, b]] {
                basic(ch, b64_encode(&v).as_bytes())?;
                // every byte also as it is
                basic(ch, &v)?;
            }
        }
        Ok(())
    });
    let depth = if thorough { 5 } else { 4 };
    s.bound(&format!("every history of up to {depth} of changes of the scheme, of the credentials or the realm, and of writing and reading, of credentials and challenges made or received"));
    s.add("credentials-history", move |ch| {
        const C: &[&str] = &["a", "", "Basic x", "bearer y z", "Digest", "z ", "a=\"b\", c=d"];
        const S: &[usize] = &[0, 1, 2, 9];
        let mut want = (SCHEMES[1].1, "a".to_string());
        let mut a = if ch.flag() {
            Authorization::new(want.0, want.1.clone())
        } else {
            match Authorization::from_headers(res_with(&[("authorization", "bearer  a")])) {
                Ok(Some(a)) => a,
                o => return viol("auth-parse", format!("{o:?}")),
            }
        };
        let k = ch.choose(depth + 1);
        for _ in 0..k {
            match ch.choose(3) {
                0 => {
                    want.0 = SCHEMES[*ch.pick(S)].1;
                    a.set_scheme(want.0);
                }
                1 => {
                    want.1 = ch.pick(C).to_string();
                    a.set_credentials(want.1.clone());
                }
                _ => {
                    let mut res = Response::new(200);
                    a.apply_header(&mut res);
                    let text = a.header_value().as_str().to_string();
                    a = match Authorization::from_headers(&res) {
                        Ok(Some(a)) => a,
                        o => return viol("auth-round-trip", format!("{text:?} reads {o:?}")),
                    };
                    if want.1.ends_with(' ') && a.credentials() == want.1.trim_end() {
                        want.1 = a.credentials().to_string();
                    }
                }
            }
            ch.step();
            ch.note(|| format!("{want:?}"));
            req_eq!((a.scheme(), a.credentials()), (want.0, want.1.as_str()), "auth-history", "step");
            let name = SCHEMES.iter().find(|x| x.1 == want.0).unwrap().0;
            req_eq!(a.header_value().as_str(), format!("{name} {}", want.1), "auth-write", "{a:?}");
            ch.state(&(name, &want.1));
        }
        Ok(())
    });
    s.add("realm-history", move |ch| {
        const C: &[&str] = &["a", "", "Basic realm=\"x\"", " b ", "\\\"", ", realm=c", "'q'"];
        const S: &[usize] = &[0, 1, 2, 9];
        let mut want = (SCHEMES[1].1, "a".to_string());
        let mut a = if ch.flag() {
            WwwAuthenticate::new(want.0, want.1.clone())
        } else {
            match WwwAuthenticate::from_headers(res_with(&[("www-authenticate", "bearer x=\"y\", realm=a, charset=z")])) {
                Ok(Some(a)) => a,
                o => return viol("www-parse", format!("{o:?}")),
            }
        };
        let k = ch.choose(depth + 1);
        for _ in 0..k {
            match ch.choose(3) {
                0 => {
                    want.0 = SCHEMES[*ch.pick(S)].1;
                    a.set_scheme(want.0);
                }
                1 => {
                    want.1 = ch.pick(C).to_string();
                    a.set_realm(want.1.clone());
                }
                _ => {
                    let mut res = Response::new(200);
                    a.apply_header(&mut res);
                    let text = a.header_value().as_str().to_string();
                    a = match WwwAuthenticate::from_headers(&res) {
                        Ok(Some(a)) => a,
                        o => return viol("www-round-trip", format!("{text:?} reads {o:?}")),
                    };
                }
            }
            ch.step();
            ch.note(|| format!("{want:?}"));
            req_eq!((a.scheme(), a.realm()), (want.0, want.1.as_str()), "www-history", "step");
            let text = a.header_value().as_str().to_string();
            match challenge(&text) {
                W::Is(s, r) => req_eq!((s, r.as_str()), (want.0, want.1.as_str()), "www-write", "{a:?} is written {text:?}"),
                _ => return viol("www-write", format!("{a:?} is written {text:?}")),
            }
            ch.state(&text);
        }
        Ok(())
    });
    s.bound("every ASCII character between and around the parameters of a challenge, and doubled");
    s.add("challenge-separators", |ch| {
        let c = ch.choose(128) as u8 as char;
        let d = *ch.pick(&["", " ", ",", ", "]);
        let t = match ch.choose(5) {
            0 => format!("Basic a=b{c}{d}realm=\"x\""),
            1 => format!("Basic a=\"b\"{d}{c}realm=\"x\""),
            2 => format!("Basic {c}{d}realm=\"x\""),
            3 => format!("Basic realm{c}=\"x\"{d}"),
            _ => format!("Basic realm={c}\"x\"{d}"),
        };
        ch.note(|| format!("{t:?}"));
        www(ch, &t)
    });
    let n = if thorough { 8 } else { 7 };
    s.add("challenge-tokens", move |ch| {
        let first = *ch.pick(&["Basic ", "", "digest"]);
        let t = tokens(ch, &["realm", "=", "\"", "x", ",", " ", "\\", "REALM=\"a\"", "q=1", "\t"], n - (first != "Basic ") as usize);
        www(ch, &format!("{first}{t}"))
    });
    s.add("challenge-parameters", |ch| {
        const P: &[&str] = &[
            "realm=\"a\"", "charset=\"UTF-8\"", "x=\"realm=\\\"b\\\", \"", "Realm = \"c, d\"", "y=realm", "realm=E.x-Y", "z=\"open", "w", "v=", "realm=\"\"", "arealm=\"f\"", "realm='g'", "realm=\"'h'\"", "realms=\"i\"", "realm*=UTF-8''j",
        ];
        let k = ch.choose(5);
        let ps: Vec<&str> = (0..k).map(|_| *ch.pick(P)).collect();
        let sep = *ch.pick(&[",", ", ", " , ", " "]);
        let sch = *ch.pick(&["Basic", "VAPID", "Unknown"]);
        www(ch, &format!("{sch} {}", ps.join(sep)))
    });
    s.add("realm-write", |ch| {
        let realm: String = if ch.flag() {
            let k = ch.choose(3);
            (0..k).map(|_| (0x20 + ch.choose(95) as u8) as char).collect()
        } else {
            tokens(ch, &["\"", "\\", ",", "realm=", " ", "a"], 5)
        };
        let (n, sch) = SCHEMES[ch.choose(3)];
        let mut w = WwwAuthenticate::new(sch, realm.clone());
        if ch.flag() {
            w = WwwAuthenticate::new(AuthenticationScheme::Vapid, "other".into());
            w.set_scheme(sch);
            w.set_realm(realm.clone());
        }
        ch.step();
        ch.state(&w.header_value().as_str().to_string());
        req_eq!((w.scheme(), w.realm()), (sch, realm.as_str()), "www-new", "new");
        req_eq!(w.header_name().as_str(), "www-authenticate", "auth-header", "{w:?}");
        let plain = format!("{n} realm=\"{realm}\", charset=\"UTF-8\"");
        let text = w.header_value().as_str().to_string();
        req!(text == plain || realm.contains(['"', '\\']), "www-write", "{w:?} is written {text:?}");
        match challenge(&text) {
            W::Is(s2, r2) => req_eq!((s2, r2), (sch, realm.clone()), "www-write", "{w:?} is written {text:?}"),
            _ => return viol("www-write", format!("{w:?} is written {text:?}")),
        }
        let mut res = Response::new(200);
        w.apply_header(&mut res);
        let r = WwwAuthenticate::from_headers(&res).ok().flatten().map(|w| (w.scheme(), w.realm().to_string()));
        req_eq!(r, Some((sch, realm)), "www-round-trip", "{text:?}");
        Ok(())
    });
}
