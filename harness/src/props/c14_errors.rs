//! C14: errors keep their status code, message, source value and type name.
use super::c12_tokens::CODES;
use crate::engine::*;
use crate::util::ERROR_KINDS;
use crate::{req, req_eq};
use http_types::{Error, Status, StatusCode};
use std::cell::Cell;
use std::convert::TryFrom;
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
struct Custom(u32);
impl fmt::Display for Custom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "custom-{}", self.0)
    }
}
impl std::error::Error for Custom {}

/// An error without size, and one with a cause.
#[derive(Debug, PartialEq)]
struct UnitError;
impl fmt::Display for UnitError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("unit")
    }
}
impl std::error::Error for UnitError {}
#[derive(Debug)]
struct Caused(Custom);
impl fmt::Display for Caused {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("caused")
    }
}
impl std::error::Error for Caused {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.0)
    }
}

fn chain(e: &(dyn std::error::Error + 'static)) -> Vec<String> {
    let mut v = vec![e.to_string()];
    let mut e = e.source();
    while let Some(c) = e {
        v.push(c.to_string());
        e = c.source();
    }
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Src {
    New,
    NewAnyhow,
    FromStr,
    FromString,
    FromDisplay,
    FromDebug,
    Into,
    IntoAnyhow,
    ResultStatus,
    ResultWith,
    NoneStatus,
    NoneWith,
    FormatErr,
    FormatErrArgs,
    Bail,
    Ensure,
    EnsureEq,
}
const SRC: &[Src] = &[
    Src::New,
    Src::NewAnyhow,
    Src::FromStr,
    Src::FromString,
    Src::FromDisplay,
    Src::FromDebug,
    Src::Into,
    Src::IntoAnyhow,
    Src::ResultStatus,
    Src::ResultWith,
    Src::NoneStatus,
    Src::NoneWith,
    Src::FormatErr,
    Src::FormatErrArgs,
    Src::Bail,
    Src::Ensure,
    Src::EnsureEq,
];

/// (error, expected status, expected message, wraps a `Custom`, expected type name if decided)
fn make(src: Src, code: u16) -> (Error, u16, &'static str, bool, Option<Option<&'static str>>) {
    let tn = Some(Some(std::any::type_name::<Custom>()));
    let c = StatusCode::try_from(code).unwrap();
    match src {
        Src::New => (Error::new(code, Custom(7)), code, "custom-7", true, tn),
        Src::NewAnyhow => (Error::new(c, anyhow::Error::new(Custom(7))), code, "custom-7", true, None),
        Src::FromStr => (Error::from_str(code, "msg"), code, "msg", false, Some(None)),
        Src::FromString => (Error::from_str(c, "msg".to_string()), code, "msg", false, Some(None)),
        Src::FromDisplay => (Error::from_display(Custom(7)), 500, "custom-7", false, None),
        Src::FromDebug => (Error::from_debug(Custom(7)), 500, "Custom(7)", false, None),
        Src::Into => (Custom(7).into(), 500, "custom-7", true, tn),
        Src::IntoAnyhow => (anyhow::Error::new(Custom(7)).into(), 500, "custom-7", true, None),
        Src::ResultStatus => (Err::<(), _>(Custom(7)).status(code).unwrap_err(), code, "custom-7", true, tn),
        Src::ResultWith => (Err::<(), _>(Custom(7)).with_status(|| c).unwrap_err(), code, "custom-7", true, tn),
        Src::NoneStatus => (None::<()>.status(c).unwrap_err(), code, "NoneError", false, Some(None)),
        Src::NoneWith => (None::<()>.with_status(|| code).unwrap_err(), code, "NoneError", false, Some(None)),
        Src::FormatErr => (http_types::format_err!("plain"), 500, "plain", false, Some(None)),
        Src::FormatErrArgs => (http_types::format_err!("got {}", 3), 500, "got 3", false, Some(None)),
        Src::Bail => {
            fn f() -> http_types::Result<()> {
                http_types::bail!("bailed {}", "out")
            }
            (f().unwrap_err(), 500, "bailed out", false, Some(None))
        }
        Src::Ensure => {
            fn f(b: bool) -> http_types::Result<()> {
                http_types::ensure!(b, "ensured");
                Ok(())
            }
            f(true).unwrap();
            (f(false).unwrap_err(), 500, "ensured", false, Some(None))
        }
        Src::EnsureEq => {
            fn f(a: u8) -> http_types::Result<()> {
                http_types::ensure_eq!(a, 1, "not {}", 1);
                Ok(())
            }
            f(1).unwrap();
            (f(2).unwrap_err(), 500, "not 1", false, Some(None))
        }
    }
}

fn observe(e: &mut Error, code: u16, msg: &str, wraps: bool, tn: Option<Option<&str>>, what: &str) -> R {
    req_eq!(u16::from(e.status()), code, "error-status", "{what}: status");
    req_eq!(u16::from(*AsRef::<StatusCode>::as_ref(&*e)), code, "error-status", "{what}: AsRef<StatusCode>");
    req_eq!(e.to_string(), msg, "error-message", "{what}: Display");
    req!(format!("{e:?}").contains(msg) || format!("{e:?}").contains("Custom(7)"), "error-message", "{what}: Debug is {e:?}");
    let inner: &anyhow::Error = (*e).as_ref();
    req_eq!(inner.to_string(), msg, "error-message", "{what}: AsRef<anyhow::Error>");
    req_eq!(format!("{e:#}"), format!("{inner:#}"), "error-message", "{what}: alternate Display");
    req_eq!(format!("{e:?}"), format!("{inner:?}"), "error-message", "{what}: Debug");
    req_eq!(format!("{e:#?}"), format!("{inner:#?}"), "error-message", "{what}: alternate Debug");
    req_eq!(AsRef::<dyn std::error::Error>::as_ref(&*e).to_string(), msg, "error-message", "{what}: AsRef<dyn Error>");
    req_eq!(
        AsRef::<dyn std::error::Error + Send + Sync>::as_ref(&*e).to_string(),
        msg,
        "error-message",
        "{what}: AsRef<dyn Error + Send + Sync>"
    );
    req_eq!(e.downcast_ref::<Custom>(), if wraps { Some(&Custom(7)) } else { None }, "error-downcast", "{what}: downcast_ref");
    req_eq!(e.downcast_mut::<Custom>().map(|c| c.0), if wraps { Some(7) } else { None }, "error-downcast", "{what}: downcast_mut");
    req!(e.downcast_ref::<std::io::Error>().is_none() && e.downcast_mut::<fmt::Error>().is_none(), "error-downcast", "{what}: downcast to a foreign type");
    if let Some(tn) = tn {
        req_eq!(e.type_name(), tn, "error-type-name", "{what}: type_name");
    }
    Ok(())
}

pub fn build(s: &mut Suite, thorough: bool) {
    s.bound("17 ways to obtain an error x all 59 status codes x every sequence of up to 2 (thorough 3) status changes (set_status, AsMut, Status::status, Status::with_status) x 5 ways to take it apart; Ok/Some pass-through; all invalid numbers for the documented panic");
    s.add("lifecycle", move |ch| {
        let src = *ch.pick(SRC);
        let ci = ch.choose(CODES.len());
        let code = CODES[ci].1;
        let (mut e, mut code, msg, wraps, tn) = make(src, code);
        ch.note(|| format!("{src:?} with {code}"));
        ch.step();
        observe(&mut e, code, msg, wraps, tn, &format!("{src:?}"))?;
        let n = ch.choose(if thorough { 4 } else { 3 });
        for k in 0..n {
            // a different code for every change
            let to = CODES[(ci + 7 * (k + 1)) % CODES.len()];
            ch.step();
            let op = ch.choose(5);
            ch.note(|| format!("change {op} to {}", to.1));
            match op {
                0 => e.set_status(to.1),
                1 => e.set_status(to.0),
                2 => *e.as_mut() = to.0,
                3 => e = Err::<(), _>(e).status(to.1).unwrap_err(),
                _ => {
                    let calls = Cell::new(0);
                    e = Err::<(), _>(e)
                        .with_status(|| {
                            calls.set(calls.get() + 1);
                            to.0
                        })
                        .unwrap_err();
                    req_eq!(calls.get(), 1, "error-lazy", "with_status calls on an error");
                }
            }
            code = to.1;
            observe(&mut e, code, msg, wraps, tn, &format!("{src:?} after change {op}"))?;
        }
        ch.state(&(code, msg, wraps));
        ch.step();
        match ch.choose(5) {
            0 => match e.downcast::<Custom>() {
                Ok(c) => req!(wraps && c == Custom(7), "error-downcast", "downcast of {src:?}"),
                Err(mut e) => {
                    req!(!wraps, "error-downcast", "downcast of {src:?} failed");
                    observe(&mut e, code, msg, wraps, tn, "after a failed downcast")?;
                }
            },
            1 => match e.downcast::<std::io::Error>() {
                Ok(_) => return viol("error-downcast", "downcast to a foreign type"),
                Err(mut e) => observe(&mut e, code, msg, wraps, tn, "after a failed downcast")?,
            },
            2 => {
                let a = e.into_inner();
                req_eq!(a.to_string(), msg, "error-message", "into_inner");
                req_eq!(a.downcast_ref::<Custom>().is_some(), wraps, "error-downcast", "into_inner");
            }
            3 => {
                let b: Box<dyn std::error::Error + Send + Sync> = e.into();
                req_eq!(b.to_string(), msg, "error-message", "boxed");
            }
            _ => {
                let b: Box<dyn std::error::Error> = e.into();
                req_eq!(b.to_string(), msg, "error-message", "boxed");
            }
        }
        Ok(())
    });
    s.add("mutation-through-downcast", |ch| {
        let src = *ch.pick(SRC);
        let (mut e, code, _, wraps, _) = make(src, ch.pick(CODES).1);
        if wraps {
            ch.step();
            ch.state(&code);
            e.downcast_mut::<Custom>().unwrap().0 = 9;
            req_eq!(e.to_string(), "custom-9", "error-downcast", "{src:?} after mutation");
            req_eq!(u16::from(e.status()), code, "error-status", "{src:?} after mutation");
            req_eq!(e.downcast::<Custom>().unwrap(), Custom(9), "error-downcast", "{src:?}");
        }
        Ok(())
    });
    s.bound("every change from each of the status codes to each, in 5 ways, of an error of a value and one of a message");
    s.add("status-pairs", |ch| {
        let (a, b) = (ch.pick(CODES), ch.pick(CODES));
        let how = ch.choose(5);
        let typed = ch.flag();
        ch.note(|| format!("{} to {} ({how}), typed {typed}", a.1, b.1));
        ch.step();
        let (mut e, msg) = if typed { (Error::new(a.1, Custom(7)), "custom-7") } else { (Error::from_str(a.1, "msg"), "msg") };
        let e = match how {
            0 => {
                e.set_status(b.1);
                e
            }
            1 => {
                e.set_status(b.0);
                e
            }
            2 => {
                *e.as_mut() = b.0;
                e
            }
            3 => Err::<(), _>(e).status(b.1).unwrap_err(),
            _ => Err::<(), _>(e).with_status(|| b.0).unwrap_err(),
        };
        req_eq!(u16::from(e.status()), b.1, "error-status", "from {}", a.1);
        req_eq!(e.to_string(), msg, "error-message", "to {}", b.1);
        req_eq!(e.type_name(), if typed { Some(std::any::type_name::<Custom>()) } else { None }, "error-type-name", "to {}", b.1);
        req_eq!(e.downcast::<Custom>().ok(), if typed { Some(Custom(7)) } else { None }, "error-downcast", "to {}", b.1);
        Ok(())
    });
    s.bound("the message of an error of every status, a text, an owned text or a value, taken back by its type");
    s.add("message-values", |ch| {
        #[derive(Debug, PartialEq)]
        struct Msg(u8);
        impl fmt::Display for Msg {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "msg-{}", self.0)
            }
        }
        fn back<M: fmt::Display + fmt::Debug + PartialEq + Send + Sync + 'static>(mut e: Error, mut m: M, code: u16) -> R {
            req_eq!(e.downcast_ref::<M>(), Some(&m), "error-downcast", "message of {code} by reference");
            req_eq!(e.downcast_mut::<M>(), Some(&mut m), "error-downcast", "message of {code} by mutable reference");
            match e.downcast::<M>() {
                Ok(g) => req_eq!(g, m, "error-downcast", "message of {code}"),
                Err(e) => return viol("error-downcast", format!("the message of {e:?} is not given back")),
            }
            Ok(())
        }
        let (a, b) = (ch.pick(CODES).1, *ch.pick(&[0u16, 200, 404, 500]));
        let k = ch.choose(3);
        ch.step();
        ch.note(|| format!("{a}, {b}, {k}"));
        let mut e = match k {
            0 => Error::from_str(a, "text"),
            1 => Error::from_str(a, String::from("owned")),
            _ => Error::from_str(a, Msg(3)),
        };
        if b > 0 {
            e.set_status(b);
        }
        match k {
            0 => back(e, "text", a),
            1 => back(e, String::from("owned"), a),
            _ => back(e, Msg(3), a),
        }
    });
    s.add("success-passes-through", |ch| {
        // neither the status nor the closure is looked at when there is no error
        let n = ch.choose(700) as u16;
        ch.step();
        let called = Cell::new(false);
        let f = || {
            called.set(true);
            n
        };
        req_eq!(Ok::<_, Custom>(5).status(n).unwrap(), 5, "error-ok", "Ok.status({n})");
        req_eq!(Ok::<_, Error>(5).status(n).unwrap(), 5, "error-ok", "Ok.status({n})");
        req_eq!(Some(5).status(n).unwrap(), 5, "error-ok", "Some.status({n})");
        req_eq!(Ok::<_, Custom>(5).with_status(f).unwrap(), 5, "error-ok", "Ok.with_status");
        req_eq!(Ok::<_, Error>(5).with_status(f).unwrap(), 5, "error-ok", "Ok.with_status");
        req_eq!(Some(5).with_status(f).unwrap(), 5, "error-ok", "Some.with_status");
        req!(!called.get(), "error-lazy", "the status closure ran although there was no error");
        ch.state(&n);
        let ok = CODES.iter().any(|c| c.1 == n);
        for (what, r) in [
            ("Error::new", no_panic(|| Error::new(n, Custom(1))).is_ok()),
            ("Error::from_str", no_panic(|| Error::from_str(n, "x")).is_ok()),
            ("Result::status", no_panic(|| Err::<(), _>(Custom(1)).status(n)).is_ok()),
            ("Option::status", no_panic(|| None::<()>.status(n)).is_ok()),
            ("Option::with_status", no_panic(|| None::<()>.with_status(|| n)).is_ok()),
            ("Error::set_status", no_panic(|| Error::new(500, Custom(1)).set_status(n)).is_ok()),
        ] {
            req_eq!(r, ok, "error-invalid-status", "{what} accepts {n}");
        }
        Ok(())
    });
    s.bound("errors with up to 3 layers of context and with a cause, 16 sorts of source error (every io::ErrorKind among them) and 24 messages, through every constructor and every conversion");
    s.add("chains", |ch| {
        // context and causes stay readable through every view
        let code = *ch.pick(&[200u16, 404, 500, 511]);
        let caused = ch.flag();
        let n = ch.choose(4);
        let mut want: Vec<String> = if caused { vec!["caused".into(), "custom-3".into()] } else { vec!["custom-3".into()] };
        let mut a = if caused { anyhow::Error::new(Caused(Custom(3))) } else { anyhow::Error::new(Custom(3)) };
        for k in 0..n {
            a = a.context(format!("layer {k}"));
            want.insert(0, format!("layer {k}"));
        }
        let how = ch.choose(4);
        ch.step();
        ch.state(&(code, &want, how));
        ch.note(|| format!("{want:?} how {how} code {code}"));
        let (e, code): (Error, u16) = match how {
            0 => (Error::new(code, a), code),
            1 => (a.into(), 500),
            2 => (Err::<(), _>(Error::from(a)).status(code).unwrap_err(), code),
            _ => {
                fn f(a: anyhow::Error) -> http_types::Result<()> {
                    Err(a)?;
                    Ok(())
                }
                (f(a).unwrap_err(), 500)
            }
        };
        req_eq!(u16::from(e.status()), code, "error-status", "{want:?}");
        req_eq!(e.to_string(), want[0], "error-message", "Display of {want:?}");
        req_eq!(format!("{e:#}"), want.join(": "), "error-message", "alternate Display of {want:?}");
        req_eq!(chain(AsRef::<dyn std::error::Error>::as_ref(&e)), want, "error-chain", "AsRef<dyn Error>");
        req_eq!(chain(AsRef::<dyn std::error::Error + Send + Sync>::as_ref(&e)), want, "error-chain", "AsRef<dyn Error + Send + Sync>");
        let a: &anyhow::Error = e.as_ref();
        req_eq!(a.chain().map(|c| c.to_string()).collect::<Vec<_>>(), want, "error-chain", "AsRef<anyhow::Error>");
        let shown = format!("{e:?}");
        for w in &want {
            req!(shown.contains(w.as_str()), "error-message", "Debug of {want:?} is {shown:?}");
        }
        if caused {
            req!(e.downcast_ref::<Caused>().is_some() && e.downcast_ref::<Custom>().is_none(), "error-downcast", "{want:?}");
        } else {
            req_eq!(e.downcast_ref::<Custom>(), Some(&Custom(3)), "error-downcast", "{want:?}");
        }
        match ch.choose(3) {
            0 => {
                let b: Box<dyn std::error::Error + Send + Sync> = e.into();
                req_eq!(chain(&*b), want, "error-chain", "boxed, Send + Sync");
            }
            1 => {
                let b: Box<dyn std::error::Error> = e.into();
                req_eq!(chain(&*b), want, "error-chain", "boxed");
            }
            _ => {
                let a = e.into_inner();
                req_eq!(a.chain().map(|c| c.to_string()).collect::<Vec<_>>(), want, "error-chain", "into_inner");
            }
        }
        Ok(())
    });
    s.bound("every macro with a literal, a format string and an expression (a String, a value of another type) as its message");
    s.add("macros", |ch| {
        let m = ch.choose(macros::COUNT);
        ch.step();
        ch.state(&m);
        let (what, e, status, msg, wraps) = macros::make(m);
        let e = match e {
            Some(e) => e,
            None => return viol("error-macro", format!("{what} yields no error")),
        };
        req_eq!(u16::from(e.status()), status, "error-status", "{what}");
        req_eq!(e.to_string(), msg, "error-macro", "{what}");
        req_eq!(e.type_name(), None, "error-type-name", "{what}");
        if wraps {
            req_eq!(e.downcast_ref::<Custom>(), Some(&Custom(7)), "error-downcast", "{what}");
        }
        Ok(())
    });
    s.add("messages", |ch| {
        let long = "m".repeat(70_000);
        let msgs = [
            "", " ", "a", "two\nlines", "two\r\nlines\n", "\n", " padded ", "tab\there", "{}", "{0} {x}", "100%", "a: b", "a: b: c",
            "Caused by:", "\"quoted\"", "back\\slash", "nul\0", "caf\u{e9}", "\u{1f600}", "\u{feff}bom", "404", "500: x", "error: y", long.as_str(),
        ];
        let m = *ch.pick(&msgs);
        let code = *ch.pick(&[100u16, 204, 404, 500]);
        let owned = m.to_string();
        let how = ch.choose(9);
        ch.step();
        ch.state(&(m, how));
        let what = &m[..m.len().min(20).min(m.char_indices().nth(10).map_or(m.len(), |c| c.0))];
        let (e, code) = match how {
            0 => (Error::from_str(code, owned), code),
            1 => (Error::from_display(m), 500),
            2 => (Error::from_debug(Raw(m)), 500),
            3 => (http_types::format_err!("{}", m), 500),
            4 => (anyhow::Error::msg(owned).into(), 500),
            5 => (std::io::Error::new(std::io::ErrorKind::Other, m).into(), 500),
            6 => (http_types::format_err_status!(404, "{}", m), 404),
            7 => (Error::new(code, anyhow::Error::msg(owned)), code),
            _ => {
                fn f(m: String) -> http_types::Result<()> {
                    http_types::bail!("{}", m)
                }
                (f(owned).unwrap_err(), 500)
            }
        };
        req_eq!(u16::from(e.status()), code, "error-status", "{what:?} ({how})");
        req!(e.to_string() == m, "error-message", "{what:?} ({how}) became {:.60?}", e.to_string());
        let r: &(dyn std::error::Error) = e.as_ref();
        req!(r.to_string() == m, "error-message", "{what:?} ({how}) as dyn Error: {:.60?}", r.to_string());
        let b: Box<dyn std::error::Error + Send + Sync> = e.into();
        req!(b.to_string() == m, "error-message", "{what:?} ({how}) boxed: {:.60?}", b.to_string());
        Ok(())
    });
    s.add("sources", |ch| {
        // whatever converts into an Error is an internal one, and keeps its value and type name
        ch.step();
        let k = ch.choose(15 + ERROR_KINDS.len());
        let how = ch.choose(3);
        ch.state(&(k, how));
        match k {
            0 => source(UnitError, how),
            1 => source(fmt::Error, how),
            2 => source("x".parse::<u8>().unwrap_err(), how),
            3 => source("".parse::<i64>().unwrap_err(), how),
            4 => source("x".parse::<f64>().unwrap_err(), how),
            5 => source("x".parse::<bool>().unwrap_err(), how),
            6 => source(std::str::from_utf8(&[0x61, 0xff]).unwrap_err(), how),
            7 => source(String::from_utf8(vec![0xff]).unwrap_err(), how),
            8 => source(http_types::Url::parse("x").unwrap_err(), how),
            9 => source(serde_json::from_str::<u8>("[").unwrap_err(), how),
            10 => source("x".parse::<std::net::IpAddr>().unwrap_err(), how),
            11 => source(Caused(Custom(1)), how),
            12 => source(Custom(1), how),
            13 => source(std::time::Duration::try_from_secs_f32(-1.0).unwrap_err(), how),
            14 => source(u8::try_from(300u32).unwrap_err(), how),
            k => {
                let kind = ERROR_KINDS[k - 15];
                let e: Error = std::io::Error::from(kind).into();
                req_eq!(e.downcast_ref::<std::io::Error>().map(|e| e.kind()), Some(kind), "error-downcast", "io error of {kind:?}");
                source(std::io::Error::from(kind), how)?;
                source(std::io::Error::new(kind, Custom(4)), how)
            }
        }
    });
}

struct Raw<'a>(&'a str);
impl fmt::Debug for Raw<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}

fn source<E: std::error::Error + Send + Sync + 'static>(e: E, how: usize) -> R {
    let msg = e.to_string();
    let name = std::any::type_name::<E>();
    let (mut e, status): (Error, u16) = match how {
        0 => (e.into(), 500),
        1 => (Error::new(410, e), 410),
        _ => (Err::<(), _>(e).status(503).unwrap_err(), 503),
    };
    for (status, how) in [(status, how), (404, 9)] {
        req_eq!(u16::from(e.status()), status, "error-status", "{name} ({how})");
        req_eq!(e.to_string(), msg, "error-message", "{name} ({how})");
        req_eq!(e.type_name(), Some(name), "error-type-name", "{name} ({how})");
        req_eq!(e.downcast_ref::<E>().map(|e| e.to_string()), Some(msg.clone()), "error-downcast", "{name} ({how})");
        e.set_status(404);
    }
    let e = match e.downcast::<Never>() {
        Ok(_) => return viol("error-downcast", format!("{name} downcast to a foreign type")),
        Err(e) => e,
    };
    req_eq!(e.type_name(), Some(name), "error-type-name", "{name} after a failed downcast");
    req_eq!(e.downcast::<E>().map(|e| e.to_string()).ok(), Some(msg.clone()), "error-downcast", "{name} by value");
    Ok(())
}

#[derive(Debug)]
struct Never;
impl fmt::Display for Never {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}

mod macros {
    use super::Custom;
    use http_types::Result;
    use http_types::{bail, bail_status, ensure, ensure_eq, ensure_eq_status, ensure_status, format_err, format_err_status};

    /// What an unqualified `Error` in a macro would find in the crate of a caller.
    #[allow(dead_code)]
    struct Error;
    #[allow(dead_code)]
    impl Error {
        fn new_adhoc<M>(_: M) -> http_types::Error {
            http_types::Error::from_str(418, "the macro looked for `Error` in the calling crate")
        }
    }

    macro_rules! run {
        ($e:expr) => {{
            #[allow(unreachable_code)]
            fn f() -> Result<()> {
                $e;
                Ok(())
            }
            (stringify!($e), f().err())
        }};
    }

    pub const COUNT: usize = 29;
    #[allow(clippy::type_complexity)]
    pub fn make(k: usize) -> (&'static str, Option<http_types::Error>, u16, &'static str, bool) {
        let one = || 1;
        let with = |(s, e): (&'static str, Option<http_types::Error>), c, m, w| (s, e, c, m, w);
        match k {
            0 => ("format_err!(literal)", Some(format_err!("m")), 500, "m", false),
            1 => ("format_err!(literal,)", Some(format_err!("m",)), 500, "m", false),
            2 => ("format_err!(format)", Some(format_err!("m{}{n}", one(), n = 2)), 500, "m12", false),
            3 => ("format_err!(String)", Some(format_err!(String::from("m"))), 500, "m", false),
            4 => ("format_err!(Custom)", Some(format_err!(Custom(7))), 500, "custom-7", true),
            5 => with(run!(bail!("m")), 500, "m", false),
            6 => with(run!(bail!("m{}", 1)), 500, "m1", false),
            7 => with(run!(bail!(String::from("m"))), 500, "m", false),
            8 => with(run!(bail!(Custom(7))), 500, "custom-7", true),
            9 => with(run!(ensure!(1 == 2, "m")), 500, "m", false),
            10 => with(run!(ensure!(1 == 2, "m{}", 1)), 500, "m1", false),
            11 => with(run!(ensure!(1 == 2, String::from("m"))), 500, "m", false),
            12 => with(run!(ensure!(false || 1 > 2, Custom(7))), 500, "custom-7", true),
            13 => with(run!(ensure_eq!(1, 2, "m")), 500, "m", false),
            14 => with(run!(ensure_eq!(1, 2, "m{}", 1)), 500, "m1", false),
            15 => with(run!(ensure_eq!(1 + 1, 3, String::from("m"))), 500, "m", false),
            16 => with(run!(ensure_eq!("a", "b", Custom(7))), 500, "custom-7", true),
            17 => ("format_err_status!(literal)", Some(format_err_status!(404, "m")), 404, "m", false),
            18 => ("format_err_status!(format)", Some(format_err_status!(404, "m{}", 1)), 404, "m1", false),
            19 => ("format_err_status!(Custom)", Some(format_err_status!(511, Custom(7))), 511, "custom-7", true),
            20 => with(run!(bail_status!(404, "m")), 404, "m", false),
            21 => with(run!(bail_status!(200, "m{}", 1)), 200, "m1", false),
            22 => with(run!(bail_status!(404, Custom(7))), 404, "custom-7", true),
            23 => with(run!(ensure_status!(1 == 2, 403, "m")), 403, "m", false),
            24 => with(run!(ensure_status!(1 == 2, 404, "m{}", 1)), 404, "m1", false),
            25 => with(run!(ensure_status!(1 == 2, 404, Custom(7))), 404, "custom-7", true),
            26 => with(run!(ensure_eq_status!(1, 2, 402, "m")), 402, "m", false),
            27 => with(run!(ensure_eq_status!(1, 2, 404, "m{}", 1)), 404, "m1", false),
            _ => with(run!(ensure_eq_status!(1, 2, 404, Custom(7))), 404, "custom-7", true),
        }
    }
}
