//! Histories of edits of the headers which hold a list, against a plain list: what is in it, in which
//! order, with or without '*', and what is written of it.
use crate::engine::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::headers::Header;
use std::fmt::Debug;

/// A header which holds a list.
pub trait Listed: Header + Debug + Sized {
    type E: Clone;
    const NAME: &'static str;
    /// The texts of some lines to begin with.
    const LINES: &'static [&'static str];
    fn elements() -> Vec<Self::E>;
    /// What an element is told by.
    fn key(e: &Self::E) -> String;
    fn new() -> Self;
    fn read(r: &http_types::Response) -> http_types::Result<Option<Self>>;
    fn push(&mut self, e: Self::E);
    fn wildcard(&self) -> Option<bool>;
    fn set_wildcard(&mut self, w: bool);
    fn keys(&self) -> Result<Vec<String>, Viol>;
    /// Replaces the element at a place, through one of the two mutable iterators.
    fn replace(&mut self, at: usize, e: Self::E, which: bool) -> bool;
    fn into_keys(self) -> Result<Vec<String>, Viol>;
}

#[macro_export]
macro_rules! listed {
    ($T:ty, $E:ty, $name:literal, $lines:expr, $elements:expr, $key:expr) => {
        $crate::listed!($T, $E, $name, $lines, $elements, $key, |t: &$T| Some(t.wildcard()), |t: &mut $T, w: bool| t.set_wildcard(w));
    };
    ($T:ty, $E:ty, $name:literal, $lines:expr, $elements:expr, $key:expr, $wild:expr, $set:expr) => {
        impl $crate::props::edits::Listed for $T {
            type E = $E;
            const NAME: &'static str = $name;
            const LINES: &'static [&'static str] = $lines;
            fn elements() -> Vec<$E> {
                $elements
            }
            fn key(e: &$E) -> String {
                ($key)(e)
            }
            fn new() -> Self {
                <$T>::new()
            }
            fn read(r: &http_types::Response) -> http_types::Result<Option<Self>> {
                <$T>::from_headers(r)
            }
            fn push(&mut self, e: $E) {
                let _ = <$T>::push(self, e);
            }
            fn wildcard(&self) -> Option<bool> {
                ($wild)(self)
            }
            fn set_wildcard(&mut self, w: bool) {
                ($set)(self, w)
            }
            fn keys(&self) -> Result<Vec<String>, Viol> {
                Ok(drained(self.iter())?.into_iter().map(Self::key).collect())
            }
            fn replace(&mut self, at: usize, e: $E, which: bool) -> bool {
                let x = if which { self.iter_mut().nth(at) } else { (&mut *self).into_iter().nth(at) };
                x.map(|x| *x = e).is_some()
            }
            fn into_keys(self) -> Result<Vec<String>, Viol> {
                Ok(drained(self.into_iter())?.iter().map(Self::key).collect())
            }
        }
    };
}

pub fn edits<T: Listed + 'static>(s: &mut Suite, scenario: &'static str, depth: usize) {
    s.bound(&format!("{scenario}: every history of up to {depth} pushes, replacements, changes of the wildcard and readings back, from a new list and from {} lines", T::LINES.len()));
    s.add(scenario, move |ch| {
        let els = T::elements();
        let read = |l: &T, what: &str| -> Result<T, Viol> {
            match no_panic(|| T::read(&applied(l, T::NAME)?).map_err(|e| Viol { key: "edit-reads".into(), msg: format!("{l:?} is written {:?}, which is refused: {e}", l.header_value()) })) {
                Ok(Ok(Some(x))) => Ok(x),
                Ok(Err(v)) => Err(v),
                o => Err(viol::<()>("edit-reads", format!("{what}: {l:?} is written {:?}, which reads {:?}", l.header_value(), o.map(|_| ()))).unwrap_err()),
            }
        };
        let start = ch.choose(T::LINES.len() + 1);
        let mut l = if start == 0 {
            T::new()
        } else {
            match T::read(&res_with(&[(T::NAME, T::LINES[start - 1])])) {
                Ok(Some(l)) => l,
                o => return viol("edit-reads", format!("{} {:?} reads {:?}", T::NAME, T::LINES[start - 1], o.map(|_| ()))),
            }
        };
        let mut want = l.keys()?;
        let mut wild = l.wildcard();
        let has_wild = wild.is_some();
        if start == 0 {
            req_eq!((want.len(), wild.unwrap_or(false)), (0, false), "edit-new", "a new list");
        }
        let mut ctx = if start == 0 { String::from("new") } else { format!("read {:?}", T::LINES[start - 1]) };
        for _ in 0..ch.choose(depth + 1) {
            ch.step();
            match ch.choose(if has_wild { 5 } else { 4 }) {
                0 => {
                    let e = ch.pick(&els).clone();
                    let k = T::key(&e);
                    ctx.push_str(&format!(", push {k}"));
                    l.push(e);
                    want.push(k);
                }
                1 => {
                    let e = ch.pick(&els).clone();
                    let k = T::key(&e);
                    let at = ch.choose(want.len() + 1);
                    let which = ch.flag();
                    ctx.push_str(&format!(", replace {at} by {k}"));
                    req_eq!(l.replace(at, e, which), at < want.len(), "edit-replace", "{ctx}");
                    if at < want.len() {
                        want[at] = k;
                    }
                }
                2 => {
                    ctx.push_str(", write and read");
                    l = read(&l, &ctx)?;
                }
                3 => {
                    ctx.push_str(", write");
                    let _ = l.header_value();
                }
                _ => {
                    let w = ch.flag();
                    ctx.push_str(&format!(", wildcard {w}"));
                    l.set_wildcard(w);
                    wild = Some(w);
                }
            }
            req_eq!((l.keys()?, l.wildcard()), (want.clone(), wild), "edit-list", "{ctx}");
        }
        ch.note(|| ctx.clone());
        ch.state(&ctx);
        let back = read(&l, &ctx)?;
        req_eq!((back.keys()?, back.wildcard()), (want.clone(), wild), "edit-round-trip", "{ctx}, written {:?}", l.header_value());
        let text = l.header_value();
        req!(text == back.header_value(), "edit-round-trip", "{ctx}: written {text:?}, then {:?}", back.header_value());
        req_eq!(l.into_keys()?, want, "edit-list", "{ctx}");
        Ok(())
    });
}
