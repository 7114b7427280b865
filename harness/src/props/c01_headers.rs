//! C01: a header collection is a multimap from case-insensitive name to a non-empty value list.
use crate::engine::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::headers::{HeaderName, HeaderValue, HeaderValues, Headers, CONTENT_TYPE};
use http_types::trailers::Trailers;
use http_types::{Request, Response};
use std::borrow::Cow;
use std::collections::BTreeMap;

type Model = BTreeMap<String, Vec<String>>;

enum Host {
    Req(Request),
    Res(Response),
    Tra(Trailers),
    Raw(Response),
}

/// How the value argument is passed.
#[derive(Clone, Copy, Debug, PartialEq)]
enum V {
    Str(&'static str),
    Owned(&'static str),
    RefOwned(&'static str),
    Cow(&'static str),
    Value(&'static str),
    List(&'static [&'static str]),
    Slice(&'static [&'static str]),
    Pair(&'static str),
}

/// How the name argument is passed.
#[derive(Clone, Copy, Debug)]
enum N {
    Str(&'static str),
    Owned(&'static str),
    Ref(&'static str),
    Const,
}

impl N {
    fn key(&self) -> String {
        match self {
            N::Str(s) | N::Owned(s) | N::Ref(s) => s.to_ascii_lowercase(),
            N::Const => "content-type".into(),
        }
    }
    fn name(&self) -> HeaderName {
        match self {
            N::Str(s) => HeaderName::from(*s),
            N::Owned(s) => HeaderName::from_string(s.to_string()).unwrap(),
            N::Ref(s) => HeaderName::from_bytes(s.as_bytes().to_vec()).unwrap(),
            N::Const => CONTENT_TYPE,
        }
    }
}

impl V {
    fn model(&self) -> Result<Vec<String>, ()> {
        let v: Vec<String> = match self {
            V::Str(s) | V::Owned(s) | V::RefOwned(s) | V::Cow(s) | V::Value(s) | V::Pair(s) => {
                vec![s.to_string()]
            }
            V::List(l) | V::Slice(l) => l.iter().map(|s| s.to_string()).collect(),
        };
        if v.iter().all(|s| s.is_ascii()) {
            Ok(v)
        } else {
            Err(())
        }
    }
}

macro_rules! call {
    ($host:expr, $raw:ident, $msg:ident, $name:expr, $v:expr) => {{
        macro_rules! on {
            ($val:expr) => {
                match $host {
                    Host::Req(h) => match $name {
                        N::Str(s) => h.$msg(*s, $val),
                        N::Ref(_) => h.$msg(&$name.name(), $val),
                        _ => h.$msg($name.name(), $val),
                    },
                    Host::Res(h) => match $name {
                        N::Str(s) => h.$msg(*s, $val),
                        N::Ref(_) => h.$msg(&$name.name(), $val),
                        _ => h.$msg($name.name(), $val),
                    },
                    Host::Tra(h) => match $name {
                        N::Str(s) => h.$raw(*s, $val),
                        N::Ref(_) => h.$raw(&$name.name(), $val),
                        _ => h.$raw($name.name(), $val),
                    },
                    Host::Raw(h) => {
                        let h: &mut Headers = h.as_mut();
                        match $name {
                            N::Str(s) => h.$raw(*s, $val),
                            N::Ref(_) => h.$raw(&$name.name(), $val),
                            _ => h.$raw($name.name(), $val),
                        }
                    }
                }
            };
        }
        match $v {
            V::Str(s) => on!(*s),
            V::Owned(s) => on!(s.to_string()),
            V::RefOwned(s) => on!(&s.to_string()),
            V::Cow(s) => on!(Cow::Borrowed(*s)),
            V::Value(s) => on!(hv(s)),
            V::Pair(s) => on!(("ignored-name", *s)),
            V::List(l) => {
                let vs: HeaderValues = l.iter().map(|s| hv(s)).collect();
                on!(&vs)
            }
            V::Slice(l) => {
                let vs: Vec<HeaderValue> = l.iter().map(|s| hv(s)).collect();
                on!(&vs[..])
            }
        }
    }};
}

impl Host {
    fn new(k: usize) -> Host {
        match k {
            0 => Host::Req(new_req()),
            1 => Host::Res(Response::new(200)),
            2 => Host::Tra(Trailers::new()),
            _ => Host::Raw(Response::new(200)),
        }
    }
    fn headers(&self) -> &Headers {
        match self {
            Host::Req(h) => h.as_ref(),
            Host::Res(h) => h.as_ref(),
            Host::Tra(h) => h,
            Host::Raw(h) => h.as_ref(),
        }
    }
    #[allow(unused_macros)]
    fn insert(&mut self, n: &N, v: &V) -> http_types::Result<Option<HeaderValues>> {
        call!(self, insert, insert_header, n, v)
    }
    #[allow(unused_macros)]
    fn append(&mut self, n: &N, v: &V) -> http_types::Result<()> {
        call!(self, append, append_header, n, v)
    }
    fn remove(&mut self, n: &N) -> Option<HeaderValues> {
        match self {
            Host::Req(h) => h.remove_header(n.name()),
            Host::Res(h) => h.remove_header(n.name()),
            Host::Tra(h) => h.remove(n.name()),
            Host::Raw(h) => AsMut::<Headers>::as_mut(h).remove(n.name()),
        }
    }
    fn get_mut(&mut self, n: &N) -> Option<&mut HeaderValues> {
        match self {
            Host::Req(h) => h.header_mut(n.name()),
            Host::Res(h) => h.header_mut(n.name()),
            Host::Tra(h) => h.get_mut(n.name()),
            Host::Raw(h) => AsMut::<Headers>::as_mut(h).get_mut(n.name()),
        }
    }
    fn get(&self, n: &str) -> Option<&HeaderValues> {
        match self {
            Host::Req(h) => h.header(n),
            Host::Res(h) => h.header(n),
            Host::Tra(h) => h.get(n),
            Host::Raw(h) => AsRef::<Headers>::as_ref(h).get(n),
        }
    }
    fn dump_iter(&self) -> Vec<(String, Vec<String>)> {
        match self {
            Host::Req(h) => h.iter().map(pair).collect(),
            Host::Res(h) => h.iter().map(pair).collect(),
            Host::Tra(h) => h.iter().map(pair).collect(),
            Host::Raw(h) => AsRef::<Headers>::as_ref(h).iter().map(pair).collect(),
        }
    }
    fn dump_ref_into_iter(&self) -> Vec<(String, Vec<String>)> {
        match self {
            Host::Req(h) => h.into_iter().map(pair).collect(),
            Host::Res(h) => h.into_iter().map(pair).collect(),
            Host::Tra(h) => (&**h).into_iter().map(pair).collect(),
            Host::Raw(h) => AsRef::<Headers>::as_ref(h).into_iter().map(pair).collect(),
        }
    }
    fn iter_mut_dump(&mut self, f: impl Fn(&mut HeaderValues)) -> Vec<String> {
        let mut names = vec![];
        macro_rules! go {
            ($it:expr) => {
                for (n, v) in $it {
                    names.push(n.as_str().to_string());
                    f(v);
                }
            };
        }
        match self {
            Host::Req(h) => go!(h.iter_mut()),
            Host::Res(h) => go!(h),
            Host::Tra(h) => go!(h.iter_mut()),
            Host::Raw(h) => go!(AsMut::<Headers>::as_mut(h)),
        }
        names
    }
    fn names_dump(&self) -> Vec<String> {
        match self {
            Host::Req(h) => h.header_names().map(|n| n.as_str().into()).collect(),
            Host::Res(h) => h.header_names().map(|n| n.as_str().into()).collect(),
            Host::Tra(h) => h.names().map(|n| n.as_str().into()).collect(),
            Host::Raw(h) => AsRef::<Headers>::as_ref(h).names().map(|n| n.as_str().into()).collect(),
        }
    }
    fn values_dump(&self) -> Result<Vec<String>, Viol> {
        fn drain<'a>(it: http_types::headers::Values<'a>) -> Result<Vec<String>, Viol> {
            Ok(drained(it)?.iter().map(|v| v.as_str().to_string()).collect())
        }
        match self {
            Host::Req(h) => drain(h.header_values()),
            Host::Res(h) => drain(h.header_values()),
            Host::Tra(h) => drain(h.values()),
            Host::Raw(h) => drain(AsRef::<Headers>::as_ref(h).values()),
        }
    }
    fn index(&self, n: &str) -> (&HeaderValues, &HeaderValues) {
        match self {
            Host::Req(h) => (&h[n], &h[hn(n)]),
            Host::Res(h) => (&h[n], &h[hn(n)]),
            Host::Tra(h) => (&h[n], &h[hn(n)]),
            Host::Raw(h) => {
                let h: &Headers = h.as_ref();
                (&h[n], &h[hn(n)])
            }
        }
    }
    fn try_clone(&self) -> Host {
        match self {
            Host::Req(h) => Host::Req(h.clone()),
            Host::Res(h) => Host::Res(h.clone()),
            Host::Tra(h) => Host::Tra(h.clone()),
            Host::Raw(h) => Host::Raw(h.clone()),
        }
    }
    fn into_dump(self) -> Vec<(String, Vec<String>)> {
        fn own(x: (HeaderName, HeaderValues)) -> (String, Vec<String>) {
            (
                x.0.as_str().to_string(),
                x.1.into_iter().map(|v| v.as_str().to_string()).collect(),
            )
        }
        match self {
            Host::Req(h) => h.into_iter().map(own).collect(),
            Host::Res(h) => h.into_iter().map(own).collect(),
            Host::Tra(h) => Headers::clone(&h).into_iter().map(own).collect(),
            Host::Raw(h) => AsRef::<Headers>::as_ref(&h).clone().into_iter().map(own).collect(),
        }
    }
}

fn pair(x: (&HeaderName, &HeaderValues)) -> (String, Vec<String>) {
    (
        x.0.as_str().to_string(),
        x.1.iter().map(|v| v.as_str().to_string()).collect(),
    )
}
fn vals(v: &HeaderValues) -> Vec<String> {
    v.iter().map(|v| v.as_str().to_string()).collect()
}
fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

const LOOKUPS: &[&str] = &["x-foo", "X-FOO", "x-Foo", "Content-Type", "content-type", "bar", "absent"];

fn observe(h: &Host, m: &Model, what: &str) -> R {
    observe_at(h, m, what, LOOKUPS)
}
fn observe_at(h: &Host, m: &Model, what: &str, lookups: &[&str]) -> R {
    let want: Vec<(String, Vec<String>)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    req_eq!(sorted(h.dump_iter()), want, "iter", "iter() after {what}");
    req_eq!(sorted(h.dump_ref_into_iter()), want, "ref-into-iter", "&into_iter() after {what}");
    let names: Vec<String> = m.keys().cloned().collect();
    req_eq!(sorted(h.names_dump()), names, "names", "names() after {what}");
    let values: Vec<String> = sorted(m.values().flatten().cloned().collect());
    req_eq!(sorted(h.values_dump()?), values, "values", "values() after {what}");
    for l in lookups {
        let want = m.get(&l.to_ascii_lowercase());
        let got = h.get(l);
        req_eq!(got.map(vals), want.cloned(), "get", "get({l}) after {what}");
        if let (Some(g), Some(w)) = (got, want) {
            req!(!w.is_empty(), "empty", "model bug");
            req_eq!(g.last().as_str(), w.last().unwrap().as_str(), "last", "last() of {l} after {what}");
            req_eq!(g.as_str(), w[0].as_str(), "deref", "deref of {l} after {what}");
            req_eq!(AsRef::<HeaderValue>::as_ref(g).as_str(), w[0].as_str(), "as_ref", "as_ref of {l}");
            for i in 0..=w.len() {
                req_eq!(g.get(i).map(|v| v.as_str().to_string()), w.get(i).cloned(), "values-get", "get({i}) of {l} after {what}");
            }
            req_eq!(g[..].len(), w.len(), "slice", "slice of {l}");
            for probe in ["1", "2", "3", ""] {
                req_eq!(g.contains(&hv(probe)), w.iter().any(|x| x == probe), "contains", "contains({probe}) of {l} after {what}");
                req_eq!(*g == *probe, w.len() == 1 && w[0] == probe, "eq-str", "{l} == {probe:?} after {what}");
                req_eq!(*g == probe.to_string(), w.len() == 1 && w[0] == probe, "eq-string", "{l} == {probe:?} after {what}");
            }
            let ws: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
            req!(*g == ws[..], "eq-slice", "{l} == {ws:?} after {what}");
            let shorter = &ws[..ws.len() - 1];
            req!(!(*g == *shorter), "eq-slice", "{l} == {shorter:?} after {what}");
            let mut longer = ws.clone();
            longer.push("1");
            req!(!(*g == longer[..]), "eq-slice", "{l} == {longer:?} after {what}");
            req_eq!(HeaderValue::from(g.clone()).as_str(), w[0].as_str(), "first", "HeaderValue::from of {l}");
            req_eq!((&*g).into_iter().count(), w.len(), "count", "count of {l}");
            let (i1, i2) = h.index(l);
            req_eq!(vals(i1), *w, "index", "index[{l}] after {what}");
            req_eq!(vals(i2), *w, "index", "index[HeaderName {l}] after {what}");
            let dbg = if w.len() == 1 { format!("{:?}", w[0]) } else { format!("{w:?}") };
            req_eq!(format!("{g:?}"), dbg, "debug", "debug of {l}");
        }
    }
    Ok(())
}

fn apply(ch: &mut Ch, h: &mut Host, m: &mut Model, ops: &[usize], names: &[N], vs: &[V]) -> Result<String, Viol> {
    ch.step();
    let op = *ch.pick(ops);
    let n = if op == 6 { names[0] } else { *ch.pick(names) };
    let k = n.key();
    let what;
    match op {
        0 => {
            let v = ch.pick(vs);
            what = format!("insert({n:?},{v:?})");
            let got = h.insert(&n, v);
            match v.model() {
                Ok(w) if !w.is_empty() => {
                    req!(got.is_ok(), "insert-err", "{what} failed: {got:?}");
                    let old = m.insert(k, w);
                    let got = got.unwrap();
                    req_eq!(got.as_ref().map(vals), old, "insert-old", "old values returned by {what}");
                }
                Ok(_) => {
                    // An empty list has no meaning of its own; whatever it does, a present name
                    // must keep at least one value.
                    let present = h.get(&k).map(vals);
                    req!(
                        present.as_ref().map_or(true, |p| !p.is_empty()),
                        "empty-values",
                        "{what} left {k} present without any value"
                    );
                    match present {
                        None => {
                            m.remove(&k);
                        }
                        Some(p) => {
                            req_eq!(Some(&p), m.get(&k), "insert-empty", "values after {what}");
                        }
                    }
                }
                Err(()) => {
                    req!(got.is_err(), "insert-nonascii", "{what} must fail");
                }
            }
        }
        1 => {
            let v = ch.pick(vs);
            what = format!("append({n:?},{v:?})");
            let got = h.append(&n, v);
            match v.model() {
                Ok(w) if !w.is_empty() => {
                    req!(got.is_ok(), "append-err", "{what} failed: {got:?}");
                    m.entry(k).or_default().extend(w);
                }
                Ok(_) => {
                    let present = h.get(&k).map(vals);
                    req!(
                        present.as_ref().map_or(true, |p| !p.is_empty()),
                        "empty-values",
                        "{what} left {k} present without any value"
                    );
                    req_eq!(present.as_ref(), m.get(&k), "append-empty", "values after {what}");
                }
                Err(()) => {
                    req!(got.is_err(), "append-nonascii", "{what} must fail");
                }
            }
        }
        2 => {
            what = format!("remove({n:?})");
            let got = h.remove(&n);
            req_eq!(got.as_ref().map(vals), m.remove(&k), "remove", "values returned by {what}");
        }
        3 => {
            what = format!("get_mut({n:?}) and replace first via deref");
            let got = h.get_mut(&n);
            req_eq!(got.is_some(), m.contains_key(&k), "get_mut", "get_mut({n:?})");
            if let Some(g) = got {
                **g = hv("m");
                m.get_mut(&k).unwrap()[0] = "m".into();
            }
        }
        4 => {
            what = format!("get_mut({n:?}) and replace index 1");
            let got = h.get_mut(&n);
            req_eq!(got.is_some(), m.contains_key(&k), "get_mut", "get_mut({n:?})");
            if let Some(g) = got {
                let w = m.get_mut(&k).unwrap();
                let x = g.get_mut(1);
                req_eq!(x.is_some(), w.len() > 1, "values-get_mut", "get_mut(1)");
                if let Some(x) = x {
                    *x = hv("i");
                    w[1] = "i".into();
                }
            }
        }
        5 => {
            what = format!("get_mut({n:?}) and append in place");
            let got = h.get_mut(&n);
            req_eq!(got.is_some(), m.contains_key(&k), "get_mut", "get_mut({n:?})");
            if let Some(g) = got {
                let mut other: HeaderValues = vec![hv("p"), hv("q")].into();
                g.append(&mut other);
                m.get_mut(&k).unwrap().extend(["p".to_string(), "q".to_string()]);
            }
        }
        _ => {
            what = "iter_mut: append 'z' to every name".to_string();
            let seen = h.iter_mut_dump(|v| {
                let mut o: HeaderValues = hv("z").into();
                v.append(&mut o)
            });
            let keys: Vec<String> = m.keys().cloned().collect();
            req_eq!(sorted(seen), keys, "iter_mut", "names visited by iter_mut");
            for v in m.values_mut() {
                v.push("z".into());
            }
        }
    }
    ch.note(|| what.clone());
    Ok(what)
}

fn run(ch: &mut Ch, len: usize, names: &[N], vs: &[V]) -> R {
    run_ops(ch, len, &[0, 1, 2, 3, 4, 5, 6], names, vs)
}

fn run_ops(ch: &mut Ch, len: usize, ops: &[usize], names: &[N], vs: &[V]) -> R {
    let k = ch.choose(4);
    let mut h = Host::new(k);
    let mut m = Model::new();
    let n = ch.choose(len + 1);
    let mut what = "new".to_string();
    for _ in 0..n {
        what = apply(ch, &mut h, &mut m, ops, names, vs)?;
    }
    ch.state(&(k, &m));
    observe(&h, &m, &what)?;
    // A clone is an independent copy.
    let mut c = h.try_clone();
    observe(&c, &m, "clone")?;
    c.iter_mut_dump(|v| {
        let mut o: HeaderValues = hv("clone-only").into();
        v.append(&mut o)
    });
    c.remove(&N::Str("x-foo"));
    observe(&h, &m, "mutating a clone")?;
    let want: Vec<(String, Vec<String>)> = m.into_iter().collect();
    req_eq!(sorted(h.into_dump()), want, "into_iter", "into_iter() after {what}");
    Ok(())
}

/// Every list of 0..=`max` of the first `n` of three values.
fn lists(n: usize, max: usize) -> &'static [&'static [&'static str]] {
    use std::sync::{Mutex, OnceLock};
    static T: OnceLock<Mutex<BTreeMap<(usize, usize), &'static [&'static [&'static str]]>>> = OnceLock::new();
    let mut t = T.get_or_init(Default::default).lock().unwrap();
    t.entry((n, max)).or_insert_with(|| {
        let mut all: Vec<Vec<&'static str>> = vec![vec![]];
        let mut from = 0;
        for _ in 0..max {
            let to = all.len();
            for i in from..to {
                for v in &["1", "2", "3"][..n] {
                    let mut l = all[i].clone();
                    l.push(v);
                    all.push(l);
                }
            }
            from = to;
        }
        let all: Vec<&'static [&'static str]> = all.into_iter().map(|l| &*l.leak()).collect();
        all.leak()
    })
}

/// Distinct names of growing length, also used as values.
fn big_names() -> &'static [&'static str] {
    static T: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        (0..2100)
            .map(|i: usize| &*Box::leak(format!("{}-{i}", ["X", "x-Long-Name-Of-A-Header", "h", "ACCEPT"][i % 4]).into_boxed_str()))
            .collect()
    })
}

pub fn build(s: &mut Suite, thorough: bool) {
    const NAMES: &[N] = &[N::Str("X-Foo"), N::Owned("x-foo"), N::Const];
    const VALS: &[V] = &[
        V::Str("1"),
        V::List(&["1", "2"]),
        V::Slice(&["3"]),
        V::Str("h\u{e9}"),
    ];
    let depth = if thorough { 4 } else { 3 };
    s.bound(&format!(
        "operation sequences up to length {depth}: 7 operations x 3 names (2 of them equal up to case) x 4 values, on Request, Response, Trailers and raw Headers"
    ));
    s.add("histories", move |ch| run(ch, depth, NAMES, VALS));
    let deep = if thorough { 6 } else { 5 };
    s.bound(&format!("operation sequences up to length {deep} over one name in two spellings and two values"));
    s.add("deep-histories", move |ch| {
        run_ops(ch, deep, &[0, 1, 2, 5], &NAMES[..2], &[V::Str("1"), V::List(&["2", "3"])])
    });
    // Wide alphabet, shorter histories.
    const NAMES2: &[N] = &[
        N::Str("X-Foo"),
        N::Owned("x-foo"),
        N::Ref("X-FOO"),
        N::Const,
        N::Str("CONTENT-type"),
        N::Str("bar"),
        N::Str(""),
    ];
    const VALS2: &[V] = &[
        V::Str("1"),
        V::Str(""),
        V::Owned("2"),
        V::RefOwned("1"),
        V::Cow("3"),
        V::Value("2"),
        V::Pair("1"),
        V::List(&["1", "2"]),
        V::List(&["2"]),
        V::Slice(&["3", "1", "3"]),
        V::Slice(&[]),
        V::List(&[]),
        V::Str("h\u{e9}"),
        V::Owned("h\u{e9}"),
        V::RefOwned("h\u{e9}"),
        V::Cow("h\u{e9}"),
    ];
    let d2 = if thorough { 3 } else { 2 };
    s.bound(&format!("operation sequences up to length {d2} over the wide alphabet: 7 names x 16 argument forms"));
    s.add("wide-alphabet", move |ch| run(ch, d2, NAMES2, VALS2));
    // Every list over three values, added to every list: equal neighbours, repeats, any order.
    let (l1, l2) = if thorough { (4, 5) } else { (3, 4) };
    s.bound(&format!("insert/append of every list of 1..={l2} values out of 3 on every name holding a list of 0..={l1} values out of 2"));
    s.add("list-arguments", move |ch| {
        let k = ch.choose(4);
        let mut h = Host::new(k);
        let mut m = Model::new();
        let before: &'static [&'static str] = *ch.pick(lists(2, 4));
        if before.len() > l1 {
            return Ok(());
        }
        let arg: &'static [&'static str] = *ch.pick(lists(3, 5));
        if arg.len() > l2 || arg.is_empty() {
            return Ok(());
        }
        ch.step();
        let fail = |e: http_types::Error| Viol { key: "append-err".into(), msg: e.to_string() };
        let n = N::Str("X-Foo");
        for v in before {
            h.append(&n, &V::Str(v)).map_err(fail)?;
        }
        let v = if ch.flag() { V::List(arg) } else { V::Slice(arg) };
        let old = (!before.is_empty()).then(|| before.iter().map(|s| s.to_string()).collect::<Vec<_>>());
        let arg: Vec<String> = arg.iter().map(|s| s.to_string()).collect();
        let what = if ch.flag() {
            let got = h.insert(&n, &v).map_err(fail)?;
            req_eq!(got.as_ref().map(vals), old, "insert-old", "old values returned by insert of {v:?}");
            m.insert("x-foo".into(), arg);
            "insert"
        } else {
            h.append(&n, &v).map_err(fail)?;
            m.insert("x-foo".into(), old.unwrap_or_default().into_iter().chain(arg).collect());
            "append"
        };
        ch.note(|| format!("{what} {v:?} to {before:?}"));
        ch.state(&(k, &m));
        observe(&h, &m, what)
    });
    // Chaining from a populated state with many names.
    s.add("from-populated", move |ch| {
        let k = ch.choose(4);
        let mut h = Host::new(k);
        let mut m = Model::new();
        for i in 0..20 {
            let n: &'static str = [
                "h0", "h1", "h2", "h3", "h4", "h5", "h6", "h7", "h8", "h9", "H10", "H11", "H12",
                "H13", "H14", "H15", "H16", "X-Foo", "Bar", "Content-Type",
            ][i];
            let v: &'static [&'static str] = [&["1"][..], &["1", "2"][..], &["2", "1", "3"][..]][i % 3];
            h.append(&N::Str(n), &V::List(v)).map_err(|e| Viol { key: "append-err".into(), msg: e.to_string() })?;
            m.insert(n.to_ascii_lowercase(), v.iter().map(|s| s.to_string()).collect());
        }
        let mut what = "populate".to_string();
        for _ in 0..2 {
            what = apply(ch, &mut h, &mut m, &[0, 1, 2, 3, 4, 5, 6], NAMES, &VALS[..3])?;
        }
        ch.state(&(k, &m));
        observe(&h, &m, &what)
    });
    // Many names, many values, and both.
    let large = if thorough { 2000 } else { 300 };
    s.bound(&format!("{large} sizes: that many names, values appended to one name, values in one list, and names with up to 8 values each; then every third name removed"));
    s.add("scale", move |ch| {
        let names: &'static [&'static str] = big_names();
        let k = ch.choose(4);
        let mode = ch.choose(4);
        let size = *ch.pick(&sizes(if thorough { 300 } else { 70 }, large));
        let cycle = if mode == 1 || mode == 3 { *ch.pick(CYCLES) } else { usize::MAX };
        let mut h = Host::new(k);
        let mut m = Model::new();
        let fail = |e: http_types::Error| Viol { key: "append-err".into(), msg: e.to_string() };
        let what = format!("{} of {size}", ["names", "values of a name", "values in a list", "names with lists"][mode]);
        ch.note(|| what.clone());
        let mut put = |h: &mut Host, n: &'static str, v: &V, w: &[&str]| {
            m.entry(n.to_ascii_lowercase()).or_default().extend(w.iter().map(|s| s.to_string()));
            h.append(&N::Str(n), v).map_err(fail)
        };
        match mode {
            0 => {
                for i in 0..size {
                    put(&mut h, names[i], &V::Str(names[i + 1]), &[names[i + 1]])?;
                }
            }
            1 => {
                for i in 0..size {
                    put(&mut h, "X-Many", &V::Str(names[i % cycle]), &[names[i % cycle]])?;
                }
            }
            2 => {
                if size > 0 {
                    put(&mut h, "X-Many", &V::List(&names[..size]), &names[..size])?;
                    put(&mut h, "x-many", &V::Slice(&names[..size / 2 + 1]), &names[..size / 2 + 1])?;
                }
            }
            _ => {
                for i in 0..size {
                    let v = &names[i % cycle..i % cycle + 1 + i % 8];
                    put(&mut h, names[i], &V::List(v), v)?;
                }
            }
        }
        ch.step();
        observe(&h, &m, &what)?;
        for i in (0..size).step_by(3) {
            let n = if mode == 1 || mode == 2 { "x-MANY" } else { names[i] };
            let got = h.remove(&N::Str(n)).map(|v| vals(&v));
            req_eq!(got, m.remove(&n.to_ascii_lowercase()), "remove-old", "values returned by remove({n:?}), {what}");
        }
        ch.step();
        observe(&h, &m, &format!("{what}, some removed"))
    });
    // Header names that mean something elsewhere mean nothing special here.
    s.bound(&format!("{} registered and common header names x 12 values: three operations on each, next to another name", STANDARD.len()));
    s.add("standard-names", |ch| {
        const VALUES: &[&str] = &[
            "1", "", " ", "text/html; charset=utf-8", "a=b; Path=/", "chunked, gzip", "*", "W/\"x\"", "Tue, 15 Nov 1994 08:12:31 GMT", "keep-alive", "close", "1",
        ];
        let name: &'static str = *ch.pick(STANDARD);
        let k = ch.choose(4);
        let mut h = Host::new(k);
        let mut m = Model::new();
        h.append(&N::Str("X-Foo"), &V::Str("1")).unwrap();
        m.insert("x-foo".into(), vec!["1".into()]);
        let lookups = [name, "x-foo"];
        let a = ch.choose(VALUES.len());
        let mut what = String::new();
        for (n, v) in [(N::Str(name), a), (N::Owned(name), (a + 1) % VALUES.len()), (N::Ref(name), a)] {
            ch.step();
            let v = VALUES[v];
            match ch.choose(4) {
                0 => {
                    let old = h.insert(&n, &V::Str(v)).map_err(|e| Viol { key: "insert-err".into(), msg: e.to_string() })?;
                    req_eq!(old.as_ref().map(vals), m.insert(name.into(), vec![v.into()]), "insert-old", "{name}");
                    what += &format!("insert {v:?}; ");
                }
                1 => {
                    h.append(&n, &V::Str(v)).map_err(|e| Viol { key: "append-err".into(), msg: e.to_string() })?;
                    m.entry(name.into()).or_default().push(v.into());
                    what += &format!("append {v:?}; ");
                }
                2 => {
                    h.append(&n, &V::List(&["2", "2"])).map_err(|e| Viol { key: "append-err".into(), msg: e.to_string() })?;
                    m.entry(name.into()).or_default().extend(["2".to_string(), "2".to_string()]);
                    what += "append 2, 2; ";
                }
                _ => {
                    let old = h.remove(&n);
                    req_eq!(old.as_ref().map(vals), m.remove(name), "remove", "values returned by remove({name})");
                    what += "remove; ";
                }
            }
        }
        ch.note(|| format!("{name}: {what}"));
        ch.state(&(k, &m));
        observe_at(&h, &m, &format!("{what} of {name}"), &lookups)?;
        let c = h.try_clone();
        observe_at(&c, &m, "clone", &lookups)?;
        let want: Vec<(String, Vec<String>)> = m.into_iter().collect();
        req_eq!(sorted(h.into_dump()), want, "into_iter", "into_iter() after {what} of {name}");
        Ok(())
    });
    // Values are texts: blanks, case, separators and quotes mean nothing to the collection.
    s.bound("every pair of values out of 20 texts (blanks around, case, commas, quotes, empty) put in every pair of argument forms by insert or append");
    s.add("texts", |ch| {
        const TEXTS: &[&str] = &[
            "a", "A", "", " ", " a", "a ", "\ta\t", "a, b", "a,b", "\"a, b\"", "a;b", "\"", "\\", "a=b", "W/\"x\"", "0", "00", "a\r", "a\0", "\x7f",
        ];
        let k = ch.choose(4);
        let mut h = Host::new(k);
        let mut m = Model::new();
        let n = N::Str("X-Foo");
        let mut what = String::new();
        for i in 0..2 {
            let t: &'static str = *ch.pick(TEXTS);
            let v = match ch.choose(6) {
                0 => V::Str(t),
                1 => V::Owned(t),
                2 => V::RefOwned(t),
                3 => V::Cow(t),
                4 => V::Value(t),
                _ => V::Pair(t),
            };
            ch.step();
            if ch.flag() {
                let old = h.insert(&n, &v).map_err(|e| Viol { key: "insert-err".into(), msg: format!("{v:?}: {e}") })?;
                req_eq!(old.as_ref().map(vals), m.insert("x-foo".into(), vec![t.into()]), "insert-old", "old values returned by insert of {v:?}");
                what += &format!("insert {v:?}; ");
            } else {
                h.append(&n, &v).map_err(|e| Viol { key: "append-err".into(), msg: format!("{v:?}: {e}") })?;
                m.entry("x-foo".into()).or_default().push(t.into());
                what += &format!("append {v:?}; ");
            }
            if i == 1 {
                let got = h.get("x-foo").unwrap();
                let w = &m["x-foo"];
                for p in TEXTS {
                    req_eq!(got.contains(&hv(p)), w.iter().any(|x| x == p), "contains", "contains({p:?}) after {what}");
                    req_eq!(*got == **p, w.len() == 1 && w[0] == *p, "eq-str", "== {p:?} after {what}");
                    req_eq!(*got == [*p][..], w.len() == 1 && w[0] == *p, "eq-slice", "== [{p:?}] after {what}");
                }
                req_eq!(got.to_string(), format!("{w:?}"), "values-display", "Display after {what}");
            }
        }
        ch.note(|| what.clone());
        ch.state(&(k, &m));
        observe_at(&h, &m, &what, &["x-foo"])
    });
    // Lists reached through header_mut: what is moved between them, and what is left behind.
    s.bound("moving the values of one header into another one through header_mut, from and into lists of 1..=3 values, in one message or two; replacing a list");
    s.add("moved-lists", |ch| {
        let lists: [&[&str]; 3] = [&["1"], &["2", "1"], &["1", "1", "3"]];
        let (a, b) = (*ch.pick(&lists), *ch.pick(&lists));
        let mut r1 = http_types::Response::new(200);
        let mut r2 = http_types::Response::new(200);
        for v in a {
            r1.append_header("x-a", *v).unwrap();
        }
        for v in b {
            r2.append_header("x-b", *v).unwrap();
        }
        let how = ch.choose(4);
        ch.step();
        ch.state(&(a, b, how));
        let both: Vec<String> = a.iter().chain(b).map(|s| s.to_string()).collect();
        let only_b: Vec<String> = b.iter().map(|s| s.to_string()).collect();
        let want = match how {
            0 => {
                // a copy is moved: the original stays
                let mut c = r2.header("x-b").unwrap().clone();
                r1.header_mut("x-a").unwrap().append(&mut c);
                req_eq!(r2.header("x-b").map(vals), Some(only_b), "moved", "the copied list");
                both
            }
            1 => {
                let mut c = r2.remove_header("X-B").unwrap();
                r1.header_mut("x-a").unwrap().append(&mut c);
                req!(r2.header("x-b").is_none(), "moved", "removed header");
                both
            }
            2 => {
                std::mem::swap(r1.header_mut("x-a").unwrap(), r2.header_mut("x-b").unwrap());
                let only_a: Vec<String> = a.iter().map(|s| s.to_string()).collect();
                req_eq!(r2.header("x-b").map(vals), Some(only_a), "moved", "swapped list");
                only_b
            }
            _ => {
                r1.header_mut("x-a").unwrap().append(r2.header_mut("x-b").unwrap());
                both
            }
        };
        req_eq!(r1.header("x-a").map(vals), Some(want), "moved", "the receiving list");
        let empty = r2.header("x-b").map_or(false, |v| v.iter().next().is_none());
        req!(!empty, "moved-out-list", "x-b is present without a value");
        Ok(())
    });
    s.bound("every mutable view of a message's headers and of a list of 1..=3 values: a change through it reaches exactly the value it shows");
    s.add("mutable-views", |ch| {
        use http_types::headers::HeaderValues;
        let list: &[&str] = *ch.pick(&[&["1"][..], &["2", "1"], &["1", "1", "3"]]);
        let mut h = Host::new(ch.choose(4));
        for v in list {
            h.append(&N::Str("X-A"), &V::Str(v)).map_err(|e| Viol { key: "append-err".into(), msg: e.to_string() })?;
        }
        h.append(&N::Str("X-B"), &V::Str("b")).unwrap();
        let mut want: Vec<String> = list.iter().map(|s| s.to_string()).collect();
        ch.step();
        fn visit<'a>(it: impl Iterator<Item = (&'a http_types::headers::HeaderName, &'a mut HeaderValues)>) -> R {
            let mut it = it.collect::<Vec<_>>();
            req_eq!(it.len(), 2, "iter-mut", "headers visited");
            it.sort_by_key(|(n, _)| n.to_string());
            let (n, a) = it.remove(0);
            req_eq!(n.as_str(), "x-a", "iter-mut", "name");
            let mut k = 0;
            while let Some(v) = a.get_mut(k) {
                *v = hv(&format!("{}!", v.as_str()));
                k += 1;
            }
            Ok(())
        }
        let mut first = |v: &mut HeaderValues, how: usize| -> R {
            req_eq!((v.as_str(), AsRef::<http_types::headers::HeaderValue>::as_ref(v).as_str()), (list[0], list[0]), "first-value", "deref");
            match how {
                0 => *AsMut::<http_types::headers::HeaderValue>::as_mut(v) = hv("new"),
                1 => **v = hv("new"),
                _ => *v.get_mut(0).unwrap() = hv("new"),
            }
            want[0] = "new".into();
            Ok(())
        };
        let how = ch.choose(7);
        use http_types::headers::Headers;
        match (how, &mut h) {
            (0..=2, h) => first(h.get_mut(&N::Str("X-A")).unwrap(), how)?,
            (3, Host::Req(r)) => visit(r.iter_mut())?,
            (3, Host::Res(r)) => visit(r.iter_mut())?,
            (3, Host::Tra(t)) => visit(t.iter_mut())?,
            (4, Host::Req(r)) => visit(r.into_iter())?,
            (4, Host::Res(r)) => visit(r.into_iter())?,
            (4, Host::Tra(t)) => visit(std::ops::DerefMut::deref_mut(t).into_iter())?,
            (5, Host::Req(r)) => visit(AsMut::<Headers>::as_mut(r).iter_mut())?,
            (5, Host::Res(r)) => visit(AsMut::<Headers>::as_mut(r).iter_mut())?,
            (5, Host::Tra(t)) => visit(AsMut::<Headers>::as_mut(&mut **t).iter_mut())?,
            (3..=5, Host::Raw(r)) => visit(AsMut::<Headers>::as_mut(AsMut::<Headers>::as_mut(r)).iter_mut())?,
            (_, h) => {
                let it = match h {
                    Host::Req(r) => r.iter_mut(),
                    Host::Res(r) => r.iter_mut(),
                    Host::Tra(t) => t.iter_mut(),
                    Host::Raw(r) => AsMut::<Headers>::as_mut(r).iter_mut(),
                };
                req_eq!(drained(it.map(|(n, _)| n.clone()))?.len(), 2, "iter-mut", "headers visited");
            }
        }
        if (3..6).contains(&how) {
            want.iter_mut().for_each(|v| v.push('!'));
        }
        let want: Vec<(String, Vec<String>)> = vec![("x-a".into(), want), ("x-b".into(), vec!["b".into()])];
        req_eq!(sorted(h.into_dump()), want, "mutable-view", "after change {how}");
        Ok(())
    });
    // Indexing an absent name is a documented panic, not a silent default.
    s.add("index-absent", |ch| {
        let k = ch.choose(4);
        let h = Host::new(k);
        ch.step();
        let r = no_panic(|| {
            h.index("absent");
        });
        req!(r.is_err(), "index-absent", "indexing an absent name returned a value");
        Ok(())
    });
    s.assume("header iteration order across names is unspecified: listings are compared as sets of (name, ordered values)");
}
