//! C20 Accept-Encoding, TE, Content-Encoding and Transfer-Encoding.
use crate::engine::*;
use crate::util::*;
use crate::{req, req_eq};
use http_types::headers::{Header, HeaderValue};
use http_types::{content, transfer, Response};

const UNKNOWN: &[&str] = &[
    "compress", "trailers", "exi", "pack200-gzip", "aes128gcm", "dcb", "dcz", "sdch", "none", "brotli", "b", "bro", "gzip2", "gzi", "gz", "g", "deflate-raw", "deflat", "raw", "zst", "zstandard",
    "identit", "identityx", "chunk", "chunkedx", "chunkeds", "unknown", "q", "*gzip", "gzip*", "**", "gzip/1", "gzip=1", "\"gzip\"", "br br", "gzip br",
    "*/*", "*/gzip", "*-", "*.*", "?", "/", "x", "any", "all", "auto", "default", "null", "true", "0", "1", "gzip-x", "x-br", "x-zstd", "gzip_", "-gzip", ".br", "gzip+br", "gzip|br", "gzip&br", "gzip:1", "'gzip'", "<gzip>",
    "gzip\tbr", "br-", "chunked-x", "chunkedgzip", "gzipchunked", "http", "https", "plain", "text",
];

macro_rules! family {
    ($fname:ident, $m:ident, $accept:ident, $chosen:ident, $req_header:literal, $res_header:literal, $codings:expr) => {
        fn $fname(s: &mut Suite, thorough: bool) {
            use $m::{$accept as Acc, $chosen as Chosen, Encoding, EncodingProposal};
            const CODINGS: &[(&str, Encoding)] = $codings;
            // name, weight as parsed
            const QS: &[(&str, Option<f32>)] = &[
                ("", None), (";q=1", Some(1.0)), ("; q=0.5", Some(0.5)), (" ;q=0.500", Some(0.5)), (";Q=0", Some(0.0)), (" ; q=0.001 ", Some(0.001)),
            ];
            type E = (Encoding, Option<f32>);

            // heaviest first, unweighted last, then latest declared first
            fn order(es: &[E]) -> Vec<usize> {
                let w = |i: usize| es[i].1.unwrap_or(-1.0);
                let mut idx: Vec<usize> = (0..es.len()).collect();
                idx.sort_by(|a, b| w(*b).partial_cmp(&w(*a)).unwrap().then(b.cmp(a)));
                idx
            }
            // None: undecided (a coding both refused and accepted)
            fn reference(es: &[E], wildcard: bool, avail: &[Encoding]) -> Option<Option<Encoding>> {
                let has = |e: &Encoding, zero: bool| es.iter().any(|(x, w)| x == e && (*w == Some(0.0)) == zero);
                if avail.iter().any(|e| has(e, true) && has(e, false)) {
                    return None;
                }
                for i in order(es) {
                    if es[i].1 != Some(0.0) && avail.contains(&es[i].0) {
                        return Some(Some(es[i].0));
                    }
                }
                if wildcard {
                    return Some(avail.iter().find(|e| !has(e, true)).copied());
                }
                Some(None)
            }
            fn negotiation(ch: &mut Ch, acc: &mut Acc, es: &[E], wildcard: bool, avail: &[Encoding], ctx: &str) -> R {
                let want = reference(es, wildcard, avail);
                for round in 0..2 {
                    let got = match no_panic(|| acc.negotiate(avail)) {
                        Ok(g) => g,
                        Err(p) => return viol("negotiate-panic", format!("{ctx}: {p}")),
                    };
                    ch.step();
                    let code = st(&got);
                    req!(code == 0 || code == 406, "negotiate-status", "{ctx} over {avail:?}: status {code}");
                    let got = got.ok().map(|c| c.encoding());
                    match want {
                        Some(w) => req_eq!(got, w, "negotiate", "round {round}: {ctx} over {avail:?}"),
                        None => req!(got.map_or(true, |g| avail.contains(&g)), "negotiate-invents", "{ctx} over {avail:?}: {got:?}"),
                    }
                }
                Ok(())
            }

            $crate::listed!(
                Acc, EncodingProposal, $req_header, &["gzip;q=0.5", "*", "deflate, *, br;q=0.100, x"],
                vec![EncodingProposal::from(CODINGS[0].1), EncodingProposal::new(CODINGS[1].1, Some(0.5)).unwrap(), EncodingProposal::new(CODINGS[2].1, Some(0.0)).unwrap()],
                |e: &EncodingProposal| format!("{:?}", (e.encoding(), e.weight()))
            );
            super::edits::edits::<Acc>(s, concat!($req_header, "-history"), if thorough { 5 } else { 4 });
            s.bound("lists of up to 3 codings, sorted or negotiated, then replaced in place, then negotiated again");
            s.add(concat!($req_header, "-edited"), |ch| {
                let n = 1 + ch.choose(3);
                let mut acc = Acc::new();
                for i in 0..n {
                    acc.push(EncodingProposal::new(CODINGS[i].1, *ch.pick(&[None, Some(0.6), Some(0.3)])).unwrap());
                }
                let avail: Vec<Encoding> = (0..3).map(|i| CODINGS[i].1).collect();
                match ch.choose(3) {
                    0 => {}
                    1 => acc.sort(),
                    _ => drop(acc.negotiate(&avail)),
                }
                const W: &[[Option<f32>; 3]] = &[
                    [Some(0.2), Some(0.4), Some(0.8)], [Some(0.2), Some(0.8), Some(0.4)], [Some(0.4), Some(0.2), Some(0.8)], [Some(0.4), Some(0.8), Some(0.2)], [Some(0.8), Some(0.2), Some(0.4)],
                    [Some(0.8), Some(0.4), Some(0.2)], [Some(0.0), Some(1.0), None], [None, Some(0.5), Some(0.0)], [Some(0.5), None, Some(1.0)],
                ];
                let ws = *ch.pick(W);
                let rot = ch.choose(n);
                let whole = ch.flag();
                let mut want: Vec<E> = vec![];
                for (i, x) in acc.iter_mut().enumerate() {
                    let c = if whole { CODINGS[(i + rot) % n].1 } else { *x.encoding() };
                    *x = EncodingProposal::new(c, ws[i]).unwrap();
                    want.push((c, ws[i]));
                }
                ch.step();
                let ctx = format!("{acc:?}");
                ch.note(|| ctx.clone());
                ch.state(&ctx);
                negotiation(ch, &mut acc, &want, false, &avail, &ctx)?;
                acc.set_wildcard(true);
                negotiation(ch, &mut acc, &want, true, &avail, &ctx)?;
                acc.sort();
                let sorted: Vec<E> = order(&want).iter().map(|i| want[*i]).collect();
                req_eq!(acc.iter().map(|p| (*p.encoding(), p.weight())).collect::<Vec<E>>(), sorted, "edited-sort", "{ctx}");
                Ok(())
            });
            let n = if thorough { 3 } else { 2 };
            s.add(concat!($req_header, "-lists"), move |ch| {
                let mut res = Response::new(200);
                let mut es: Vec<E> = vec![];
                let mut wildcard = false;
                let mut line = String::new();
                let mut all = vec![];
                for i in 0..1 + ch.choose(n) {
                    let c = ch.choose(CODINGS.len() + 3);
                    let el = if c == CODINGS.len() {
                        wildcard = true;
                        "*".to_string()
                    } else if c == CODINGS.len() + 1 {
                        String::new()
                    } else {
                        let (q, w) = *ch.pick(QS);
                        if c < CODINGS.len() {
                            es.push((CODINGS[c].1, w));
                            format!("{}{}", CODINGS[c].0, q)
                        } else {
                            format!("unknown{q}")
                        }
                    };
                    if i > 0 {
                        match ch.choose(3) {
                            0 => line.push(','),
                            1 => line.push_str(" , "),
                            _ => {
                                res.append_header($req_header, line.as_str()).unwrap();
                                all.push(std::mem::take(&mut line));
                            }
                        }
                    }
                    line.push_str(&el);
                }
                res.append_header($req_header, line.as_str()).unwrap();
                all.push(line);
                let ctx = format!("{} {all:?}", $req_header);
                ch.note(|| ctx.clone());
                let acc = match no_panic(|| Acc::from_headers(&res)) {
                    Ok(Ok(Some(a))) => a,
                    o => return viol("list-rejects", format!("{ctx}: {o:?}")),
                };
                let view = |a: &Acc| -> (Vec<E>, bool) { (a.iter().map(|p| (*p.encoding(), p.weight())).collect(), a.wildcard()) };
                req_eq!(view(&acc), (es.clone(), wildcard), "list-entries", "{ctx}");
                for it in [drained(acc.iter())?, drained((&acc).into_iter())?] {
                    let got: Vec<E> = it.iter().map(|p| (*p.encoding(), p.weight())).collect();
                    req_eq!(got, es, "list-iter", "{ctx}");
                }
                let mut acc = acc;
                for it in [drained(acc.iter_mut())?.len(), drained((&mut acc).into_iter())?.len()] {
                    req_eq!(it, es.len(), "list-iter", "{ctx}");
                }
                let mut acc = if ch.flag() {
                    let r2 = applied(&acc, $req_header)?;
                    match Acc::from_headers(&r2) {
                        Ok(Some(a)) => {
                            req_eq!(view(&a), (es.clone(), wildcard), "round-trip", "{ctx} written as {:?}", acc.header_value());
                            a
                        }
                        o => return viol("round-trip", format!("{ctx} written as {:?} reads {o:?}", acc.header_value())),
                    }
                } else {
                    acc
                };
                if ch.flag() {
                    acc.sort();
                    let want: Vec<E> = order(&es).iter().map(|i| es[*i]).collect();
                    req_eq!(view(&acc).0, want, "sort", "{ctx}");
                }
                let avail: Vec<Encoding> = {
                    let v: Vec<Encoding> = CODINGS.iter().map(|c| c.1).collect();
                    ch.seq(&v[..3.min(v.len())], 2)
                };
                negotiation(ch, &mut acc, &es, wildcard, &avail, &ctx)
            });
            s.add(concat!($req_header, "-all-codings"), |ch| {
                // every coding may be offered and asked for, none is special
                let (a, b) = (CODINGS[ch.choose(CODINGS.len())].1, CODINGS[ch.choose(CODINGS.len())].1);
                let ws = [None, Some(1.0), Some(0.5), Some(0.0)];
                let (wa, wb) = (ws[ch.choose(4)], ws[ch.choose(4)]);
                let es: Vec<E> = if ch.flag() { vec![(a, wa), (b, wb)] } else { vec![(a, wa)] };
                let wildcard = ch.flag();
                let mut acc = Acc::new();
                for (e, w) in &es {
                    acc.push(EncodingProposal::new(*e, *w).unwrap());
                }
                acc.set_wildcard(wildcard);
                let ctx = format!("{} {es:?} {wildcard}", $req_header);
                ch.note(|| ctx.clone());
                ch.state(&ctx);
                let all: Vec<Encoding> = CODINGS.iter().map(|c| c.1).collect();
                let rev: Vec<Encoding> = all.iter().rev().copied().collect();
                for i in 0..all.len() {
                    let mut rot = all.clone();
                    rot.rotate_left(i);
                    negotiation(ch, &mut acc, &es, wildcard, &rot, &ctx)?;
                    for j in 0..all.len() {
                        negotiation(ch, &mut acc, &es, wildcard, &[all[i], all[j]], &ctx)?;
                    }
                    negotiation(ch, &mut acc, &es, wildcard, &rev[i..], &ctx)?;
                }
                Ok(())
            });
            let n = if thorough { 4 } else { 3 };
            s.add(concat!($req_header, "-programs"), move |ch| {
                let mut acc = Acc::new();
                let mut es: Vec<E> = vec![];
                let mut ctx = String::from("program");
                if ch.flag() {
                    acc.sort();
                    ctx.push_str(" sort");
                }
                for _ in 0..ch.choose(n + 1) {
                    let e = CODINGS[ch.choose(3)].1;
                    let w = *ch.pick(&[Some(1.0), Some(0.5), Some(0.0), None]);
                    acc.push(EncodingProposal::new(e, w).unwrap());
                    es.push((e, w));
                    ctx.push_str(&format!(" push({e:?},{w:?})"));
                    if ch.flag() {
                        acc.sort();
                        ctx.push_str(" sort");
                        let want: Vec<E> = order(&es).iter().map(|i| es[*i]).collect();
                        let got: Vec<E> = acc.iter().map(|p| (*p.encoding(), p.weight())).collect();
                        req_eq!(got, want, "sort", "{ctx}");
                    }
                }
                let wildcard = ch.flag();
                if wildcard || ch.flag() {
                    acc.set_wildcard(wildcard);
                }
                req_eq!(acc.wildcard(), wildcard, "list-wildcard", "{ctx}");
                ch.note(|| ctx.clone());
                ch.state(&ctx);
                for avail in [vec![], vec![CODINGS[0].1], vec![CODINGS[2].1, CODINGS[0].1, CODINGS[1].1], vec![CODINGS[1].1, CODINGS[3].1]] {
                    negotiation(ch, &mut acc, &es, wildcard, &avail, &ctx)?;
                }
                let kept: Vec<E> = drained(acc.into_iter())?.iter().map(|p| (*p.encoding(), p.weight())).collect();
                let want: Vec<E> = order(&es).iter().map(|i| es[*i]).collect();
                req_eq!(kept, want, "list-iter", "{ctx}, negotiated");
                Ok(())
            });
            let n = if thorough { 6 } else { 5 };
            s.add(concat!($req_header, "-weights"), |ch| {
                let a = ch.choose(1001);
                let (wa, ta) = (a as f32 / 1000.0, format!("{}.{:03}", a / 1000, a % 1000));
                for t in [ta.as_str(), ta.trim_end_matches('0'), ta.trim_end_matches('0').trim_end_matches('.')] {
                    let res = res_with(&[($req_header, &format!("gzip;q={t}, br"))]);
                    let got = Acc::from_headers(&res).ok().flatten().map(|a| a.iter().map(|p| p.weight()).collect::<Vec<_>>());
                    req_eq!(got, Some(vec![Some(wa), None]), "weight", "q={t}");
                }
                let (ea, eb) = (CODINGS[0].1, CODINGS[2].1);
                let p = |e, w| EncodingProposal::new(e, Some(w)).unwrap();
                for b in 0..=1000 {
                    let wb = b as f32 / 1000.0;
                    let mut acc = Acc::new();
                    acc.push(p(ea, wa));
                    acc.push(p(eb, wb));
                    let want = match (a, b) {
                        (0, 0) => None,
                        _ if a > b => Some(ea),
                        _ => Some(eb),
                    };
                    req_eq!(acc.negotiate(&[ea, eb]).ok().map(|c| c.encoding()), want, "weight-order", "weights {wa}, {wb}");
                    req_eq!(p(ea, wa).partial_cmp(&p(eb, wb)), Some(a.cmp(&b)), "weight-order", "{wa} and {wb}");
                }
                ch.step();
                Ok(())
            });
            let large = if thorough { 1000 } else { 300 };
            s.add(concat!($req_header, "-scale"), move |ch| {
                let n = 1 + ch.choose(large);
                let how = ch.choose(4);
                let w = |i: usize| match how {
                    0 => 1000 - i % 1000,
                    1 => 1 + i % 1000,
                    2 => 500,
                    _ => 1 + i * 7 % 13,
                };
                let es: Vec<E> = (0..n).map(|i| (CODINGS[i * 3 % CODINGS.len()].1, Some(w(i) as f32 / 1000.0))).collect();
                let mut els: Vec<String> = (0..n).map(|i| format!("{}; q={}.{:03}", es[i].0, w(i) / 1000, w(i) % 1000)).collect();
                let wildcard = ch.flag();
                if wildcard {
                    els.insert(n / 2, "*".into());
                }
                let ls = spread(ch, &els, ",");
                let mut acc = match Acc::from_headers(response($req_header, &ls)) {
                    Ok(Some(a)) => a,
                    o => return viol("list-scale", format!("{n} codings: {o:?}")),
                };
                let view = |a: &Acc| -> (Vec<E>, bool) { (a.iter().map(|p| (*p.encoding(), p.weight())).collect(), a.wildcard()) };
                req_eq!(view(&acc), (es.clone(), wildcard), "list-scale", "{n} codings");
                let again = Acc::from_headers(applied(&acc, $req_header)?).unwrap().unwrap();
                req_eq!(view(&again), (es.clone(), wildcard), "list-scale", "round trip of {n} codings");
                for k in 0..4 {
                    negotiation(ch, &mut acc, &es, wildcard, &[CODINGS[k].1, CODINGS[(k + 1) % 4].1], "scale")?;
                }
                acc.sort();
                let want: Vec<E> = order(&es).iter().map(|i| es[*i]).collect();
                req_eq!(view(&acc).0, want, "list-scale", "order of {n} codings");
                Ok(())
            });
            s.add(concat!($req_header, "-unknown"), |ch| {
                // what is no coding stands for none
                let u = *ch.pick(UNKNOWN);
                let q = *ch.pick(&["", ";q=1", ";q=0.5", "; q=0"]);
                let el = format!("{u}{q}");
                let (line, es, wildcard): (String, Vec<E>, bool) = match ch.choose(4) {
                    0 => (el, vec![], false),
                    1 => (format!("{el}, gzip;q=0.1"), vec![(Encoding::Gzip, Some(0.1))], false),
                    2 => (format!("br;q=0.2,{el}"), vec![(Encoding::Brotli, Some(0.2))], false),
                    _ => (format!("*, {el},identity; q=0"), vec![(Encoding::Identity, Some(0.0))], true),
                };
                ch.state(&line);
                ch.note(|| line.clone());
                let mut acc = match Acc::from_headers(res_with(&[($req_header, &line)])) {
                    Ok(Some(a)) => a,
                    o => return viol("list-unknown", format!("{line:?}: {o:?}")),
                };
                let got: Vec<E> = acc.iter().map(|p| (*p.encoding(), p.weight())).collect();
                req_eq!((got, acc.wildcard()), (es.clone(), wildcard), "list-unknown", "{line:?}");
                for c in CODINGS {
                    negotiation(ch, &mut acc, &es, wildcard, &[c.1], &line)?;
                }
                let got = Chosen::from_headers(res_with(&[($res_header, u)]));
                req_eq!(st(&got), 400, "value-unknown", "{}: {u}", $res_header);
                Ok(())
            });
            s.add(concat!($req_header, "-refused-wildcard"), |ch| {
                // a wildcard of weight zero accepts nothing
                let line = *ch.pick(&["*;q=0", "*; q=0", "* ;q=0.000", "*;Q=0", "*;q=0.0", "br, *;q=0", "*;q=0,br"]);
                ch.step();
                ch.state(&line);
                if let Ok(Some(mut a)) = Acc::from_headers(res_with(&[($req_header, line)])) {
                    for c in CODINGS.iter().filter(|c| c.0 != "br") {
                        req_eq!(st(&a.negotiate(&[c.1])), 406, "negotiate", "{line:?} over {}", c.0);
                    }
                }
                Ok(())
            });
            s.add(concat!($req_header, "-malformed"), |ch| {
                let b = *ch.pick(&[
                    "q=1.1", "q=2", "q=1.0001", "q=10", "q=-1", "q=-0.5", "q=NaN", "q=inf", "q=-inf", "q=infinity", "q=abc", "q=", "q", "=", "=1", "q=0x1", "q=1e", "q=..5", "q=1_0", "q=1.0.0",
                    "q=\"1\"", "w=1", "qq=1", "1", "q:1", "q=1e9", "q= ", "level=1", "q1", "Q=7", "q=1=2", "q==1", "q=0.5=", "q=0=q=1",
                ]);
                let c = ch.pick(CODINGS).0;
                let line = match ch.choose(4) {
                    0 => format!("{c};{b}"),
                    1 => format!("{c}; {b}, gzip"),
                    2 => format!("br;q=0.5, {c} ;{b},*"),
                    _ => format!("unknown, {c};{b}"),
                };
                ch.step();
                ch.state(&line);
                req_eq!(st(&Acc::from_headers(res_with(&[($req_header, &line)]))), 400, "list-malformed", "{line:?}");
                let two = res_with(&[($req_header, "br"), ($req_header, &line), ($req_header, "gzip")]);
                req_eq!(st(&Acc::from_headers(two)), 400, "list-malformed", "{line:?} between others");
                Ok(())
            });
            s.add(concat!($req_header, "-tiny-weights"), |ch| {
                let ws = [0.0f32, f32::MIN_POSITIVE, 1e-30, 1e-6, 0.0001, 0.0009, 0.00099, 0.001, 0.9999, 0.99999994, 1.0];
                let (i, j) = (ch.choose(ws.len()), ch.choose(ws.len()));
                ch.state(&(i, j));
                let es = [(CODINGS[0].1, Some(ws[i])), (CODINGS[2].1, Some(ws[j]))];
                let wildcard = ch.flag();
                let mut acc = Acc::new();
                for (e, w) in es {
                    acc.push(EncodingProposal::new(e, w).unwrap());
                }
                acc.set_wildcard(wildcard);
                for avail in [&[es[0].0, es[1].0] as &[Encoding], &[es[0].0], &[es[1].0], &[CODINGS[3].1, es[0].0]] {
                    negotiation(ch, &mut acc, &es, wildcard, avail, "tiny weights")?;
                }
                Ok(())
            });
            s.add(concat!($req_header, "-totality"), move |ch| {
                let t = tokens(ch, &["gzip", "*", ",", ";", "q=", "0.5", "1.1", "-1", "NaN", " ", "="], n);
                ch.note(|| t.clone());
                let res = res_with(&[($req_header, &t)]);
                let got = match no_panic(|| Acc::from_headers(&res)) {
                    Ok(g) => g,
                    Err(p) => return viol("parse-panic", format!("{} {t:?}: {p}", $req_header)),
                };
                ch.step();
                let code = st(&got);
                req!(code == 0 || code == 400, "parse-status", "{} {t:?} has status {code}", $req_header);
                if let Ok(a) = got {
                    let Some(a) = a else { return viol("absent", t) };
                    for p in a.iter() {
                        req!(p.weight().map_or(true, |w| (0.0..=1.0).contains(&w)), "weight-range", "{t:?}: {:?}", p.weight());
                    }
                }
                Ok(())
            });
            s.add(concat!($res_header, "-values"), |ch| {
                // the answering header
                let mut res = Response::new(200);
                let mut want = None;
                let n = ch.choose(4);
                let mut all = vec![];
                for _ in 0..n {
                    let c = ch.choose(CODINGS.len() + 3);
                    let text = if c < CODINGS.len() {
                        want = Some(CODINGS[c].1);
                        let t = CODINGS[c].0;
                        if ch.flag() { format!(" {t}\t") } else { t.to_string() }
                    } else {
                        ["", "unknown", "gzip;q=1"][c - CODINGS.len()].to_string()
                    };
                    res.append_header($res_header, text.as_str()).unwrap();
                    all.push(text);
                }
                ch.note(|| format!("{all:?}"));
                let got = match no_panic(|| Chosen::from_headers(&res)) {
                    Ok(g) => g,
                    Err(p) => return viol("value-panic", format!("{} {all:?}: {p}", $res_header)),
                };
                ch.step();
                let code = st(&got);
                if n == 0 {
                    req!(matches!(got, Ok(None)), "absent", "absent {}", $res_header);
                } else if let Some(w) = want {
                    req_eq!(got.ok().flatten().map(|c| c.encoding()), Some(w), "value", "{} {all:?}", $res_header);
                    let c = Chosen::new(w);
                    req_eq!(c.header_name().as_str(), $res_header, "value-name", "{w:?}");
                    let mut r = Response::new(200);
                    c.apply_header(&mut r);
                    req_eq!(Chosen::from_headers(&r).ok().flatten().map(|c| c.encoding()), Some(w), "value-round-trip", "{w:?}");
                } else {
                    req_eq!(code, 400, "value-unknown", "status of {} {all:?}", $res_header);
                }
                Ok(())
            });
            s.add(concat!($res_header, "-conversions"), |ch| {
                // every way from one form into another, and changes in place
                let (na, a) = *ch.pick(CODINGS);
                let (nb, b) = *ch.pick(CODINGS);
                ch.step();
                let p = match ch.choose(4) {
                    0 => EncodingProposal::from(a),
                    1 => EncodingProposal::new(a, None).unwrap(),
                    2 => {
                        let mut p = EncodingProposal::from(b);
                        *p = a;
                        p
                    }
                    _ => {
                        let mut acc = Acc::new();
                        acc.push(b);
                        acc.push(EncodingProposal::from(a));
                        acc.iter_mut().for_each(|p| **p = a);
                        req!(acc.iter().all(|p| *p == a && **p == a), "proposal-in-place", "{acc:?}");
                        *acc.iter().last().unwrap()
                    }
                };
                req_eq!((*p.encoding(), *p, p.weight()), (a, a, None), "proposal-from", "{na}");
                req_eq!((p == b, &p == b), (na == nb, na == nb), "proposal-eq", "{na} and {nb}");
                let v: HeaderValue = p.into();
                req!(v.as_str() == na || v.as_str() == format!("{na};q=1.000"), "proposal-value", "{na} is written {v}");
                let mut cs: Vec<Chosen> = vec![Chosen::new(a), Chosen::from(a), Chosen::from(&a), Chosen::from(p), Chosen::from(&p)];
                let mut c = Chosen::new(b);
                *c = a;
                cs.push(c);
                for c in cs {
                    req_eq!((c.encoding(), *c), (a, a), "chosen-from", "{na}");
                    req_eq!((c == b, c == &b), (na == nb, na == nb), "chosen-eq", "{na} and {nb}");
                    req_eq!(lines(hdrs(&applied(&c, $res_header)?), $res_header), Some(vec![na.to_string()]), "chosen-value", "{na}");
                }
                Ok(())
            });
            s.add(concat!($res_header, "-names"), |ch| {
                let (name, e) = *ch.pick(CODINGS);
                req_eq!(e.to_string(), name, "coding-name", "{e:?}");
                req_eq!(format!("{e:#}"), name, "coding-name", "{e:?}");
                let v: HeaderValue = e.into();
                req_eq!(v.as_str(), name, "coding-value", "{e:?}");
                let w = *ch.pick(&[0.0f32, 0.001, 0.5, 1.0, -0.0, -0.1, 1.001, 1.1, f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
                let got = EncodingProposal::new(e, Some(w));
                req_eq!(got.is_ok(), w.is_sign_positive() && w <= 1.0, "proposal-range", "weight {w}");
                if let Ok(p) = got {
                    req_eq!((*p.encoding(), p.weight()), (e, Some(w)), "proposal", "weight {w}");
                    let v: HeaderValue = p.into();
                    req_eq!(v.as_str(), format!("{name};q={w:.3}"), "proposal-value", "weight {w}");
                    let c: Chosen = p.into();
                    req_eq!(c.encoding(), e, "proposal-chosen", "{e:?}");
                }
                ch.step();
                req!(matches!(Acc::from_headers(Response::new(200)), Ok(None)), "absent", "absent {}", $req_header);
                Ok(())
            });
        }
    };
}

family!(
    content_family, content, AcceptEncoding, ContentEncoding, "accept-encoding", "content-encoding",
    &[("gzip", Encoding::Gzip), ("deflate", Encoding::Deflate), ("br", Encoding::Brotli), ("zstd", Encoding::Zstd), ("identity", Encoding::Identity)]
);
family!(
    transfer_family, transfer, TE, TransferEncoding, "te", "transfer-encoding",
    &[("gzip", Encoding::Gzip), ("deflate", Encoding::Deflate), ("br", Encoding::Brotli), ("zstd", Encoding::Zstd), ("identity", Encoding::Identity), ("chunked", Encoding::Chunked)]
);

pub fn build(s: &mut Suite, thorough: bool) {
    s.bound("for both pairs of headers: lists of at most 2 (thorough 3) elements over every coding, the wildcard, an unknown coding and an empty element, 6 weights, split over lines in every way, against every list of at most 2 of 3 available codings, negotiated twice; 36 unknown codings and 34 malformed weights amid others; weights below a thousandth; programs of at most 3 (4) pushes with sorts between; every sequence of at most 5 (6) tokens");
    s.assume("a coding listed both with q=0 and with another weight may be chosen or not; weights within the RFC grammar; coding names in lower case; a proposal without weight ranks below every weighted one, as the crate documents by its tests");
    s.bound("every pair of weights of up to three decimals; lists of up to 300 (thorough 1000) codings with falling, rising, equal and cycling weights");
    content_family(s, thorough);
    transfer_family(s, thorough);
}
