//! C03/C04: streaming reads of a body and of chained bodies.
use crate::engine::*;
use crate::util::*;
use crate::{req, req_eq};
use futures_lite::io::{AsyncBufRead, AsyncRead};
use http_types::{mime, Body, Response};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

/// A body, or a message that delegates to its body.
enum Target {
    Body(Body),
    Req(http_types::Request),
    Res(Response),
    Reader(Box<dyn AsyncBufRead + Unpin + Send + Sync>),
}

impl AsyncRead for Target {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        match &mut *self {
            Target::Body(b) => Pin::new(b).poll_read(cx, buf),
            Target::Req(b) => Pin::new(b).poll_read(cx, buf),
            Target::Res(b) => Pin::new(b).poll_read(cx, buf),
            Target::Reader(b) => Pin::new(b).poll_read(cx, buf),
        }
    }
}
impl AsyncBufRead for Target {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        match Pin::into_inner(self) {
            Target::Body(b) => Pin::new(b).poll_fill_buf(cx),
            Target::Req(b) => Pin::new(b).poll_fill_buf(cx),
            Target::Res(b) => Pin::new(b).poll_fill_buf(cx),
            Target::Reader(b) => Pin::new(b).poll_fill_buf(cx),
        }
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        match &mut *self {
            Target::Body(b) => Pin::new(b).consume(amt),
            Target::Req(b) => Pin::new(b).consume(amt),
            Target::Res(b) => Pin::new(b).consume(amt),
            Target::Reader(b) => Pin::new(b).consume(amt),
        }
    }
}

fn wrap(b: Body, kind: usize) -> Target {
    match kind {
        0 => Target::Body(b),
        1 => {
            let mut r = new_req();
            r.set_body(b);
            Target::Req(r)
        }
        _ => {
            let mut r = Response::new(200);
            r.set_body(b);
            Target::Res(r)
        }
    }
}

/// A source that does not end after its data: it stays pending for ever, or fails every time.
struct Open {
    data: Vec<u8>,
    pos: usize,
    fail: bool,
}
impl Open {
    fn new(data: &[u8], fail: bool) -> Self {
        Open { data: data.to_vec(), pos: 0, fail }
    }
    fn end<T>(&self) -> Poll<std::io::Result<T>> {
        if self.fail {
            Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "source failed")))
        } else {
            Poll::Pending
        }
    }
}
impl AsyncRead for Open {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        if self.pos == self.data.len() {
            return self.end();
        }
        let n = buf.len().min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Poll::Ready(Ok(n))
    }
}
impl AsyncBufRead for Open {
    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let this = Pin::into_inner(self);
        if this.pos == this.data.len() {
            return match this.end::<()>() {
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                _ => Poll::Pending,
            };
        }
        Poll::Ready(Ok(&this.data[this.pos..]))
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        self.pos += amt;
    }
}

/// One consumer action: 0..5 poll_read with sizes, 5.. fill_buf/consume.
fn act(ch: &mut Ch, t: &mut Target, acts: &[(bool, usize)]) -> Result<((bool, usize), Got), Viol> {
    let (fill, n) = *ch.pick(acts);
    ch.step();
    let g = if fill { step_fill(t, n)? } else { step_read(t, n)? };
    ch.note(|| format!("{}({n}) -> {g:?}", if fill { "fill_buf/consume" } else { "read" }));
    Ok(((fill, n), g))
}

/// Drive a consumer over `t` and compare with the expected byte string.
/// `free` consumer actions are chosen exhaustively; the rest of the stream is then drained with
/// one fixed action.
fn drive(
    ch: &mut Ch,
    t: &mut Target,
    want: &[u8],
    logs: &[Arc<Mutex<Log>>],
    acts: &[(bool, usize)],
    free: usize,
) -> R {
    let mut got: Vec<u8> = vec![];
    let mut pend = 0;
    let mut errs = 0;
    let mut steps = 0;
    let drain = if acts.len() > 1 { *ch.pick(&[(false, 4usize), (true, 100)]) } else { acts[0] };
    let mut eofs = 0;
    loop {
        let free_step = steps < free;
        let one = [drain];
        let (a, g) = act(ch, t, if free_step { acts } else { &one })?;
        steps += 1;
        ch.state(&(want, a, got.len(), pend, errs, eofs));
        match g {
            Got::Bytes(b) => {
                req!(eofs == 0 || b.is_empty(), "bytes-after-eof", "{a:?} returned {b:?} after end of stream");
                got.extend_from_slice(&b);
                req!(
                    got.len() <= want.len() && want[..got.len()] == got[..],
                    "wrong-bytes",
                    "delivered {:?}, which is not a prefix of {:?}",
                    String::from_utf8_lossy(&got),
                    String::from_utf8_lossy(want)
                );
            }
            Got::Eof => {
                req_eq!(
                    String::from_utf8_lossy(&got),
                    String::from_utf8_lossy(want),
                    "early-eof",
                    "bytes delivered before end of stream"
                );
                eofs += 1;
                if eofs == 2 {
                    break;
                }
            }
            Got::Pending => {
                pend += 1;
                let asked: usize = logs.iter().map(|l| l.lock().unwrap().pendings).sum();
                req_eq!(pend, asked, "spurious-pending", "Pending answers seen by the consumer vs given by the reader");
            }
            Got::Err(k) => {
                errs += 1;
                let gave: usize = logs.iter().map(|l| l.lock().unwrap().errors).sum();
                req_eq!(errs, gave, "spurious-error", "errors seen by the consumer vs given by the reader");
                req_eq!(k, std::io::ErrorKind::ConnectionReset, "error-kind", "error kind");
            }
        }
        req!(steps < 200 + want.len() / 50, "no-progress", "{steps} consumer steps without reaching the end of stream");
    }
    let gave: usize = logs.iter().map(|l| l.lock().unwrap().errors).sum();
    req_eq!(errs, gave, "swallowed-error", "errors seen by the consumer vs given by the reader");
    for l in logs {
        req!(!l.lock().unwrap().over_consumed, "over-consume", "more bytes consumed from the reader than it offered");
    }
    ch.state(&(got, pend, errs));
    Ok(())
}

const DATA: &[u8] = b"abcdefg";
const ACTS: &[(bool, usize)] = &[
    (false, 3),
    (false, 1),
    (false, 0),
    (false, 16),
    (true, 100),
    (true, 1),
    (true, 0),
];

fn expect(data: &[u8], len: Option<u64>) -> Vec<u8> {
    match len {
        Some(l) => data[..(l.min(data.len() as u64) as usize)].to_vec(),
        None => data.to_vec(),
    }
}

pub fn build_c03(s: &mut Suite, thorough: bool) {
    let (free, budget, polls) = if thorough { (4, 3, 6) } else { (3, 2, 5) };
    s.bound(&format!(
        "{free} freely chosen consumer calls (poll_read with 0/1/3/16 byte buffers, fill_buf then consume 0/1/all) then a drain; reader answers: chunk sizes 1,3,7 and every placement of <= {budget} departures (one-byte read, Pending, error) among the first {polls} polls; declared length none, 0, 3, exact, larger, u64::MAX; Body, Request, Response"
    ));
    s.add_dev("reader-body", budget, move |ch| {
        let len = *ch.pick(&[None, Some(7), Some(3), Some(0), Some(9), Some(u64::MAX)]);
        let chunk = *ch.pick(&[7usize, 3, 1]);
        let kind = ch.choose(3);
        let sc = script(ch, polls);
        let (r, log) = Scripted::new(DATA, chunk, sc.clone());
        ch.note(|| format!("Body::from_reader({DATA:?} in chunks of {chunk}, answers {sc:?}, len {len:?}) kind {kind}"));
        let b = Body::from_reader(r, len);
        req_eq!(b.len(), len, "len", "len()");
        req_eq!(b.is_empty(), len.map(|l| l == 0), "is_empty", "is_empty()");
        let mut t = wrap(b, kind);
        drive(ch, &mut t, &expect(DATA, len), &[log], ACTS, free)
    });
    s.bound("declared lengths around every power of two up to 2^64 on a reader of 7 bytes: 2 freely chosen consumer calls");
    s.add("declared-length", |ch| {
        let k = ch.choose(65) as u32;
        let base = if k == 64 { u64::MAX } else { 1u64 << k };
        let len = match ch.choose(7) {
            0 => base,
            d if d < 4 => base.saturating_sub(d as u64),
            d => base.saturating_add(d as u64 - 3),
        };
        let chunk = *ch.pick(&[7usize, 3]);
        let kind = ch.choose(3);
        let (r, log) = Scripted::new(DATA, chunk, vec![]);
        ch.note(|| format!("Body::from_reader({DATA:?} in chunks of {chunk}, len {len}) kind {kind}"));
        let b = Body::from_reader(r, Some(len));
        req_eq!(b.len(), Some(len), "len", "len()");
        let mut t = wrap(b, kind);
        drive(ch, &mut t, &expect(DATA, Some(len)), &[log], ACTS, 2)
    });
    let depth = if thorough { 6 } else { 5 };
    s.bound(&format!("every history of {depth} reads, changes of the media type, looks, and moves of a half-read body into and out of requests and responses, then a drain"));
    s.add("moved-while-read", move |ch| {
        let (b, want, len) = match ch.choose(4) {
            0 => (Body::from_bytes(DATA.to_vec()), DATA, Some(7)),
            1 => (Body::from_reader(Scripted::new(DATA, 3, vec![]).0, Some(5)), &DATA[..5], Some(5)),
            2 => (Body::from_reader(Scripted::new(DATA, 3, vec![]).0, None), DATA, None),
            _ => (Body::from_reader(Scripted::new(DATA, 7, vec![]).0, Some(9)), DATA, Some(9)),
        };
        let mut b = b;
        let mut m = b.mime().cloned();
        let mut got: Vec<u8> = vec![];
        for _ in 0..depth {
            match ch.choose(7) {
                a @ 0..=2 => {
                    let g = match a {
                        0 => step_read(&mut b, 2)?,
                        1 => step_fill(&mut b, 1)?,
                        _ => step_fill(&mut b, 0)?,
                    };
                    if let Got::Bytes(g) = g {
                        got.extend(g);
                    }
                }
                3 => {
                    m = Some(mime::JSON);
                    b.set_mime(m.clone());
                }
                4 => {
                    m = None;
                    b.set_mime(None);
                }
                5 => {
                    let mut r = Response::new(200);
                    r.set_body(b);
                    req_eq!(r.len(), len, "len", "in a response");
                    b = r.take_body();
                }
                _ => {
                    let mut r = new_req();
                    r.set_body(Body::empty());
                    b = r.replace_body(b);
                    r.swap_body(&mut b);
                }
            }
            ch.step();
            ch.note(|| format!("{} bytes read, {m:?}", got.len()));
            req_eq!((b.len(), b.is_empty()), (len, len.map(|l| l == 0)), "len", "half read");
            req_eq!(b.mime(), m.as_ref(), "mime", "half read");
            ch.state(&(len, got.len(), m.is_some()));
        }
        while let Got::Bytes(g) = step_read(&mut b, 4)? {
            got.extend(g);
            req!(got.len() <= 7, "wrong-bytes", "{got:?}");
        }
        req_eq!(String::from_utf8_lossy(&got), String::from_utf8_lossy(want), "moved-while-read", "what was read in total");
        Ok(())
    });
    let free2 = if thorough { 6 } else { 5 };
    s.bound(&format!("in-memory bodies: {free2} freely chosen consumer calls"));
    s.add("in-memory-body", move |ch| {
        let (b, want): (Body, Vec<u8>) = match ch.choose(6) {
            0 => (Body::from_bytes(DATA.to_vec()), DATA.to_vec()),
            1 => (Body::from_string("h\u{e9}llo".into()), "h\u{e9}llo".as_bytes().to_vec()),
            2 => (Body::empty(), vec![]),
            3 => (Body::from(&b""[..]), vec![]),
            4 => (Body::from("x"), b"x".to_vec()),
            _ => (Body::from(vec![0u8, 255, 10, 13, 0]), vec![0, 255, 10, 13, 0]),
        };
        req_eq!(b.len(), Some(want.len() as u64), "len", "len()");
        req_eq!(b.is_empty(), Some(want.is_empty()), "is_empty", "is_empty()");
        let kind = ch.choose(3);
        let mut t = wrap(b, kind);
        drive(ch, &mut t, &want, &[], ACTS, free2)
    });
    s.bound("bodies of 255 bytes to 300 kB declared one byte short, exactly, one byte long or at a third of their source, read in pieces of 700 bytes to 1 MiB");
    s.add("long-body", |ch| {
        // Sizes around the internal buffer sizes used anywhere in the stack.
        let n = *ch.pick(&[255usize, 256, 257, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 20000, 65535, 65536, 65537, 200_000, 300_000]);
        let data: Vec<u8> = (0..n).map(|i| (i * 31 % 251) as u8).collect();
        let len = match ch.choose(5) {
            0 => Some(n as u64),
            1 => Some(n as u64 - 1),
            2 => Some(n as u64 + 1),
            3 => Some(n as u64 / 3),
            _ => None,
        };
        let chunk = *ch.pick(&[1000usize, 8192, 1 << 20]);
        let kind = ch.choose(3);
        let a = *ch.pick(&[
            (false, 1024usize),
            (false, 9000),
            (false, 65535),
            (false, 65537),
            (false, 150_000),
            (true, 700),
            (true, 65536),
            (true, 66_000),
            (true, 1 << 20),
        ]);
        ch.state(&(n, len, chunk, a));
        let (r, log) = Scripted::new(&data, chunk, vec![]);
        let mut t = wrap(Body::from_reader(r, len), kind);
        drive(ch, &mut t, &expect(&data, len), &[log], &[a], 0)
    });
    let free3 = if thorough { 6 } else { 4 };
    s.bound(&format!("sources that stay pending or fail after their data, with every declared length up to it: {free3} freely chosen consumer calls"));
    s.add("open-source", move |ch| {
        let len = ch.choose(DATA.len() + 1);
        let r = Open::new(DATA, ch.flag());
        let kind = ch.choose(3);
        ch.note(|| format!("declared length {len} of a source that does not end after {} bytes", DATA.len()));
        let mut t = wrap(Body::from_reader(r, Some(len as u64)), kind);
        drive(ch, &mut t, &DATA[..len], &[], ACTS, free3)
    });
    s.bound("sources that fail with each of 18 error kinds after 0 to 7 bytes, with and without a declared length");
    s.add("error-kinds", |ch| {
        let kind = *ch.pick(ERROR_KINDS);
        let n = *ch.pick(&[0usize, 1, 7]);
        let len = *ch.pick(&[None, Some(8), Some(u64::MAX)]);
        let mut t = wrap(Body::from_reader(Failing::new(&DATA[..n], kind), len), ch.choose(3));
        if ch.flag() {
            t = wrap(Body::from_reader(t, len), 0);
        }
        let buffered = ch.flag();
        ch.step();
        ch.state(&(format!("{kind:?}"), n, len));
        if n > 0 {
            let g = if buffered { step_fill(&mut t, 9)? } else { step_read(&mut t, 9)? };
            req_eq!(g, Got::Bytes(DATA[..n].to_vec()), "wrong-bytes", "before the failure");
        }
        let g = if buffered { step_fill(&mut t, 9)? } else { step_read(&mut t, 9)? };
        req_eq!(g, Got::Err(kind), "error-kind", "after {n} bytes");
        Ok(())
    });
    s.add("into-reader", |ch| {
        // The inner reader continues where the body stopped.
        let (r, _log) = Scripted::new(DATA, 7, vec![]);
        // (what was declared is the body's affair: the reader itself has all its bytes)
        let mut b = Body::from_reader(r, *ch.pick(&[None, Some(3), Some(5), Some(DATA.len() as u64), Some(1000)]));
        let skip = ch.choose(4);
        if skip > 0 {
            req_eq!(step_read(&mut b, skip)?, Got::Bytes(DATA[..skip].to_vec()), "wrong-bytes", "skip");
        }
        let mut t = Target::Reader(b.into_reader());
        drive(ch, &mut t, &DATA[skip..], &[], ACTS, 2)
    });
    s.assume("the wrapped reader obeys the AsyncRead/AsyncBufRead contract (scripted readers do)");
    s.assume("at most the stated number of reader departures per execution");
}

/// A part of a chain: constructor kind, declared length, bytes consumed before chaining.
fn part(ch: &mut Ch, data: &'static [u8], sc: Vec<Ans>, lens: &[Option<u64>]) -> Result<(Body, Vec<u8>, Option<u64>, Arc<Mutex<Log>>), Viol> {
    let len = *ch.pick(lens);
    let (r, log) = Scripted::new(data, *ch.pick(&[16usize, 2]), sc);
    let mut b = Body::from_reader(r, len);
    let mut want = expect(data, len);
    // consume some of it first, through either interface
    let skip = ch.choose(4);
    let mut left = len;
    if skip > 0 && !want.is_empty() {
        let g = match skip {
            1 => step_read(&mut b, 1)?,
            2 => step_fill(&mut b, 1)?,
            _ => step_read(&mut b, 2)?,
        };
        match g {
            Got::Bytes(x) => {
                req!(want.starts_with(&x) && !x.is_empty(), "wrong-bytes", "pre-chain read {x:?} of {want:?}");
                want.drain(..x.len());
                left = len.map(|l| l - x.len() as u64);
            }
            _ => {
                // scripted departure on the first poll: nothing was consumed
            }
        }
    }
    Ok((b, want, left, log))
}

pub fn build_c04(s: &mut Suite, thorough: bool) {
    let budget = if thorough { 2 } else { 1 };
    let free = if thorough { 3 } else { 2 };
    s.bound(&format!("two-part chains: each part with declared length none/short/exact/long/u64::MAX, 2 chunkings, 4 ways of partial consumption before chaining; {free} free consumer calls; <= {budget} reader departures; three-part chains associated both ways"));
    s.add_dev("chain-two", budget, move |ch| {
        let sc1 = script(ch, 3);
        let sc2 = script(ch, 3);
        let lens1 = [Some(4u64), None, Some(2), Some(9), Some(u64::MAX), Some(0)];
        let lens2 = [Some(3u64), None, Some(1), Some(8), Some(u64::MAX), Some(0)];
        let (a, wa, la, log1) = part(ch, b"abcd", sc1, &lens1)?;
        let (b, wb, lb, log2) = part(ch, b"xyz", sc2, &lens2)?;
        let pre_err: usize = [&log1, &log2].iter().map(|l| l.lock().unwrap().errors).sum();
        let pre_pend: usize = [&log1, &log2].iter().map(|l| l.lock().unwrap().pendings).sum();
        for l in [&log1, &log2] {
            let mut g = l.lock().unwrap();
            g.errors = 0;
            g.pendings = 0;
        }
        let _ = (pre_err, pre_pend);
        ch.note(|| format!("chain of {:?} (len {la:?} left) and {:?} (len {lb:?} left)", String::from_utf8_lossy(&wa), String::from_utf8_lossy(&wb)));
        let c = a.chain(b);
        let want_len = match (la, lb) {
            (Some(x), Some(y)) => x.checked_add(y),
            _ => None,
        };
        req_eq!(c.len(), want_len, "chain-len", "len() of the chain");
        let want: Vec<u8> = wa.iter().chain(wb.iter()).copied().collect();
        let kind = if ch.flag() { 2 } else { 0 };
        let mut t = wrap(c, kind);
        drive(ch, &mut t, &want, &[log1, log2], &[(false, 3), (true, 100), (true, 1), (false, 16)], free)
    });
    s.bound("chains of a first body of 400 kB of which one call took 1 byte to 300 kB before");
    s.add("chain-large", |ch| {
        let data: Vec<u8> = (0..400_000usize).map(|i| (i * 31 % 251) as u8).collect();
        let declared = *ch.pick(&[Some(400_000u64), Some(300_000), Some(500_000), None]);
        let n = *ch.pick(&[1usize, 255, 256, 4095, 4096, 4097, 8192, 8193, 32768, 65535, 65536, 65537, 100_000, 131_072, 131_073, 299_999, 300_000]);
        let fill = ch.flag();
        ch.step();
        ch.state(&(declared, n, fill));
        let mut b = match declared {
            Some(400_000) => Body::from_bytes(data.clone()),
            l => Body::from_reader(futures_lite::io::Cursor::new(data.clone()), l),
        };
        let want = expect(&data, declared);
        let got = if fill { step_fill(&mut b, n)? } else { step_read(&mut b, n)? };
        req!(got == Got::Bytes(want[..n].to_vec()), "wrong-bytes", "the first {n} bytes of a body declared {declared:?}");
        req_eq!(b.len(), declared, "len", "len() of a partly read body");
        let c = b.chain(Body::from("end"));
        req_eq!(c.len(), declared.map(|d| d - n as u64 + 3), "chain-len", "declared {declared:?}, {n} taken in one call");
        let mut rest = want[n..].to_vec();
        rest.extend_from_slice(b"end");
        let mut t = wrap(c, 0);
        drive(ch, &mut t, &rest, &[], &[(fill, 1 << 20)], 0)
    });
    s.add("chain-open-source", move |ch| {
        // The first part is over when its declared length is, whatever its source does then.
        let (l1, l2) = (ch.choose(5), ch.choose(4));
        let a = Body::from_reader(Open::new(b"abcd", ch.flag()), Some(l1 as u64));
        let b = Body::from_reader(Open::new(b"xyz", ch.flag()), Some(l2 as u64));
        ch.note(|| format!("chain of {l1} and {l2} declared bytes of sources that do not end"));
        let mut t = wrap(a.chain(b), 0);
        let want: Vec<u8> = b"abcd"[..l1].iter().chain(b"xyz"[..l2].iter()).copied().collect();
        drive(ch, &mut t, &want, &[], &[(false, 3), (true, 100), (true, 1), (false, 1)], free + 1)
    });
    s.add("chain-three", move |ch| {
        let mk = |ch: &mut Ch, d: &'static str| -> (Body, String, Option<u64>) {
            match ch.choose(4) {
                0 => (Body::from(d), d.to_string(), Some(d.len() as u64)),
                1 => (Body::empty(), String::new(), Some(0)),
                2 => {
                    let (r, _) = Scripted::new(d.as_bytes(), 2, vec![]);
                    (Body::from_reader(r, None), d.to_string(), None)
                }
                _ => {
                    let (r, _) = Scripted::new(d.as_bytes(), 2, vec![]);
                    (Body::from_reader(r, Some(2)), d[..2].to_string(), Some(2))
                }
            }
        };
        let (a, wa, la) = mk(ch, "abc");
        let (b, wb, lb) = mk(ch, "defg");
        let (c, wc, lc) = mk(ch, "hi");
        let left = ch.flag();
        let t = if left { a.chain(b).chain(c) } else { a.chain(b.chain(c)) };
        let want = wa + &wb + &wc;
        let len = la.and_then(|x| lb.and_then(|y| lc.map(|z| x + y + z)));
        req_eq!(t.len(), len, "chain-len", "len() of the chain");
        let mut t = wrap(t, 0);
        drive(ch, &mut t, want.as_bytes(), &[], &[(false, 3), (true, 100), (true, 1), (false, 1)], free + 1)
    });
    s.add("chain-mime", |ch| {
        let mimes = [None, Some(mime::PLAIN), Some(mime::BYTE_STREAM), Some(mime::JSON), Some("text/plain".parse().unwrap()), Some("application/json;a=b".parse().unwrap())];
        let ma = ch.pick(&mimes).clone();
        let mb = ch.pick(&mimes).clone();
        let mk = |k: usize, t: &'static str| match k {
            0 => Body::from(t),
            1 => Body::empty(),
            2 => Body::from_reader(futures_lite::io::Cursor::new(t), None),
            _ => Body::from_reader(futures_lite::io::Cursor::new(t), Some(u64::MAX)),
        };
        let mut a = mk(ch.choose(4), "a");
        a.set_mime(ma.clone());
        let mut b = mk(ch.choose(4), "b");
        b.set_mime(mb.clone());
        req_eq!(a.mime().cloned(), ma, "set_mime", "mime()");
        let c = a.chain(b);
        ch.step();
        let want = if ma == mb { ma } else { Some(mime::BYTE_STREAM) };
        ch.state(&want.as_ref().map(|m| m.to_string()));
        req_eq!(c.mime().cloned(), want, "chain-mime", "fallback mime of the chain");
        Ok(())
    });
    s.add("chain-len-overflow", |ch| {
        let vals = [Some(0), Some(1), Some(u64::MAX), Some(u64::MAX - 1), Some(1 << 63), Some(1 << 32), None];
        let la: Option<u64> = *ch.pick(&vals);
        let lb: Option<u64> = *ch.pick(&vals);
        let c = Body::from_reader(futures_lite::io::empty(), la).chain(Body::from_reader(futures_lite::io::empty(), lb));
        ch.step();
        let want = match (la, lb) {
            (Some(x), Some(y)) => x.checked_add(y),
            _ => None,
        };
        ch.state(&want);
        req_eq!(c.len(), want, "chain-len", "len() of {la:?}+{lb:?}");
        Ok(())
    });
    s.assume("the wrapped readers obey the AsyncRead/AsyncBufRead contract");
}
