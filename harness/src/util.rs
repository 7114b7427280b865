//! Helpers shared by the properties: scripted readers, header access, string enumeration.
#![allow(dead_code)]

use crate::engine::*;
use http_types::headers::{HeaderName, HeaderValue, Headers};
use http_types::{Request, Response, Url};
use std::str::FromStr;

pub fn base_url() -> Url {
    Url::parse("https://base.example/dir/page").unwrap()
}

pub fn new_req() -> Request {
    Request::new(http_types::Method::Get, base_url())
}

/// A response with the given `(name, line)` header lines in order.
pub fn res_with(lines: &[(&str, &str)]) -> Response {
    let mut r = Response::new(200);
    for (n, v) in lines {
        r.append_header(*n, *v).expect("ascii header line");
    }
    r
}

pub fn hdrs(r: &Response) -> &Headers {
    r.as_ref()
}

/// All values of a header in order.
pub fn lines(h: &Headers, name: &str) -> Option<Vec<String>> {
    h.get(name)
        .map(|vs| vs.iter().map(|v| v.as_str().to_string()).collect())
}

pub fn hv(s: &str) -> HeaderValue {
    HeaderValue::from_str(s).unwrap()
}
pub fn hn(s: &str) -> HeaderName {
    HeaderName::from_str(s).unwrap()
}

/// Concatenation of every sequence of at most `max` tokens.
pub fn tokens(ch: &mut Ch, toks: &[&str], max: usize) -> String {
    let n = ch.choose(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(toks[ch.choose(toks.len())]);
    }
    s
}

pub fn is_token_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(c)
}
pub fn is_token(s: &str) -> bool {
    !s.is_empty() && s.chars().all(is_token_char)
}

/// Status of an error result as a number, or 0 for Ok.
pub fn st<T>(r: &http_types::Result<T>) -> u16 {
    match r {
        Ok(_) => 0,
        Err(e) => e.status() as u16,
    }
}

// ---------------------------------------------------------------------------------------------
// A scripted reader: the environment of a streaming body.

use futures_lite::io::{AsyncBufRead, AsyncRead};
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ans {
    /// serve up to the end of the current chunk
    Full,
    /// serve a single byte
    One,
    /// wake the task and return Pending
    Pending,
    /// fail with this error once
    Err,
    /// fail with ErrorKind::Interrupted once
    Intr,
}

#[derive(Debug, Default)]
pub struct Log {
    pub polls: usize,
    pub pendings: usize,
    pub errors: usize,
    pub served: usize,
    pub over_consumed: bool,
}

pub struct Scripted {
    data: Vec<u8>,
    pos: usize,
    chunk: usize,
    script: Vec<Ans>,
    at: usize,
    pub log: Arc<Mutex<Log>>,
}

impl Scripted {
    pub fn new(data: &[u8], chunk: usize, script: Vec<Ans>) -> (Self, Arc<Mutex<Log>>) {
        let log = Arc::new(Mutex::new(Log::default()));
        (
            Scripted {
                data: data.to_vec(),
                pos: 0,
                chunk: chunk.max(1),
                script,
                at: 0,
                log: log.clone(),
            },
            log,
        )
    }
    fn answer(&mut self) -> Ans {
        let a = self.script.get(self.at).copied().unwrap_or(Ans::Full);
        self.at += 1;
        self.log.lock().unwrap().polls += 1;
        a
    }
    fn chunk_end(&self) -> usize {
        (((self.pos / self.chunk) + 1) * self.chunk).min(self.data.len())
    }
    fn window(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        match self.answer() {
            Ans::Full => Poll::Ready(Ok(self.chunk_end())),
            Ans::One => Poll::Ready(Ok((self.pos + 1).min(self.data.len()))),
            Ans::Pending => {
                self.log.lock().unwrap().pendings += 1;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Ans::Err => {
                self.log.lock().unwrap().errors += 1;
                Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "scripted failure")))
            }
            Ans::Intr => {
                self.log.lock().unwrap().errors += 1;
                Poll::Ready(Err(io::Error::new(io::ErrorKind::TimedOut, "scripted timeout")))
            }
        }
    }
}

impl AsyncRead for Scripted {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let end = match self.window(cx) {
            Poll::Ready(Ok(e)) => e,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        };
        let n = (end - self.pos).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.log.lock().unwrap().served += n;
        Poll::Ready(Ok(n))
    }
}
impl AsyncBufRead for Scripted {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = Pin::into_inner(self);
        match this.window(cx) {
            Poll::Ready(Ok(end)) => Poll::Ready(Ok(&this.data[this.pos..end])),
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        if self.pos + amt > self.data.len() {
            self.log.lock().unwrap().over_consumed = true;
        }
        self.pos = (self.pos + amt).min(self.data.len());
        self.log.lock().unwrap().served += amt;
    }
}

/// A deviation-bounded environment script of `n` answers.
pub fn script(ch: &mut Ch, n: usize) -> Vec<Ans> {
    (0..n)
        .map(|_| [Ans::Full, Ans::One, Ans::Pending, Ans::Err][ch.dev(4)])
        .collect()
}

pub const ERROR_KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Unsupported,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Other,
];

/// A source or connection that hands out `data` and then fails with `kind`, whatever is asked.
pub struct Failing {
    data: Vec<u8>,
    pos: usize,
    kind: io::ErrorKind,
}
impl Failing {
    pub fn new(data: &[u8], kind: io::ErrorKind) -> Self {
        Failing { data: data.to_vec(), pos: 0, kind }
    }
    fn fail<T>(&self) -> Poll<io::Result<T>> {
        Poll::Ready(Err(io::Error::new(self.kind, "failing")))
    }
}
impl AsyncRead for Failing {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.pos == self.data.len() {
            return self.fail();
        }
        let n = buf.len().min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Poll::Ready(Ok(n))
    }
}
impl AsyncBufRead for Failing {
    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        if self.pos == self.data.len() {
            return self.fail();
        }
        let this = self.get_mut();
        Poll::Ready(Ok(&this.data[this.pos..]))
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        self.pos += amt;
    }
}
impl futures_lite::io::AsyncWrite for Failing {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<io::Result<usize>> {
        self.fail()
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.fail()
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.fail()
    }
}

/// What one consumer step observed.
#[derive(Debug, PartialEq, Eq)]
pub enum Got {
    Bytes(Vec<u8>),
    Eof,
    Pending,
    Err(io::ErrorKind),
}

/// One `poll_read` with a buffer of `size` bytes; checks that bytes outside the reported range are
/// untouched.
pub fn step_read<T: AsyncRead + Unpin>(b: &mut T, size: usize) -> Result<Got, Viol> {
    let (c, w) = count_waker();
    let mut cx = Context::from_waker(&w);
    let mut buf = vec![0xA5u8; size];
    match Pin::new(b).poll_read(&mut cx, &mut buf) {
        Poll::Pending => {
            if c.0.load(std::sync::atomic::Ordering::SeqCst) == 0 {
                return viol("lost-wakeup", "poll_read returned Pending without a wake-up being arranged");
            }
            Ok(Got::Pending)
        }
        Poll::Ready(Err(e)) => Ok(Got::Err(e.kind())),
        Poll::Ready(Ok(n)) => {
            if n > size {
                return viol("read-overlong", format!("poll_read reported {n} bytes into a {size} byte buffer"));
            }
            if buf[n..].iter().any(|x| *x != 0xA5) {
                return viol("read-scribble", format!("poll_read wrote past the {n} bytes it reported"));
            }
            if n == 0 && size > 0 {
                Ok(Got::Eof)
            } else {
                Ok(Got::Bytes(buf[..n].to_vec()))
            }
        }
    }
}

/// One `poll_fill_buf`, consuming at most `take` of what it offers.
pub fn step_fill<T: AsyncBufRead + Unpin>(b: &mut T, take: usize) -> Result<Got, Viol> {
    let (c, w) = count_waker();
    let mut cx = Context::from_waker(&w);
    let out = match Pin::new(&mut *b).poll_fill_buf(&mut cx) {
        Poll::Pending => {
            if c.0.load(std::sync::atomic::Ordering::SeqCst) == 0 {
                return viol("lost-wakeup", "poll_fill_buf returned Pending without a wake-up being arranged");
            }
            return Ok(Got::Pending);
        }
        Poll::Ready(Err(e)) => return Ok(Got::Err(e.kind())),
        Poll::Ready(Ok(s)) => s.to_vec(),
    };
    if out.is_empty() {
        return Ok(Got::Eof);
    }
    let n = take.min(out.len());
    Pin::new(b).consume(n);
    Ok(Got::Bytes(out[..n].to_vec()))
}

// ---- lists
use http_types::headers::Header;
use std::fmt::Debug;

/// What one list element may become.
#[derive(Debug, Clone, PartialEq)]
pub enum El<T> {
    Skip,
    Is(T),
    Bad,
}

/// Whether reading a list of elements, each with its admissible outcomes, may answer `got`.
pub fn admits<T: PartialEq>(els: &[Vec<El<T>>], got: &Result<Vec<T>, u16>) -> bool {
    fn go<T: PartialEq>(els: &[Vec<El<T>>], got: &[T]) -> bool {
        let Some((e, rest)) = els.split_first() else { return got.is_empty() };
        e.iter().any(|o| match o {
            El::Skip => go(rest, got),
            El::Is(t) => got.first() == Some(t) && go(rest, &got[1..]),
            El::Bad => false,
        })
    }
    match got {
        Err(code) => *code == 400 && els.iter().any(|e| e.contains(&El::Bad)),
        Ok(v) => go(els, v),
    }
}

pub fn ows(s: &str) -> &str {
    s.trim_matches(|c| c == ' ' || c == '\t')
}

/// The sizes at which implementations tend to change their ways: all small ones, and those around
/// powers of two and ten.
pub fn sizes(small: usize, large: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=small).collect();
    for b in (0..40).map(|i| 1usize << i).chain((1..10).map(|i| 10usize.pow(i))) {
        v.extend([b - 1, b, b + 1]);
    }
    v.retain(|n| *n <= large);
    v.sort();
    v.dedup();
    v
}

/// Elements of a list over header lines: on one, on one each, or on two.
/// The names of registered headers and other common ones.
pub const STANDARD: &[&str] = &[
    "content-encoding", "content-language", "content-length", "content-location", "content-md5", "content-range",
    "content-type", "cookie", "set-cookie", "transfer-encoding", "date", "host", "origin", "access-control-max-age",
    "access-control-allow-origin", "access-control-allow-headers", "access-control-allow-methods",
    "access-control-expose-headers", "access-control-request-method", "access-control-request-headers",
    "access-control-allow-credentials", "accept", "accept-charset", "accept-encoding", "accept-language",
    "accept-ranges", "age", "allow", "authorization", "cache-control", "clear-site-data", "connection", "etag",
    "expect", "expires", "forwarded", "from", "if-match", "if-modified-since", "if-none-match", "if-range",
    "if-unmodified-since", "last-modified", "location", "max-forwards", "pragma", "proxy-authenticate",
    "proxy-authorization", "proxy-connection", "referer", "retry-after", "server", "server-timing", "sourcemap",
    "strict-transport-security", "te", "timing-allow-origin", "traceparent", "trailer", "upgrade", "user-agent",
    "vary", "via", "warning", "www-authenticate", "set-cookie2", "x-forwarded-for", "x-forwarded-host",
    "x-forwarded-by", "x-forwarded-proto", "x-request-id", "x-frame-options", "x-xss-protection",
    "x-content-type-options", "content-security-policy", "content-security-policy-report-only", "content-disposition",
    "link", "keep-alive", "range", "dnt", "x-dns-prefetch-control", "referrer-policy", "alt-svc", "tk", "priority",
    "early-data", "sec-websocket-key", "sec-websocket-protocol", "sec-fetch-mode", "trace", "tracestate",
    "x-powered-by", "feature-policy", "expect-ct", "p3p", "http2-settings",
];
/// The period with which the elements of a long list repeat (the first: never).
pub const CYCLES: &[usize] = &[usize::MAX, 1, 3, 8];
pub fn spread(ch: &mut Ch, els: &[String], sep: &str) -> Vec<String> {
    match ch.choose(3) {
        0 => vec![els.join(sep)],
        1 => els.to_vec(),
        _ => {
            let (a, b) = els.split_at(els.len() / 3);
            vec![a.join(sep), b.join(sep)]
        }
    }
}

pub fn response(name: &str, lines: &[String]) -> Response {
    let mut res = Response::new(200);
    for l in lines {
        res.append_header(name, l.as_str()).unwrap();
    }
    res
}

const LIST_HEADERS: &[&str] = &[
    "accept", "accept-encoding", "te", "vary", "allow", "if-match", "if-none-match", "cache-control", "clear-site-data",
    "timing-allow-origin", "server-timing",
];

/// A list as RFC 9110, section 5.6.1.1, wants it sent: no empty elements, no whitespace around it.
/// (Entity tags have no escapes, other quoted strings do.)
pub fn strict_list(text: &str, escapes: bool) -> bool {
    if text.is_empty() {
        return true;
    }
    let (mut quoted, mut escaped) = (false, false);
    let parts: Vec<&str> = text
        .split(|c| {
            if escaped {
                escaped = false;
            } else if quoted && escapes && c == '\\' {
                escaped = true;
            } else if c == '"' {
                quoted = !quoted;
            }
            c == ',' && !quoted
        })
        .collect();
    text.trim() == text && parts.iter().all(|p| !p.trim().is_empty())
}

/// What an iterator yields; its size hints hold at every step.
pub fn drained<I: Iterator>(mut it: I) -> Result<Vec<I::Item>, Viol> {
    let mut hints = vec![];
    let mut out = vec![];
    loop {
        hints.push(it.size_hint());
        match it.next() {
            Some(v) => out.push(v),
            None => break,
        }
    }
    for (i, (lo, hi)) in hints.iter().enumerate() {
        let left = out.len() - i;
        crate::req!(
            *lo <= left && hi.map_or(true, |h| h >= left),
            "size-hint",
            "size_hint {:?} with {left} items left of {}",
            (lo, hi),
            out.len()
        );
    }
    Ok(out)
}

/// `applied` headers hold exactly the written line.
pub fn applied<H: Header + Debug>(h: &H, name: &str) -> Result<Response, Viol> {
    let text = h.header_value().as_str().to_string();
    crate::req_eq!(h.header_name().as_str(), name, "list-name", "{h:?}");
    if LIST_HEADERS.contains(&name) {
        crate::req!(strict_list(&text, !name.ends_with("-match")), "list-grammar", "{h:?} is written as {text:?}, which has an empty element or outer whitespace");
    }
    let mut res = res_with(&[(name, "left-over"), (name, "left-over")]);
    h.apply_header(&mut res);
    crate::req_eq!(lines(hdrs(&res), name), Some(vec![text.clone()]), "list-apply", "{h:?}");
    let mut res = Response::new(200);
    res.insert_header(h, h).unwrap();
    crate::req_eq!(lines(hdrs(&res), name), Some(vec![text]), "list-apply", "{h:?}");
    Ok(res)
}

