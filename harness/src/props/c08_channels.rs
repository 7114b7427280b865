//! C08: trailers.  C09: upgrades and upgraded connections.
use crate::engine::*;
use crate::props::c12_tokens::{CODES, METHODS};
use crate::util::*;
use crate::{req, req_eq};
use futures_lite::io::{AsyncRead, AsyncWrite};
use http_types::trailers::{self, Trailers};
use http_types::upgrade::{self, Connection};
use http_types::{Request, Response};
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

type BoxFut<T> = Pin<Box<dyn Future<Output = T>>>;

enum Host {
    Req(Request),
    Res(Response),
}

/// The channel protocol of a message, driven one poll at a time by an explicit scheduler.  `K` is
/// what travels: trailers or an upgraded connection.
struct Sys<K: Kind> {
    host: Option<Host>,
    sender: Option<K::Sender>,
    sending: Option<BoxFut<()>>,
    receiver: Option<BoxFut<Option<K::Item>>>,
}

trait Kind {
    type Sender: 'static;
    type Item: 'static;
    const NAME: &'static str;
    fn take_sender(h: &mut Host) -> Self::Sender;
    fn take_receiver(h: &mut Host) -> BoxFut<Option<Self::Item>>;
    fn flagged(h: &Host) -> bool;
    fn item() -> Self::Item;
    fn send(s: Self::Sender, i: Self::Item) -> BoxFut<()>;
    fn intact(i: Self::Item) -> R;
    fn usable(h: &Host) -> bool;
}

struct TrailersKind;
impl Kind for TrailersKind {
    type Sender = trailers::Sender;
    type Item = Trailers;
    const NAME: &'static str = "trailers";
    fn take_sender(h: &mut Host) -> trailers::Sender {
        match h {
            Host::Req(r) => r.send_trailers(),
            Host::Res(r) => r.send_trailers(),
        }
    }
    fn take_receiver(h: &mut Host) -> BoxFut<Option<Trailers>> {
        match h {
            Host::Req(r) => Box::pin(r.recv_trailers()),
            Host::Res(r) => Box::pin(r.recv_trailers()),
        }
    }
    fn flagged(h: &Host) -> bool {
        match h {
            Host::Req(r) => r.has_trailers(),
            Host::Res(r) => r.has_trailers(),
        }
    }
    fn item() -> Trailers {
        let mut t = Trailers::new();
        t.insert("X-Sum", "abc").unwrap();
        t.append("x-sum", "def").unwrap();
        t.insert("Other", "1").unwrap();
        t
    }
    fn send(s: trailers::Sender, i: Trailers) -> BoxFut<()> {
        Box::pin(s.send(i))
    }
    fn intact(t: Trailers) -> R {
        let mut got: Vec<(String, Vec<String>)> = t
            .iter()
            .map(|(n, v)| (n.to_string(), v.iter().map(|x| x.to_string()).collect()))
            .collect();
        got.sort();
        let want = vec![
            ("other".to_string(), vec!["1".to_string()]),
            ("x-sum".to_string(), vec!["abc".to_string(), "def".to_string()]),
        ];
        req_eq!(got, want, "content", "received trailers");
        Ok(())
    }
    fn usable(_: &Host) -> bool {
        true
    }
}

thread_local! {
    /// Connections made for the protocol and not dropped yet.
    static LIVE: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
}

struct Loopback(Arc<Mutex<Vec<u8>>>);
impl Loopback {
    fn new(data: Arc<Mutex<Vec<u8>>>) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Loopback(data)
    }
}
impl Drop for Loopback {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl AsyncRead for Loopback {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut g = self.0.lock().unwrap();
        let n = g.len().min(buf.len());
        buf[..n].copy_from_slice(&g[..n]);
        g.drain(..n);
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Loopback {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.0.lock().unwrap().extend_from_slice(buf);
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

struct UpgradeKind;
impl Kind for UpgradeKind {
    type Sender = upgrade::Sender;
    type Item = Connection;
    const NAME: &'static str = "upgrade";
    fn take_sender(h: &mut Host) -> upgrade::Sender {
        match h {
            Host::Res(r) => r.send_upgrade(),
            Host::Req(_) => unreachable!(),
        }
    }
    fn take_receiver(h: &mut Host) -> BoxFut<Option<Connection>> {
        match h {
            Host::Res(r) => {
                let rcv = run_future(r.recv_upgrade(), 3).expect("recv_upgrade resolves at once");
                Box::pin(rcv)
            }
            Host::Req(_) => unreachable!(),
        }
    }
    fn flagged(h: &Host) -> bool {
        match h {
            Host::Res(r) => r.has_upgrade(),
            Host::Req(_) => false,
        }
    }
    fn item() -> Connection {
        Connection::new(Loopback::new(Arc::new(Mutex::new(b"hello".to_vec()))))
    }
    fn send(s: upgrade::Sender, i: Connection) -> BoxFut<()> {
        Box::pin(s.send(i))
    }
    fn intact(mut c: Connection) -> R {
        req_eq!(step_read(&mut c, 16)?, Got::Bytes(b"hello".to_vec()), "content", "bytes read from the received connection");
        Ok(())
    }
    fn usable(h: &Host) -> bool {
        matches!(h, Host::Res(_))
    }
}

#[derive(Clone, Debug, Default, Hash, PartialEq, Eq)]
struct M {
    host: bool,
    sender_taken: bool,
    receiver_taken: bool,
    /// Sender handle owned by the program
    sender: bool,
    sending: bool,
    receiver: bool,
    queued: bool,
    delivered: u8,
    flag: bool,
    /// the receiver returned Pending and has not been told anything since
    waiting: bool,
    finished: bool,
}
impl M {
    /// Some sender can still produce a value.
    fn open(&self) -> bool {
        (self.host && !self.sender_taken) || self.sender || self.sending
    }
    /// Some receiver exists.
    fn listening(&self) -> bool {
        (self.host && !self.receiver_taken) || self.receiver
    }
}

fn protocol<K: Kind>(ch: &mut Ch, depth: usize) -> R {
    LIVE.with(|l| l.set(0));
    protocol_run::<K>(ch, depth)?;
    req_eq!(LIVE.with(|l| l.get()), 0, "leak", "connections still alive after everything is dropped");
    Ok(())
}

fn protocol_run<K: Kind>(ch: &mut Ch, depth: usize) -> R {
    let host = if ch.flag() { Host::Req(new_req()) } else { Host::Res(Response::new(200)) };
    if !K::usable(&host) {
        return Ok(());
    }
    let mut s: Sys<K> = Sys { host: Some(host), sender: None, sending: None, receiver: None };
    let mut m = M { host: true, ..M::default() };
    // two tasks may poll the receiver in turn: the one that polled last is the one to wake
    let tasks = [count_waker(), count_waker()];
    let mut last = 0usize;
    let waker = tasks[0].1.clone();
    let mut woken_at = 0usize;
    req_eq!(K::flagged(s.host.as_ref().unwrap()), false, "flag", "has_{} of a fresh message", K::NAME);
    for _ in 0..depth {
        // enabled actions
        let mut acts: Vec<&'static str> = vec!["stop"];
        if m.host {
            acts.push("take-sender");
            acts.push("take-receiver");
            acts.push("drop-host");
        }
        if m.sender {
            acts.push("start-send");
            acts.push("drop-sender");
        }
        if m.sending {
            acts.push("poll-send");
            acts.push("drop-send");
        }
        if m.receiver && !m.finished {
            acts.push("poll-recv");
            acts.push("poll-recv-elsewhere");
        }
        if m.receiver {
            acts.push("drop-recv");
        }
        let a = *ch.pick(&acts);
        if a == "stop" {
            break;
        }
        ch.step();
        ch.note(|| a.to_string());
        let open_before = m.open();
        let queued_before = m.queued;
        match a {
            "take-sender" => {
                let h = s.host.as_mut().unwrap();
                if m.sender_taken {
                    // documented: can only be constructed once
                    let r = no_panic(|| {
                        K::take_sender(h);
                    });
                    req!(r.is_err(), "second-sender", "a second sender was handed out");
                } else {
                    s.sender = Some(K::take_sender(h));
                    m.sender = true;
                    m.sender_taken = true;
                    m.flag = true;
                    req!(K::flagged(h), "flag", "has_{} is false after taking the sender", K::NAME);
                }
            }
            "take-receiver" => {
                let h = s.host.as_mut().unwrap();
                if m.receiver_taken {
                    let r = no_panic(|| {
                        K::take_receiver(h);
                    });
                    req!(r.is_err(), "second-receiver", "a second receiver was handed out");
                } else {
                    let before = K::flagged(h);
                    s.receiver = Some(K::take_receiver(h));
                    m.receiver = true;
                    m.receiver_taken = true;
                    if K::NAME == "trailers" {
                        req_eq!(K::flagged(h), before, "flag", "has_trailers changed by taking the receiver");
                    } else {
                        req!(K::flagged(h), "flag", "has_upgrade is false after taking the receiver");
                    }
                }
            }
            "drop-host" => {
                s.host = None;
                m.host = false;
                if !m.listening() {
                    m.queued = false;
                }
            }
            "start-send" => {
                s.sending = Some(K::send(s.sender.take().unwrap(), K::item()));
                m.sender = false;
                m.sending = true;
            }
            "drop-sender" => {
                s.sender = None;
                m.sender = false;
            }
            "poll-send" => {
                let mut cx = Context::from_waker(&waker);
                let r = s.sending.as_mut().unwrap().as_mut().poll(&mut cx);
                // one sender, capacity one: the send can always complete at once
                req!(r.is_ready(), "send-blocked", "sending the only value blocked");
                s.sending = None;
                m.sending = false;
                if m.listening() {
                    m.queued = true;
                }
            }
            "drop-send" => {
                s.sending = None;
                m.sending = false;
            }
            "poll-recv" | "poll-recv-elsewhere" => {
                last = (a == "poll-recv-elsewhere") as usize;
                let mut cx = Context::from_waker(&tasks[last].1);
                let r = s.receiver.as_mut().unwrap().as_mut().poll(&mut cx);
                match r {
                    Poll::Ready(Some(i)) => {
                        req!(m.queued, "spurious-item", "received a value that was never sent");
                        K::intact(i)?;
                        m.queued = false;
                        m.delivered += 1;
                        m.finished = true;
                        req!(m.delivered == 1, "duplicate", "value delivered twice");
                    }
                    Poll::Ready(None) => {
                        req!(!m.queued, "lost-item", "None although a value was sent and not received");
                        req!(!m.open(), "early-none", "None although a sender is still alive");
                        m.finished = true;
                    }
                    Poll::Pending => {
                        req!(!m.queued, "stuck-recv", "Pending although a value is waiting");
                        req!(m.open(), "stuck-recv", "Pending although every sender is gone");
                        m.waiting = true;
                        woken_at = tasks[last].0 .0.load(Ordering::SeqCst);
                    }
                }
            }
            _ => {
                s.receiver = None;
                m.receiver = false;
                m.waiting = false;
                m.queued = false;
            }
        }
        // A waiting receiver must be woken by the event it waits for.
        if m.waiting && m.receiver {
            let event = (m.queued && !queued_before) || (open_before && !m.open());
            if event {
                req!(
                    tasks[last].0 .0.load(Ordering::SeqCst) > woken_at,
                    "lost-wakeup",
                    "{a} did not wake the pending receiver"
                );
                m.waiting = false;
            }
        }
        if let Some(h) = &s.host {
            if K::NAME == "trailers" {
                req_eq!(K::flagged(h), m.flag, "flag", "has_{}", K::NAME);
            } else {
                req_eq!(K::flagged(h), m.sender_taken || m.receiver_taken, "flag", "has_{}", K::NAME);
            }
        }
        ch.state(&m);
    }
    // Fair completion: let everything that is still running finish.
    if let Some(f) = s.sending.as_mut() {
        let mut cx = Context::from_waker(&waker);
        req!(f.as_mut().poll(&mut cx).is_ready(), "send-blocked", "sending the only value blocked");
        s.sending = None;
        m.sending = false;
        if m.listening() {
            m.queued = true;
        }
    }
    drop(s.sender.take());
    drop(s.host.take());
    m.sender = false;
    m.host = false;
    if let (Some(mut r), false) = (s.receiver.take(), m.finished) {
        let mut cx = Context::from_waker(&waker);
        match r.as_mut().poll(&mut cx) {
            Poll::Ready(Some(i)) => {
                req!(m.queued, "spurious-item", "received a value that was never sent");
                K::intact(i)?;
            }
            Poll::Ready(None) => {
                req!(!m.queued, "lost-item", "None although a value was sent and not received");
            }
            Poll::Pending => return viol("stuck-recv", "receiver still pending after every sender is gone"),
        }
    }
    Ok(())
}

pub fn build_c08(s: &mut Suite, thorough: bool) {
    let d = if thorough { 10 } else { 9 };
    s.bound(&format!("every interleaving of <= {d} atomic actions (take sender/receiver, start/poll/drop the send, poll/drop the receiver, drop the message) on Request and Response, then fair completion; wake-ups checked"));
    s.add("trailers-protocol", move |ch| protocol::<TrailersKind>(ch, d));
    s.add("trailers-clone-value", |ch| {
        // Trailers sent are the values at the time of sending; clones are independent.
        let mut t = Trailers::new();
        let n = ch.choose(4);
        let mut want: Vec<String> = vec![];
        for _ in 0..n {
            ch.step();
            let v = *ch.pick(&["1", "2"]);
            t.append("n", v).unwrap();
            want.push(v.into());
        }
        let mut c = t.clone();
        c.append("n", "c").unwrap();
        let mut r = Response::new(200);
        let tx = r.send_trailers();
        let rx = r.recv_trailers();
        run_future(tx.send(t), 3);
        let got = run_future(rx, 3).flatten();
        ch.state(&want);
        let got = got.and_then(|t| t.get("n").map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
        req_eq!(got, if want.is_empty() { None } else { Some(want) }, "content", "received trailers");
        Ok(())
    });
    s.bound("the channel of a request of every method and a response of every status and version, with one or all standard header names as trailers, on one to three lines each");
    s.add("trailers-origins", |ch| {
        let mut host = if ch.flag() {
            let mut r = new_req();
            r.set_method(ch.pick(METHODS).0);
            Host::Req(r)
        } else {
            Host::Res(Response::new(ch.pick(CODES).0))
        };
        if ch.flag() {
            // set before anything else is done
            host = match host {
                Host::Req(r) => Host::Req(Request::new(r.method(), r.url().clone())),
                Host::Res(mut r) => {
                    let s = r.status();
                    r = Response::new(404);
                    r.set_status(s);
                    Host::Res(r)
                }
            };
        }
        trailers_pass(ch, host, &["x-a", "content-length", "x-b", "etag", "transfer-encoding"], 2)
    });
    s.add("trailers-names", |ch| {
        let host = if ch.flag() { Host::Req(new_req()) } else { Host::Res(Response::new(200)) };
        let k = 1 + ch.choose(3);
        let i = ch.choose(STANDARD.len() + 1);
        match STANDARD.get(i) {
            Some(n) => trailers_pass(ch, host, &[n], k),
            None => trailers_pass(ch, host, STANDARD, k),
        }
    });
    fn trailers_pass(ch: &mut Ch, mut host: Host, names: &[&str], k: usize) -> R {
        let mut t = Trailers::new();
        let mut want: std::collections::BTreeMap<String, Vec<String>> = Default::default();
        for n in names {
            for i in 0..k {
                t.append(*n, format!("v{i}, w")).unwrap();
                want.entry(n.to_string()).or_default().push(format!("v{i}, w"));
            }
        }
        ch.step();
        let copy = t.clone();
        let tx = TrailersKind::take_sender(&mut host);
        let rx = TrailersKind::take_receiver(&mut host);
        // the receiver may wait before or be polled after the send
        let mut rx = rx;
        let (wakes, waker) = count_waker();
        if ch.flag() {
            req!(rx.as_mut().poll(&mut Context::from_waker(&waker)).is_pending(), "early-none", "nothing was sent");
            run_future(tx.send(t), 3);
            req!(wakes.0.load(Ordering::SeqCst) > 0, "lost-wakeup", "the receiver is not woken");
        } else {
            run_future(tx.send(t), 3);
        }
        let got = run_future(rx, 3).flatten();
        let view = |t: Trailers| -> std::collections::BTreeMap<String, Vec<String>> { t.iter().map(|(n, v)| (n.to_string(), v.iter().map(|x| x.to_string()).collect())).collect() };
        req_eq!(got.map(view), Some(want.clone()), "content", "received trailers");
        req_eq!(view(copy), want, "content", "the clone of the trailers");
        Ok(())
    }
    s.bound("trailers of every size up to 70 names and values, and of sizes around powers of two and ten up to 600");
    s.add("trailers-scale", |ch| {
        let n = *ch.pick(&sizes(70, 600));
        let mode = ch.choose(3);
        let mut t = Trailers::new();
        let mut want: std::collections::BTreeMap<String, Vec<String>> = Default::default();
        for i in 0..n {
            let (name, v) = match mode {
                0 => (format!("n{i}"), format!("v{i}")),
                1 => ("n".to_string(), format!("{}", i % 3)),
                _ => (format!("n{}", i % 5), "v".repeat(i)),
            };
            t.append(name.as_str(), v.as_str()).unwrap();
            want.entry(name).or_default().push(v);
        }
        ch.step();
        ch.state(&(n, mode));
        let mut host = if ch.flag() { Host::Req(new_req()) } else { Host::Res(Response::new(200)) };
        let tx = TrailersKind::take_sender(&mut host);
        let rx = TrailersKind::take_receiver(&mut host);
        run_future(tx.send(t), 3);
        let got = run_future(rx, 3).flatten();
        let got = got.map(|t| t.iter().map(|(n, v)| (n.to_string(), v.iter().map(|x| x.to_string()).collect())).collect());
        req_eq!(got, Some(want), "content", "received trailers of {n} entries");
        Ok(())
    });
    s.assume("poll-level interleavings on one thread: the memory-level behaviour of the async-channel dependency is trusted");
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
enum Call {
    Read(usize),
    Write(Vec<u8>),
    Flush,
    Close,
}

/// An inner connection that answers from a script and records every call.
struct Inner {
    log: Arc<Mutex<Vec<Call>>>,
    script: Arc<Mutex<VecDeque<usize>>>,
    wakers: Arc<Mutex<Vec<Waker>>>,
}
impl Inner {
    fn ans(&self, cx: &mut Context<'_>) -> usize {
        let a = self.script.lock().unwrap().pop_front().unwrap_or(0);
        if a == 2 {
            self.wakers.lock().unwrap().push(cx.waker().clone());
        }
        a
    }
}
fn err() -> io::Error {
    io::Error::new(io::ErrorKind::BrokenPipe, "scripted")
}
impl AsyncRead for Inner {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.log.lock().unwrap().push(Call::Read(buf.len()));
        match self.ans(cx) {
            0 => {
                for (i, b) in buf.iter_mut().enumerate() {
                    *b = i as u8 + 1;
                }
                Poll::Ready(Ok(buf.len()))
            }
            1 => {
                if !buf.is_empty() {
                    buf[0] = 77;
                }
                Poll::Ready(Ok(buf.len().min(1)))
            }
            2 => Poll::Pending,
            3 => Poll::Ready(Err(err())),
            _ => Poll::Ready(Ok(0)),
        }
    }
}
impl AsyncWrite for Inner {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.log.lock().unwrap().push(Call::Write(buf.to_vec()));
        match self.ans(cx) {
            0 => Poll::Ready(Ok(buf.len())),
            1 => Poll::Ready(Ok(buf.len().min(1))),
            2 => Poll::Pending,
            3 => Poll::Ready(Err(err())),
            _ => Poll::Ready(Ok(0)),
        }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.log.lock().unwrap().push(Call::Flush);
        match self.ans(cx) {
            2 => Poll::Pending,
            3 => Poll::Ready(Err(err())),
            _ => Poll::Ready(Ok(())),
        }
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.log.lock().unwrap().push(Call::Close);
        match self.ans(cx) {
            2 => Poll::Pending,
            3 => Poll::Ready(Err(err())),
            _ => Poll::Ready(Ok(())),
        }
    }
}

fn show<T: std::fmt::Debug>(p: Poll<io::Result<T>>) -> String {
    match p {
        Poll::Pending => "Pending".into(),
        Poll::Ready(Ok(v)) => format!("Ok({v:?})"),
        Poll::Ready(Err(e)) => format!("Err({:?})", e.kind()),
    }
}

pub fn build_c09(s: &mut Suite, thorough: bool) {
    let d = if thorough { 10 } else { 9 };
    s.bound(&format!("every interleaving of <= {d} atomic channel actions; every sequence of <= 3 calls (read/write/flush/close, vectored read/write over several buffers, 3 buffer sizes) x 5 inner answers through Connection"));
    s.add("upgrade-protocol", move |ch| protocol::<UpgradeKind>(ch, d));
    s.bound("the channel of a response of every status");
    s.add("upgrade-origins", |ch| {
        let (status, _, _) = *ch.pick(CODES);
        let mut r = Response::new(status);
        if ch.flag() {
            r = Response::new(if status == 101 { 200 } else { 101 });
            r.set_status(status);
        }
        let mut host = Host::Res(r);
        let tx = UpgradeKind::take_sender(&mut host);
        let mut rx = UpgradeKind::take_receiver(&mut host);
        ch.step();
        if ch.flag() {
            let (wakes, waker) = count_waker();
            req!(rx.as_mut().poll(&mut Context::from_waker(&waker)).is_pending(), "early-none", "nothing was sent");
            run_future(tx.send(UpgradeKind::item()), 3);
            req!(wakes.0.load(Ordering::SeqCst) > 0, "lost-wakeup", "the receiver is not woken");
        } else {
            run_future(tx.send(UpgradeKind::item()), 3);
        }
        match run_future(rx, 3).flatten() {
            Some(c) => UpgradeKind::intact(c),
            None => viol("lost-item", format!("no connection received from a response with status {status}")),
        }
    });
    s.bound("reads and writes of every size up to 70 bytes, and of sizes around powers of two and ten up to 200000, through a received connection");
    s.add("connection-sizes", |ch| {
        let n = *ch.pick(&sizes(70, 200_000));
        let data: Vec<u8> = (0..n).map(|i| (i * 31 % 251) as u8).collect();
        let pipe = Arc::new(Mutex::new(vec![]));
        let mut r = Response::new(101);
        let tx = r.send_upgrade();
        let rx = UpgradeKind::take_receiver(&mut Host::Res(r));
        run_future(tx.send(Connection::new(Loopback::new(pipe.clone()))), 3);
        let Some(mut c) = run_future(rx, 3).flatten() else { return viol("lost-item", "no connection received") };
        ch.step();
        ch.state(&n);
        let waker = count_waker().1;
        let mut cx = Context::from_waker(&waker);
        let got = show(Pin::new(&mut c).poll_write(&mut cx, &data));
        req_eq!(got, format!("Ok({n})"), "passthrough", "write of {n} bytes");
        req!(*pipe.lock().unwrap() == data, "passthrough-data", "bytes written, {n}");
        let mut buf = vec![0u8; n + 3];
        let got = show(Pin::new(&mut c).poll_read(&mut cx, &mut buf));
        req_eq!(got, format!("Ok({n})"), "passthrough", "read of {n} bytes");
        req!(buf[..n] == data[..], "passthrough-data", "bytes read, {n}");
        Ok(())
    });
    s.bound("every error kind through every call of a connection");
    s.add("connection-errors", |ch| {
        let kinds = [ERROR_KINDS, &[io::ErrorKind::Interrupted, io::ErrorKind::WouldBlock]].concat();
        let kind = *ch.pick(&kinds);
        let mut c = Connection::new(Failing::new(b"", kind));
        let waker = count_waker().1;
        let mut cx = Context::from_waker(&waker);
        let n = *ch.pick(&[0usize, 1, 9]);
        ch.step();
        ch.state(&format!("{kind:?}"));
        let got = match ch.choose(4) {
            0 => show(Pin::new(&mut c).poll_read(&mut cx, &mut [0; 9][..n])),
            1 => show(Pin::new(&mut c).poll_write(&mut cx, &[0; 9][..n])),
            2 => show(Pin::new(&mut c).poll_flush(&mut cx)),
            _ => show(Pin::new(&mut c).poll_close(&mut cx)),
        };
        req_eq!(got, format!("Err({kind:?})"), "passthrough", "error kind");
        Ok(())
    });
    let n = if thorough { 4 } else { 3 };
    s.add("connection-passthrough", move |ch| {
        let log = Arc::new(Mutex::new(vec![]));
        let script: Arc<Mutex<VecDeque<usize>>> = Arc::new(Mutex::new(VecDeque::new()));
        let wakers = Arc::new(Mutex::new(vec![]));
        let mut c = Connection::new(Inner { log: log.clone(), script: script.clone(), wakers: wakers.clone() });
        let (wakes, waker) = count_waker();
        let steps = ch.choose(n + 1);
        for _ in 0..steps {
            ch.step();
            let op = ch.choose(6);
            let vectored = op >= 4;
            let op = op % 4;
            let ans = ch.choose(5);
            script.lock().unwrap().push_back(ans);
            let size = if op < 2 { *ch.pick(&[3usize, 1, 0]) } else { 0 };
            let mut cx = Context::from_waker(&waker);
            let mut buf = vec![0u8; size];
            let data: Vec<u8> = (0..size).map(|i| 10 + i as u8).collect();
            let before = log.lock().unwrap().len();
            let got = match op {
                0 if vectored => {
                    let mut more = [0u8; 2];
                    let mut bufs = [io::IoSliceMut::new(&mut []), io::IoSliceMut::new(&mut buf), io::IoSliceMut::new(&mut more)];
                    let bufs = if size == 0 { &mut bufs[..2] } else { &mut bufs[..] };
                    show(Pin::new(&mut c).poll_read_vectored(&mut cx, bufs))
                }
                1 if vectored => {
                    let mut bufs = [io::IoSlice::new(&[]), io::IoSlice::new(&data), io::IoSlice::new(&[99, 98])];
                    let bufs = if size == 0 { &mut bufs[..2] } else { &mut bufs[..] };
                    show(Pin::new(&mut c).poll_write_vectored(&mut cx, bufs))
                }
                0 => show(Pin::new(&mut c).poll_read(&mut cx, &mut buf)),
                1 => show(Pin::new(&mut c).poll_write(&mut cx, &data)),
                2 => show(Pin::new(&mut c).poll_flush(&mut cx)),
                _ => show(Pin::new(&mut c).poll_close(&mut cx)),
            };
            let want = match (op, ans) {
                (_, 2) => "Pending".to_string(),
                (_, 3) => "Err(BrokenPipe)".to_string(),
                (0 | 1, 0) => format!("Ok({size})"),
                (0 | 1, 1) => format!("Ok({})", size.min(1)),
                (0 | 1, _) => "Ok(0)".into(),
                _ => "Ok(())".into(),
            };
            ch.note(|| format!("{} size {size} answer {ans} -> {got}", ["read", "write", "flush", "close"][op]));
            req_eq!(got, want, "passthrough", "answer of call {op} with inner answer {ans}");
            let wbuf: Vec<u8> = match (op, ans) {
                (0, 0) => (0..size).map(|i| i as u8 + 1).collect(),
                (0, 1) if size > 0 => {
                    let mut v = vec![0; size];
                    v[0] = 77;
                    v
                }
                _ => vec![0; size],
            };
            req_eq!(buf, wbuf, "passthrough-data", "buffer after read");
            let want_call = match op {
                0 => Call::Read(size),
                1 => Call::Write(data),
                2 => Call::Flush,
                _ => Call::Close,
            };
            let l = log.lock().unwrap();
            req_eq!(&l[before..], &[want_call][..], "passthrough-calls", "calls reaching the inner connection");
            if ans == 2 {
                let w = wakers.lock().unwrap().pop();
                let b = wakes.0.load(Ordering::SeqCst);
                w.unwrap().wake();
                req!(wakes.0.load(Ordering::SeqCst) > b, "lost-wakeup", "the caller's waker was not passed on");
            }
            ch.state(&(op, ans, size, got));
        }
        Ok(())
    });
    s.assume("poll-level interleavings on one thread: the memory-level behaviour of the async-channel dependency is trusted");
}
