//! Simulated MQTT clients: connections, sessions, and the recorded history.
use crate::plan::*;
use crate::scram;
use crate::wire::{self, Con, Pkt, Props, Pub, Val, Will};
use base64::Engine;
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::poll_fn;
use std::pin::Pin;
use std::sync::{Arc, Mutex, OnceLock};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};
use tokio::net::{self, CutKind, Profile};

pub type Ns = u64;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

#[derive(Clone, Debug, Serialize, PartialEq)]
pub enum Ev {
    Open,
    /// the transport could not be established
    OpenFail(String),
    Out(Pkt),
    In(Pkt),
    InErr(String),
    /// the broker closed the connection (true: orderly)
    Closed(bool),
    /// the client or the network ended it
    Cut(char),
    /// handed to the application: tag, QoS
    App { tag: u64, qos: u8, topic: String, retain: bool, len: usize, ok: bool, ver: u8 },
    /// the broker took over responsibility: PUBACK, or PUBCOMP
    Acked { tag: u64, code: u8 },
    Skip(String),
    Counters { online: u64, clients: usize, tasks: usize },
    Hook { what: String, cid: String, data: String },
    Jump(i64),
    Mark(String),
    Read(bool),
    /// acknowledges at once
    AckMode(bool),
    Fault(String),
    RawOut(usize),
    RawIn(usize),
}
#[derive(Clone, Debug, Serialize)]
pub struct Rec {
    pub t: Ns,
    pub actor: usize,
    /// connection number; 0: none
    pub conn: usize,
    pub ev: Ev,
}
pub struct ConnInfo {
    pub actor: usize,
    pub p: ConnP,
    pub raw: bool,
    pub ctl: Option<Arc<net::Conn>>,
}
#[derive(Default)]
pub struct HistInner {
    pub recs: Vec<Rec>,
    pub conns: Vec<ConnInfo>,
}
static HIST: Mutex<Option<HistInner>> = Mutex::new(None);
pub fn hist<R>(f: impl FnOnce(&mut HistInner) -> R) -> R {
    let mut g = HIST.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(HistInner::default))
}
pub fn rec(actor: usize, conn: usize, ev: Ev) {
    let t = simcore::now();
    simcore::fold(0x4849 ^ ((actor as u64) << 16) ^ ((conn as u64) << 24));
    hist(|h| {
        if h.recs.len() < 400_000 {
            h.recs.push(Rec { t, actor, conn, ev })
        }
    });
}

pub struct Cx {
    pub plan: Plan,
    pub addrs: Vec<std::net::SocketAddr>,
    pub global: Arc<akasa_core::GlobalState>,
    pub syncs: Mutex<BTreeMap<u32, (usize, Vec<Waker>)>>,
    pub sync_need: BTreeMap<u32, usize>,
    pub tls: Arc<rustls::ClientConfig>,
}
pub static CX: OnceLock<Cx> = OnceLock::new();
pub fn cx() -> &'static Cx {
    CX.get().expect("context")
}

// ------------------------------------------------------------------ transport

pub trait Io: AsyncRead + AsyncWrite + Send + Unpin {}
impl<T: AsyncRead + AsyncWrite + Send + Unpin> Io for T {}

pub fn profile(n: &Net) -> (Profile, Profile) {
    let mk = |win: usize| Profile {
        lat_min: n.lat.0.max(1) * 1000,
        lat_max: n.lat.1.max(n.lat.0).max(1) * 1000,
        window: if win == 0 { 256 * 1024 } else { win },
        short_read_ppm: n.short_read,
        short_write_ppm: n.short_write,
        pend_write_ppm: n.pend_write,
        rate: n.rate,
    };
    (mk(n.win.0), mk(n.win.1))
}
pub fn kind(c: char) -> CutKind {
    match c {
        'f' => CutKind::Fin,
        's' => CutKind::Silent,
        _ => CutKind::Rst,
    }
}

#[derive(Default)]
pub struct LinkSt {
    out: VecDeque<u8>,
    /// MQTT bytes still to be framed
    plain: VecDeque<u8>,
    task: Option<Waker>,
    waiters: Vec<Waker>,
    /// no more traffic: the broker or the client ended it
    pub dead: bool,
    /// the client asks its task to end: 'f' after flushing, 'r' at once
    want_end: Option<char>,
    reading: bool,
    /// a newer connection of the same client exists
    pub abandoned: bool,
    pub connack: Option<(bool, u8, Props)>,
    pub subacks: BTreeMap<u16, Vec<u8>>,
    pub pongs: usize,
    pub last_out: Ns,
    pub raw_in: usize,
    /// bytes of the plan's own making were sent
    rawed: bool,
    auth_step: usize,
}
pub struct Link {
    pub id: usize,
    pub actor: usize,
    pub ver: u8,
    pub p: ConnP,
    raw: bool,
    ws: bool,
    pub ctl: Arc<net::Conn>,
    pub st: Mutex<LinkSt>,
    sess: Arc<Mutex<Sess>>,
    scram: Mutex<Option<scram::Client>>,
}

pub struct OutMsg {
    pub pid: u16,
    pub p: Pub,
    pub tag: u64,
    /// PUBREC received: only PUBREL is outstanding
    pub rel: bool,
    rec: bool,
    epoch: usize,
}
/// What a client remembers across connections.
pub struct Sess {
    pub link: Option<Arc<Link>>,
    next_pid: u16,
    pid_mod: u16,
    pub inflight: Vec<OutMsg>,
    in_qos2: BTreeSet<u16>,
    ack: Ack,
    held: Vec<(usize, Pkt)>,
    hold_rel: bool,
    /// answers outstanding on the present connection, by packet identifier
    owed: BTreeMap<u16, i64>,
    rng: simcore::Rng,
    pub aliases_in: BTreeMap<u16, String>,
}

impl Link {
    fn wake(st: &mut LinkSt) -> Vec<Waker> {
        let mut v = std::mem::take(&mut st.waiters);
        v.extend(st.task.take());
        v
    }
    pub fn alive(&self) -> bool {
        !self.st.lock().unwrap().dead
    }
    pub fn send(&self, p: Pkt) {
        let b = wire::encode(&p, self.ver);
        let owes = match &p {
            Pkt::Publish(p) if p.qos > 0 => Some(p.pid),
            Pkt::Ack { kind: 6, pid, .. } => Some(*pid),
            _ => None,
        };
        let ws = {
            let mut st = self.st.lock().unwrap();
            if st.dead || st.want_end.is_some() {
                return;
            }
            st.last_out = simcore::now();
            self.enqueue(&mut st, &b);
            rec(self.actor, self.id, Ev::Out(p));
            st.task.take()
        };
        if let Some(pid) = owes {
            *self.sess.lock().unwrap().owed.entry(pid).or_default() += 1;
        }
        if let Some(w) = ws {
            w.wake();
        }
    }
    pub fn send_raw(&self, b: &[u8]) {
        let ws = {
            let mut st = self.st.lock().unwrap();
            if st.dead || st.want_end.is_some() {
                return;
            }
            st.last_out = simcore::now();
            if self.p.ws & 8 != 0 {
                st.out.extend(b);
            } else {
                self.enqueue(&mut st, b);
            }
            rec(self.actor, self.id, Ev::RawOut(b.len()));
            st.task.take()
        };
        if let Some(w) = ws {
            w.wake();
        }
    }
    fn enqueue(&self, st: &mut LinkSt, b: &[u8]) {
        if self.ws && self.p.frame == 0 {
            self.message(st, b);
        } else if self.p.frame > 0 {
            st.plain.extend(b);
        } else {
            st.out.extend(b);
        }
    }
    /// Takes the next piece for the transport.
    fn frame(&self, st: &mut LinkSt) {
        if st.out.is_empty() && !st.plain.is_empty() {
            let n = st.plain.len().min(self.p.frame);
            let b: Vec<u8> = st.plain.drain(..n).collect();
            if self.ws {
                self.message(st, &b);
            } else {
                st.out.extend(b);
            }
        }
    }
    fn message(&self, st: &mut LinkSt, b: &[u8]) {
        let mode = self.p.ws;
        let e = if mode > 0 { simcore::entropy() } else { 0 };
        if mode & 1 != 0 && e & 3 == 0 {
            Self::ws_frame(st, 0x89, b"are you there");
        }
        if mode & 4 != 0 && e & 0x30 == 0 {
            Self::ws_frame(st, 0x82, b"");
        }
        if mode & 2 != 0 && e & 0x100 == 0 && b.len() > 1 {
            let k = 1 + (e >> 16) as usize % (b.len() - 1);
            Self::ws_frame(st, 0x02, &b[..k]);
            if mode & 1 != 0 && e & 0x200 == 0 {
                Self::ws_frame(st, 0x89, b"");
            }
            Self::ws_frame(st, 0x80, &b[k..]);
        } else {
            Self::ws_frame(st, 0x82, b);
        }
    }
    fn ws_frame(st: &mut LinkSt, op: u8, b: &[u8]) {
        // frames of the client are masked; the mask comes from the seed
        let m = (simcore::entropy() as u32).to_be_bytes();
        st.out.push_back(op);
        if b.len() < 126 {
            st.out.push_back(0x80 | b.len() as u8);
        } else if b.len() < 65536 {
            st.out.push_back(0x80 | 126);
            st.out.extend((b.len() as u16).to_be_bytes());
        } else {
            st.out.push_back(0x80 | 127);
            st.out.extend((b.len() as u64).to_be_bytes());
        }
        st.out.extend(m);
        st.out.extend(b.iter().enumerate().map(|(i, x)| x ^ m[i % 4]));
    }
    /// Waits until `f` holds, the connection is over or the time has passed; true if `f` held.
    pub async fn until(&self, ms: u64, mut f: impl FnMut(&LinkSt) -> bool) -> bool {
        let w = poll_fn(|cx| {
            let mut st = self.st.lock().unwrap();
            if f(&st) {
                return Poll::Ready(true);
            }
            if st.dead {
                return Poll::Ready(false);
            }
            st.waiters.push(cx.waker().clone());
            Poll::Pending
        });
        tokio::time::timeout(Duration::from_millis(ms), w).await.unwrap_or(false)
    }
    pub fn end(&self, how: char) {
        let ws = {
            let mut st = self.st.lock().unwrap();
            if st.dead {
                return;
            }
            if st.want_end.is_none() {
                st.want_end = Some(how);
            }
            Self::wake(&mut st)
        };
        for w in ws {
            w.wake();
        }
    }
    fn reading(&self, v: bool) {
        let ws = {
            let mut st = self.st.lock().unwrap();
            st.reading = v;
            st.task.take()
        };
        rec(self.actor, self.id, Ev::Read(v));
        if let Some(w) = ws {
            w.wake();
        }
    }
}

struct ConnTask {
    link: Arc<Link>,
    io: Box<dyn Io>,
    buf: Vec<u8>,
    /// payload of WebSocket data frames
    data: Vec<u8>,
    flushing: bool,
    shut: bool,
}
impl ConnTask {
    /// Returns how the connection ended.
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Ev> {
        loop {
            let mut progress = false;
            // write
            let (chunk, want) = {
                let mut st = self.link.st.lock().unwrap();
                self.link.frame(&mut st);
                let (a, b) = st.out.as_slices();
                let s = if a.is_empty() { b } else { a };
                (s[..s.len().min(16384)].to_vec(), st.want_end)
            };
            if want == Some('r') || want == Some('s') {
                return Poll::Ready(Ev::Cut(want.unwrap()));
            }
            if !chunk.is_empty() {
                match Pin::new(&mut self.io).poll_write(cx, &chunk) {
                    Poll::Ready(Ok(0)) => return Poll::Ready(Ev::Closed(false)),
                    Poll::Ready(Ok(n)) => {
                        self.link.st.lock().unwrap().out.drain(..n);
                        self.flushing = true;
                        progress = true;
                    }
                    Poll::Ready(Err(_)) => {
                        // read what is still there before giving up
                        let mut st = self.link.st.lock().unwrap();
                        st.out.clear();
                        st.plain.clear();
                        drop(st);
                        if want.is_some() {
                            return Poll::Ready(Ev::Closed(false));
                        }
                    }
                    Poll::Pending => {}
                }
            }
            if self.flushing && !progress {
                match Pin::new(&mut self.io).poll_flush(cx) {
                    Poll::Ready(_) => self.flushing = false,
                    Poll::Pending => {}
                }
            }
            if chunk.is_empty() && !self.flushing && want == Some('f') && !self.shut {
                match Pin::new(&mut self.io).poll_shutdown(cx) {
                    Poll::Ready(_) => {
                        self.shut = true;
                        return Poll::Ready(Ev::Cut('f'));
                    }
                    Poll::Pending => {}
                }
            }
            // read
            let reading = self.link.st.lock().unwrap().reading;
            if reading {
                let mut b = [0u8; 4096];
                let mut rb = ReadBuf::new(&mut b);
                match Pin::new(&mut self.io).poll_read(cx, &mut rb) {
                    Poll::Ready(Ok(())) => {
                        let got = rb.filled();
                        if got.is_empty() {
                            return Poll::Ready(Ev::Closed(true));
                        }
                        let got = got.to_vec();
                        if let Err(e) = self.input(&got) {
                            rec(self.link.actor, self.link.id, Ev::InErr(e));
                            return Poll::Ready(Ev::Cut('e'));
                        }
                        progress = true;
                    }
                    Poll::Ready(Err(_)) => return Poll::Ready(Ev::Closed(false)),
                    Poll::Pending => {}
                }
            }
            if !progress {
                let mut st = self.link.st.lock().unwrap();
                if (st.out.is_empty() && st.plain.is_empty()) || !chunk.is_empty() {
                    st.task = Some(cx.waker().clone());
                    return Poll::Pending;
                }
            }
        }
    }
    fn input(&mut self, b: &[u8]) -> Result<(), String> {
        {
            let mut st = self.link.st.lock().unwrap();
            st.raw_in += b.len();
        }
        if self.link.raw {
            rec(self.link.actor, self.link.id, Ev::RawIn(b.len()));
            return Ok(());
        }
        self.buf.extend_from_slice(b);
        if self.link.ws {
            loop {
                let f = &self.buf;
                if f.len() < 2 {
                    break;
                }
                let (op, len7) = (f[0] & 15, (f[1] & 127) as usize);
                if f[1] & 0x80 != 0 || f[0] & 0x70 != 0 {
                    return Err("bad WebSocket frame from the broker".into());
                }
                let (h, n) = match len7 {
                    126 if f.len() >= 4 => (4, u16::from_be_bytes([f[2], f[3]]) as usize),
                    127 if f.len() >= 10 => (10, u64::from_be_bytes(f[2..10].try_into().unwrap()) as usize),
                    126 | 127 => break,
                    n => (2, n),
                };
                if f.len() < h + n {
                    break;
                }
                let body: Vec<u8> = f[h..h + n].to_vec();
                self.buf.drain(..h + n);
                match op {
                    0 | 2 => self.data.extend(body),
                    8 | 9 | 10 => {}
                    _ => return Err(format!("WebSocket opcode {op} from the broker")),
                }
            }
        } else {
            self.data.append(&mut self.buf);
        }
        loop {
            match wire::split(&self.data)? {
                None => return Ok(()),
                Some((c, h, n)) => {
                    if let (5, Some(m)) = (self.link.ver, self.link.p.max_packet) {
                        // A limit too small for the broker's own answers leaves it no way to answer.
                        let least = match c >> 4 {
                            3 => 0,
                            14 => 30,
                            _ => 64,
                        };
                        if n > m as usize && m >= least {
                            return Err(format!("a packet of type {} with {n} bytes, the client's maximum packet size is {m}", c >> 4));
                        }
                    }
                    let body = self.data[h..n].to_vec();
                    self.data.drain(..n);
                    let p = wire::decode(c, &body, self.link.ver)?;
                    simcore::fold(n as u64 ^ ((self.link.id as u64) << 48) ^ ((c as u64) << 32));
                    self.handle(p)?;
                }
            }
        }
    }
    fn handle(&mut self, p: Pkt) -> Result<(), String> {
        let l = self.link.clone();
        rec(l.actor, l.id, Ev::In(p.clone()));
        let mut wake = Vec::new();
        {
            let mut st = l.st.lock().unwrap();
            match &p {
                Pkt::Connack { sp, code, props } => {
                    if st.connack.is_some() {
                        return Err("second CONNACK".into());
                    }
                    st.connack = Some((*sp, *code, props.clone()));
                }
                Pkt::Suback { pid, codes } | Pkt::Unsuback { pid, codes } => {
                    st.subacks.insert(*pid, codes.clone());
                }
                Pkt::Pingresp => st.pongs += 1,
                Pkt::Auth { .. } => {}
                _ if st.connack.is_none() && !matches!(p, Pkt::Disconnect { .. }) => {
                    return Err(format!("packet before CONNACK: {p:?}"));
                }
                _ => {}
            }
            wake.extend(std::mem::take(&mut st.waiters));
            if st.abandoned {
                drop(st);
                wake.into_iter().for_each(|w| w.wake());
                return Ok(());
            }
        }
        match p {
            Pkt::Auth { code, props } => {
                let r = l.scram.lock().unwrap().as_mut().and_then(|s| {
                    let mut st = l.st.lock().unwrap();
                    st.auth_step += 1;
                    s.answer(code, &props)
                });
                let late = l.p.scram.as_ref().map_or(0, |s| s.delay);
                if late == 0 {
                    for p in r.into_iter().flatten() {
                        l.send(p);
                    }
                } else if let Some(r) = r {
                    let l = l.clone();
                    tokio::spawn(async move {
                        tokio::time::sleep(Duration::from_millis(late)).await;
                        if l.alive() {
                            for p in r {
                                l.send(p);
                            }
                        }
                    });
                }
            }
            Pkt::Connack { sp, code: 0, props } => {
                if let Some(s) = l.scram.lock().unwrap().as_mut() {
                    s.connack(&props);
                }
                let mut s = l.sess.lock().unwrap();
                s.aliases_in.clear();
                s.owed.clear();
                s.held.clear();
                if !sp {
                    s.in_qos2.clear();
                    s.inflight.retain(|m| m.epoch == l.id);
                }
                let mut again = Vec::new();
                for m in &mut s.inflight {
                    if m.epoch == l.id {
                        continue;
                    }
                    m.epoch = l.id;
                    if m.rel {
                        again.push(Pkt::Ack { kind: 6, pid: m.pid, code: 0 });
                    } else {
                        let mut p = m.p.clone();
                        p.dup = true;
                        again.push(Pkt::Publish(p));
                    }
                }
                drop(s);
                // MQTT 5 limits what may be outstanding; the retransmissions are within it
                for p in again {
                    l.send(p);
                }
            }
            Pkt::Publish(p) => self.publish(p),
            Pkt::Ack { kind, pid, code } => self.ack(kind, pid, code),
            _ => {}
        }
        wake.into_iter().for_each(|w| w.wake());
        Ok(())
    }
    fn publish(&mut self, p: Pub) {
        let l = self.link.clone();
        let mut s = l.sess.lock().unwrap();
        let mut topic = p.topic.clone();
        if let Some(a) = wire::prop_u(&p.props, 0x23) {
            let max = l.p.alias_max.unwrap_or(0);
            if a == 0 || a > max as u64 {
                drop(s);
                rec(l.actor, l.id, Ev::InErr(format!("topic alias {a}, the client's maximum is {max}")));
                return;
            }
            if topic.is_empty() && !s.aliases_in.contains_key(&(a as u16)) {
                drop(s);
                rec(l.actor, l.id, Ev::InErr(format!("topic alias {a}, which is not bound")));
                return;
            }
            if topic.is_empty() {
                topic = s.aliases_in.get(&(a as u16)).cloned().unwrap_or("?".into());
            } else {
                s.aliases_in.insert(a as u16, topic.clone());
            }
        }
        let dup_seen = p.qos == 2 && !s.in_qos2.insert(p.pid);
        if !dup_seen {
            let (tag, ok) = untag(&p.payload);
            rec(l.actor, l.id, Ev::App { tag, qos: p.qos, topic, retain: p.retain, len: p.payload.len(), ok, ver: l.ver });
        }
        let answer = match p.qos {
            1 => Pkt::Ack { kind: 4, pid: p.pid, code: 0 },
            2 => Pkt::Ack { kind: 5, pid: p.pid, code: 0 },
            _ => return,
        };
        let mode = s.ack.clone();
        match mode {
            Ack::Auto => {
                drop(s);
                l.send(answer);
            }
            Ack::Hold => s.held.push((l.id, answer)),
            Ack::Some(pc) => {
                if s.rng.chance(pc, 100) {
                    drop(s);
                    l.send(answer);
                } else {
                    s.held.push((l.id, answer));
                }
            }
            Ack::Delay(ms) => {
                let d = s.rng.range(0, ms * MS);
                drop(s);
                tokio::spawn(async move {
                    tokio::time::sleep(Duration::from_nanos(d)).await;
                    if !l.st.lock().unwrap().abandoned {
                        l.send(answer);
                    }
                });
            }
        }
    }
    fn ack(&mut self, kind: u8, pid: u16, code: u8) {
        let l = self.link.clone();
        let mut s = l.sess.lock().unwrap();
        if kind == 6 {
            s.in_qos2.remove(&pid);
            drop(s);
            l.send(Pkt::Ack { kind: 7, pid, code: 0 });
            return;
        }
        *s.owed.entry(pid).or_default() -= 1;
        let Some(i) = s.inflight.iter().position(|m| m.pid == pid) else { return };
        let (q, tag) = (s.inflight[i].p.qos, s.inflight[i].tag);
        match (q, kind) {
            (1, 4) => {
                s.inflight.remove(i);
                drop(s);
                rec(l.actor, l.id, Ev::Acked { tag, code });
            }
            (2, 5) => {
                if code >= 0x80 {
                    s.inflight.remove(i);
                    drop(s);
                    rec(l.actor, l.id, Ev::Acked { tag, code });
                } else {
                    s.inflight[i].rec = true;
                    if !s.hold_rel {
                        s.inflight[i].rel = true;
                        drop(s);
                        l.send(Pkt::Ack { kind: 6, pid, code: 0 });
                    }
                }
            }
            (2, 7) if s.inflight[i].rel => {
                s.inflight.remove(i);
                drop(s);
                rec(l.actor, l.id, Ev::Acked { tag, code });
            }
            _ if l.st.lock().unwrap().rawed => {}
            _ => {
                drop(s);
                rec(l.actor, l.id, Ev::InErr(format!("acknowledgement type {kind} for packet {pid} of QoS {q}")));
            }
        }
        let ws = std::mem::take(&mut l.st.lock().unwrap().waiters);
        ws.into_iter().for_each(|w| w.wake());
    }
}

/// Payload of message `tag`: its number, then a pattern that depends on it.
pub fn payload(tag: u64, pad: usize) -> Vec<u8> {
    let mut v = format!("m{tag};").into_bytes();
    let mut r = simcore::Rng::stream(tag, 99);
    for _ in 0..pad {
        v.push(r.next() as u8);
    }
    v
}
/// The tag, and whether the whole payload is intact.
pub fn untag(b: &[u8]) -> (u64, bool) {
    if b.is_empty() {
        return (0, true);
    }
    let Some(e) = b.iter().position(|x| *x == b';') else { return (u64::MAX, false) };
    let Some(tag) = b.get(1..e).and_then(|b| std::str::from_utf8(b).ok()).and_then(|s| s.parse().ok()) else { return (u64::MAX, false) };
    (tag, b[0] == b'm' && payload(tag, b.len() - e - 1) == b)
}

// ------------------------------------------------------------------ opening

/// PROXY v2 header for a forwarded connection.
pub fn proxy_header(mode: &str, k: usize) -> Vec<u8> {
    let mut tlvs = Vec::new();
    if mode == "tls" {
        tlvs.extend([0x20, 0, 5, 1, 0, 0, 0, 0]);
        let h = b"host.example.org";
        tlvs.extend([2, 0, h.len() as u8]);
        tlvs.extend(h);
    }
    let mut b = b"\r\n\r\n\0\r\nQUIT\n\x21\x11".to_vec();
    b.extend((12 + tlvs.len() as u16).to_be_bytes());
    b.extend([192, 168, (k >> 8) as u8, k as u8, 10, 1, 0, 1, 0x30, k as u8, 7, 91]);
    b.extend(tlvs);
    b
}

async fn layers(stream: net::TcpStream, listener: usize, tls: bool, ws: bool, proxy: Option<Vec<u8>>) -> Result<(Box<dyn Io>, Vec<u8>), String> {
    let _ = listener;
    let mut stream = stream;
    if let Some(h) = proxy {
        stream.write_all(&h).await.map_err(|e| format!("proxy header: {e}"))?;
    }
    let mut io: Box<dyn Io> = if tls {
        let c = tokio_rustls::TlsConnector::from(cx().tls.clone());
        let name = rustls::pki_types::ServerName::try_from("localhost").unwrap();
        Box::new(c.connect(name, stream).await.map_err(|e| format!("tls: {e}"))?)
    } else {
        Box::new(stream)
    };
    let mut left = Vec::new();
    if ws {
        let mut key = [0u8; 16];
        for c in key.chunks_mut(8) {
            c.copy_from_slice(&simcore::entropy().to_le_bytes());
        }
        let key = base64::engine::general_purpose::STANDARD.encode(key);
        let req = format!(
            "GET /mqtt HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: {key}\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: mqtt\r\n\r\n"
        );
        io.write_all(req.as_bytes()).await.map_err(|e| format!("ws request: {e}"))?;
        io.flush().await.map_err(|e| format!("ws request: {e}"))?;
        let mut b = [0u8; 512];
        let end = loop {
            if let Some(i) = left.windows(4).position(|w| w == b"\r\n\r\n") {
                break i;
            }
            let n = io.read(&mut b).await.map_err(|e| format!("ws response: {e}"))?;
            if n == 0 {
                return Err("ws response: closed".into());
            }
            left.extend_from_slice(&b[..n]);
        };
        if !left.starts_with(b"HTTP/1.1 101") {
            return Err("ws response: refused".into());
        }
        left.drain(..end + 4);
    }
    Ok((io, left))
}

pub struct Act {
    pub id: usize,
    pub sess: Arc<Mutex<Sess>>,
    pub last: ConnP,
}

impl Act {
    pub fn new(id: usize, a: &Actor, seed: u64) -> Act {
        Act {
            id,
            sess: Arc::new(Mutex::new(Sess {
                link: None,
                next_pid: 1,
                pid_mod: if a.pid_mod == 0 { 65535 } else { a.pid_mod },
                inflight: vec![],
                in_qos2: BTreeSet::new(),
                ack: Ack::Auto,
                held: vec![],
                hold_rel: false,
                owed: BTreeMap::new(),
                rng: simcore::Rng::stream(seed, 1000 + id as u64),
                aliases_in: BTreeMap::new(),
            })),
            last: ConnP::default(),
        }
    }
    pub fn link(&self) -> Option<Arc<Link>> {
        self.sess.lock().unwrap().link.clone()
    }
    fn live(&self) -> Option<Arc<Link>> {
        self.link().filter(|l| {
            let st = l.st.lock().unwrap();
            !st.dead && st.want_end.is_none()
        })
    }
    fn skip(&self, w: &str) {
        rec(self.id, 0, Ev::Skip(w.into()));
    }
    fn lst(&self, i: usize) -> (std::net::SocketAddr, String, String) {
        let c = cx();
        let i = i % c.addrs.len();
        (c.addrs[i], c.plan.fix_listen[i].kind.clone(), c.plan.fix_listen[i].proxy.clone())
    }

    /// Opens the transport; the connection becomes the actor's current one.
    async fn open(&mut self, p: &ConnP, raw: bool, full: bool) -> Option<Arc<Link>> {
        let (addr, lk, proxy) = self.lst(p.listener);
        let n = cx().plan.fix_nets.get(p.net).cloned().unwrap_or_default();
        let late = profile(&n);
        let (mut c2s, mut s2c) = if p.late { profile(&Net { lat: n.lat, ..Default::default() }) } else { late.clone() };
        if lk == "mqtts" || lk == "wss" {
            // both sides write before they read in a TLS handshake, as if into the kernel's buffers
            c2s.window = c2s.window.max(4096);
            s2c.window = s2c.window.max(4096);
        }
        if let Some(l) = self.link() {
            l.st.lock().unwrap().abandoned = true;
        }
        let (stream, ctl) = match net::connect(addr, c2s, s2c).await {
            Ok(x) => x,
            Err(e) => {
                rec(self.id, 0, Ev::OpenFail(format!("listener {}: {e}", p.listener)));
                return None;
            }
        };
        if let Some((d, b, k)) = p.cut {
            ctl.cut_after(d, b, kind(k));
        }
        let id = hist(|h| {
            h.conns.push(ConnInfo { actor: self.id, p: p.clone(), raw, ctl: Some(ctl.clone()) });
            h.conns.len()
        });
        rec(self.id, id, Ev::Open);
        let tls = full && (lk == "mqtts" || lk == "wss");
        let ws = full && (lk == "ws" || lk == "wss");
        let ph = (full && !proxy.is_empty()).then(|| proxy_header(&proxy, id));
        let r = tokio::time::timeout(Duration::from_secs(30), layers(stream, p.listener, tls, ws, ph)).await;
        let (io, left) = match r {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => {
                rec(self.id, id, Ev::OpenFail(e));
                return None;
            }
            Err(_) => {
                rec(self.id, id, Ev::OpenFail("handshake timed out".into()));
                return None;
            }
        };
        if p.late {
            ctl.set_profile(0, late.0);
            ctl.set_profile(1, late.1);
        }
        let link = Arc::new(Link {
            id,
            actor: self.id,
            ver: p.ver,
            p: p.clone(),
            raw,
            ws,
            ctl,
            st: Mutex::new(LinkSt { reading: true, last_out: simcore::now(), ..Default::default() }),
            sess: self.sess.clone(),
            scram: Mutex::new(p.scram.as_ref().map(scram::Client::new)),
        });
        self.sess.lock().unwrap().link = Some(link.clone());
        let mut t = ConnTask { link: link.clone(), io, buf: Vec::new(), data: Vec::new(), flushing: false, shut: false };
        if !left.is_empty() {
            if let Err(e) = t.input(&left) {
                rec(self.id, id, Ev::InErr(e));
            }
        }
        tokio::spawn(async move {
            let how = poll_fn(|cx| t.poll(cx)).await;
            let l = t.link.clone();
            if how == Ev::Cut('s') {
                l.ctl.cut(CutKind::Silent);
            } else if how == Ev::Cut('r') {
                l.ctl.cut(CutKind::Rst);
            }
            rec(l.actor, l.id, how);
            drop(t);
            let ws = {
                let mut st = l.st.lock().unwrap();
                st.dead = true;
                Link::wake(&mut st)
            };
            ws.into_iter().for_each(|w| w.wake());
        });
        Some(link)
    }

    pub async fn connect(&mut self, p: &ConnP) -> bool {
        let mut tries = p.retries + 1;
        let mut p = p.clone();
        while tries > 0 {
            tries -= 1;
            let ok = self.connect_once(&p).await;
            if let Some(true) = ok {
                self.last = p;
                return true;
            }
            if ok == Some(false) {
                return false;
            }
            p.cut = None;
            if tries > 0 {
                let d = self.sess.lock().unwrap().rng.range(1, 300);
                tokio::time::sleep(Duration::from_millis(d)).await;
            }
        }
        false
    }
    /// Some(accepted) once CONNACK came; None if there was no answer.
    async fn connect_once(&mut self, p: &ConnP) -> Option<bool> {
        let link = self.open(p, false, true).await?;
        let mut props = Props::new();
        if p.ver == 5 {
            if let Some(e) = p.expiry {
                props.push((0x11, Val::U32(e)));
            }
            if let Some(e) = p.rx_max {
                props.push((0x21, Val::U16(e)));
            }
            if let Some(e) = p.max_packet {
                props.push((0x27, Val::U32(e)));
            }
            if let Some(e) = p.alias_max {
                props.push((0x22, Val::U16(e)));
            }
            if let Some(e) = p.problem_info {
                props.push((0x17, Val::U8(e)));
            }
            if let Some(s) = link.scram.lock().unwrap().as_mut() {
                props.extend(s.connect_props());
            }
        }
        let will = p.will.as_ref().map(|w| {
            let mut wp = Props::new();
            if let Some(d) = w.delay {
                wp.push((0x18, Val::U32(d)));
            }
            if let Some(d) = w.expiry {
                wp.push((0x02, Val::U32(d)));
            }
            Will { topic: w.topic.clone(), payload: payload(w.tag, 0), qos: w.qos, retain: w.retain, props: wp }
        });
        let con = Pkt::Connect(Con {
            ver: p.ver,
            cid: p.cid.clone(),
            clean: p.clean,
            keep_alive: p.keep_alive,
            will,
            user: p.user.clone(),
            pass: p.pass.clone().map(|x| x.into_bytes()),
            props,
        });
        if p.piece.0 == 0 {
            link.send(con);
        } else {
            let b = wire::encode(&con, p.ver);
            let n = b.len().div_ceil(p.piece.0);
            for (i, c) in b.chunks(p.piece.0).enumerate() {
                if i + 1 == n {
                    rec(self.id, link.id, Ev::Out(con.clone()));
                }
                link.send_raw(c);
                if i + 1 < n {
                    tokio::time::sleep(Duration::from_millis(p.piece.1)).await;
                }
            }
        }
        if p.wait == 0 {
            return Some(true);
        }
        if !link.until(p.wait, |st| st.connack.is_some()).await {
            if link.alive() {
                // no answer: the client gives up
                rec(self.id, link.id, Ev::Skip("no CONNACK".into()));
                link.end('r');
            }
            return None;
        }
        let (code, ka) = {
            let st = link.st.lock().unwrap();
            let c = st.connack.as_ref().unwrap();
            (c.1, wire::prop_u(&c.2, 0x13))
        };
        let ka = ka.unwrap_or(p.keep_alive as u64);
        if code == 0 && p.ping && ka > 0 {
            let l = link.clone();
            tokio::spawn(async move {
                loop {
                    tokio::time::sleep(Duration::from_millis(ka * 250)).await;
                    let due = {
                        let st = l.st.lock().unwrap();
                        if st.dead || st.abandoned || st.want_end.is_some() {
                            return;
                        }
                        simcore::now() >= st.last_out + ka * 400 * MS
                    };
                    if due {
                        l.send(Pkt::Pingreq);
                    }
                }
            });
        }
        Some(code == 0)
    }

    fn alloc(&self, s: &mut Sess) -> Option<u16> {
        for _ in 0..s.pid_mod {
            let pid = s.next_pid;
            s.next_pid = if s.next_pid >= s.pid_mod { 1 } else { s.next_pid + 1 };
            if !s.inflight.iter().any(|m| m.pid == pid) && s.owed.get(&pid).is_none_or(|n| *n <= 0) {
                return Some(pid);
            }
        }
        None
    }
    /// How many QoS > 0 publishes the broker accepts at a time.
    fn quota(l: &Link) -> usize {
        let st = l.st.lock().unwrap();
        let cfg = cx().global.config.max_inflight_server as usize;
        match &st.connack {
            Some((_, _, props)) if l.ver == 5 => wire::prop_u(props, 0x21).unwrap_or(65535) as usize,
            _ => cfg.max(1),
        }
    }
    async fn publish(&mut self, p: &PubP) {
        let Some(l) = self.live() else { return self.skip("pub") };
        let mut props = Props::new();
        if l.ver == 5 {
            if let Some(e) = p.expiry {
                props.push((0x02, Val::U32(e)));
            }
            if let Some(a) = p.alias {
                props.push((0x23, Val::U16(a)));
            }
        }
        let body = if p.clear { vec![] } else { payload(p.tag, p.pad) };
        let mut pk = Pub {
            dup: false,
            qos: p.qos,
            retain: p.retain,
            topic: if p.noname { String::new() } else { p.topic.clone() },
            pid: 0,
            payload: body,
            props,
        };
        if p.qos > 0 {
            let wait = p.quota_wait.unwrap_or(60_000);
            if wait > 0 {
                let q = Self::quota(&l);
                let s = self.sess.clone();
                if !l.until(wait, |_| s.lock().unwrap().inflight.len() < q).await {
                    return self.skip("pub: quota");
                }
            }
            let mut s = self.sess.lock().unwrap();
            let Some(pid) = self.alloc(&mut s) else {
                drop(s);
                return self.skip("pub: no packet identifier");
            };
            pk.pid = pid;
            if l.ver == 5 && p.alias.is_some() && !p.noname {
                // a retransmission on another connection must not rely on the alias
            }
            let mut keep = pk.clone();
            keep.props.retain(|x| x.0 != 0x23);
            if keep.topic.is_empty() {
                keep.topic = p.topic.clone();
            }
            s.inflight.push(OutMsg { pid, p: keep, tag: p.tag, rel: false, rec: false, epoch: l.id });
        }
        l.send(Pkt::Publish(pk));
    }
    async fn suback(&mut self, l: &Arc<Link>, pid: u16, wait: u64) {
        if wait > 0 && !l.until(wait, |st| st.subacks.contains_key(&pid)).await {
            self.skip("no SUBACK");
        }
    }

    pub async fn op(&mut self, op: &Op) {
        match op {
            Op::Connect(p) => {
                self.connect(p).await;
            }
            Op::Disconnect { code, expiry } => {
                let Some(l) = self.live() else { return self.skip("disconnect") };
                let mut props = Props::new();
                if let (Some(e), 5) = (expiry, l.ver) {
                    props.push((0x11, Val::U32(*e)));
                }
                l.send(Pkt::Disconnect { code: if l.ver == 5 { *code } else { 0 }, props });
                l.end('f');
                l.until(10_000, |st| st.dead).await;
            }
            Op::Cut(k) => {
                let Some(l) = self.live() else { return self.skip("cut") };
                l.end(*k);
                l.until(1000, |st| st.dead).await;
            }
            Op::CutAfter { dir, bytes, kind: k } => {
                let Some(l) = self.live() else { return self.skip("cutafter") };
                let have = if *dir == 0 { l.ctl.c2s_progress().0 } else { l.ctl.server_written() };
                l.ctl.cut_after(*dir, have + bytes, kind(*k));
                rec(self.id, l.id, Ev::Fault(format!("cut {k} after {bytes} bytes of direction {dir}")));
            }
            Op::Stall { dir, ms } => {
                let Some(l) = self.live() else { return self.skip("stall") };
                l.ctl.stall(*dir, ms * MS);
                rec(self.id, l.id, Ev::Fault(format!("direction {dir} stalled for {ms} ms")));
            }
            Op::Net(n) => {
                let Some(l) = self.live() else { return self.skip("net") };
                let n = cx().plan.fix_nets.get(*n).cloned().unwrap_or_default();
                let (a, b) = profile(&n);
                l.ctl.set_profile(0, a);
                l.ctl.set_profile(1, b);
            }
            Op::Sub { filters, sid, wait } => {
                if filters.is_empty() {
                    return self.skip("sub");
                }
                let Some(l) = self.live() else { return self.skip("sub") };
                let pid = {
                    let mut s = self.sess.lock().unwrap();
                    match self.alloc(&mut s) {
                        Some(p) => p,
                        None => return,
                    }
                };
                let mut props = Props::new();
                if let (Some(i), 5) = (sid, l.ver) {
                    props.push((0x0b, Val::Var(*i)));
                }
                let f = filters.iter().map(|(f, o)| (f.clone(), if l.ver == 5 { *o } else { o & 3 })).collect();
                l.st.lock().unwrap().subacks.remove(&pid);
                l.send(Pkt::Subscribe { pid, filters: f, props });
                self.suback(&l, pid, *wait).await;
            }
            Op::Unsub { filters, wait } => {
                if filters.is_empty() {
                    return self.skip("unsub");
                }
                let Some(l) = self.live() else { return self.skip("unsub") };
                let pid = {
                    let mut s = self.sess.lock().unwrap();
                    match self.alloc(&mut s) {
                        Some(p) => p,
                        None => return,
                    }
                };
                l.st.lock().unwrap().subacks.remove(&pid);
                l.send(Pkt::Unsubscribe { pid, filters: filters.clone() });
                self.suback(&l, pid, *wait).await;
            }
            Op::Pub(p) => self.publish(p).await,
            Op::Burst { p, n } => {
                for i in 0..*n {
                    let mut q = p.clone();
                    q.tag += i;
                    self.publish(&q).await;
                }
            }
            Op::WaitAcks(ms) => {
                let Some(l) = self.live() else { return self.skip("waitacks") };
                let s = self.sess.clone();
                if !l.until(*ms, |_| s.lock().unwrap().inflight.is_empty()).await {
                    self.skip("not all acknowledged");
                }
            }
            Op::Resend { rel } => {
                let Some(l) = self.live() else { return self.skip("resend") };
                let v: Vec<Pkt> = {
                    let s = self.sess.lock().unwrap();
                    s.inflight
                        .iter()
                        .filter(|m| m.epoch == l.id)
                        .filter_map(|m| {
                            if m.rel {
                                rel.then_some(Pkt::Ack { kind: 6, pid: m.pid, code: 0 })
                            } else {
                                let mut p = m.p.clone();
                                p.dup = true;
                                Some(Pkt::Publish(p))
                            }
                        })
                        .collect()
                };
                for p in v {
                    l.send(p);
                }
            }
            Op::HoldRel(v) => {
                let (l, pk) = {
                    let mut s = self.sess.lock().unwrap();
                    s.hold_rel = *v;
                    let mut pk = Vec::new();
                    if !v {
                        for m in s.inflight.iter_mut().filter(|m| m.rec && !m.rel) {
                            m.rel = true;
                            pk.push(Pkt::Ack { kind: 6, pid: m.pid, code: 0 });
                        }
                    }
                    (s.link.clone(), pk)
                };
                if let Some(l) = l {
                    pk.into_iter().for_each(|p| l.send(p));
                }
            }
            Op::Release => {
                let Some(l) = self.live() else { return self.skip("release") };
                let v = std::mem::take(&mut self.sess.lock().unwrap().held);
                for (id, p) in v {
                    if id == l.id {
                        l.send(p);
                    }
                }
            }
            Op::Sleep(ms) => tokio::time::sleep(Duration::from_millis(*ms)).await,
            Op::Until(ms) => {
                let now = simcore::now() / MS;
                if *ms > now {
                    tokio::time::sleep(Duration::from_millis(ms - now)).await;
                }
            }
            Op::Ping(wait) => {
                let Some(l) = self.live() else { return self.skip("ping") };
                let n = l.st.lock().unwrap().pongs;
                l.send(Pkt::Pingreq);
                if *wait > 0 && !l.until(*wait, |st| st.pongs > n).await {
                    self.skip("no PINGRESP");
                }
            }
            Op::Read(v) => {
                let Some(l) = self.live() else { return self.skip("read") };
                l.reading(*v);
            }
            Op::Ack(a) => {
                self.sess.lock().unwrap().ack = a.clone();
                rec(self.id, 0, Ev::AckMode(matches!(a, Ack::Auto)));
            }
            Op::Open { listener, net, full, ver } => {
                let p = ConnP { listener: *listener, net: *net, ver: *ver, ..Default::default() };
                self.open(&p, true, *full).await;
            }
            Op::Raw { hex, piece, gap } => {
                let Some(l) = self.live() else { return self.skip("raw") };
                l.st.lock().unwrap().rawed = true;
                let b: Vec<u8> = (0..hex.len() / 2).filter_map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).ok()).collect();
                if *piece == 0 {
                    l.send_raw(&b);
                } else {
                    for c in b.chunks(*piece) {
                        l.send_raw(c);
                        tokio::time::sleep(Duration::from_millis(*gap)).await;
                    }
                }
            }
            Op::AwaitClose(ms) => {
                let Some(l) = self.link() else { return };
                if !l.until(*ms, |st| st.dead).await {
                    self.skip("still open");
                }
            }
            Op::Close => {
                let Some(l) = self.live() else { return };
                l.end('f');
                l.until(10_000, |st| st.dead).await;
            }
            Op::Sync(k) => {
                let need = cx().sync_need.get(k).copied().unwrap_or(1);
                let mut counted = false;
                poll_fn(|c| {
                    let mut g = cx().syncs.lock().unwrap();
                    let e = g.entry(*k).or_default();
                    if !counted {
                        counted = true;
                        e.0 += 1;
                        if e.0 >= need {
                            let ws = std::mem::take(&mut e.1);
                            drop(g);
                            ws.into_iter().for_each(|w| w.wake());
                            return Poll::Ready(());
                        }
                    }
                    if e.0 >= need {
                        return Poll::Ready(());
                    }
                    e.1.push(c.waker().clone());
                    Poll::Pending
                })
                .await
            }
            Op::Jump(ms) => {
                simcore::jump_wall_clock(ms * MS as i64);
                rec(self.id, 0, Ev::Jump(*ms));
            }
            Op::Counters => counters(self.id),
            Op::Mark(s) => rec(self.id, 0, Ev::Mark(s.clone())),
            Op::Fault { listener, at, err, n, ms } => {
                let a = self.lst(*listener).0;
                inject(a, at, err, *n, *ms);
                rec(self.id, 0, Ev::Fault(format!("{n} {err} errors in {at} of listener {listener}, and until {ms} ms later")));
            }
        }
    }
}
pub fn inject(a: std::net::SocketAddr, at: &str, err: &str, n: u32, ms: u64) {
    let c = match at {
        "accept" => net::Call::Accept,
        "bind" => net::Call::Bind,
        _ => net::Call::Listen,
    };
    let e = match err {
        "intr" => 4,
        "nomem" => 12,
        "perm" => 13,
        "nfile" => 23,
        "mfile" => 24,
        "proto" => 71,
        "inuse" => 98,
        "notavail" => 99,
        "aborted" => 103,
        "reset" => 104,
        "nobufs" => 105,
        _ => 5,
    };
    if n > 0 {
        net::inject_errors(a, c, e, n);
    }
    if ms > 0 {
        net::inject_outage(a, c, e, simcore::now() + ms * MS);
    }
}
pub fn counters(actor: usize) {
    let g = &cx().global;
    rec(
        actor,
        0,
        Ev::Counters { online: g.online_clients_count(), clients: g.clients_count(), tasks: simcore::system_tasks_alive() },
    );
}
