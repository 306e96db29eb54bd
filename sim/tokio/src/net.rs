//! The simulated network. Every delay, short read, partial write and fault is
//! drawn from the seeded generator or set by the plan.
use std::collections::{BTreeMap, VecDeque};
use std::future::poll_fn;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};

use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};

/// Behaviour of one direction of a connection.
#[derive(Clone, Debug)]
pub struct Profile {
    /// Latency range in ns.
    pub lat_min: u64,
    pub lat_max: u64,
    /// Bytes that may be in flight or unread before the writer blocks.
    pub window: usize,
    /// Chance per million that a read returns only part of what is there.
    pub short_read_ppm: u64,
    /// Chance per million that a write takes only part of the data.
    pub short_write_ppm: u64,
    /// Chance per million that a write is refused once (pending, woken shortly after).
    pub pend_write_ppm: u64,
    /// Bytes per second; 0: unlimited.
    pub rate: u64,
}
impl Default for Profile {
    fn default() -> Self {
        Profile {
            lat_min: 50_000,
            lat_max: 500_000,
            window: 256 * 1024,
            short_read_ppm: 0,
            short_write_ppm: 0,
            pend_write_ppm: 0,
            rate: 0,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CutKind {
    /// Both sides get ECONNRESET.
    Rst,
    /// Orderly close by the client.
    Fin,
    /// Everything vanishes, nobody is told.
    Silent,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum End {
    Fin,
    Rst,
}
#[derive(Default)]
struct Pipe {
    prof: Profile,
    inflight: VecDeque<(u64, Vec<u8>)>,
    buf: VecDeque<u8>,
    queued: usize,
    last_at: u64,
    end: Option<(u64, End)>,
    /// set when the reading side is gone: when the writer learns it
    reader_gone: Option<u64>,
    silent: bool,
    /// writes are accepted and lost
    reader: Option<Waker>,
    writer: Option<Waker>,
    written: u64,
    read: u64,
    cut_after: Option<(u64, CutKind)>,
    refused: bool,
    /// nothing is delivered before this time
    stall_until: u64,
}
struct Inner {
    /// 0: client to server, 1: server to client
    p: [Pipe; 2],
    closed: [bool; 2],
}
/// One connection; kept by the harness as its control handle.
pub struct Conn {
    pub id: u64,
    pub client: SocketAddr,
    pub server: SocketAddr,
    inner: Mutex<Inner>,
}

#[derive(Default, Clone, Debug)]
pub struct NetStats {
    pub conns: u64,
    pub accepted: u64,
    pub bytes: u64,
    pub short_reads: u64,
    pub short_writes: u64,
    pub pend_writes: u64,
    pub window_full: u64,
    pub rst: u64,
    pub fin: u64,
    pub silent: u64,
    pub cut_after: u64,
    pub accept_errors: u64,
    pub bind_errors: u64,
    pub listen_errors: u64,
    pub stalls: u64,
}
#[derive(Default)]
struct ListenState {
    queue: VecDeque<Arc<Conn>>,
    waker: Option<Waker>,
    alive: bool,
    reuse: bool,
}
struct Net {
    rng: simcore::Rng,
    listeners: BTreeMap<SocketAddr, Vec<Arc<Mutex<ListenState>>>>,
    /// errors still to be returned: call, errno
    errors: BTreeMap<(SocketAddr, Call), VecDeque<i32>>,
    /// the call fails with this error until this time
    broken: BTreeMap<(SocketAddr, Call), (i32, u64)>,
    /// when which address saw an error
    log: Vec<(u64, SocketAddr)>,
    /// connections accepted on an address
    accepted: BTreeMap<SocketAddr, Vec<std::sync::Weak<Conn>>>,
    /// errors at one moment
    spin: (u64, u32),
    stats: NetStats,
    next: u64,
}
static NET: Mutex<Option<Net>> = Mutex::new(None);
fn net<R>(f: impl FnOnce(&mut Net) -> R) -> R {
    let mut g = NET.lock().unwrap_or_else(|e| e.into_inner());
    let n = g.get_or_insert_with(|| Net {
        rng: simcore::Rng::stream(1, 3),
        listeners: BTreeMap::new(),
        errors: BTreeMap::new(),
        broken: BTreeMap::new(),
        log: Vec::new(),
        accepted: BTreeMap::new(),
        spin: (0, 0),
        stats: NetStats::default(),
        next: 0,
    });
    f(n)
}
/// Seeds the network of this run.
pub fn configure(seed: u64) {
    net(|n| n.rng = simcore::Rng::stream(seed, 3));
}
pub fn net_stats() -> NetStats {
    net(|n| n.stats.clone())
}
/// A system call of a listening socket.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Call {
    Bind,
    Listen,
    Accept,
}
/// The next `n` calls fail.
pub fn inject_errors(a: SocketAddr, c: Call, errno: i32, n: u32) {
    let w = net(|x| {
        x.errors.entry((a, c)).or_default().extend((0..n).map(|_| errno));
        let v = x.listeners.get(&a)?;
        (c == Call::Accept).then(|| v.iter().filter_map(|l| l.lock().unwrap().waker.take()).collect::<Vec<_>>())
    });
    for w in w.into_iter().flatten() {
        w.wake();
    }
}
/// The call fails until the given time; accepting only when there is something to accept.
pub fn inject_outage(a: SocketAddr, c: Call, errno: i32, until: u64) {
    net(|x| x.broken.insert((a, c), (errno, until)));
}
/// When the calls of which address failed.
pub fn error_log() -> Vec<(u64, SocketAddr)> {
    net(|n| n.log.clone())
}
fn failing(a: SocketAddr, c: Call, waiting: bool) -> Option<io::Error> {
    let now = simcore::now();
    let (e, spin) = net(|n| {
        let mut e = n.errors.get_mut(&(a, c)).and_then(|q| q.pop_front());
        if e.is_none() && waiting {
            e = n.broken.get(&(a, c)).filter(|b| b.1 > now).map(|b| b.0);
        }
        let e = e?;
        Some((e, note_error(n, Some(a), c)))
    })?;
    if spin {
        simcore::spinning();
    }
    Some(io::Error::from_raw_os_error(e))
}
fn note_error(n: &mut Net, a: Option<SocketAddr>, c: Call) -> bool {
    let now = simcore::now();
    *match c {
        Call::Bind => &mut n.stats.bind_errors,
        Call::Listen => &mut n.stats.listen_errors,
        Call::Accept => &mut n.stats.accept_errors,
    } += 1;
    n.log.extend(a.map(|a| (now, a)));
    n.spin = if n.spin.0 == now { (now, n.spin.1 + 1) } else { (now, 0) };
    n.spin.1 > 5000
}
/// Number of sockets listening on the address.
pub fn listening(a: SocketAddr) -> usize {
    net(|n| n.listeners.get(&a).map_or(0, |v| v.iter().filter(|l| l.lock().unwrap().alive).count()))
}

/// A connection that goes to no listener: the two ends.
pub fn pair(c2s: Profile, s2c: Profile) -> (TcpStream, TcpStream, Arc<Conn>) {
    let id = net(|n| {
        n.stats.conns += 1;
        n.next += 1;
        n.next
    });
    let client: SocketAddr = ([10, 0, (id >> 8) as u8, id as u8], 40000 + (id % 20000) as u16).into();
    let conn = new_conn(id, client, ([10, 1, 0, 1], 1883).into(), c2s, s2c);
    (TcpStream { conn: conn.clone(), side: 0 }, TcpStream { conn: conn.clone(), side: 1 }, conn)
}
fn new_conn(id: u64, client: SocketAddr, server: SocketAddr, c2s: Profile, s2c: Profile) -> Arc<Conn> {
    Arc::new(Conn {
        id,
        client,
        server,
        inner: Mutex::new(Inner {
            p: [Pipe { prof: c2s, ..Pipe::default() }, Pipe { prof: s2c, ..Pipe::default() }],
            closed: [false; 2],
        }),
    })
}
/// Connects to a listener of the simulated system.
pub async fn connect(a: SocketAddr, c2s: Profile, s2c: Profile) -> io::Result<(TcpStream, Arc<Conn>)> {
    let lat = c2s.lat_min;
    crate::time::sleep(std::time::Duration::from_nanos(lat)).await;
    let r = net(|n| {
        let v = n.listeners.get(&a).cloned().unwrap_or_default();
        let v: Vec<_> = v.into_iter().filter(|l| l.lock().unwrap().alive).collect();
        if v.is_empty() {
            return None;
        }
        let l = v[n.rng.below(v.len() as u64) as usize].clone();
        n.stats.conns += 1;
        n.next += 1;
        Some((l, n.next))
    });
    let Some((l, id)) = r else { return Err(io::ErrorKind::ConnectionRefused.into()) };
    let client: SocketAddr = ([10, 0, (id >> 8) as u8, id as u8], 40000 + (id % 20000) as u16).into();
    let conn = new_conn(id, client, a, c2s, s2c);
    let w = {
        let mut l = l.lock().unwrap();
        l.queue.push_back(conn.clone());
        l.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
    Ok((TcpStream { conn: conn.clone(), side: 0 }, conn))
}

impl Conn {
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// Cuts the connection now.
    pub fn cut(&self, kind: CutKind) {
        let ws = self.cut_inner(&mut self.lock(), kind);
        for w in ws {
            w.wake();
        }
    }
    fn cut_inner(&self, i: &mut Inner, kind: CutKind) -> Vec<Waker> {
        let mut ws = Vec::new();
        let now = simcore::now();
        match kind {
            CutKind::Rst => {
                for d in 0..2 {
                    let keep = net(|n| {
                        n.stats.rst += (d == 0) as u64;
                        n.rng.chance(1, 2)
                    });
                    let p = &mut i.p[d];
                    if !keep {
                        p.inflight.clear();
                        p.queued = p.buf.len();
                    }
                    let at = p.last_at.max(now + p.prof.lat_min);
                    p.end = Some((at, End::Rst));
                    p.reader_gone = Some(now);
                    ws.extend(p.writer.take());
                    if let Some(w) = p.reader.take() {
                        simcore::add_timer(at, w);
                    }
                }
            }
            CutKind::Fin => {
                net(|n| n.stats.fin += 1);
                ws.extend(self.fin(i, 0));
            }
            CutKind::Silent => {
                net(|n| n.stats.silent += 1);
                for p in &mut i.p {
                    p.silent = true;
                    p.inflight.clear();
                    // the kernel's buffer takes what is written for a while
                    p.prof.window = p.prof.window.max(256 * 1024);
                    ws.extend(p.writer.take());
                }
            }
        }
        ws
    }
    fn fin(&self, i: &mut Inner, d: usize) -> Option<Waker> {
        let p = &mut i.p[d];
        if p.end.is_none() && !p.silent {
            let lat = latency(p);
            p.end = Some((lat, End::Fin));
            if let Some(w) = p.reader.take() {
                simcore::add_timer(lat, w);
            }
        }
        None
    }
    /// Cut when `bytes` bytes of the direction (0: to the server) have been written.
    pub fn cut_after(&self, dir: usize, bytes: u64, kind: CutKind) {
        self.lock().p[dir].cut_after = Some((bytes, kind));
    }
    /// Nothing of the direction arrives for a while.
    pub fn stall(&self, dir: usize, ns: u64) {
        net(|n| n.stats.stalls += 1);
        let mut i = self.lock();
        let until = simcore::now() + ns;
        let p = &mut i.p[dir];
        p.stall_until = p.stall_until.max(until);
        if let Some(w) = p.reader.clone() {
            simcore::add_timer(until, w);
        }
    }
    pub fn set_profile(&self, dir: usize, prof: Profile) {
        self.lock().p[dir].prof = prof;
    }
    /// The server side has dropped its end.
    pub fn server_closed(&self) -> bool {
        self.lock().closed[1]
    }
    /// Bytes the server side has written.
    pub fn server_written(&self) -> u64 {
        self.lock().p[1].written
    }
    /// (bytes written by the client, bytes read by the server)
    pub fn c2s_progress(&self) -> (u64, u64) {
        let i = self.lock();
        (i.p[0].written, i.p[0].read)
    }
}
fn latency(p: &mut Pipe) -> u64 {
    let l = net(|n| n.rng.range(p.prof.lat_min, p.prof.lat_max.max(p.prof.lat_min)));
    let at = (simcore::now() + l).max(p.last_at);
    p.last_at = at;
    at
}

/// One end of a simulated connection.
pub struct TcpStream {
    conn: Arc<Conn>,
    side: usize,
}
impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TcpStream({}, {})", self.conn.id, self.side)
    }
}
impl TcpStream {
    pub fn conn(&self) -> &Arc<Conn> {
        &self.conn
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(if self.side == 0 { self.conn.server } else { self.conn.client })
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(if self.side == 0 { self.conn.client } else { self.conn.server })
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    /// Outgoing connections do not exist in the simulated system.
    pub async fn connect<A>(_: A) -> io::Result<TcpStream> {
        Err(io::ErrorKind::Unsupported.into())
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut g = self.conn.lock();
        let i = &mut *g;
        let p = &mut i.p[1 - self.side];
        let now = simcore::now();
        if now >= p.stall_until {
            while p.inflight.front().is_some_and(|s| s.0 <= now) {
                let (_, d) = p.inflight.pop_front().unwrap();
                p.buf.extend(d);
            }
        }
        if out.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        if !p.buf.is_empty() {
            let mut n = p.buf.len().min(out.remaining());
            if n > 1 && p.prof.short_read_ppm > 0 {
                let ppm = p.prof.short_read_ppm;
                let m = n as u64;
                if let Some(k) = net(|x| {
                    x.rng.chance(ppm, 1_000_000).then(|| {
                        x.stats.short_reads += 1;
                        x.rng.range(1, m - 1)
                    })
                }) {
                    n = k as usize;
                }
            }
            let (a, b) = p.buf.as_slices();
            let na = n.min(a.len());
            out.put_slice(&a[..na]);
            out.put_slice(&b[..n - na]);
            p.buf.drain(..n);
            p.queued -= n;
            p.read += n as u64;
            simcore::fold(n as u64 ^ (self.conn.id << 32));
            let w = p.writer.take();
            drop(g);
            if let Some(w) = w {
                w.wake();
            }
            return Poll::Ready(Ok(()));
        }
        let next = match (p.inflight.front(), p.end) {
            (Some((at, _)), _) => Some(*at),
            (None, Some((at, e))) => {
                if at <= now && now >= p.stall_until && !p.silent {
                    return Poll::Ready(match e {
                        End::Fin => Ok(()),
                        End::Rst => Err(io::ErrorKind::ConnectionReset.into()),
                    });
                }
                Some(at)
            }
            _ => None,
        };
        let stall = p.stall_until;
        match next {
            Some(at) if !p.silent => {
                p.reader = Some(cx.waker().clone());
                simcore::add_timer(at.max(stall), cx.waker().clone());
            }
            _ => p.reader = Some(cx.waker().clone()),
        }
        Poll::Pending
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let mut g = self.conn.lock();
        let i = &mut *g;
        let now = simcore::now();
        let p = &mut i.p[self.side];
        if p.end.is_some() || p.reader_gone.is_some_and(|t| t <= now) {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if data.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if p.reader_gone.is_some() {
            // the peer is gone but this side does not know yet
            p.written += data.len() as u64;
            return Poll::Ready(Ok(data.len()));
        }
        let room = p.prof.window.saturating_sub(p.queued);
        if room == 0 {
            net(|n| n.stats.window_full += 1);
            p.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if !p.refused && p.prof.pend_write_ppm > 0 {
            let ppm = p.prof.pend_write_ppm;
            if let Some(d) = net(|x| {
                x.rng.chance(ppm, 1_000_000).then(|| {
                    x.stats.pend_writes += 1;
                    x.rng.range(1_000, 2_000_000)
                })
            }) {
                p.refused = true;
                p.writer = Some(cx.waker().clone());
                simcore::add_timer(now + d, cx.waker().clone());
                return Poll::Pending;
            }
        }
        p.refused = false;
        let mut n = data.len().min(room);
        if n > 1 && p.prof.short_write_ppm > 0 {
            let ppm = p.prof.short_write_ppm;
            let m = n as u64;
            if let Some(k) = net(|x| {
                x.rng.chance(ppm, 1_000_000).then(|| {
                    x.stats.short_writes += 1;
                    x.rng.range(1, m - 1)
                })
            }) {
                n = k as usize;
            }
        }
        let mut cut = None;
        if let Some((lim, kind)) = p.cut_after {
            if p.written + n as u64 >= lim {
                // a FIN of the client loses nothing of what the server writes
                if self.side == 0 || kind != CutKind::Fin {
                    n = (lim.saturating_sub(p.written) as usize).min(n);
                }
                cut = Some(kind);
                p.cut_after = None;
            }
        }
        simcore::fold(n as u64 ^ (self.conn.id << 40));
        if n > 0 {
            net(|x| x.stats.bytes += n as u64);
            p.written += n as u64;
            p.queued += n;
            if !p.silent {
                let mut at = latency(p);
                if p.prof.rate > 0 {
                    at += n as u64 * 1_000_000_000 / p.prof.rate;
                    p.last_at = at;
                }
                p.inflight.push_back((at, data[..n].to_vec()));
                if let Some(w) = p.reader.take() {
                    simcore::add_timer(at.max(p.stall_until), w);
                }
            }
        }
        if let Some(kind) = cut {
            net(|x| x.stats.cut_after += 1);
            let ws = self.conn.cut_inner(i, kind);
            drop(g);
            for w in ws {
                w.wake();
            }
            if n == 0 {
                return match kind {
                    CutKind::Rst => Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())),
                    _ => Poll::Ready(Ok(data.len())),
                };
            }
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut g = self.conn.lock();
        self.conn.fin(&mut g, self.side);
        Poll::Ready(Ok(()))
    }
}
impl Drop for TcpStream {
    fn drop(&mut self) {
        let mut g = self.conn.lock();
        let i = &mut *g;
        i.closed[self.side] = true;
        let mut ws = Vec::new();
        let (me, other) = (self.side, 1 - self.side);
        let unread = i.p[other].queued > 0;
        let now = simcore::now();
        {
            let p = &mut i.p[me];
            if p.end.is_none() && !p.silent {
                // closing with unread data makes the kernel send a reset
                let lat = latency(p);
                p.end = Some((lat, if unread { End::Rst } else { End::Fin }));
                if let Some(w) = p.reader.take() {
                    simcore::add_timer(lat, w);
                }
            }
        }
        let p = &mut i.p[other];
        if p.reader_gone.is_none() && !p.silent {
            let at = now + p.prof.lat_max;
            p.reader_gone = Some(at);
            if let Some(w) = p.writer.take() {
                simcore::add_timer(at, w);
            }
        }
        p.inflight.clear();
        p.buf.clear();
        ws.extend(p.reader.take());
        drop(g);
        drop(ws);
    }
}

pub struct TcpSocket {
    v6: bool,
    addr: Mutex<Option<SocketAddr>>,
    reuseport: Mutex<bool>,
    reuseaddr: Mutex<bool>,
}
impl TcpSocket {
    fn new(v6: bool) -> io::Result<TcpSocket> {
        Ok(TcpSocket { v6, addr: Mutex::new(None), reuseport: Mutex::new(false), reuseaddr: Mutex::new(false) })
    }
    pub fn new_v4() -> io::Result<TcpSocket> {
        Self::new(false)
    }
    pub fn new_v6() -> io::Result<TcpSocket> {
        Self::new(true)
    }
    pub fn set_reuseaddr(&self, v: bool) -> io::Result<()> {
        *self.reuseaddr.lock().unwrap() = v;
        Ok(())
    }
    pub fn set_reuseport(&self, v: bool) -> io::Result<()> {
        *self.reuseport.lock().unwrap() = v;
        Ok(())
    }
    pub fn bind(&self, a: SocketAddr) -> io::Result<()> {
        if a.is_ipv6() != self.v6 {
            return Err(io::Error::from_raw_os_error(97));
        }
        if let Some(e) = failing(a, Call::Bind, true) {
            return Err(e);
        }
        if !*self.reuseaddr.lock().unwrap() && !*self.reuseport.lock().unwrap() {
            // connections accepted before keep the address busy
            let spin = net(|n| {
                let v = n.accepted.entry(a).or_default();
                v.retain(|c| c.upgrade().is_some_and(|c| !c.lock().closed[1]));
                (!v.is_empty()).then(|| note_error(n, None, Call::Bind))
            });
            match spin {
                Some(true) => simcore::spinning(),
                Some(false) => return Err(io::Error::from_raw_os_error(98)),
                None => {}
            }
        }
        *self.addr.lock().unwrap() = Some(a);
        Ok(())
    }
    pub fn listen(self, _backlog: u32) -> io::Result<TcpListener> {
        let a = self.addr.lock().unwrap().unwrap_or_else(|| ([0, 0, 0, 0], 0).into());
        let reuse = *self.reuseport.lock().unwrap();
        if let Some(e) = failing(a, Call::Listen, true) {
            return Err(e);
        }
        let l = Arc::new(Mutex::new(ListenState { alive: true, reuse, ..Default::default() }));
        net(|n| {
            let v = n.listeners.entry(a).or_default();
            if v.iter().any(|l| {
                let l = l.lock().unwrap();
                l.alive && !(reuse && l.reuse)
            }) {
                return Err(io::Error::from_raw_os_error(98));
            }
            v.retain(|l| l.lock().unwrap().alive);
            v.push(l.clone());
            Ok(())
        })?;
        Ok(TcpListener { addr: a, state: l })
    }
}
pub struct TcpListener {
    addr: SocketAddr,
    state: Arc<Mutex<ListenState>>,
}
impl TcpListener {
    pub async fn bind(a: SocketAddr) -> io::Result<TcpListener> {
        let s = TcpSocket::new_v4()?;
        s.bind(a)?;
        s.listen(1024)
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        poll_fn(|cx| self.poll_accept(cx)).await
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        let mut l = self.state.lock().unwrap();
        let waiting = !l.queue.is_empty();
        if let Some(e) = failing(self.addr, Call::Accept, waiting) {
            if matches!(e.raw_os_error(), Some(103 | 104)) {
                // it is the connection that is gone
                if let Some(c) = l.queue.pop_front() {
                    drop(l);
                    c.cut(CutKind::Rst);
                }
            }
            return Poll::Ready(Err(e));
        }
        match l.queue.pop_front() {
            Some(c) => {
                net(|n| {
                    n.stats.accepted += 1;
                    let v = n.accepted.entry(self.addr).or_default();
                    v.retain(|c| c.strong_count() > 0);
                    v.push(Arc::downgrade(&c));
                });
                let peer = c.client;
                Poll::Ready(Ok((TcpStream { conn: c, side: 1 }, peer)))
            }
            None => {
                l.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        let q = {
            let mut l = self.state.lock().unwrap_or_else(|e| e.into_inner());
            l.alive = false;
            std::mem::take(&mut l.queue)
        };
        // connections that were never accepted are reset
        for c in q {
            c.cut(CutKind::Rst);
        }
    }
}
