#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
use akasa_core::{Config, GlobalState, Hook};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone)]
struct NoHook;
impl Hook for NoHook {}

/// Starts a broker; its configuration is the default with the given fields replaced.
fn broker(edit: serde_json::Value) -> (SocketAddr, Arc<GlobalState>) {
    broker_with(edit, NoHook)
}
fn broker_with<H: Hook + Clone + Send + Sync + 'static>(edit: serde_json::Value, h: H) -> (SocketAddr, Arc<GlobalState>) {
    let addr = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
    let mut v = serde_json::to_value(Config::new_allow_anonymous()).unwrap();
    v["listeners"] = serde_json::json!({"mqtt": {"addr": addr.to_string(), "reuse_port": false, "proxy_mode": null}, "mqtts": null, "ws": null, "wss": null, "http": null});
    if let Some(m) = edit.as_object() {
        for (k, x) in m {
            v[k] = x.clone();
        }
    }
    let g = Arc::new(GlobalState::new(serde_json::from_value(v).unwrap()));
    let g2 = g.clone();
    std::thread::spawn(move || akasa_core::server::rt::start(h, g2));
    for _ in 0..100 {
        if TcpStream::connect(addr).is_ok() {
            break;
        }
        ms(50);
    }
    (addr, g)
}
fn ms(n: u64) {
    std::thread::sleep(Duration::from_millis(n))
}
fn s(x: &str) -> Vec<u8> {
    let mut v = (x.len() as u16).to_be_bytes().to_vec();
    v.extend(x.bytes());
    v
}
fn packet(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    let mut n = body.len();
    loop {
        v.push((n % 128) as u8 | if n >= 128 { 128 } else { 0 });
        n /= 128;
        if n == 0 {
            break;
        }
    }
    v.extend(body);
    v
}
#[derive(Debug, Clone)]
struct Msg {
    topic: String,
    qos: u8,
    dup: bool,
    retain: bool,
    pid: u16,
    /// properties, v5
    props: Vec<u8>,
    payload: String,
}
/// A small client that blocks.
struct Client {
    io: TcpStream,
    v: u8,
    pid: u16,
    buf: Vec<u8>,
    msgs: Vec<Msg>,
    /// acknowledge by itself
    auto: bool,
    /// session present, code
    connack: (bool, u8),
}
#[derive(Default, Clone)]
struct Opt {
    clean: bool,
    keep: u16,
    /// properties of CONNECT, v5
    props: Vec<u8>,
    /// will: topic, payload, QoS, retain, properties
    will: Option<(&'static str, &'static str, u8, bool, Vec<u8>)>,
}
fn expiry(n: u32) -> Vec<u8> {
    let mut v = vec![0x11];
    v.extend(n.to_be_bytes());
    v
}
impl Client {
    fn open(a: SocketAddr, v: u8) -> Client {
        let io = TcpStream::connect(a).unwrap();
        io.set_nodelay(true).unwrap();
        Client { io, v, pid: 0, buf: vec![], msgs: vec![], auto: true, connack: (false, 255) }
    }
    fn connect(a: SocketAddr, v: u8, cid: &str, o: Opt) -> Client {
        let mut c = Self::open(a, v);
        c.send_connect(cid, &o);
        c.await_connack();
        c
    }
    fn clean(a: SocketAddr, v: u8, cid: &str) -> Client {
        Self::connect(a, v, cid, Opt { clean: true, ..Default::default() })
    }
    fn send_connect(&mut self, cid: &str, o: &Opt) {
        let mut b = s("MQTT");
        let mut f = (o.clean as u8) << 1;
        if let Some(w) = &o.will {
            f |= 4 | w.2 << 3 | (w.3 as u8) << 5;
        }
        b.extend([self.v, f]);
        b.extend(o.keep.to_be_bytes());
        if self.v == 5 {
            b.push(o.props.len() as u8);
            b.extend(&o.props);
        }
        b.extend(s(cid));
        if let Some(w) = &o.will {
            if self.v == 5 {
                b.push(w.4.len() as u8);
                b.extend(&w.4);
            }
            b.extend(s(w.0));
            b.extend(s(w.1));
        }
        self.raw(&packet(0x10, &b));
    }
    fn await_connack(&mut self) {
        let (_, b) = self.until(0x20).expect("CONNACK");
        self.connack = (b[0] == 1, b[1]);
    }
    fn raw(&mut self, b: &[u8]) {
        let _ = self.io.write_all(b);
    }
    /// The next packet, within `t` ms; None: nothing, Some((0, _)): the connection has ended.
    fn next(&mut self, t: u64) -> Option<(u8, Vec<u8>)> {
        let end = Instant::now() + Duration::from_millis(t);
        loop {
            if let Some(p) = self.cut() {
                return Some(p);
            }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return None;
            }
            self.io.set_read_timeout(Some(left)).unwrap();
            let mut x = [0; 65536];
            match self.io.read(&mut x) {
                Ok(0) => return Some((0, vec![])),
                Ok(n) => self.buf.extend(&x[..n]),
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => return None,
                Err(_) => return Some((0, vec![])),
            }
        }
    }
    fn cut(&mut self) -> Option<(u8, Vec<u8>)> {
        let (mut n, mut k) = (0usize, 1);
        loop {
            let x = *self.buf.get(k)?;
            n |= ((x & 127) as usize) << (7 * (k - 1));
            k += 1;
            if x < 128 {
                break;
            }
        }
        if self.buf.len() < k + n {
            return None;
        }
        let first = self.buf[0];
        let b = self.buf[k..k + n].to_vec();
        self.buf.drain(..k + n);
        Some((first, b))
    }
    fn note(&mut self, f: u8, b: &[u8]) {
        if f >> 4 == 3 {
            let n = u16::from_be_bytes([b[0], b[1]]) as usize;
            let topic = String::from_utf8_lossy(&b[2..2 + n]).to_string();
            let mut k = 2 + n;
            let qos = f >> 1 & 3;
            let mut pid = 0;
            if qos > 0 {
                pid = u16::from_be_bytes([b[k], b[k + 1]]);
                k += 2;
            }
            let mut props = vec![];
            if self.v == 5 {
                let m = b[k] as usize;
                assert!(m < 128);
                props = b[k + 1..k + 1 + m].to_vec();
                k += 1 + m;
            }
            let payload = String::from_utf8_lossy(&b[k..]).to_string();
            self.msgs.push(Msg { topic, qos, dup: f & 8 != 0, retain: f & 1 != 0, pid, props, payload });
            if self.auto && qos == 1 {
                self.ack(0x40, pid)
            }
            if self.auto && qos == 2 {
                self.ack(0x50, pid)
            }
        }
        if f >> 4 == 6 {
            self.ack(0x70, u16::from_be_bytes([b[0], b[1]]))
        }
        if f >> 4 == 5 {
            self.ack(0x62, u16::from_be_bytes([b[0], b[1]]))
        }
    }
    fn ack(&mut self, first: u8, pid: u16) {
        self.raw(&packet(first, &pid.to_be_bytes()))
    }
    /// Reads until this packet type comes (within 10 s).
    fn until(&mut self, first: u8) -> Option<(u8, Vec<u8>)> {
        let end = Instant::now() + Duration::from_secs(10);
        while Instant::now() < end {
            let Some((f, b)) = self.next(1000) else { continue };
            if f == 0 {
                return None;
            }
            self.note(f, &b);
            if f & 0xf0 == first & 0xf0 {
                return Some((f, b));
            }
        }
        None
    }
    /// Reads for `t` ms; true: the broker has closed the connection.
    fn read(&mut self, t: u64) -> bool {
        let end = Instant::now() + Duration::from_millis(t);
        while let Some((f, b)) = self.next(end.saturating_duration_since(Instant::now()).as_millis() as u64) {
            if f == 0 {
                return true;
            }
            self.note(f, &b);
        }
        false
    }
    fn pid(&mut self) -> u16 {
        self.pid += 1;
        self.pid
    }
    /// The reason codes.
    fn subscribe(&mut self, fs: &[(&str, u8)]) -> Vec<u8> {
        let mut b = self.pid().to_be_bytes().to_vec();
        if self.v == 5 {
            b.push(0);
        }
        for (f, o) in fs {
            b.extend(s(f));
            b.push(*o);
        }
        self.raw(&packet(0x82, &b));
        let (_, b) = self.until(0x90).expect("SUBACK");
        b[2 + (self.v == 5) as usize..].to_vec()
    }
    fn unsubscribe(&mut self, f: &str) {
        let mut b = self.pid().to_be_bytes().to_vec();
        if self.v == 5 {
            b.push(0);
        }
        b.extend(s(f));
        self.raw(&packet(0xa2, &b));
        self.until(0xb0).expect("UNSUBACK");
    }
    /// Publishes; the properties count for v5 only. Waits for the acknowledgement if `wait`.
    fn publish_p(&mut self, topic: &str, payload: &str, qos: u8, retain: bool, props: &[u8], wait: bool) -> u16 {
        let mut b = s(topic);
        let mut pid = 0;
        if qos > 0 {
            pid = self.pid();
            b.extend(pid.to_be_bytes());
        }
        if self.v == 5 {
            b.push(props.len() as u8);
            b.extend(props);
        }
        b.extend(payload.bytes());
        self.raw(&packet(0x30 | qos << 1 | retain as u8, &b));
        if wait && qos > 0 {
            self.until(if qos == 1 { 0x40 } else { 0x70 }).expect("acknowledgement");
        }
        pid
    }
    fn publish(&mut self, topic: &str, payload: &str, qos: u8) -> u16 {
        self.publish_p(topic, payload, qos, false, &[], true)
    }
    fn retain(&mut self, topic: &str, payload: &str, qos: u8) -> u16 {
        self.publish_p(topic, payload, qos, true, &[], true)
    }
    /// Answers come in order: what the broker had to do for this client before is done.
    fn ping(&mut self) -> bool {
        self.raw(&[0xc0, 0]);
        self.until(0xd0).is_some()
    }
    fn disconnect(mut self) {
        self.raw(&[0xe0, 0]);
        ms(100);
    }
    /// Ends without DISCONNECT.
    fn kill(self) {
        drop(self);
        ms(200);
    }
    fn got(&self) -> Vec<String> {
        self.msgs.iter().map(|m| m.payload.clone()).collect()
    }
}
#[track_caller]
fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
}
