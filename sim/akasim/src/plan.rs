//! What a run does: everything a simulated execution depends on.
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(default)]
pub struct Plan {
    pub prop: String,
    pub kind: String,
    pub suite: String,
    pub index: u64,
    pub seed: u64,
    pub sched: Sched,
    /// overrides of fields of the broker's configuration
    pub cfg: Value,
    /// listeners: 0 plain, 1 TLS, 2 WebSocket, 3 WebSocket over TLS
    pub fix_listen: Vec<Lst>,
    pub fix_nets: Vec<Net>,
    pub actors: Vec<Actor>,
    /// virtual seconds the run goes on after the last actor has finished
    pub settle: u64,
    /// whatever else a property needs
    pub x: Value,
}
impl Default for Plan {
    fn default() -> Self {
        Plan {
            prop: String::new(),
            kind: String::new(),
            suite: "akasim".into(),
            index: 0,
            seed: 1,
            sched: Sched::default(),
            cfg: Value::Object(Default::default()),
            fix_listen: vec![],
            fix_nets: vec![],
            actors: vec![],
            settle: 5,
            x: Value::Null,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(default)]
pub struct Sched {
    pub workers: usize,
    pub preempt_ppm: u64,
    pub long_ppm: u64,
    pub long_us: u64,
    pub fifo: bool,
    pub wake_delay_ppm: u64,
    pub wake_delay_us: u64,
    pub max_steps: u64,
}
impl Default for Sched {
    fn default() -> Self {
        Sched { workers: 1, preempt_ppm: 0, long_ppm: 0, long_us: 0, fifo: true, wake_delay_ppm: 0, wake_delay_us: 0, max_steps: 3_000_000 }
    }
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Lst {
    /// mqtt, mqtts, ws, wss
    pub kind: String,
    /// "", "normal", "tls"
    pub proxy: String,
    pub reuse_port: bool,
    pub v6: bool,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Net {
    /// latency (µs)
    pub lat: (u64, u64),
    /// flow-control windows in bytes, to and from the broker; 0: large
    pub win: (usize, usize),
    pub short_read: u64,
    pub short_write: u64,
    pub pend_write: u64,
    pub rate: u64,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Actor {
    pub name: String,
    pub pid_mod: u16,
    pub ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(default)]
pub struct ConnP {
    pub cid: String,
    pub ver: u8,
    pub clean: bool,
    pub keep_alive: u16,
    pub expiry: Option<u32>,
    pub rx_max: Option<u16>,
    pub max_packet: Option<u32>,
    pub alias_max: Option<u16>,
    pub problem_info: Option<u8>,
    pub will: Option<WillP>,
    pub user: Option<String>,
    pub pass: Option<String>,
    pub listener: usize,
    pub net: usize,
    /// (direction, bytes, kind)
    pub cut: Option<(usize, u64, char)>,
    /// further attempts when the connection breaks before CONNACK
    pub retries: u32,
    /// ms to wait for CONNACK
    pub wait: u64,
    /// send PINGREQ whenever nothing was sent for half the keep-alive
    pub ping: bool,
    /// SCRAM: (user, password, edits)
    pub scram: Option<ScramP>,
    pub proxy: Option<String>,
    /// CONNECT goes out in pieces of this many bytes (0: whole), this many ms apart
    pub piece: (usize, u64),
    /// bytes handed to the transport at a time (one WebSocket message, one TLS record); 0: one packet
    pub frame: usize,
    /// WebSocket: 1 ping frames in between, 2 fragmented messages, 4 empty messages, 8 raw bytes are not framed
    pub ws: u8,
    /// the network profile applies once TLS and WebSocket are set up
    pub late: bool,
}
impl Default for ConnP {
    fn default() -> Self {
        ConnP {
            cid: String::new(),
            ver: 4,
            clean: true,
            keep_alive: 0,
            expiry: None,
            rx_max: None,
            max_packet: None,
            alias_max: None,
            problem_info: None,
            will: None,
            user: None,
            pass: None,
            listener: 0,
            net: 0,
            cut: None,
            retries: 0,
            wait: 20_000,
            ping: false,
            scram: None,
            proxy: None,
            piece: (0, 0),
            frame: 0,
            ws: 0,
            late: false,
        }
    }
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct ScramP {
    pub user: String,
    pub pass: String,
    pub authzid: Option<String>,
    pub method: String,
    /// what is wrong with the exchange ("" for nothing)
    pub edit: String,
    /// ms before the client's last message
    pub delay: u64,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct WillP {
    pub topic: String,
    pub tag: u64,
    pub qos: u8,
    pub retain: bool,
    pub delay: Option<u32>,
    pub expiry: Option<u32>,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct PubP {
    pub topic: String,
    pub qos: u8,
    pub retain: bool,
    pub tag: u64,
    pub pad: usize,
    /// empty payload
    pub clear: bool,
    pub expiry: Option<u32>,
    pub alias: Option<u16>,
    /// send an empty topic name (the alias must resolve)
    pub noname: bool,
    /// ms to wait for the broker's receive quota
    pub quota_wait: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ack {
    Auto,
    Hold,
    Delay(u64),
    /// never acknowledge QoS>0 but with this chance in percent
    Some(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Connect(ConnP),
    /// reason, session expiry
    Disconnect { code: u8, expiry: Option<u32> },
    /// 'r' reset, 'f' orderly close, 's' silence
    Cut(char),
    CutAfter { dir: usize, bytes: u64, kind: char },
    /// direction, ms
    Stall { dir: usize, ms: u64 },
    Net(usize),
    Sub { filters: Vec<(String, u8)>, sid: Option<u32>, wait: u64 },
    Unsub { filters: Vec<String>, wait: u64 },
    Pub(PubP),
    /// publishes `n` messages with consecutive tags
    Burst { p: PubP, n: u64 },
    WaitAcks(u64),
    /// sends what is in flight once more on the same connection
    Resend { rel: bool },
    /// QoS 2: do not answer PUBREC with PUBREL by itself
    HoldRel(bool),
    Release,
    Sleep(u64),
    /// until the given absolute ms of the run
    Until(u64),
    Ping(u64),
    Read(bool),
    Ack(Ack),
    /// opens a connection without MQTT: full = with TLS and WebSocket layers
    Open { listener: usize, net: usize, full: bool, ver: u8 },
    /// raw bytes on the current connection, in pieces of `piece` bytes `gap` ms apart
    Raw { hex: String, piece: usize, gap: u64 },
    AwaitClose(u64),
    Close,
    Sync(u32),
    Jump(i64),
    Counters,
    Mark(String),
    /// listener faults: listener, kind ("accept", "bind", "listen"), error, how often, and for how long
    Fault {
        listener: usize,
        at: String,
        err: String,
        n: u32,
        #[serde(default)]
        ms: u64,
    },
}
