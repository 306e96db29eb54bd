//! The properties: for each, what runs are generated and how their histories are judged.
use crate::plan::*;
use crate::view::View;
use crate::wire;
use serde_json::{Value, json};
use simcore::Rng;
use simdrv::Outcome;

mod auth;
mod delivery;
mod endings;
mod hostile;
mod limits;
mod listeners;
mod hooked;
mod progress;
mod expiry;
mod routing;
mod sessions;
mod shared;
mod streams;

pub struct Prop {
    pub id: &'static str,
    /// runs and seconds of the quick check
    pub budget: (u64, u64),
    pub plan: fn(&mut G),
    pub judge: fn(&View, &mut Outcome),
    pub rule: &'static str,
    pub note: &'static str,
}
pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(delivery::props());
    v.extend(sessions::props());
    v.extend(endings::props());
    v.extend(routing::props());
    v.extend(shared::props());
    v.extend(expiry::props());
    v.extend(streams::props());
    v.extend(hostile::props());
    v.extend(limits::props());
    v.extend(auth::props());
    v.extend(progress::props());
    v.extend(hooked::props());
    v.extend(listeners::props());
    v
}
pub fn get(id: &str) -> Prop {
    all().into_iter().find(|p| p.id == id).expect("unknown property")
}

/// Helps to write plans.
pub struct G {
    pub r: Rng,
    pub i: u64,
    pub p: Plan,
    pub tag: u64,
}
impl G {
    pub fn below(&mut self, n: u64) -> u64 {
        self.r.below(n)
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        self.r.range(a, b)
    }
    pub fn pc(&mut self, n: u64) -> bool {
        self.r.chance(n, 100)
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        self.r.pick(v).clone()
    }
    pub fn tag(&mut self) -> u64 {
        self.tag += 1;
        self.tag
    }
    pub fn tags(&mut self, n: u64) -> u64 {
        let t = self.tag + 1;
        self.tag += n;
        t
    }
    pub fn kind(&mut self, k: &str) {
        self.p.kind = k.into();
    }
    pub fn cfg(&mut self, k: &str, v: Value) {
        self.p.cfg[k] = v;
    }
    pub fn actor(&mut self, name: &str, ops: Vec<Op>) -> usize {
        self.p.actors.push(Actor { name: name.into(), pid_mod: 0, ops });
        self.p.actors.len() - 1
    }
    pub fn listener(&mut self, kind: &str) -> usize {
        self.p.fix_listen.push(Lst { kind: kind.into(), ..Default::default() });
        self.p.fix_listen.len() - 1
    }
    /// Scheduling: one worker in order, one worker at random, or several with preemption.
    pub fn sched(&mut self) {
        let s = match self.below(10) {
            0..=2 => Sched { workers: 1, fifo: true, ..Default::default() },
            3..=5 => Sched { workers: 1, fifo: false, ..Default::default() },
            _ => Sched { workers: self.range(2, 4) as usize, fifo: false, preempt_ppm: self.pick(&[20_000, 100_000, 300_000]), ..Default::default() },
        };
        self.p.sched = s;
        if self.p.sched.workers > 1 && self.pc(60) {
            self.p.sched.long_ppm = self.pick(&[20_000, 100_000, 300_000]);
            self.p.sched.long_us = self.pick(&[100, 1_000, 5_000]);
        }
        if self.pc(25) {
            self.p.sched.wake_delay_ppm = self.pick(&[5_000, 50_000]);
            self.p.sched.wake_delay_us = self.pick(&[200, 5_000, 50_000]);
        }
    }
    pub fn net(&mut self) -> Net {
        let lat = self.pick(&[(1u64, 50u64), (100, 100), (50, 2_000), (1_000, 20_000)]);
        let mut n = Net { lat, ..Default::default() };
        if self.pc(40) {
            n.short_read = self.pick(&[50_000, 400_000]);
        }
        if self.pc(30) {
            n.short_write = self.pick(&[50_000, 400_000]);
        }
        if self.pc(20) {
            n.pend_write = self.pick(&[20_000, 200_000]);
        }
        if self.pc(15) {
            n.win = (self.pick(&[64usize, 700, 4000]), self.pick(&[64usize, 700, 4000]));
        }
        n
    }
    /// A plain listener (sometimes others too), and some network profiles; number 0 is quiet.
    pub fn nets(&mut self, n: usize) {
        self.p.fix_nets.push(Net { lat: (50, 200), ..Default::default() });
        for _ in 1..n {
            let x = self.net();
            self.p.fix_nets.push(x);
        }
    }
    pub fn listeners(&mut self, others: u64) {
        self.listener("mqtt");
        if self.pc(others) {
            let k = self.pick(&["ws", "mqtts", "wss"]);
            self.listener(k);
        }
    }
    pub fn any_listener(&mut self) -> usize {
        self.below(self.p.fix_listen.len() as u64) as usize
    }
    pub fn any_net(&mut self) -> usize {
        self.below(self.p.fix_nets.len().max(1) as u64) as usize
    }
    pub fn ver(&mut self) -> u8 {
        self.pick(&[3, 4, 4, 5, 5, 5])
    }
    /// A persistent client.
    pub fn conn(&mut self, cid: &str, ver: u8) -> ConnP {
        ConnP { cid: cid.into(), ver, clean: false, expiry: (ver == 5).then_some(100_000), listener: self.any_listener(), net: self.any_net(), retries: 3, ping: true, ..Default::default() }
    }
    pub fn hooks_on(&mut self, on: &[bool]) {
        let names = ["before_connect", "after_connect", "after_disconnect", "publish", "subscribe", "unsubscribe"];
        let m: serde_json::Map<String, Value> = names.iter().zip(on).map(|(n, b)| (format!("enable_{n}"), json!(b))).collect();
        self.cfg("hook", Value::Object(m));
    }
    pub fn cut(&mut self) -> char {
        self.pick(&['r', 'f', 'r', 's'])
    }
}

pub fn plan(prop: &str, seed: u64, i: u64) -> Plan {
    let h = prop.bytes().fold(0u64, |a, b| a * 131 + b as u64);
    let mut r = Rng::stream(seed ^ h, i);
    let s = r.next();
    let mut g = G { r, i, p: Plan { prop: prop.into(), index: i, seed: s, ..Default::default() }, tag: 0 };
    (get(prop).plan)(&mut g);
    // the broker takes other ways through its code without hooks
    if g.pc(25) && g.p.x["hook"].is_null() && g.p.cfg["hook"].is_null() && prop != "C13" {
        let on: Vec<bool> = (0..6).map(|_| g.pc(40)).collect();
        g.hooks_on(&on);
    }
    g.p
}
pub fn simplify(plan: &Value) -> Vec<Value> {
    let mut v = Vec::new();
    let d = serde_json::to_value(Sched::default()).unwrap();
    let mut put = |f: &dyn Fn(&mut Value)| {
        let mut p = plan.clone();
        f(&mut p);
        if &p != plan {
            v.push(p);
        }
    };
    put(&|p| p["sched"] = d.clone());
    put(&|p| {
        p["sched"]["wake_delay_ppm"] = json!(0);
    });
    put(&|p| p["sched"]["long_ppm"] = json!(0));
    put(&|p| {
        p["sched"]["preempt_ppm"] = json!(0);
        p["sched"]["workers"] = json!(1);
    });
    put(&|p| p["sched"]["fifo"] = json!(true));
    let quiet = serde_json::to_value(Net { lat: (50, 50), ..Default::default() }).unwrap();
    for k in 0..plan["fix_nets"].as_array().map_or(0, |a| a.len()) {
        put(&|p| p["fix_nets"][k] = quiet.clone());
    }
    for k in 0..plan["fix_listen"].as_array().map_or(0, |a| a.len()) {
        put(&|p| {
            if p["fix_listen"][k]["proxy"] == "" && k > 0 {
                for a in p["actors"].as_array_mut().unwrap() {
                    for op in a["ops"].as_array_mut().unwrap() {
                        if op["Connect"]["listener"] == json!(k) {
                            op["Connect"]["listener"] = json!(0);
                        }
                    }
                }
            }
        });
    }
    // numbers within operations
    let na = plan["actors"].as_array().map_or(0, |a| a.len());
    for a in 0..na {
        let no = plan["actors"][a]["ops"].as_array().map_or(0, |o| o.len());
        for k in 0..no {
            let op = &plan["actors"][a]["ops"][k];
            if let Some(ms) = op["Sleep"].as_u64() {
                if ms > 1 {
                    put(&|p| p["actors"][a]["ops"][k]["Sleep"] = json!(ms / 2));
                }
            }
            if let Some(n) = op["Burst"]["n"].as_u64() {
                if n > 1 {
                    put(&|p| p["actors"][a]["ops"][k]["Burst"]["n"] = json!(n / 2));
                    put(&|p| p["actors"][a]["ops"][k]["Burst"]["n"] = json!(n - 1));
                }
            }
            if let Some(c) = op.get("Connect") {
                if !c["cut"].is_null() {
                    put(&|p| p["actors"][a]["ops"][k]["Connect"]["cut"] = Value::Null);
                }
                if c["net"] != json!(0) {
                    put(&|p| p["actors"][a]["ops"][k]["Connect"]["net"] = json!(0));
                }
            }
        }
    }
    if let Value::Object(m) = &plan["cfg"] {
        for k in m.keys() {
            put(&|p| {
                p["cfg"].as_object_mut().unwrap().remove(k);
            });
        }
    }
    v
}
pub fn real() -> Vec<String> {
    ["akasa-core: server (listeners, PROXY, connection set-up, run-time), online loop, v3 and v5 packet handlers, sessions, routing, retained messages, pending queues, state, authentication, SCRAM, hook dispatch",
     "tokio-rustls and rustls (TLS), tokio-tungstenite and tungstenite (WebSocket), flume channels, dashmap, hashbrown, bytes, futures"]
    .iter().map(|s| s.to_string()).collect()
}
pub fn stub() -> Vec<String> {
    ["tokio: simulated runtime, timers and TCP (sim/tokio over sim/simcore)",
     "parking_lot: simulated locks; flume and dashmap lock through them",
     "mqtt-proto: the crate is not available offline; sim/mqtt-proto reimplements the parts of its interface that akasa uses",
     "clock, entropy and system calls: virtual (libc hooks)",
     "clients: simulated, with their own codec"]
    .iter().map(|s| s.to_string()).collect()
}
pub fn assumptions() -> Vec<String> {
    ["preemption between threads happens at lock operations and task polls only (sequentially consistent memory)",
     "the MQTT codec behaves as sim/mqtt-proto does",
     "seeded sampling: what no run reached is not covered"]
    .iter().map(|s| s.to_string()).collect()
}
