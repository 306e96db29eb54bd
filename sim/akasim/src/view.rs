//! The recorded history in the terms of MQTT: connections, publishes, subscriptions, receptions.
use crate::client::*;
use crate::plan::*;
use crate::wire::{self, Pkt, Props};
use std::collections::{BTreeMap, BTreeSet};

pub struct Conn {
    pub id: usize,
    pub actor: usize,
    pub p: ConnP,
    pub raw: bool,
    pub open: usize,
    /// CONNECT sent
    pub sent: Option<usize>,
    /// record, session present, code, properties
    pub ack: Option<(usize, bool, u8, Props)>,
    pub end: Option<(usize, Ev)>,
    pub disc: Option<(usize, u8, Option<u32>)>,
    /// DISCONNECT of the broker
    pub in_disc: Option<(usize, u8)>,
    pub fail: Option<(usize, String)>,
    pub in_err: Option<(usize, String)>,
    /// records of packets sent by the client
    pub outs: Vec<usize>,
    pub ins: Vec<usize>,
    /// a cut or stall was injected
    pub hurt: bool,
    /// the client did not read or acknowledge at once all the time
    pub slow: bool,
}
impl Conn {
    pub fn ok(&self) -> bool {
        matches!(self.ack, Some((_, _, 0, _)))
    }
    pub fn sp(&self) -> bool {
        matches!(self.ack, Some((_, true, 0, _)))
    }
    pub fn live(&self) -> bool {
        self.ok() && self.end.is_none() && self.disc.is_none() && self.in_err.is_none()
    }
    pub fn props(&self) -> &[(u8, wire::Val)] {
        self.ack.as_ref().map_or(&[], |a| &a.3)
    }
}
#[derive(Debug)]
pub struct PubR {
    pub tag: u64,
    pub actor: usize,
    /// first connection it was sent on
    pub conn: usize,
    pub out: usize,
    pub last_out: usize,
    pub topic: String,
    pub qos: u8,
    pub retain: bool,
    pub len: usize,
    pub expiry: Option<u32>,
    pub acked: Option<(usize, u8)>,
    pub pid: u16,
}
#[derive(Debug, Clone)]
pub struct SubR {
    pub actor: usize,
    pub conn: usize,
    pub out: usize,
    pub ack: Option<usize>,
    pub filter: String,
    pub opt: u8,
    pub code: Option<u8>,
    pub sid: Option<u32>,
    pub pid: u16,
}
impl SubR {
    pub fn granted(&self) -> Option<u8> {
        self.code.filter(|c| *c < 3)
    }
    pub fn share(&self) -> Option<(&str, &str)> {
        share(&self.filter)
    }
}
pub fn share(f: &str) -> Option<(&str, &str)> {
    f.strip_prefix("$share/").and_then(|x| x.split_once('/'))
}
#[derive(Debug)]
pub struct UnsR {
    pub actor: usize,
    pub conn: usize,
    pub out: usize,
    pub ack: Option<usize>,
    pub filter: String,
    pub code: Option<u8>,
}
#[derive(Debug, Clone)]
pub struct AppR {
    pub i: usize,
    pub actor: usize,
    pub conn: usize,
    pub tag: u64,
    pub qos: u8,
    pub topic: String,
    pub retain: bool,
    pub len: usize,
    pub ok: bool,
    pub dup: bool,
    pub pid: u16,
    pub props: Props,
}

pub struct View {
    pub plan: Plan,
    pub recs: Vec<Rec>,
    /// index 0 unused
    pub conns: Vec<Conn>,
    pub pubs: BTreeMap<u64, PubR>,
    pub subs: Vec<SubR>,
    pub unsubs: Vec<UnsR>,
    pub apps: Vec<AppR>,
    pub end: Ns,
}

/// MQTT topic matching, written from the specification.
pub fn matches(filter: &str, topic: &str) -> bool {
    let f: Vec<&str> = filter.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    if topic.starts_with('$') && (f[0] == "#" || f[0] == "+") {
        return false;
    }
    fn go(f: &[&str], t: &[&str]) -> bool {
        match (f.first(), t.first()) {
            (Some(&"#"), _) => true,
            (Some(&"+"), Some(_)) => go(&f[1..], &t[1..]),
            (Some(a), Some(b)) => a == b && go(&f[1..], &t[1..]),
            (None, None) => true,
            _ => false,
        }
    }
    go(&f, &t)
}

impl View {
    pub fn take() -> View {
        let plan = cx().plan.clone();
        let (recs, infos) = hist(|h| {
            let i: Vec<(usize, ConnP, bool)> = h.conns.iter().map(|c| (c.actor, c.p.clone(), c.raw)).collect();
            (h.recs.clone(), i)
        });
        let mut v = View { plan, recs: vec![], conns: vec![], pubs: BTreeMap::new(), subs: vec![], unsubs: vec![], apps: vec![], end: simcore::now() };
        let mk = |id: usize, actor: usize, p: ConnP, raw: bool| Conn {
            id,
            actor,
            p,
            raw,
            open: usize::MAX,
            sent: None,
            ack: None,
            end: None,
            disc: None,
            in_disc: None,
            fail: None,
            in_err: None,
            outs: vec![],
            ins: vec![],
            hurt: false,
            slow: false,
        };
        v.conns.push(mk(0, usize::MAX, ConnP::default(), true));
        for (k, (a, p, raw)) in infos.into_iter().enumerate() {
            v.conns.push(mk(k + 1, a, p, raw));
        }
        let mut lazy: BTreeMap<usize, bool> = BTreeMap::new();
        let mut aliases: BTreeMap<(usize, u64), String> = BTreeMap::new();
        let mut last_in: BTreeMap<usize, (bool, u16, Props)> = BTreeMap::new();
        // acks: newest publish of the actor that used the tag
        for (i, r) in recs.iter().enumerate() {
            let c = r.conn;
            match &r.ev {
                Ev::Open => {
                    v.conns[c].open = i;
                    v.conns[c].slow = lazy.get(&r.actor).copied().unwrap_or(false);
                }
                Ev::AckMode(auto) => {
                    lazy.insert(r.actor, !auto);
                    if let (false, Some(c)) = (auto, v.conns[1..].iter_mut().filter(|c| c.actor == r.actor && c.open < i).next_back()) {
                        c.slow = true;
                    }
                }
                Ev::Read(false) => v.conns[c].slow = true,
                Ev::OpenFail(e) => {
                    if c > 0 {
                        v.conns[c].fail = Some((i, e.clone()))
                    }
                }
                Ev::Closed(_) | Ev::Cut(_) => {
                    if c > 0 && v.conns[c].end.is_none() {
                        v.conns[c].end = Some((i, r.ev.clone()))
                    }
                }
                Ev::InErr(e) => {
                    if c > 0 && v.conns[c].in_err.is_none() {
                        v.conns[c].in_err = Some((i, e.clone()))
                    }
                }
                Ev::Fault(_) => {
                    if c > 0 {
                        v.conns[c].hurt = true
                    }
                }
                Ev::RawOut(_) => v.conns[c].outs.push(i),
                Ev::Out(p) => {
                    v.conns[c].outs.push(i);
                    match p {
                        Pkt::Connect(k) => {
                            v.conns[c].sent = Some(i);
                            let _ = k;
                        }
                        Pkt::Publish(p) => {
                            let (tag, _) = untag(&p.payload);
                            let alias = wire::prop_u(&p.props, 0x23).map(|a| (c, a));
                            let topic = match alias {
                                Some(a) if p.topic.is_empty() => aliases.get(&a).cloned().unwrap_or_default(),
                                Some(a) => {
                                    aliases.insert(a, p.topic.clone());
                                    p.topic.clone()
                                }
                                None => p.topic.clone(),
                            };
                            let key = if tag > 0 {
                                tag
                            } else {
                                let old = v.pubs.iter().find(|(_, q)| p.dup && p.qos > 0 && q.tag == 0 && q.actor == r.actor && q.pid == p.pid && q.topic == p.topic && q.acked.is_none());
                                old.map_or(u64::MAX - i as u64, |x| *x.0)
                            };
                            let e = v.pubs.entry(key).or_insert_with(|| PubR {
                                tag,
                                actor: r.actor,
                                conn: c,
                                out: i,
                                last_out: i,
                                topic: topic.clone(),
                                qos: p.qos,
                                retain: p.retain,
                                len: p.payload.len(),
                                expiry: wire::prop_u(&p.props, 2).map(|x| x as u32),
                                acked: None,
                                pid: p.pid,
                            });
                            e.last_out = i;
                        }
                        Pkt::Subscribe { pid, filters, props } => {
                            for (f, o) in filters {
                                v.subs.push(SubR {
                                    actor: r.actor,
                                    conn: c,
                                    out: i,
                                    ack: None,
                                    filter: f.clone(),
                                    opt: *o,
                                    code: None,
                                    sid: wire::prop_u(props, 0x0b).map(|x| x as u32),
                                    pid: *pid,
                                });
                            }
                        }
                        Pkt::Unsubscribe { filters, .. } => {
                            for f in filters {
                                v.unsubs.push(UnsR { actor: r.actor, conn: c, out: i, ack: None, filter: f.clone(), code: None });
                            }
                        }
                        Pkt::Disconnect { code, props } => {
                            v.conns[c].disc = Some((i, *code, wire::prop_u(props, 0x11).map(|x| x as u32)))
                        }
                        _ => {}
                    }
                }
                Ev::In(p) => {
                    v.conns[c].ins.push(i);
                    match p {
                        Pkt::Connack { sp, code, props } => v.conns[c].ack = Some((i, *sp, *code, props.clone())),
                        Pkt::Publish(p) => {
                            last_in.insert(c, (p.dup, p.pid, p.props.clone()));
                        }
                        Pkt::Suback { pid, codes } => {
                            let mut k = 0;
                            for s in v.subs.iter_mut().filter(|s| s.conn == c && s.pid == *pid && s.ack.is_none()) {
                                s.ack = Some(i);
                                s.code = codes.get(k).copied();
                                k += 1;
                            }
                        }
                        Pkt::Unsuback { pid, codes } => {
                            // the oldest unanswered UNSUBSCRIBE with this identifier
                            let out = v.unsubs.iter().find(|u| {
                                u.conn == c && u.ack.is_none() && matches!(&recs[u.out].ev, Ev::Out(Pkt::Unsubscribe { pid: p, .. }) if p == pid)
                            });
                            if let Some(o) = out.map(|u| u.out) {
                                for (k, u) in v.unsubs.iter_mut().filter(|u| u.out == o && u.conn == c).enumerate() {
                                    u.ack = Some(i);
                                    u.code = codes.get(k).copied();
                                }
                            }
                        }
                        Pkt::Ack { kind, pid, code } if matches!(kind, 4 | 5 | 7) => {
                            // of a publish without payload only the identifier is known
                            if let Some(p) = v.pubs.values_mut().find(|p| p.tag == 0 && p.actor == r.actor && p.acked.is_none() && p.pid == *pid && p.qos > 0) {
                                let last = if p.qos == 1 { *kind == 4 } else { *kind == 7 || *code >= 0x80 };
                                if p.acked.is_none() && last {
                                    p.acked = Some((i, *code));
                                }
                            }
                        }
                        Pkt::Disconnect { code, .. } => v.conns[c].in_disc = Some((i, *code)),
                        _ => {}
                    }
                }
                Ev::App { tag, qos, topic, retain, len, ok, .. } => {
                    let (dup, pid, props) = last_in.get(&c).cloned().unwrap_or_default();
                    v.apps.push(AppR {
                        i,
                        actor: r.actor,
                        conn: c,
                        tag: *tag,
                        qos: *qos,
                        topic: topic.clone(),
                        retain: *retain,
                        len: *len,
                        ok: *ok,
                        dup,
                        pid,
                        props,
                    });
                }
                Ev::Acked { tag, code } => {
                    if let Some(p) = v.pubs.get_mut(tag) {
                        if p.acked.is_none() {
                            p.acked = Some((i, *code));
                        }
                    }
                }
                _ => {}
            }
        }
        v.recs = recs;
        v
    }
    pub fn t(&self, i: usize) -> Ns {
        self.recs.get(i).map_or(self.end, |r| r.t)
    }
    pub fn name(&self, a: usize) -> String {
        self.plan.actors.get(a).map_or("-".into(), |x| x.name.clone())
    }
    pub fn of(&self, actor: usize) -> impl Iterator<Item = &Conn> {
        self.conns[1..].iter().filter(move |c| c.actor == actor && !c.raw)
    }
    pub fn by_cid<'a>(&'a self, cid: &'a str) -> impl Iterator<Item = &'a Conn> {
        self.conns[1..].iter().filter(move |c| !c.raw && c.p.cid == cid)
    }
    pub fn cids(&self) -> BTreeSet<String> {
        self.conns[1..].iter().filter(|c| !c.raw && c.sent.is_some()).map(|c| c.p.cid.clone()).collect()
    }
    /// Whether another actor uses the client identifier too.
    pub fn contested(&self, cid: &str) -> bool {
        let a: BTreeSet<usize> = self.by_cid(cid).map(|c| c.actor).collect();
        a.len() > 1
    }
    pub fn last_conn(&self, actor: usize) -> Option<&Conn> {
        self.conns[1..].iter().filter(|c| c.actor == actor).next_back()
    }
    /// The session in which connection `c` was accepted lasted until the end of the run,
    /// and the client is connected to it there.
    pub fn lasting(&self, c: &Conn) -> bool {
        if !c.ok() || self.contested(&c.p.cid) {
            return false;
        }
        for d in self.of(c.actor).filter(|d| d.id > c.id) {
            if d.ack.is_some() {
                if !d.sp() {
                    return false;
                }
            } else if d.sent.is_some() && d.p.clean {
                return false;
            }
        }
        self.last_conn(c.actor).is_some_and(|d| d.live())
    }
    /// The actor's client reads, and acknowledges at once, at the end of the run.
    pub fn responsive(&self, actor: usize) -> bool {
        let mut reading = true;
        let last = self.last_conn(actor).map_or(0, |c| c.id);
        for r in &self.recs {
            if r.actor == actor {
                if let Ev::Read(b) = r.ev {
                    reading = b;
                }
                if let Ev::Open = r.ev {
                    reading = true;
                }
            }
        }
        let _ = last;
        reading
    }
    /// One accepted connection, without any fault, from its beginning to the end of the run.
    pub fn steady(&self, actor: usize) -> bool {
        let v: Vec<&Conn> = self.of(actor).collect();
        let [c] = v[..] else { return false };
        c.live() && !c.hurt && c.p.cut.is_none() && !self.contested(&c.p.cid)
    }
    /// The broker ended the connection although the client did nothing that explains it.
    pub fn dropped(&self, c: &Conn) -> Option<String> {
        let (i, e) = c.end.as_ref()?;
        if !matches!(e, Ev::Closed(_)) || c.hurt || c.p.cut.is_some() || c.disc.is_some() || c.fail.is_some() {
            return None;
        }
        // taken over
        if self.by_cid(&c.p.cid).any(|d| d.id != c.id && d.open < *i && d.open > c.open) {
            return None;
        }
        // an earlier connection whose CONNECT was still under way
        if self.by_cid(&c.p.cid).any(|d| d.id < c.id && (d.hurt || d.p.cut.is_some() || d.ack.is_none() || self.recs[d.ack.as_ref().unwrap().0].t > self.t(c.open))) {
            return None;
        }
        Some(match c.in_disc {
            Some((_, code)) => format!("DISCONNECT {code:#x}"),
            None => "no reason".into(),
        })
    }
    /// Obligations: subscriptions of `actor` acknowledged before `i` that hold until the run's end.
    pub fn lasting_subs(&self, actor: usize) -> Vec<&SubR> {
        let mut r = Vec::new();
        for s in self.subs.iter().filter(|s| s.actor == actor && s.granted().is_some()) {
            if !self.lasting(&self.conns[s.conn]) {
                continue;
            }
            if self.unsubs.iter().any(|u| u.actor == actor && u.out > s.out && u.filter == s.filter) {
                continue;
            }
            r.push(s);
        }
        r
    }
    /// The smallest QoS any subscription to this filter by the actor from `from` on may have had.
    pub fn min_granted(&self, actor: usize, filter: &str, from: usize) -> u8 {
        self.subs
            .iter()
            .filter(|s| s.actor == actor && s.filter == filter && s.out >= from)
            .map(|s| s.code.unwrap_or(0).min(s.opt & 3))
            .min()
            .unwrap_or(0)
    }
    /// What every run must satisfy.
    pub fn sane(&self, o: &mut simdrv::Outcome, prop: &str) {
        for c in &self.conns[1..] {
            if let Some((i, e)) = &c.in_err {
                o.fail(format!("{prop}.bad-output"), format!("connection {} got something no client expects at {:.3} s: {e}", c.id, self.t(*i) as f64 / 1e9));
            }
        }
        for a in &self.apps {
            // hostile peers send each other what they like
            if !a.ok && !self.name(a.actor).starts_with("hostile") {
                o.fail(format!("{prop}.corrupt"), format!("{} received a message on {} whose payload was changed", self.name(a.actor), a.topic));
            }
        }
    }
    /// The record at which the broker had certainly processed the publish.
    pub fn processed(&self, p: &PubR) -> Option<usize> {
        if p.qos > 0 {
            return p.acked.map(|a| a.0);
        }
        // the answer to any later packet of the connection
        let c = &self.conns[p.conn];
        let mut pings = 0;
        let mut ours = None;
        for i in &c.outs {
            match &self.recs[*i].ev {
                Ev::Out(Pkt::Pingreq) => {
                    if *i > p.out && ours.is_none() {
                        ours = Some(pings);
                    }
                    pings += 1;
                }
                _ => {}
            }
        }
        let k = ours?;
        c.ins.iter().filter(|i| matches!(self.recs[**i].ev, Ev::In(Pkt::Pingresp))).nth(k).copied()
    }
    /// When the connection's end became known to a client that watches it; the run's end if it did not.
    pub fn end_t(&self, c: &Conn) -> Ns {
        let mut e = c.end.as_ref().map_or(self.end, |e| self.t(e.0));
        // the client turns to its next connection
        if let Some(d) = self.conns[1..].iter().find(|d| d.actor == c.actor && d.id > c.id) {
            e = e.min(self.t(d.open));
        }
        c.disc.map_or(e, |d| e.min(self.t(d.0)))
    }
    /// Seconds the session outlives connection `c` (u64::MAX: it never expires).
    pub fn expiry_of(&self, c: &Conn) -> u64 {
        if c.p.ver < 5 {
            return if c.p.clean { 0 } else { u64::MAX };
        }
        let asked = c.p.expiry.unwrap_or(0);
        let mut e = wire::prop_u(c.props(), 0x11).map_or(asked, |x| x as u32);
        // a session that was to end with its connection cannot be prolonged
        if let (Some((_, _, Some(x))), true) = (c.disc, e > 0) {
            e = x;
        }
        if e == u32::MAX { u64::MAX } else { e as u64 }
    }
    pub fn subtopic(&self, s: &SubR) -> String {
        s.share().map_or(s.filter.clone(), |x| x.1.to_string())
    }
    pub fn skips(&self, actor: usize, what: &str) -> usize {
        self.recs.iter().filter(|r| r.actor == actor && matches!(&r.ev, Ev::Skip(s) if s == what)).count()
    }
    pub fn counters(&self) -> Vec<(usize, u64, usize, usize)> {
        self.recs
            .iter()
            .enumerate()
            .filter_map(|(i, r)| if let Ev::Counters { online, clients, tasks } = r.ev { Some((i, online, clients, tasks)) } else { None })
            .collect()
    }
}
