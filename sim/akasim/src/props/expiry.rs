//! C16: message expiry.
use super::*;
use crate::client::{Ev, MS, Ns, SEC};
use crate::view::{AppR, Conn, PubR, SubR, matches};
use crate::wire::{Pkt, prop_u};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        budget: (14_000, 30),
        plan: c16,
        judge: j16,
        rule: "messages older than their expiry interval are not sent, younger ones are, with the interval reduced by the time they waited; steps of the system clock change nothing",
        note: "messages wait for absent clients, behind unacknowledged ones and as retained messages, 0 to 40 s of virtual time",
    }]
}

fn c16(g: &mut G) {
    g.sched();
    g.listeners(8);
    g.nets(2);
    g.p.settle = 45;
    let timeout = g.pick(&[2u64, 4, 15]);
    g.cfg("inflight_timeout", json!(timeout));
    let retained = g.pc(35);
    let topics: Vec<String> = (0..g.range(1, 3)).map(|k| format!("e{k}")).collect();
    let len = g.pick(&[3_000u64, 12_000, 40_000]);
    for k in 0..g.range(1, 3) {
        let ver = g.pick(&[5u8, 5, 5, 4, 3]);
        let mut c = g.conn(&format!("s{k}"), ver);
        c.net = 0;
        let mode = g.below(if retained { 6 } else { 5 });
        if mode == 3 {
            c.rx_max = Some(g.range(1, 3) as u16);
        }
        let mut ops = vec![];
        let sub = |g: &mut G, ops: &mut Vec<Op>, c: &ConnP| {
            let f = if g.pc(50) { "#".to_string() } else { g.pick(&topics) };
            let rap = if c.ver == 5 { g.pick(&[0, 8]) } else { 0 };
            let q = g.pick(&[0u8, 1, 1, 2, 2]);
            ops.push(Op::Sub { filters: vec![(f, q | rap)], sid: None, wait: 3000 });
        };
        match mode {
            // gone for a while
            0..=2 => {
                for _ in 0..g.range(1, 3) {
                    ops.push(Op::Connect(c.clone()));
                    if ops.len() == 1 || g.pc(30) {
                        sub(g, &mut ops, &c);
                    }
                    let ms = g.range(0, 1500);
                    ops.push(Op::Sleep(ms));
                    if g.pc(70) {
                        ops.push(Op::Disconnect { code: 0, expiry: None });
                    } else {
                        let k = g.pick(&['r', 'f']);
                        ops.push(Op::Cut(k));
                    }
                    let ms = g.range(0, len);
                    ops.push(Op::Sleep(ms));
                }
                ops.push(Op::Connect(c.clone()));
            }
            // does not acknowledge for a while
            3 | 4 => {
                ops.push(Op::Connect(c.clone()));
                sub(g, &mut ops, &c);
                ops.push(Op::Ack(Ack::Hold));
                let ms = g.range(0, len);
                ops.push(Op::Sleep(ms));
                ops.push(Op::Ack(Ack::Auto));
                ops.push(Op::Release);
            }
            // comes for retained messages
            _ => {
                for _ in 0..g.range(1, 3) {
                    let mut c = c.clone();
                    c.clean = true;
                    let ms = g.range(0, len);
                    ops.push(Op::Sleep(ms));
                    ops.push(Op::Connect(c.clone()));
                    sub(g, &mut ops, &c);
                    ops.push(Op::Sleep(1500));
                }
            }
        }
        ops.push(Op::Sleep(40_000));
        g.actor(&format!("s{k}"), ops);
    }
    for k in 0..g.range(1, 2) {
        let ver = g.pick(&[5u8, 5, 5, 5, 4]);
        let c = g.conn(&format!("p{k}"), ver);
        let mut ops = vec![Op::Sleep(500), Op::Connect(c)];
        for _ in 0..g.range(2, 14) {
            let t = g.pick(&topics);
            let expiry = if ver == 5 && g.pc(80) { Some(g.pick(&[0u32, 1, 2, 3, 4, 6, 9, 20, 30, 1000, u32::MAX - 1, u32::MAX])) } else { None };
            let retain = retained && g.pc(60);
            let clear = retain && g.pc(7);
            let p = PubP { topic: t, qos: g.pick(&[0, 1, 1, 2]), retain, clear, tag: g.tag(), expiry, ..Default::default() };
            ops.push(Op::Pub(p));
            let ms = g.pick(&[0, 300, 3000, len / 3]);
            let ms = g.range(0, ms);
            ops.push(Op::Sleep(ms));
            if g.pc(20) {
                ops.push(Op::Ping(3000));
            }
        }
        ops.push(Op::WaitAcks(5000));
        ops.push(Op::Ping(3000));
        g.actor(&format!("p{k}"), ops);
    }
    if g.pc(40) {
        let mut ops = vec![];
        for _ in 0..g.range(1, 4) {
            let ms = g.range(0, len);
            ops.push(Op::Sleep(ms));
            let d = g.pick(&[1_000i64, 5_000, 60_000, 3_600_000, 86_400_000 * 365]);
            let d = if g.pc(50) { d } else { -d };
            ops.push(Op::Jump(d));
        }
        g.actor("clock", ops);
    }
}
/// Earliest time at which the broker can have begun to send `x`, if its history is simple enough.
fn sent_from(v: &View, p: &PubR, x: &AppR) -> Option<Ns> {
    let c = &v.conns[x.conn];
    // had it been on its way before?
    if v.apps.iter().any(|y| y.actor == x.actor && y.tag == x.tag && y.i < x.i) || x.dup {
        return None;
    }
    for d in v.conns[1..].iter().filter(|d| d.actor == x.actor && d.id < c.id) {
        let plain = match &d.end {
            Some((_, Ev::Cut(k))) => *k != 's',
            Some(_) => true,
            None => false,
        } && !d.hurt && d.p.cut.is_none();
        // a connection the broker may have used for it
        if !plain || v.end_t(d) + SEC > v.t(p.out) {
            return None;
        }
    }
    let mut from = v.t(c.open);
    if c.p.net == 0 && !c.hurt {
        // an undisturbed connection whose client reads
        from = from.max(v.t(x.i).saturating_sub(500 * MS));
    }
    Some(from)
}
/// When the client was there to receive, undisturbed and with everything acknowledged, until the end of the run.
fn available(v: &View, a: usize) -> Option<(Ns, &Conn)> {
    let c = v.last_conn(a)?;
    if !c.live() || c.hurt || c.p.net != 0 {
        return None;
    }
    let mut t = v.t(c.ack.as_ref().unwrap().0);
    let mut open: BTreeMap<u16, usize> = BTreeMap::new();
    let mut all: Vec<usize> = c.ins.iter().chain(&c.outs).copied().collect();
    all.sort();
    for i in all {
        match &v.recs[i].ev {
            Ev::In(Pkt::Publish(p)) if p.qos > 0 => {
                open.entry(p.pid).or_insert(i);
            }
            Ev::Out(Pkt::Ack { kind: 4 | 5, pid, .. }) => {
                if let Some(k) = open.remove(pid) {
                    if v.t(i) > v.t(k) + 500 * MS {
                        t = t.max(v.t(i));
                    }
                }
            }
            _ => {}
        }
    }
    open.is_empty().then_some((t, c))
}
fn j16(v: &View, o: &mut Outcome) {
    let (mut dead, mut alive, mut reduced, mut kept, mut unsure) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut oldest = 0u64;
    for x in v.apps.iter().filter(|x| x.tag > 0) {
        let Some(p) = v.pubs.get(&x.tag) else { continue };
        let in_hi = v.processed(p).map(|i| v.t(i));
        let got = prop_u(&x.props, 2).map(|e| e as u64);
        let Some(e) = p.expiry.map(|e| e as u64) else {
            if got.is_some() {
                o.fail("C16.property", format!("message {} without expiry interval reached {} with the interval {}", p.tag, v.name(x.actor), got.unwrap()));
            }
            continue;
        };
        let from = sent_from(v, p, x);
        if let (Some(s), Some(hi)) = (from, in_hi) {
            if s >= hi + e * SEC && e < 1 << 31 {
                o.fail(
                    "C16.expired",
                    format!("message {} with expiry interval {e} s, published at {:.3} s, was sent to {} at {:.3} s or later", p.tag, v.t(p.out) as f64 / 1e9, v.name(x.actor), s as f64 / 1e9),
                );
            }
            oldest = oldest.max(s.saturating_sub(hi) / SEC);
        }
        if v.conns[x.conn].p.ver < 5 {
            continue;
        }
        reduced += 1;
        let Some(got) = got else {
            o.fail("C16.property", format!("message {} with expiry interval {e} s reached {} without one", p.tag, v.name(x.actor)));
            continue;
        };
        let most = from.zip(in_hi).map_or(e, |(s, hi)| e.saturating_sub(s.saturating_sub(hi) / SEC));
        // each of the two places it may have waited at rounds
        let least = e.saturating_sub((v.t(x.i) - v.t(p.out)) / SEC + 2);
        if got > most || got < least {
            o.fail(
                "C16.interval",
                format!(
                    "message {} with expiry interval {e} s, published at {:.3} s, reached {} at {:.3} s with the interval {got}, not {least} to {most}",
                    p.tag,
                    v.t(p.out) as f64 / 1e9,
                    v.name(x.actor),
                    v.t(x.i) as f64 / 1e9
                ),
            );
        }
    }
    for a in 0..v.plan.actors.len() {
        let Some((t, _)) = available(v, a) else { continue };
        for p in v.pubs.values().filter(|p| p.tag > 0 && p.out == p.last_out && p.acked.is_none_or(|a| a.1 < 0x80)) {
            let Some(done) = v.processed(p) else { continue };
            let mine: Vec<&SubR> = v.lasting_subs(a).into_iter().filter(|s| s.share().is_none() && s.ack.unwrap() < p.out && matches(&s.filter, &p.topic)).collect();
            let Some(q) = mine.iter().map(|s| v.min_granted(a, &s.filter, s.out)).max() else { continue };
            if q.min(p.qos) == 0 {
                continue;
            }
            let got = v.apps.iter().any(|x| x.actor == a && x.tag == p.tag);
            match p.expiry.map(|e| e as u64) {
                None => {
                    kept += 1;
                    if !got {
                        o.fail("C16.lost", format!("message {} without expiry interval, published at {:.3} s, never reached {}", p.tag, v.t(p.out) as f64 / 1e9, v.name(a)));
                    }
                }
                Some(e) if e > 0 && t.max(v.t(done)) + SEC < v.t(p.out) + (e - 1) * SEC => {
                    alive += 1;
                    if !got {
                        o.fail(
                            "C16.dropped",
                            format!("message {} with expiry interval {e} s, published at {:.3} s, never reached {}, ready since {:.3} s", p.tag, v.t(p.out) as f64 / 1e9, v.name(a), t as f64 / 1e9),
                        );
                    }
                }
                _ if !got => dead += 1,
                _ => unsure += 1,
            }
        }
    }
    // retained messages
    let (mut r_dead, mut r_alive) = (0u64, 0u64);
    for s in v.subs.iter().filter(|s| s.granted().is_some() && s.opt >> 4 == 0) {
        let c = &v.conns[s.conn];
        if c.hurt || c.slow || !c.p.clean || c.sp() || v.subs.iter().any(|z| z.conn == c.id && z.out != s.out) || v.t(s.ack.unwrap()) + SEC > v.end_t(c) {
            continue;
        }
        for p in v.pubs.values().filter(|p| p.retain && p.tag > 0 && matches(&s.filter, &p.topic)) {
            let Some(done) = v.processed(p) else { continue };
            if done > s.out || v.pubs.values().any(|z| z.retain && z.topic == p.topic && z.out != p.out && (z.out < s.ack.unwrap() && v.processed(z).is_none_or(|d| d > p.out))) {
                continue;
            }
            let got = v.apps.iter().any(|x| x.conn == c.id && x.tag == p.tag);
            let e = p.expiry.map_or(u64::MAX / SEC / 4, |e| e as u64);
            if v.t(s.out) >= v.t(done) + e * SEC {
                r_dead += 1;
                if got {
                    o.fail("C16.expired", format!("retained message {} with expiry interval {e} s of {:.3} s reached {}, who subscribed at {:.3} s", p.tag, v.t(p.out) as f64 / 1e9, v.name(s.actor), v.t(s.out) as f64 / 1e9));
                }
            } else if e > 1 && v.t(s.ack.unwrap()) + SEC < v.t(p.out) + (e - 1) * SEC {
                r_alive += 1;
                if !got {
                    o.fail(
                        "C16.dropped",
                        format!("retained message {} of {:.3} s (expiry interval {:?}) did not reach {}, who subscribed at {:.3} s", p.tag, v.t(p.out) as f64 / 1e9, p.expiry, v.name(s.actor), v.t(s.out) as f64 / 1e9),
                    );
                }
            }
        }
    }
    super::delivery::answered(v, o, "C16");
    o.stat("messages that had to arrive in time", alive);
    o.stat("messages without expiry that had to arrive", kept);
    o.stat("expired messages not delivered", dead);
    o.stat("messages delivered near their expiry", unsure);
    o.stat("intervals compared", reduced);
    o.stat("retained messages expired", r_dead);
    o.stat("retained messages not expired", r_alive);
    o.stat("longest wait of a delivered message (s, summed)", oldest);
}
