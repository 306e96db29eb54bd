//! C13: packets do not depend on how the byte stream is split.
use super::*;
use crate::client::Ev;
use crate::view::{Conn, matches};
use crate::wire::Pkt;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        budget: (9_000, 30),
        plan: c13,
        judge: j13,
        rule: "the broker acts on exactly the packets a client sent, in order, and answers each; what it sends parses as exactly the packets due",
        note: "plain, TLS, WebSocket and WebSocket over TLS; pieces of 1 byte to many packets, windows down to 1 byte, stalls, partial and refused writes, WebSocket fragments, pings and empty messages",
    }]
}

fn stream_net(g: &mut G) -> Net {
    let mut n = Net { lat: g.pick(&[(1u64, 20u64), (20, 200), (100, 3_000)]), ..Default::default() };
    if g.pc(60) {
        n.short_read = g.pick(&[50_000, 400_000, 900_000]);
    }
    if g.pc(50) {
        n.short_write = g.pick(&[50_000, 400_000, 900_000]);
    }
    if g.pc(40) {
        n.pend_write = g.pick(&[20_000, 200_000, 500_000]);
    }
    if g.pc(35) {
        let w = [0usize, 1, 2, 3, 5, 16, 64, 700, 4000];
        n.win = (g.pick(&w), g.pick(&w));
    }
    if n.win.0.min(n.win.1) < 64 && n.win != (0, 0) {
        n.lat = (1, 20);
    }
    n
}
fn c13(g: &mut G) {
    g.sched();
    g.p.settle = 200;
    g.cfg("max_in_mem_pending_messages", json!(100_000));
    for k in ["mqtt", "ws", "mqtts", "wss"] {
        g.listener(k);
    }
    if g.pc(50) {
        let n = g.range(1, 20);
        g.cfg("max_inflight_client", json!(n));
    }
    g.p.fix_nets.push(Net { lat: (50, 200), ..Default::default() });
    for _ in 0..3 {
        let n = stream_net(g);
        g.p.fix_nets.push(n);
    }
    let narrow = g.p.fix_nets.iter().any(|n| n.win != (0, 0) && n.win.0.min(n.win.1) < 100);
    let few: &[usize] = &[0, 0, 30, 110, 130, 300];
    let many: &[usize] = &[0, 0, 30, 110, 120, 130, 300, 4_080, 16_370, 20_000, 70_000];
    let link = |g: &mut G, c: &mut ConnP| {
        c.listener = g.pick(&[0, 0, 1, 1, 1, 2, 3]);
        c.net = g.any_net();
        c.ping = false;
        c.keep_alive = 10_000;
        // tungstenite refuses HTTP headers that trickle in
        c.late = c.listener > 0;
        c.retries = 0;
        c.frame = g.pick(&[0, 0, 1, 2, 3, 7, 50, 1000, 60_000]);
        if narrow && c.listener >= 2 && c.frame < 7 {
            c.frame = 0;
        }
        c.ws = g.pick(&[0, 0, 1, 2, 3, 7, 4]);
        if g.pc(15) {
            c.piece = (g.pick(&[1usize, 2, 5, 12]), g.pick(&[0u64, 1, 20]));
        }
    };
    let topics = ["t/a", "t/b"];
    for k in 0..g.range(1, 3) {
        let ver = g.ver();
        let mut c = g.conn(&format!("s{k}"), ver);
        link(g, &mut c);
        let mut ops = vec![Op::Connect(c)];
        let f = g.pick(&["t/#", "t/+", "#"]);
        let q = g.below(3) as u8;
        ops.push(Op::Sub { filters: vec![(f.into(), q)], sid: None, wait: 30_000 });
        ops.push(Op::Sync(1));
        for _ in 0..g.below(4) {
            let ms = g.range(0, 2000);
            ops.push(Op::Sleep(ms));
            match g.below(4) {
                0 => {
                    let dir = g.below(2) as usize;
                    let ms = g.range(5, 3000);
                    ops.push(Op::Stall { dir, ms });
                }
                1 => {
                    let ms = g.range(0, 800);
                    ops.push(Op::Read(false));
                    ops.push(Op::Sleep(ms));
                    ops.push(Op::Read(true));
                }
                2 => {
                    let n = g.any_net();
                    ops.push(Op::Net(n));
                }
                _ => ops.push(Op::Ping(0)),
            }
        }
        g.actor(&format!("s{k}"), ops);
    }
    for k in 0..g.range(1, 3) {
        let ver = g.ver();
        let mut c = g.conn(&format!("p{k}"), ver);
        link(g, &mut c);
        let slow = narrow || (1..50).contains(&c.frame);
        let mut ops = vec![Op::Connect(c), Op::Sync(1)];
        let mut left = if slow { 4_000 } else { 200_000usize };
        for _ in 0..g.range(1, 8) {
            match g.below(10) {
                0..=5 => {
                    let n = g.pick(&[1u64, 2, 5, 12, 30]);
                    let pad = g.pick(if slow { few } else { many });
                    if (pad + 20) * n as usize > left {
                        continue;
                    }
                    left -= (pad + 20) * n as usize;
                    let p = PubP { topic: g.pick(&topics).into(), qos: g.below(3) as u8, tag: g.tags(n), pad, ..Default::default() };
                    ops.push(Op::Burst { p, n });
                }
                6 => ops.push(Op::Ping(0)),
                7 => {
                    let fs = (0..g.range(1, 6)).map(|i| (format!("x/{}/{i}", "y".repeat(g.pick(&[1, 20, 100]))), g.below(3) as u8)).collect();
                    let wait = g.pick(&[0u64, 5000]);
                    ops.push(Op::Sub { filters: fs, sid: None, wait });
                }
                8 => {
                    let fs = (0..g.range(1, 4)).map(|i| format!("x/y/{i}")).collect();
                    let wait = g.pick(&[0u64, 5000]);
                    ops.push(Op::Unsub { filters: fs, wait });
                }
                _ => {
                    let ms = g.range(1, 1500);
                    let dir = g.below(2) as usize;
                    ops.push(Op::Stall { dir, ms });
                }
            }
            if g.pc(40) {
                let ms = g.pick(&[0, 1, 30, 700]);
                ops.push(Op::Sleep(ms));
            }
        }
        g.actor(&format!("p{k}"), ops);
    }
}

/// The connection is the only one of its actor and lasted; stalls and pauses only delayed it.
fn whole(v: &View, c: &Conn) -> bool {
    c.live() && c.p.cut.is_none() && v.of(c.actor).count() == 1 && v.responsive(c.actor)
}
fn j13(v: &View, o: &mut Outcome) {
    for c in v.conns[1..].iter().filter(|c| !c.raw) {
        if let Some((_, e)) = &c.fail {
            o.fail("C13.refused", format!("{} did not get through the handshake of its transport: {e}", v.name(c.actor)));
            continue;
        }
        if !c.ok() {
            o.fail("C13.refused", format!("{} got no CONNACK", v.name(c.actor)));
            continue;
        }
        if let Some((_, e)) = &c.end {
            if c.disc.is_none() {
                o.fail("C13.dropped", format!("the connection of {} ended ({e:?}) although it sent nothing wrong", v.name(c.actor)));
            }
            continue;
        }
        if !whole(v, c) {
            continue;
        }
        // what it asked for, and what the broker acted on
        let mut asked: Vec<String> = Vec::new();
        let mut due: BTreeMap<u8, Vec<u16>> = BTreeMap::new();
        for i in &c.outs {
            match &v.recs[*i].ev {
                Ev::Out(Pkt::Publish(p)) => {
                    asked.push(format!("publish tag={} topic={}", crate::client::untag(&p.payload).0, p.topic));
                    if p.qos > 0 {
                        due.entry(if p.qos == 1 { 4 } else { 5 }).or_default().push(p.pid);
                    }
                }
                Ev::Out(Pkt::Subscribe { pid, filters, .. }) => {
                    asked.push(format!("subscribe pid={pid} filters={:?}", filters.iter().map(|f| &f.0).collect::<Vec<_>>()));
                    due.entry(9).or_default().push(*pid);
                }
                Ev::Out(Pkt::Unsubscribe { pid, filters }) => {
                    asked.push(format!("unsubscribe pid={pid} filters={filters:?}"));
                    due.entry(11).or_default().push(*pid);
                }
                Ev::Out(Pkt::Ack { kind: 6, pid, .. }) => due.entry(7).or_default().push(*pid),
                Ev::Out(Pkt::Pingreq) => due.entry(13).or_default().push(0),
                _ => {}
            }
        }
        let done: Vec<String> = v
            .recs
            .iter()
            .filter_map(|r| match &r.ev {
                Ev::Hook { what, cid, data } if *cid == c.p.cid && matches!(what.as_str(), "publish" | "subscribe" | "unsubscribe") => {
                    Some(format!("{what} {}", data.trim_start_matches("accept").trim_start()))
                }
                _ => None,
            })
            .collect();
        o.stat("packets acted on", done.len() as u64);
        if asked != done {
            let k = asked.iter().zip(&done).position(|(a, b)| a != b).unwrap_or(asked.len().min(done.len()));
            o.fail(
                "C13.packets",
                format!("{} sent {} requests and the broker acted on {}; number {} was {:?}, acted on {:?}", v.name(c.actor), asked.len(), done.len(), k + 1, asked.get(k), done.get(k)),
            );
        }
        let mut got: BTreeMap<u8, Vec<u16>> = BTreeMap::new();
        for i in &c.ins {
            match &v.recs[*i].ev {
                Ev::In(Pkt::Ack { kind, pid, .. }) if *kind != 6 => got.entry(*kind).or_default().push(*pid),
                Ev::In(Pkt::Suback { pid, .. }) => got.entry(9).or_default().push(*pid),
                Ev::In(Pkt::Unsuback { pid, .. }) => got.entry(11).or_default().push(*pid),
                Ev::In(Pkt::Pingresp) => got.entry(13).or_default().push(0),
                _ => {}
            }
        }
        for k in [4u8, 5, 7, 9, 11, 13] {
            let (mut a, mut b) = (due.remove(&k).unwrap_or_default(), got.remove(&k).unwrap_or_default());
            if !matches!(k, 4 | 5) {
                a.sort();
                b.sort();
            }
            if a != b {
                let what = ["PUBACK", "PUBREC", "", "PUBCOMP", "", "SUBACK", "", "UNSUBACK", "", "PINGRESP"][k as usize - 4];
                o.fail("C13.answers", format!("{} is due {} {what} ({a:?}) and got {} ({b:?})", v.name(c.actor), a.len(), b.len()));
            }
        }
        o.stat(&format!("connections over {}", v.plan.fix_listen[c.p.listener].kind), 1);
    }
    for s in &v.subs {
        let c = &v.conns[s.conn];
        let Some(granted) = s.granted() else { continue };
        if !whole(v, c) || v.subs.iter().filter(|x| x.actor == s.actor).count() != 1 || v.unsubs.iter().any(|u| u.actor == s.actor) {
            continue;
        }
        // in the order of each publisher, every message once
        let mut want: BTreeMap<(usize, &str, u8), Vec<u64>> = BTreeMap::new();
        let mut pubs: Vec<_> = v.pubs.values().filter(|p| p.tag > 0 && p.out > s.ack.unwrap() && matches(&s.filter, &p.topic)).collect();
        pubs.sort_by_key(|p| p.out);
        if pubs.iter().any(|p| !whole(v, &v.conns[p.conn])) {
            continue;
        }
        for p in &pubs {
            want.entry((p.actor, p.topic.as_str(), p.qos)).or_default().push(p.tag);
        }
        let mut got: BTreeMap<(usize, &str, u8), Vec<u64>> = BTreeMap::new();
        for a in v.apps.iter().filter(|a| a.actor == s.actor) {
            let Some(p) = v.pubs.get(&a.tag) else {
                o.fail("C13.alien", format!("{} received a message nobody sent (on {})", v.name(s.actor), a.topic));
                continue;
            };
            if p.out <= s.ack.unwrap() {
                continue;
            }
            if a.topic != p.topic || a.len != p.len || a.qos != granted.min(p.qos) {
                o.fail("C13.changed", format!("{} received message {} on {} with {} bytes and QoS {}, sent were {} with {} bytes and QoS {}", v.name(s.actor), p.tag, a.topic, a.len, a.qos, p.topic, p.len, p.qos));
            }
            // retransmissions after the time-out
            let l = got.entry((p.actor, p.topic.as_str(), p.qos)).or_default();
            if !(a.qos == 1 && a.dup && l.contains(&a.tag)) {
                l.push(a.tag);
            }
        }
        for (k, w) in &want {
            let g = got.get(k).cloned().unwrap_or_default();
            o.stat("messages compared", w.len() as u64);
            if *w != g {
                let i = w.iter().zip(&g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
                o.fail(
                    "C13.messages",
                    format!("{} sent {} messages on {} with QoS {}, {} received {}; number {} is {:?}, received {:?}", v.name(k.0), w.len(), k.1, k.2, v.name(s.actor), g.len(), i + 1, w.get(i), g.get(i)),
                );
            }
        }
    }
}
