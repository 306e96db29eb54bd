//! C21: listeners whose system calls fail.
use super::delivery::received;
use super::*;
use crate::client::{Ev, Ns, SEC};
use crate::view::*;
use crate::wire::Pkt;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        budget: (6000, 60),
        plan: c21,
        judge: j21,
        rule: "a connect to a listener none of whose calls failed within 5 s is served within 5 s; established connections are not ended, get their PINGREQs answered and their messages delivered within 5 s whatever happens to the listeners; the broker neither ends nor spins",
        note: "one to four listeners (plain, TLS, WebSocket, both), with and without SO_REUSEPORT and PROXY, IPv4 and IPv6; single errors and outages of bind, listen and accept, from the start or later, with eleven errno values; peers that stop within a handshake",
    }]
}

fn fault(g: &mut G, n: u64) -> (usize, String, String, u32, u64) {
    let at = g.pick(&["accept", "accept", "accept", "bind", "bind", "listen"]);
    let err = g.pick(&["inuse", "notavail", "aborted", "reset", "intr", "nomem", "perm", "mfile", "nfile", "nobufs", "proto", "io"]);
    let (k, ms) = match g.below(3) {
        0 => (g.pick(&[1, 1, 2, 5, 12]), 0),
        1 => (0, g.pick(&[300, 3_000, 12_000, 40_000])),
        _ => (g.pick(&[1, 2, 5]), g.pick(&[500, 6_000, 15_000])),
    };
    (g.below(n) as usize, at.into(), err.into(), k, ms)
}
fn c21(g: &mut G) {
    g.sched();
    let mut kinds = vec!["mqtt", "ws", "mqtts", "wss"];
    let n = g.range(1, 4).min(if g.pc(70) { 3 } else { 4 });
    for _ in 0..n {
        let k = g.below(kinds.len() as u64) as usize;
        let k = kinds.swap_remove(k);
        let i = g.listener(k);
        let l = &mut g.p.fix_listen[i];
        l.reuse_port = g.r.chance(35, 100);
        l.v6 = g.r.chance(15, 100);
        if g.r.chance(20, 100) {
            l.proxy = if k == "mqtt" || k == "ws" { *g.r.pick(&["normal", "tls"]) } else { "normal" }.into();
        }
    }
    g.nets(3);
    for k in 1..3 {
        g.p.fix_nets[k].win = (0, 0);
    }
    g.p.settle = 8;
    if g.pc(40) {
        let v: Vec<_> = (0..g.range(1, 4)).map(|_| fault(g, n)).collect();
        g.p.x = json!({"faults": v});
    }
    let (len, gap) = g.pick(&[(20, 900), (30, 1500), (40, 2500)]);
    let mut ops = Vec::new();
    for _ in 0..g.range(1, 6) {
        let ms = g.pick(&[50, 1_000, 4_000, 9_000]);
        ops.push(Op::Sleep(ms));
        let k = g.pick(&[1, 1, 2, 4]);
        for _ in 0..k {
            let (listener, at, err, n, ms) = fault(g, n);
            ops.push(Op::Fault { listener, at, err, n, ms });
        }
    }
    g.actor("faults", ops);
    // clients that stay connected
    for l in 0..n {
        if !g.pc(80) {
            continue;
        }
        let ver = g.ver();
        let c = ConnP { listener: l as usize, clean: true, expiry: None, retries: 40, keep_alive: g.pick(&[0, 3, 10]), ..g.conn(&format!("s{l}"), ver) };
        let q = g.below(3) as u8;
        let mut ops = vec![Op::Connect(c), Op::Sub { filters: vec![("s/#".into(), q)], sid: None, wait: 5_000 }];
        for _ in 0..len {
            ops.push(Op::Pub(PubP { topic: format!("s/{l}"), qos: g.below(3) as u8, tag: g.tag(), quota_wait: Some(1), ..Default::default() }));
            ops.push(Op::Ping(0));
            let ms = g.range(gap / 2, gap);
            ops.push(Op::Sleep(ms));
        }
        ops.push(Op::Sleep(6_000));
        g.actor(&format!("s{l}"), ops);
    }
    // and some that come and go
    for l in 0..n {
        for k in 0..g.range(1, 2) {
            let mut ops = Vec::new();
            for j in 0..len {
                let ms = g.range(1, gap);
                ops.push(Op::Sleep(ms));
                let c = ConnP { listener: l as usize, clean: true, expiry: None, retries: 0, ..g.conn(&format!("p{l}-{k}-{j}"), 4) };
                ops.push(Op::Connect(ConnP { ver: g.ver(), wait: 8_000, ..c }));
                if g.pc(70) {
                    ops.push(Op::Disconnect { code: 0, expiry: None });
                } else {
                    ops.push(Op::Cut(g.cut()));
                }
            }
            g.actor(&format!("p{l}-{k}"), ops);
        }
    }
    // peers that get nowhere
    if g.pc(40) {
        let mut ops = Vec::new();
        for _ in 0..g.range(1, 12) {
            let listener = g.below(n) as usize;
            ops.push(Op::Open { listener, net: g.any_net(), full: g.pc(30), ver: 4 });
            if g.pc(50) {
                let hex = g.pick(&["16", "1603010200", "474554202f20485454502f312e310d0a", "0d0a0d0a000d0a51", "ff", "10", "101e00044d51545404"]);
                ops.push(Op::Raw { hex: hex.into(), piece: g.pick(&[0, 1, 3]), gap: g.pick(&[0, 1, 200]) });
            }
            let ms = g.pick(&[1, 100, 2_000]);
            ops.push(Op::Sleep(ms));
            if g.pc(40) {
                ops.push(Op::Cut(g.cut()));
            }
        }
        g.actor("stuck", ops);
    }
}

fn j21(v: &View, o: &mut Outcome) {
    let wait = 5 * SEC;
    let log = tokio::net::error_log();
    let addr = |l: usize| crate::client::cx().addrs[l % crate::client::cx().addrs.len()];
    // no call of the listener failed in this time
    let clear = |l: usize, a: Ns, b: Ns| !log.iter().any(|(t, x)| *x == addr(l) && *t >= a && *t <= b);
    let own = |l: usize| log.iter().any(|(_, x)| *x == addr(l));
    let (mut served, mut after, mut beside, mut pings, mut msgs) = (0, 0, 0, 0, 0);
    // attempts that found nobody listening
    for r in v.recs.iter().filter(|r| r.conn == 0) {
        if let Ev::OpenFail(e) = &r.ev {
            let Some(l) = e.strip_prefix("listener ").and_then(|x| x.split_once(':')).and_then(|x| x.0.parse::<usize>().ok()) else { continue };
            // the broker has to get going first
            if r.t > SEC && clear(l, r.t.saturating_sub(wait), r.t) {
                o.fail("C21.refused", format!("nobody listens at listener {l} at {:.3} s although none of its calls failed within {} s", r.t as f64 / 1e9, wait / SEC));
            }
        }
    }
    for c in v.conns[1..].iter().filter(|c| !c.raw && !c.hurt && c.p.cut.is_none()) {
        let (l, t) = (c.p.listener, v.t(c.open));
        let who = v.name(c.actor);
        let due = t + wait;
        if clear(l, t.saturating_sub(wait), due) && v.end_t(c).max(c.ack.as_ref().map_or(0, |a| v.t(a.0))) >= due.min(v.end) && v.end > due || c.fail.is_some() && clear(l, t.saturating_sub(wait), v.t(c.fail.as_ref().unwrap().0)) {
            match &c.ack {
                Some(a) if v.t(a.0) <= due => {}
                _ => o.fail("C21.unserved", format!("connection {} of {who} to listener {l}, opened at {:.3} s, was not accepted within {} s although no call of the listener failed meanwhile ({:?})", c.id, t as f64 / 1e9, wait / SEC, c.fail)),
            }
        } else if c.ack.is_none() && clear(l, t.saturating_sub(wait), v.end_t(c)) && matches!(c.end, Some((_, Ev::Closed(_)))) {
            o.fail("C21.unserved", format!("connection {} of {who} to listener {l}, opened at {:.3} s, was closed without an answer although no call of the listener failed meanwhile", c.id, t as f64 / 1e9));
        }
        if let Some(a) = &c.ack {
            served += 1;
            after += log.iter().any(|(x, y)| *y == addr(l) && *x < v.t(c.open)) as u64;
            beside += (!own(l) && !log.is_empty()) as u64;
            if a.2 != 0 {
                o.fail("C21.code", format!("connection {} of {who} was refused with code {:#x}", c.id, a.2));
            }
        }
        if !c.ok() {
            continue;
        }
        if let Some(why) = v.dropped(c) {
            o.fail("C21.dropped", format!("the broker ended connection {} of {who} ({why})", c.id));
        }
        let end = v.end_t(c);
        let outs: Vec<usize> = c.outs.iter().copied().filter(|i| matches!(v.recs[*i].ev, Ev::Out(Pkt::Pingreq))).collect();
        let ins: Vec<usize> = c.ins.iter().copied().filter(|i| matches!(v.recs[*i].ev, Ev::In(Pkt::Pingresp))).collect();
        for (k, i) in outs.iter().enumerate() {
            let due = v.t(*i) + wait;
            if due >= end {
                continue;
            }
            pings += 1;
            if ins.get(k).is_none_or(|j| v.t(*j) > due) {
                o.fail("C21.ping", format!("{who} got no answer to the PINGREQ of {:.3} s on connection {} within {} s", v.t(*i) as f64 / 1e9, c.id, wait / SEC));
                break;
            }
        }
    }
    let got = received(v);
    for p in v.pubs.values().filter(|p| p.tag > 0) {
        let pc = &v.conns[p.conn];
        if !pc.ok() || p.out != p.last_out {
            continue;
        }
        for s in v.subs.iter().filter(|s| s.granted().is_some() && s.ack.unwrap() < p.out && matches(&s.filter, &p.topic)) {
            let (t, sc) = (v.t(p.out), &v.conns[s.conn]);
            if v.end_t(pc) < t + wait || v.end_t(sc) < t + wait || v.end < t + wait {
                continue;
            }
            msgs += 1;
            if got.get(&(s.actor, p.tag)).and_then(|x| x.first()).is_none_or(|x| v.t(x.i) > t + wait) {
                o.fail("C21.delivery", format!("message {} of {} (sent at {:.3} s) did not reach {} within {} s", p.tag, v.name(p.actor), t as f64 / 1e9, v.name(s.actor), wait / SEC));
            }
        }
    }
    o.stat("connections served", served);
    o.stat("connections served after errors of their listener", after);
    o.stat("connections served beside errors of other listeners", beside);
    o.stat("answered pings", pings);
    o.stat("messages delivered in time", msgs);
}
