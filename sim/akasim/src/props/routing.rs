//! C07, C08, C09, C16: retained messages, routing, shared subscriptions, expiry.
use super::*;
use crate::client::{Ev, MS, SEC};
use crate::view::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            budget: (16000, 45),
            plan: c08,
            judge: j08,
            rule: "each message reaches every session with an acknowledged, lasting, matching subscription, none without one that may have matched, no more often than filters match, with the right QoS, identifiers and content; no undisturbed client is dropped or left without an answer",
            note: "clients that subscribe and unsubscribe overlapping, nested filters without waiting while others publish, reconnect, take over and start anew, all at the same instants",
        },
        Prop {
        id: "C07",
        budget: (16000, 45),
        plan: c07,
        judge: j07,
        rule: "each new subscription gets, per matching topic, one message that some order of the writes allows as the last (none only if a clear or nothing can be the last), according to its retain handling, with the right QoS and retain flag",
        note: "bursts of retained publishes and clears by several publishers over nested topics, with subscriptions with wildcards made at the same instants by fresh clients; publishers that lose connections",
    }]
}

// ------------------------------------------------------------------ C07

/// Clients subscribe to a topic at the moment somebody publishes a retained message to it.
fn c07_race(g: &mut G) {
    g.kind("race");
    g.p.sched = threads(g);
    g.listeners(0);
    let lat = (50, g.pick(&[50, 200, 1000]));
    g.p.fix_nets.push(Net { lat, ..Default::default() });
    g.p.settle = 6;
    let rounds = g.range(2, 8) as u32;
    let topics = g.pick(&[vec!["r"], vec!["r/a"], vec!["r/a", "r"], vec!["r/a/x", "r/b"]]);
    for k in 0..g.range(1, 2) {
        let ver = g.ver();
        let c = g.conn(&format!("w{k}"), ver);
        let mut ops = vec![Op::Connect(c)];
        for r in 1..=rounds {
            ops.push(Op::Sync(r));
            if g.pc(60) {
                let ms = g.range(0, 2);
                ops.push(Op::Sleep(ms));
            }
            for _ in 0..g.pick(&[1, 1, 1, 2]) {
                let t = g.pick(&topics);
                let clear = g.pc(25);
                let p = PubP { topic: t.into(), qos: g.below(3) as u8, retain: true, tag: g.tag(), clear, ..Default::default() };
                ops.push(Op::Pub(p));
            }
            ops.push(Op::WaitAcks(3000));
            ops.push(Op::Ping(3000));
            ops.push(Op::Sleep(1500));
        }
        g.actor(&format!("w{k}"), ops);
    }
    for k in 0..g.range(1, 3) {
        let mut ops = Vec::new();
        for r in 1..=rounds {
            let ver = g.ver();
            ops.push(Op::Connect(ConnP { cid: format!("r{k}"), ver, clean: true, ..Default::default() }));
            ops.push(Op::Sync(r));
            if g.pc(60) {
                let ms = g.range(0, 2);
                ops.push(Op::Sleep(ms));
            }
            let f = match g.below(6) {
                0 => "#".to_string(),
                1 => "r/#".to_string(),
                _ => g.pick(&topics).to_string(),
            };
            ops.push(Op::Sub { filters: vec![(f, g.below(3) as u8)], sid: None, wait: 3000 });
            ops.push(Op::Sleep(1200));
            ops.push(Op::Disconnect { code: 0, expiry: None });
        }
        g.actor(&format!("r{k}"), ops);
    }
}
pub fn threads(g: &mut G) -> Sched {
    Sched { workers: g.range(2, 4) as usize, fifo: false, preempt_ppm: g.pick(&[100_000, 300_000]), long_ppm: g.pick(&[0, 100_000, 500_000]), long_us: g.pick(&[100, 1_000, 5_000]), ..Default::default() }
}
fn c07(g: &mut G) {
    if g.i % 4 == 3 {
        return c07_race(g);
    }
    g.sched();
    g.listeners(10);
    g.nets(2);
    g.p.settle = 6;
    let pool = ["r", "r/a", "r/b", "r/a/x", "r//", "q", "/r", "q/a/x", "r/a/x/y"];
    let n = g.range(1, 5);
    let mut topics: Vec<&str> = Vec::new();
    for _ in 0..n {
        let t = g.pick(&pool);
        topics.push(t);
    }
    let filters = ["#", "+", "r/#", "r/+", "r/a", "+/a", "r/a/#", "+/+", "r", "+/a/#", "+/+/x", "/+", "r/+/+", "r/a/x", "q", "q/#", "$SYS/#", "+/#", "r//", "r/+/x/#"];
    let mut hooks = Vec::new();
    if g.pc(20) {
        for on in ["publish", "subscribe", "published", "subscribed"] {
            if g.pc(40) {
                hooks.push(json!({"on": on, "delay": g.range(1, 40), "count": g.range(1, 20)}));
            }
        }
    }
    let dollar = g.pc(15);
    if dollar {
        hooks.insert(0, json!({"on": "published", "topic": "trigger", "pubs": [["$SYS/a", 900_000, 1, true], ["$r/a", 900_001, 0, true]]}));
    }
    g.p.x = json!({"hook": hooks});
    let rounds = g.range(1, 6) as u32;
    let nw = g.range(1, 3);
    for w in 0..nw {
        let ver = g.ver();
        let steady = g.pc(70);
        let mut c = g.conn(&format!("w{w}"), ver);
        if steady {
            c.net = 0;
        }
        let mut first = c.clone();
        first.net = 0;
        let mut ops = vec![Op::Connect(first)];
        if dollar && w == 0 {
            ops.push(Op::Pub(PubP { topic: "trigger".into(), qos: 1, tag: g.tag(), ..Default::default() }));
            ops.push(Op::WaitAcks(2000));
        }
        for r in 1..=rounds {
            if g.pc(85) {
                ops.push(Op::Sync(r));
            }
            for _ in 0..g.range(0, 5) {
                let t = g.pick(&topics);
                let clear = g.pc(30);
                let retain = g.pc(92);
                let p = PubP { topic: t.into(), qos: g.below(3) as u8, retain, tag: g.tag(), pad: g.pick(&[0, 0, 0, 300]), clear, ..Default::default() };
                ops.push(Op::Pub(p));
                if g.pc(15) {
                    let ms = g.pick(&[1, 3, 40, 400]);
                    let ms = g.range(0, ms);
                    ops.push(Op::Sleep(ms));
                }
                if !steady && g.pc(15) {
                    let k = g.cut();
                    ops.push(Op::Cut(k));
                    let ms = g.range(0, 200);
                    ops.push(Op::Sleep(ms));
                    let mut c = c.clone();
                    c.net = g.any_net();
                    ops.push(Op::Connect(c));
                }
            }
            match g.below(4) {
                0 => ops.push(Op::Ping(3000)),
                1 => ops.push(Op::WaitAcks(3000)),
                2 => {
                    ops.push(Op::WaitAcks(3000));
                    ops.push(Op::Ping(3000));
                }
                _ => {}
            }
        }
        ops.push(Op::WaitAcks(10_000));
        ops.push(Op::Ping(3000));
        g.actor(&format!("w{w}"), ops);
    }
    let nr = g.range(1, 4);
    for k in 0..nr {
        let mut ops = Vec::new();
        for r in 1..=rounds + 1 {
            let ver = g.ver();
            let c = ConnP { cid: format!("r{k}"), ver, clean: true, listener: g.any_listener(), net: 0, ..Default::default() };
            ops.push(Op::Connect(c));
            if r <= rounds {
                if g.pc(85) {
                    ops.push(Op::Sync(r));
                }
            } else {
                ops.push(Op::Sleep(12_000));
            }
            let ms = g.pick(&[0, 0, 0, 2, 50]);
            let ms = g.range(0, ms);
            ops.push(Op::Sleep(ms));
            let mut used: Vec<String> = Vec::new();
            for _ in 0..g.pick(&[1, 1, 1, 2, 3]) {
                let mut fs = Vec::new();
                for _ in 0..g.pick(&[1, 1, 1, 2, 3]) {
                    let mut f = if !used.is_empty() && g.pc(30) {
                        g.pick(&used)
                    } else if g.pc(40) {
                        g.pick(&topics).to_string()
                    } else {
                        g.pick(&filters).to_string()
                    };
                    if ver == 5 && g.pc(5) && !f.starts_with('$') && !f.starts_with('/') {
                        f = format!("$share/g/{f}");
                    }
                    used.push(f.clone());
                    let rh = g.pick(&[0u8, 0, 0, 1, 2]);
                    let rap = g.pick(&[0u8, 8]);
                    fs.push((f, g.below(3) as u8 | rap | rh << 4));
                }
                ops.push(Op::Sub { filters: fs, sid: None, wait: 3000 });
                if g.pc(40) {
                    let ms = g.range(0, 500);
                    ops.push(Op::Sleep(ms));
                }
            }
            ops.push(Op::Sleep(1200));
            ops.push(Op::Disconnect { code: 0, expiry: None });
        }
        g.actor(&format!("r{k}"), ops);
    }
}
struct Write<'a> {
    p: &'a PubR,
    /// the record before which it was certainly processed
    done: usize,
}
/// Publishes with retain flag per topic.
fn writes(v: &View) -> BTreeMap<&str, Vec<Write<'_>>> {
    let mut m: BTreeMap<&str, Vec<Write>> = BTreeMap::new();
    for p in v.pubs.values().filter(|p| p.retain) {
        let mut done = v.processed(p).unwrap_or(usize::MAX);
        if p.out == p.last_out {
            // packets of one connection are processed in order
            for q in v.pubs.values().filter(|q| q.conn == p.conn && q.out > p.out && q.out == q.last_out) {
                done = done.min(v.processed(q).unwrap_or(usize::MAX));
            }
        }
        m.entry(&p.topic).or_default().push(Write { p, done });
    }
    m
}
/// `b` was processed after `a`, if it was at all.
fn after(b: &Write, a: &Write) -> bool {
    a.done < b.p.out || a.p.conn == b.p.conn && a.p.out < b.p.out && a.p.out == a.p.last_out
}
fn j07(v: &View, o: &mut Outcome) {
    let ws = writes(v);
    let (mut exact, mut open, mut none, mut racing) = (0u64, 0u64, 0u64, 0u64);
    for c in v.conns[1..].iter().filter(|c| !c.raw && c.ok() && !c.sp() && c.p.clean) {
        let subs: Vec<&SubR> = v.subs.iter().filter(|s| s.conn == c.id).collect();
        if subs.is_empty() {
            continue;
        }
        let apps: Vec<&AppR> = v.apps.iter().filter(|a| a.conn == c.id).collect();
        for a in &apps {
            if !subs.iter().any(|s| matches(&v.subtopic(s), &a.topic)) {
                o.fail("C07.misrouted", format!("{} received message {} on {}, which matches none of its filters", v.name(c.actor), a.tag, a.topic));
            }
        }
        let first = subs[0].out;
        let full = !c.hurt && !c.slow && c.p.net == 0 && subs.iter().all(|s| s.granted().is_some() && v.t(s.ack.unwrap()) + SEC < v.end_t(c));
        let last_ack = subs.iter().map(|s| s.ack.unwrap_or(usize::MAX)).max().unwrap();
        for (t, w) in &ws {
            let mine: Vec<&&SubR> = subs.iter().filter(|s| matches(&v.subtopic(s), t)).collect();
            if mine.is_empty() {
                continue;
            }
            // which messages retention allows at `lo`..`hi`
            let allowed = |x: &Write, lo: usize, hi: usize| x.p.out < hi && !w.iter().any(|y| y.done < lo && after(y, x));
            let start_allowed = |lo: usize| !w.iter().any(|y| y.done < lo);
            let old: Vec<(&&AppR, &Write)> = apps.iter().filter(|a| a.tag > 0 && a.topic == *t).filter_map(|a| w.iter().find(|x| x.p.tag == a.tag && x.done < first).map(|x| (a, x))).collect();
            let due = |k: usize| -> u32 {
                let s = mine[k];
                if s.share().is_some() {
                    return 0;
                }
                match (c.p.ver, s.opt >> 4 & 3) {
                    (3 | 4, _) | (5, 0) => 1,
                    (5, 1) => subs.iter().take_while(|x| !std::ptr::eq(**x, *s)).all(|x| x.filter != s.filter) as u32,
                    _ => 0,
                }
            };
            for (a, x) in &old {
                if !allowed(x, first, last_ack) {
                    o.fail("C07.stale", format!("{} subscribed at {:.6} s and received retained message {} on {t}, overwritten before", v.name(c.actor), v.t(first) as f64 / 1e9, a.tag));
                }
                let any = mine.iter().filter(|s| s.share().is_none()).map(|s| s.granted().unwrap_or(s.opt & 3).min(x.p.qos)).collect::<BTreeSet<u8>>();
                if !any.contains(&a.qos) {
                    o.fail("C07.qos", format!("retained message {} of QoS {} arrived with QoS {} at {}", a.tag, x.p.qos, a.qos, v.name(c.actor)));
                }
                let flags: BTreeSet<bool> = mine.iter().map(|s| c.p.ver < 5 || s.opt & 8 != 0).collect();
                if !flags.contains(&a.retain) {
                    o.fail("C07.flag", format!("retained message {} arrived at {} with the retain flag {}", a.tag, v.name(c.actor), a.retain));
                }
            }
            let most: u32 = (0..mine.len()).map(due).sum();
            if old.len() as u32 > most {
                o.fail(
                    "C07.repeated",
                    format!("{} made {} subscriptions that match {t}, {most} of them due a retained message, and received {} that were there before", v.name(c.actor), mine.len(), old.len()),
                );
            }
            // forwarded messages
            if let [s] = mine[..] {
                for a in apps.iter().filter(|a| a.tag > 0 && a.topic == *t) {
                    let Some(x) = w.iter().find(|x| x.p.tag == a.tag) else { continue };
                    if x.p.out > s.ack.unwrap_or(usize::MAX) {
                        let flag = c.p.ver == 5 && s.opt & 8 != 0;
                        if a.retain != flag {
                            o.fail("C07.flag", format!("message {} was forwarded to {} with the retain flag {}", a.tag, v.name(c.actor), a.retain));
                        }
                    }
                    let n = apps.iter().filter(|b| b.tag == a.tag && b.topic == *t).count();
                    let most = 1 + (x.p.out < s.ack.unwrap_or(usize::MAX) && x.done > s.out && due(0) > 0) as usize;
                    if n > most && x.p.out == x.p.last_out {
                        o.fail("C07.repeated", format!("message {} reached {} {n} times", a.tag, v.name(c.actor)));
                    }
                }
            }
            if !full {
                continue;
            }
            let quiet = !w.iter().any(|x| x.p.out < last_ack && x.done > first);
            let may_none = start_allowed(first) || w.iter().any(|x| x.p.tag == 0 && allowed(x, first, last_ack));
            let tags: BTreeSet<u64> = old.iter().map(|x| x.1.p.tag).collect();
            if quiet {
                if tags.len() > 1 {
                    o.fail("C07.mixed", format!("{} received different retained messages {tags:?} of {t} although nobody wrote to it meanwhile", v.name(c.actor)));
                }
                if (old.len() as u32) < most && !(may_none && old.is_empty()) {
                    o.fail(
                        "C07.missing",
                        format!("{} subscribed to {:?} at {:.6} s: {} of {most} retained messages of {t} arrived", v.name(c.actor), mine[0].filter, v.t(first) as f64 / 1e9, old.len()),
                    );
                }
                if most > 0 && may_none {
                    open += 1;
                } else if most > 0 {
                    exact += 1;
                } else {
                    none += 1;
                }
            } else if most == 1 && mine.len() == 1 {
                racing += 1;
                let s = mine[0];
                let (lo, hi) = (s.out, s.ack.unwrap());
                let may_none = start_allowed(lo) || w.iter().any(|x| x.p.tag == 0 && allowed(x, lo, hi));
                let got = apps.iter().any(|a| a.tag > 0 && a.topic == *t && w.iter().any(|x| x.p.tag == a.tag && x.p.out < hi));
                if !got && !may_none {
                    o.fail("C07.missing", format!("{} subscribed to {} at {:.6} s and got no retained message of {t}", v.name(c.actor), s.filter, v.t(lo) as f64 / 1e9));
                }
                // stored before the subscription or forwarded after it: one way or the other
                for x in w.iter().filter(|x| x.p.tag > 0 && x.p.out < hi && x.done > lo && x.done < usize::MAX && x.p.out == x.p.last_out && x.p.acked.is_none_or(|a| a.1 < 0x80) && v.t(x.done) + SEC < v.end_t(c)) {
                    let alone = w.iter().all(|y| std::ptr::eq(x, y) || y.p.out > hi.max(x.done) || after(x, y));
                    if alone && s.granted().is_some_and(|g| g < 3) && s.opt & 4 == 0 && !apps.iter().any(|a| a.tag == x.p.tag) {
                        o.fail(
                            "C07.missing",
                            format!("{} subscribed to {} at {:.6} s while message {} was being published to {t}, and got it neither as retained nor forwarded", v.name(c.actor), s.filter, v.t(lo) as f64 / 1e9, x.p.tag),
                        );
                    }
                }
            }
        }
        if v.plan.x["hook"][0]["topic"] == "trigger" {
            // the hook's messages
            let made = v.recs.iter().position(|r| matches!(&r.ev, Ev::Hook { what, data, .. } if what == "published:done" && data.contains("rule 0")));
            if let (Some(m), true) = (made, full) {
                let m = v.recs.iter().enumerate().skip(m).find(|(_, r)| r.t > v.t(m) + SEC).map_or(usize::MAX, |x| x.0);
                for (tag, t) in [(900_000u64, "$SYS/a"), (900_001, "$r/a")] {
                    let mine: Vec<&&SubR> = subs.iter().filter(|s| s.share().is_none() && matches(&s.filter, t)).collect();
                    if let ([s], true) = (&mine[..], m < first) {
                        let n = apps.iter().filter(|a| a.tag == tag).count();
                        let want = (c.p.ver < 5 || s.opt >> 4 & 3 < 2) as usize;
                        if n != want {
                            o.fail("C07.missing", format!("{n} instead of {want} retained messages of {t} arrived at {}", v.name(c.actor)));
                        }
                    }
                }
            }
        }
    }
    let _ = MS;
    o.stat("retained messages due", exact);
    o.stat("retained messages that may be absent", open);
    o.stat("subscriptions not due any", none);
    o.stat("subscriptions racing with writes", racing);
}

// ------------------------------------------------------------------ C08

const TREE: [&str; 14] = ["t", "t/a", "t/b", "t/a/x", "t/a/y", "t/a/x/1", "t//", "/t", "t/a/", "u", "u/a", "u/a/x", "t/a/x/1/2", "u/b"];
const PATTERNS: [&str; 26] = [
    "#", "+", "t", "t/#", "t/+", "+/a", "t/a", "t/a/#", "t/a/+", "t/+/x", "+/+/x", "t/a/x", "t/a/x/#", "t/a/x/1", "+/#", "t/+/#", "/+", "/t", "t//", "t/+/+", "u/#", "u/a", "+/a/#", "t/a/x/+", "t/a/x/1/#",
    "$SYS/#",
];

/// Few clients take the last subscription off a branch and put the first on it, at the same time.
fn c08_churn(g: &mut G) {
    g.kind("churn");
    g.p.sched = threads(g);
    g.listeners(0);
    let lat = (50, g.pick(&[50, 200, 1000]));
    g.p.fix_nets.push(Net { lat, ..Default::default() });
    g.p.settle = 10;
    let few = g.pick(&[vec!["u/a"], vec!["u/a", "u/#"], vec!["t"], vec!["t/a", "t/+", "t/b"], vec!["t/a/x", "t/a/y"], vec!["t/a/#", "t/a/x/1", "t/a"], vec!["#", "t"]]);
    let topics: Vec<&str> = TREE.iter().filter(|t| few.iter().any(|f| crate::view::matches(f, t))).cloned().collect();
    let n = g.range(2, 3);
    let rounds = g.range(2, 9) as u32;
    for k in 0..n {
        let ver = g.ver();
        let mut c = g.conn(&format!("c{k}"), ver);
        c.net = 0;
        let mut ops = vec![Op::Connect(c)];
        let f = g.pick(&few);
        for r in 1..=rounds {
            ops.push(Op::Sync(2 * r));
            if g.pc(40) {
                let ms = g.range(0, 2);
                ops.push(Op::Sleep(ms));
            }
            let f = if g.pc(80) { f } else { g.pick(&few) };
            if (k as u32 + r) % 2 == 0 || g.pc(10) {
                ops.push(Op::Sub { filters: vec![(f.into(), g.range(1, 2) as u8)], sid: None, wait: 3000 });
            } else {
                ops.push(Op::Unsub { filters: vec![f.into()], wait: 3000 });
            }
            ops.push(Op::Sync(2 * r + 1));
            if g.pc(30) || r == rounds {
                let t = g.pick(&topics);
                let p = PubP { topic: t.into(), qos: 1, tag: g.tag(), ..Default::default() };
                ops.push(Op::Pub(p));
                ops.push(Op::WaitAcks(3000));
            }
        }
        ops.push(Op::Ping(5000));
        ops.push(Op::Sync(100));
        ops.push(Op::Sleep(2000));
        g.actor(&format!("c{k}"), ops);
    }
}
fn c08(g: &mut G) {
    if g.i % 4 == 3 {
        return c08_churn(g);
    }
    g.sched();
    g.listeners(10);
    g.nets(3);
    g.p.settle = 20;
    // a few filters, so that branches of the tree come and go
    let few: Vec<&str> = (0..g.range(2, 6)).map(|_| g.pick(&PATTERNS)).collect();
    let topics: Vec<&str> = (0..g.range(1, 5)).map(|_| g.pick(&TREE)).collect();
    let rounds = g.range(1, 5) as u32;
    let mut hooks = Vec::new();
    if g.pc(15) {
        for on in ["publish", "subscribe", "unsubscribe", "published", "subscribed", "unsubscribed"] {
            if g.pc(40) {
                hooks.push(json!({"on": on, "delay": g.range(1, 40), "count": g.range(1, 30)}));
            }
        }
    }
    g.p.x = json!({"hook": hooks});
    for k in 0..g.range(1, 4) {
        let ver = g.ver();
        let mut c = g.conn(&format!("c{k}"), ver);
        let still = g.pc(65);
        if still || g.pc(50) {
            c.net = 0;
        }
        let kind = g.below(10);
        let mut ops = vec![];
        let mut first = c.clone();
        first.net = 0;
        ops.push(Op::Connect(first));
        for r in 1..=rounds {
            if g.pc(80) {
                ops.push(Op::Sync(r));
            }
            for _ in 0..g.range(0, 6) {
                let f = if g.pc(85) { g.pick(&few) } else { g.pick(&PATTERNS) };
                let wait = g.pick(&[0, 0, 3000]);
                match g.below(10) {
                    0..=4 => {
                        let mut fs = vec![(f.to_string(), g.below(3) as u8 | g.pick(&[0, 0, 0, 4]) | g.pick(&[0, 8]))];
                        if g.pc(20) {
                            let f = g.pick(&few);
                            fs.push((f.to_string(), g.below(3) as u8));
                        }
                        let sid = g.pc(50).then(|| g.range(1, 300) as u32);
                        ops.push(Op::Sub { filters: fs, sid, wait });
                    }
                    5..=7 => {
                        let mut fs = vec![f.to_string()];
                        if g.pc(20) {
                            let f = g.pick(&few);
                            fs.push(f.into());
                        }
                        ops.push(Op::Unsub { filters: fs, wait });
                    }
                    8 => {
                        let t = g.pick(&topics);
                        let p = PubP { topic: t.into(), qos: g.below(3) as u8, tag: g.tag(), ..Default::default() };
                        ops.push(Op::Pub(p));
                    }
                    _ => {
                        let ms = g.pick(&[0, 1, 20, 300]);
                        let ms = g.range(0, ms);
                        ops.push(Op::Sleep(ms));
                    }
                }
            }
            if !still && g.pc(60) {
                let how = if kind < 4 { 3 } else { g.below(4) };
                match how {
                    0 | 1 => {
                        let k = g.cut();
                        ops.push(Op::Cut(k));
                    }
                    2 => ops.push(Op::Disconnect { code: 0, expiry: (ver == 5 && g.pc(30)).then_some(0) }),
                    _ => {}
                }
                let ms = g.pick(&[0, 3, 300, 2000]);
                let ms = g.range(0, ms);
                ops.push(Op::Sleep(ms));
                let mut c = c.clone();
                c.net = g.any_net();
                if g.pc(25) {
                    c.clean = true;
                }
                ops.push(Op::Connect(c));
            }
        }
        if !still && !g.pc(20) {
            super::delivery::calm(&mut ops, c, 0);
        }
        ops.push(Op::Ping(5000));
        ops.push(Op::Sync(100));
        ops.push(Op::Sleep(8000));
        g.actor(&format!("c{k}"), ops);
    }
    for k in 0..g.range(1, 3) {
        let ver = g.ver();
        let mut c = g.conn(&format!("p{k}"), ver);
        c.net = if g.pc(70) { 0 } else { c.net };
        let mut ops = vec![Op::Connect(c)];
        for r in 1..=rounds {
            ops.push(Op::Sync(r));
            let n = g.pick(&[1, 3, 8]);
            for _ in 0..g.range(0, n) {
                let t = g.pick(&topics);
                let p = PubP { topic: t.into(), qos: g.below(3) as u8, tag: g.tag(), pad: g.pick(&[0, 0, 200]), ..Default::default() };
                ops.push(Op::Pub(p));
                if g.pc(30) {
                    let ms = g.pick(&[0, 1, 3, 100]);
                    let ms = g.range(0, ms);
                    ops.push(Op::Sleep(ms));
                }
            }
            ops.push(Op::WaitAcks(3000));
            if g.pc(50) {
                ops.push(Op::Ping(3000));
            }
        }
        ops.push(Op::Sync(100));
        // everything is settled now
        for t in topics.iter().take(4) {
            let p = PubP { topic: t.to_string(), qos: g.below(3) as u8, tag: g.tag(), ..Default::default() };
            ops.push(Op::Pub(p));
        }
        ops.push(Op::WaitAcks(5000));
        ops.push(Op::Ping(3000));
        g.actor(&format!("p{k}"), ops);
    }
}
/// The first connection of the session connection `c` is in.
fn session_start(v: &View, c: &Conn) -> usize {
    v.of(c.actor).filter(|d| d.id <= c.id && d.ok() && !d.sp()).last().map_or(0, |d| d.id)
}
/// Whether a message published between records `from` and `to` may have matched subscription `s`.
pub fn maybe(v: &View, s: &SubR, from: usize, to: usize) -> bool {
    if s.code.is_some_and(|c| c >= 0x80) || s.out > to {
        return false;
    }
    // unsubscribed before
    if v.unsubs.iter().any(|u| u.actor == s.actor && u.out > s.out && u.filter == s.filter && u.ack.is_some_and(|a| a < from)) {
        return false;
    }
    // subscribed anew, perhaps with other options: then that one counts
    if v.subs.iter().any(|t| t.actor == s.actor && t.out > s.out && t.filter == s.filter && t.ack.is_some_and(|a| a < from) && t.granted().is_some()) {
        return false;
    }
    // the session ended before
    !v.of(s.actor).any(|d| d.id > s.conn && d.ok() && !d.sp() && d.ack.as_ref().unwrap().0 < from)
}
/// Every message published from `from` on matched subscription `s` until its receiver was done with it.
fn surely(v: &View, s: &SubR, from: usize) -> bool {
    s.granted().is_some()
        && s.ack.unwrap() < from
        && !v.unsubs.iter().any(|u| u.actor == s.actor && u.out > s.out && u.filter == s.filter)
        && !v.subs.iter().any(|t| t.actor == s.actor && t.out > s.out && t.filter == s.filter && t.ack.is_some_and(|a| a < from))
}
fn j08(v: &View, o: &mut Outcome) {
    let (mut must, mut mustnot, mut both) = (0u64, 0u64, 0u64);
    let got = super::delivery::received(v);
    for a in 0..v.plan.actors.len() {
        let mine: Vec<&SubR> = v.subs.iter().filter(|s| s.actor == a).collect();
        if mine.is_empty() {
            continue;
        }
        let steady = v.steady(a);
        for p in v.pubs.values().filter(|p| p.tag > 0) {
            let done = v.processed(p).unwrap_or(usize::MAX);
            let match_: Vec<&&SubR> = mine.iter().filter(|s| s.share().is_none() && matches(&s.filter, &p.topic)).collect();
            let may: Vec<&&&SubR> = match_.iter().filter(|s| maybe(v, s, p.out, done) && !(v.conns[s.conn].p.ver == 5 && s.opt & 4 != 0 && p.actor == a)).collect();
            let none = vec![];
            let apps = got.get(&(a, p.tag)).unwrap_or(&none);
            if may.is_empty() {
                mustnot += 1;
                if let Some(x) = apps.first() {
                    o.fail("C08.misrouted", format!("{} received message {} on {} at {:.6} s without a subscription that it may have matched", v.name(a), p.tag, p.topic, v.t(x.i) as f64 / 1e9));
                }
                continue;
            }
            both += 1;
            let filters: BTreeSet<&str> = may.iter().map(|s| s.filter.as_str()).collect();
            let exact = p.out == p.last_out || p.qos == 2;
            for x in apps.iter() {
                let top = may.iter().map(|s| s.granted().unwrap_or(s.opt & 3)).max().unwrap().min(p.qos);
                if x.qos > top {
                    o.fail("C08.qos", format!("message {} of QoS {} reached {} with QoS {}, granted was at most {top}", p.tag, p.qos, v.name(a), x.qos));
                }
                if x.topic != p.topic || x.len != p.len {
                    o.fail("C08.changed", format!("message {} arrived at {} on {} with {} bytes", p.tag, v.name(a), x.topic, x.len));
                }
                if x.retain {
                    o.fail("C08.changed", format!("message {} arrived at {} with the retain flag set", p.tag, v.name(a)));
                }
                // a message belongs to the session it was published to
                let start = session_start(v, &v.conns[x.conn]);
                if !may.iter().any(|s| s.conn >= start) {
                    o.fail("C08.old-session", format!("{} received message {} meant for subscriptions of an earlier session", v.name(a), p.tag));
                }
                if v.conns[x.conn].p.ver == 5 {
                    let ids: Vec<u32> = x.props.iter().filter(|y| y.0 == 0x0b).map(|y| if let crate::wire::Val::Var(n) = y.1 { n } else { 0 }).collect();
                    if let Some(i) = ids.iter().find(|i| !mine.iter().any(|s| s.sid == Some(**i) && matches(&s.filter, &p.topic))) {
                        o.fail("C08.ids", format!("message {} on {} reached {} with subscription identifier {i}", p.tag, p.topic, v.name(a)));
                    }
                }
            }
            if exact && (steady || p.qos == 2 && may.iter().all(|s| s.granted() == Some(2))) && apps.len() > filters.len() {
                o.fail("C08.duplicated", format!("message {} on {} reached {} {} times, {} of its filters match", p.tag, p.topic, v.name(a), apps.len(), filters.len()));
            }
            // owed?
            let no_local = |f: &str| p.actor == a && match_.iter().any(|s| s.filter == f && s.opt & 4 != 0);
            let due: Vec<&&&&SubR> = may.iter().filter(|s| surely(v, s, p.out) && !no_local(&s.filter) && v.lasting(&v.conns[s.conn])).collect();
            if due.is_empty() || !v.responsive(a) || done == usize::MAX {
                continue;
            }
            // the smallest QoS the subscription may have had then
            let q = |f: &str| may.iter().filter(|s| s.filter == f).map(|s| s.granted().unwrap_or(0)).min().unwrap_or(0);
            let want = due.iter().map(|s| q(&s.filter)).max().unwrap().min(p.qos);
            let calm = steady && v.conns[due[0].conn].p.net == 0;
            if want == 0 && !calm {
                continue;
            }
            must += 1;
            if apps.is_empty() {
                o.fail(
                    "C08.lost",
                    format!("message {} on {} (QoS {}), published at {:.6} s, never reached {}, subscribed to {} since {:.6} s", p.tag, p.topic, p.qos, v.t(p.out) as f64 / 1e9, v.name(a), due[0].filter, v.t(due[0].ack.unwrap()) as f64 / 1e9),
                );
                continue;
            }
            if apps.iter().all(|x| x.qos < want) {
                o.fail("C08.qos", format!("message {} of QoS {} reached {} with QoS {}, granted was {want} at least", p.tag, p.qos, v.name(a), apps[0].qos));
            }
            for s in due.iter().filter(|s| v.conns[s.conn].p.ver == 5 && s.sid.is_some()) {
                // it is looked up when the message arrives at the session
                let one = match_.iter().filter(|x| x.filter == s.filter && (x.out >= s.out || maybe(v, x, p.out, done))).all(|x| x.sid == s.sid);
                if one && (calm || q(&s.filter).min(p.qos) > 0) && !apps.iter().any(|x| x.props.iter().any(|y| y.0 == 0x0b && y.1 == crate::wire::Val::Var(s.sid.unwrap()))) {
                    o.fail("C08.ids", format!("message {} on {} reached {} without the identifier {} of {}", p.tag, p.topic, v.name(a), s.sid.unwrap(), s.filter));
                }
            }
        }
    }
    super::delivery::answered(v, o, "C08");
    o.stat("messages owed", must);
    o.stat("messages that may not arrive", mustnot);
    o.stat("messages that may arrive", both);
}
