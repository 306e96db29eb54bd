//! C20: hooks decide, and are contained.
use super::*;
use crate::client::{Ev, Ns, SEC};
use crate::hooks::Rule;
use crate::view::*;
use crate::wire::Pkt;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        budget: (9000, 45),
        plan: c20,
        judge: j20,
        rule: "reference model of hook decisions, edits and actions: every effect follows an accepting invocation of the enabled hook and only that, with the hook's edits; refusals get their code and have no effect; every action takes effect exactly once; slow and failing hooks concern their own connection only; after-connect and after-disconnect run once per accepted connection",
        note: "connect, publish, subscribe and unsubscribe of both versions with accepting, refusing, editing, acting, slow and failing hooks, hooks switched off one by one, cuts, resumptions and takeovers while a hook runs, every scheduler",
    }]
}

/// What a rule makes of the connection it applies to.
fn ends(ver: u8, r: &Value) -> bool {
    r["fail"] == json!(true) || (ver < 5 && r["code"].as_u64().unwrap_or(0) > 0)
}
fn delay(g: &mut G) -> u64 {
    g.pick(&[0, 0, 0, 0, 1, 30, 500, 3000])
}
/// Actions a hook asks for.
fn acts(g: &mut G, r: &mut Value, k: u64, n: u64, mine: &mut Vec<(String, bool)>, ver: u8) {
    let np = g.pick(&[0, 0, 1, 1, 2, 12]);
    let mut v = Vec::new();
    for i in 0..np {
        v.push(json!([format!("act/{k}/{n}/{i}"), g.tag(), g.below(3), g.pc(20)]));
    }
    r["pubs"] = json!(v);
    if g.pc(30) {
        let f = format!("s{k}/a{n}");
        r["subs"] = json!([[format!("{f}/#"), g.below(3)]]);
        mine.push((f, true));
    }
    if g.pc(25) {
        if let Some((f, _)) = mine.get(g.below(mine.len().max(1) as u64) as usize).cloned() {
            r["unsubs"] = json!([format!("{f}/#")]);
        }
    }
    let _ = ver;
}
fn c20(g: &mut G) {
    g.sched();
    g.listeners(15);
    g.nets(3);
    // what is said about time must hold
    for n in &mut g.p.fix_nets {
        n.lat.1 = n.lat.1.min(2000);
        n.win = (0, 0);
    }
    g.p.settle = 45;
    g.cfg("max_in_mem_pending_messages", json!(100_000));
    if g.pc(30) {
        let on: Vec<bool> = (0..6).map(|_| g.pc(70)).collect();
        g.hooks_on(&on);
    }
    let mut rules: Vec<Value> = Vec::new();
    let nk = g.range(1, 3);
    // observers
    for k in 0..2 {
        let ver = g.pick(&[4, 5]);
        let c = ConnP { net: 0, listener: 0, keep_alive: 30, clean: true, expiry: None, ..g.conn(&format!("obs{k}"), ver) };
        let mut ops = vec![Op::Connect(c), Op::Sub { filters: vec![("#".into(), 2)], sid: None, wait: 20_000 }, Op::Sync(1)];
        if k == 0 {
            for _ in 0..g.range(3, 10) {
                let ms = g.pick(&[50, 400, 900, 3000]);
                let ms = g.range(1, ms);
                ops.push(Op::Sleep(ms));
                let p = PubP { topic: "o/x".into(), qos: g.range(0, 2) as u8, tag: g.tag(), ..Default::default() };
                ops.push(Op::Pub(p));
                ops.push(Op::Ping(0));
            }
        }
        ops.push(Op::Sync(9000));
        ops.push(Op::Sleep(40_000));
        g.actor(&format!("obs{k}"), ops);
    }
    for k in 0..nk {
        let ver = g.ver();
        let mut c = g.conn(&format!("c{k}"), ver);
        c.keep_alive = 10;
        c.retries = 2;
        c.clean = g.pc(20);
        c.expiry = (ver == 5).then(|| g.pick(&[0, 5, 100_000]));
        if g.pc(15) {
            c.listener = 0;
        }
        let cid = format!("c{k}");
        let mut ops = vec![Op::Sync(1), Op::Connect(c.clone())];
        let mut prober = vec![Op::Connect(ConnP { net: 0, listener: 0, clean: true, ver: 4, expiry: None, keep_alive: 30, ..g.conn(&format!("pr{k}"), 4) })];
        // retained messages for what hooks subscribe
        for n in 0..7 {
            if g.pc(30) {
                let p = PubP { topic: format!("s{k}/a{n}/r"), qos: g.below(3) as u8, tag: g.tag(), retain: true, ..Default::default() };
                prober.push(Op::Pub(p));
            }
        }
        prober.push(Op::WaitAcks(5000));
        prober.push(Op::Sync(1));
        // topics the client may be subscribed to
        let mut mine: Vec<(String, bool)> = Vec::new();
        let steps = g.range(2, 7);
        for n in 0..steps {
            let mut over = false;
            let mut slow = 0;
            match g.below(10) {
                0..=3 => {
                    let topic = format!("p{k}/{n}");
                    let count = g.pick(&[1, 1, 1, 5]);
                    if g.pc(70) {
                        let mut r = json!({"on": "publish", "cid": cid, "topic": topic});
                        match g.below(8) {
                            0 | 1 => {
                                r["code"] = json!(g.range(1, 4));
                                if g.pc(30) {
                                    // has no effect
                                    r["set_topic"] = json!(format!("e{k}/{n}"));
                                }
                            }
                            2 => r["fail"] = json!(true),
                            3 => r["set_topic"] = json!(format!("e{k}/{n}")),
                            4 => r["set_retain"] = json!(g.pc(50)),
                            5 if count == 1 => r["set_tag"] = json!(g.tag()),
                            _ => {}
                        }
                        r["delay"] = json!(delay(g));
                        r["count"] = json!(g.pick(&[0, 1, 1, 2]));
                        if r.as_object().unwrap().keys().any(|k| k.starts_with("set_")) {
                            // the same for each transmission of a message
                            r["count"] = json!(0);
                        }
                        over |= ends(ver, &r);
                        slow += r["delay"].as_u64().unwrap() * count;
                        rules.push(r);
                    }
                    if g.pc(50) {
                        // the topic it sees is the edited one
                        let t = rules.last().and_then(|r| if r["topic"] == json!(topic) { r["set_topic"].as_str() } else { None }).unwrap_or(&topic).to_string();
                        let mut r = json!({"on": "published", "cid": cid, "topic": t, "count": g.range(0, 2), "delay": delay(g)});
                        acts(g, &mut r, k, n, &mut mine, ver);
                        if g.pc(12) {
                            r["fail"] = json!(true);
                            over = true;
                        }
                        slow += r["delay"].as_u64().unwrap() * count;
                        rules.push(r);
                    }
                    let p = PubP { topic, qos: g.below(3) as u8, tag: g.tags(count), retain: g.pc(25), ..Default::default() };
                    ops.push(Op::Burst { p, n: count });
                    if g.pc(15) {
                        // ended while the hook may be running
                        let ms = g.below(slow + 2);
                        ops.push(Op::Sleep(ms));
                        let cut = g.cut();
                        ops.push(Op::Cut(cut));
                        over = true;
                    } else {
                        ops.push(Op::WaitAcks(slow + 3000));
                    }
                }
                4..=6 => {
                    let nf = g.range(1, 2);
                    let mut fs = Vec::new();
                    for i in 0..nf {
                        let f = format!("s{k}/{n}{i}");
                        fs.push((format!("{f}/#"), g.below(3) as u8));
                        mine.push((f, true));
                    }
                    if g.pc(65) {
                        let mut r = json!({"on": "subscribe", "cid": cid, "topic": fs[0].0, "delay": delay(g), "count": 1});
                        match g.below(6) {
                            0 | 1 => {
                                r["code"] = json!(g.range(1, 4));
                                if g.pc(30) {
                                    let f = format!("s{k}/e{n}");
                                    r["set_topic"] = json!(format!("{f}/#"));
                                    mine.push((f, true));
                                }
                            }
                            2 => r["fail"] = json!(true),
                            3 => {
                                let f = format!("s{k}/e{n}");
                                r["set_topic"] = json!(format!("{f}/#"));
                                mine.push((f, true));
                            }
                            4 => r["set_qos"] = json!(g.below(3)),
                            _ => {}
                        }
                        over |= ends(ver, &r);
                        slow += r["delay"].as_u64().unwrap();
                        rules.push(r);
                    }
                    if g.pc(40) {
                        let t = rules.last().and_then(|r| if r["topic"] == json!(fs[0].0) { r["set_topic"].as_str() } else { None }).unwrap_or(&fs[0].0).to_string();
                        let mut r = json!({"on": "subscribed", "cid": cid, "topic": t, "count": 1, "delay": delay(g)});
                        acts(g, &mut r, k, n, &mut mine, ver);
                        if g.pc(12) {
                            r["fail"] = json!(true);
                            over = true;
                        }
                        slow += r["delay"].as_u64().unwrap();
                        rules.push(r);
                    }
                    ops.push(Op::Sub { filters: fs, sid: None, wait: slow + 3000 });
                }
                7 if !mine.is_empty() => {
                    let mut fs: Vec<String> = vec![format!("{}/#", g.pick(&mine).0)];
                    if g.pc(30) {
                        fs.push(format!("{}/#", g.pick(&mine).0));
                    }
                    fs.dedup();
                    if g.pc(65) {
                        let mut r = json!({"on": "unsubscribe", "cid": cid, "topic": fs[0], "delay": delay(g), "count": 1});
                        match g.below(5) {
                            0 | 1 => {
                                r["code"] = json!(g.range(1, 4));
                                if g.pc(30) {
                                    r["set_topic"] = json!(format!("{}/#", g.pick(&mine).0));
                                }
                            }
                            2 => r["fail"] = json!(true),
                            3 => r["set_topic"] = json!(format!("{}/#", g.pick(&mine).0)),
                            _ => {}
                        }
                        over |= ends(ver, &r);
                        slow += r["delay"].as_u64().unwrap();
                        rules.push(r);
                    }
                    if g.pc(40) {
                        let mut r = json!({"on": "unsubscribed", "cid": cid, "topic": fs[0], "count": 1, "delay": delay(g)});
                        acts(g, &mut r, k, n, &mut mine, ver);
                        if g.pc(12) {
                            r["fail"] = json!(true);
                            over = true;
                        }
                        slow += r["delay"].as_u64().unwrap();
                        rules.push(r);
                    }
                    ops.push(Op::Unsub { filters: fs, wait: slow + 3000 });
                }
                _ => {
                    // another connection
                    for on in ["connect", "connected", "disconnected"] {
                        if g.pc(40) {
                            let mut r = json!({"on": on, "cid": cid, "count": g.pick(&[1, 1, 2]), "delay": delay(g)});
                            match (on, g.below(6)) {
                                ("connect", 0 | 1) => r["code"] = json!(g.range(1, 7)),
                                (_, 2) => r["fail"] = json!(true),
                                ("connected", _) => {
                                    r["count"] = json!(1);
                                    acts(g, &mut r, k, n, &mut mine, ver)
                                }
                                _ => {}
                            }
                            slow += r["delay"].as_u64().unwrap() * 2;
                            rules.push(r);
                        }
                    }
                    match g.below(5) {
                        0 => ops.push(Op::Disconnect { code: 0, expiry: None }),
                        1 | 2 => {
                            let cut = g.cut();
                            ops.push(Op::Cut(cut));
                        }
                        _ => {}
                    }
                    let ms = g.pick(&[0, 10, 2500, 7000]);
                    ops.push(Op::Sleep(ms));
                    over = true;
                }
            }
            if over {
                let ms = g.pick(&[200, 1500]);
                ops.push(Op::Sleep(slow + ms));
                ops.push(Op::Connect(c.clone()));
                ops.push(Op::Ping(5000));
            }
            ops.push(Op::Sleep(1500));
            let s = (100 * (k + 1) + 2 * n) as u32;
            ops.push(Op::Sync(s));
            prober.push(Op::Sync(s));
            for (f, _) in &mine {
                let p = PubP { topic: format!("{f}/x"), qos: 1, tag: g.tag(), ..Default::default() };
                prober.push(Op::Pub(p));
            }
            prober.push(Op::WaitAcks(5000));
            prober.push(Op::Sleep(1500));
            ops.push(Op::Sync(s + 1));
            prober.push(Op::Sync(s + 1));
        }
        match g.below(3) {
            0 => ops.push(Op::Disconnect { code: 0, expiry: Some(0) }),
            1 => {
                let cut = g.cut();
                ops.push(Op::Cut(cut));
            }
            _ => {}
        }
        ops.push(Op::Sync(9000));
        prober.push(Op::Sync(9000));
        g.actor(&format!("c{k}"), ops);
        g.actor(&format!("pr{k}"), prober);
    }
    if g.pc(15) {
        // a backlog of packets that each wait for a hook
        let delay = g.pick(&[1, 20, 500]);
        let after = g.pc(30);
        let ver = g.ver();
        let code = if ver == 5 && !after && g.pc(50) { 1 } else { 0 };
        rules.push(json!({"on": if after { "published" } else { "publish" }, "cid": "fl", "delay": delay, "count": 0, "code": code}));
        let clean = g.pc(50);
        let c = ConnP { net: 0, keep_alive: 300, ping: false, clean, expiry: None, wait: 60_000, ..g.conn("fl", ver) };
        let qos = g.pick(&[0, 0, 1]);
        let n = (g.range(20, 40) * 1000 / delay.max(100)).min(60);
        let burst = PubP { topic: "fl/0".into(), qos, tag: g.tags(n), ..Default::default() };
        let mut ops = vec![Op::Sync(1), Op::Connect(c.clone()), Op::Sub { filters: vec![("fx/#".into(), 2)], sid: None, wait: 5000 }, Op::Sync(3000), Op::Burst { p: burst, n }];
        let mut pf = vec![Op::Connect(ConnP { net: 0, listener: 0, clean: true, expiry: None, keep_alive: 300, ..g.conn("pf", 4) }), Op::Sync(1), Op::Sync(3000)];
        for _ in 0..3 {
            let ms = g.range(1, 1500);
            pf.push(Op::Sleep(ms));
            let p = PubP { topic: "fx/y".into(), qos: g.range(0, 2) as u8, tag: g.tag(), ..Default::default() };
            pf.push(Op::Pub(p));
        }
        ops.push(Op::Sleep(8000));
        ops.push(Op::Connect(c));
        ops.push(Op::Sync(9000));
        pf.push(Op::Sync(9000));
        g.actor("fl", ops);
        g.actor("pf", pf);
    }
    let c = ConnP { net: 0, listener: 0, keep_alive: 30, clean: true, expiry: None, ..g.conn("late", 4) };
    g.actor("late", vec![Op::Sync(9000), Op::Sleep(3000), Op::Connect(c), Op::Sub { filters: vec![("#".into(), 2)], sid: None, wait: 20_000 }, Op::Sleep(5000)]);
    g.p.x = json!({"hook": rules});
}

/// One invocation.
struct H {
    i: usize,
    done: Option<usize>,
    on: String,
    cid: String,
    how: String,
    rule: Option<usize>,
    data: String,
}
impl H {
    fn num(&self, key: &str) -> Option<u64> {
        self.data.split_once(key).and_then(|x| x.1.split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok()))
    }
    fn accepted(&self) -> bool {
        self.done.is_some() && self.how == "accept"
    }
}
fn invocations(v: &View) -> Vec<H> {
    let mut r: Vec<H> = Vec::new();
    for (i, x) in v.recs.iter().enumerate() {
        let Ev::Hook { what, cid, data } = &x.ev else { continue };
        if let Some(on) = what.strip_suffix(":done") {
            if let Some(h) = r.iter_mut().find(|h| h.done.is_none() && h.on == on && h.cid == *cid && h.data == *data) {
                h.done = Some(i);
            }
            continue;
        }
        let mut w = data.split(' ');
        let how = w.next().unwrap_or("").to_string();
        let rule = data.split_once(" rule ").filter(|x| x.0 == how).and_then(|x| x.1.split(' ').next()?.parse().ok());
        r.push(H { i, done: None, on: what.clone(), cid: cid.clone(), how, rule, data: data.clone() });
    }
    r
}
#[derive(Clone, Debug)]
struct Eff {
    lo: Ns,
    hi: Ns,
    i: usize,
    /// None: all of them
    filter: Option<String>,
    on: bool,
}
struct Msg {
    tag: u64,
    topic: String,
    retain: bool,
    /// when the broker had it (record)
    i: usize,
    why: String,
    /// how often it takes effect; None: at least once, perhaps more often
    once: bool,
}
fn connect_codes(c: u8) -> u8 {
    [0, 0x80, 0x85, 0x86, 0x87, 0x88, 0x97, 0x9f][c as usize % 8]
}

fn j20(v: &View, o: &mut Outcome) {
    let rules: Vec<Rule> = serde_json::from_value(v.plan.x["hook"].clone()).unwrap_or_default();
    let none = Rule::default();
    let rule = |h: &H| h.rule.and_then(|k| rules.get(k)).unwrap_or(&none);
    let hooks = &v.plan.cfg["hook"];
    let on = |n: &str| hooks.is_null() || hooks[format!("enable_{n}")] == json!(true);
    let hs = invocations(v);
    let (mut checked, mut refusals, mut edits, mut actions, mut fails, mut pairs, mut probes) = (0, 0, 0, 0, 0, 0, 0);
    // switched off
    for h in &hs {
        let n = match h.on.as_str() {
            "connect" => "before_connect",
            "connected" => "after_connect",
            "disconnected" => "after_disconnect",
            x if x.starts_with("publish") => "publish",
            x if x.starts_with("subscribe") => "subscribe",
            _ => "unsubscribe",
        };
        if !on(n) {
            o.fail("C20.off", format!("hook {} was called for {} at {:.3} s although it is switched off", h.on, h.cid, v.t(h.i) as f64 / 1e9));
            return;
        }
    }
    // ---- messages that may exist, and from when on
    let mut msgs: Vec<Msg> = Vec::new();
    for p in v.pubs.values().filter(|p| p.tag > 0) {
        let cid = &v.conns[p.conn].p.cid;
        let c5 = v.conns[p.conn].p.ver == 5;
        let sent = v.recs.iter().filter(|r| matches!(&r.ev, Ev::Out(Pkt::Publish(x)) if r.actor == p.actor && crate::client::untag(&x.payload).0 == p.tag)).count();
        if !on("publish") {
            if let Some((_, code)) = p.acked {
                if code >= 0x80 && !(code == 0x92 && p.qos == 2) {
                    o.fail("C20.code", format!("message {} was refused with {code:#x} although no hook is called", p.tag));
                }
            }
            msgs.push(Msg { tag: p.tag, topic: p.topic.clone(), retain: p.retain, i: p.out, why: "sent".into(), once: sent == 1 && v.processed(p).is_some() });
            continue;
        }
        let of: Vec<&H> = hs.iter().filter(|h| h.on == "publish" && h.cid == *cid && h.num("tag=") == Some(p.tag)).collect();
        checked += of.len() as u64;
        if of.len() > sent {
            o.fail("C20.calls", format!("the publish hook was called {} times for message {} of {cid}, sent {sent} times", of.len(), p.tag));
        }
        for h in &of {
            if !h.data.contains(&format!(" topic={}", p.topic)) {
                o.fail("C20.calls", format!("the publish hook saw {:?} for message {} on {}", h.data, p.tag, p.topic));
            }
        }
        let mut first = true;
        for h in of.iter().filter(|h| h.accepted()) {
            let r = rule(h);
            edits += (r.set_topic.is_some() || r.set_tag.is_some() || r.set_retain.is_some()) as u64;
            let m = Msg {
                tag: r.set_tag.unwrap_or(p.tag),
                topic: r.set_topic.clone().unwrap_or(p.topic.clone()),
                retain: r.set_retain.unwrap_or(p.retain),
                i: h.done.unwrap(),
                why: format!("hook {}", h.data),
                // a QoS 2 message that is sent again has no further effect
                once: first && (p.qos == 2 || of.len() == 1),
            };
            if p.qos < 2 || first || sent > 1 {
                msgs.push(m);
            }
            first = false;
        }
        // 0x92: a PUBREL that was sent again
        if let Some((a, code)) = p.acked.map(|x| (x.0, if p.qos == 2 && x.1 == 0x92 { 0 } else { x.1 })) {
            let last = of.iter().filter(|h| h.done.is_some_and(|d| d < a)).next_back();
            match last {
                None => o.fail("C20.bypass", format!("message {} of {cid} was acknowledged before the hook decided", p.tag)),
                Some(h) if h.how == "accept" => {
                    if code >= 0x80 {
                        o.fail("C20.code", format!("message {} of {cid} was refused with {code:#x} although the hook accepted it", p.tag));
                    }
                }
                Some(h) if h.how == "refuse" && c5 => {
                    let want = [0x80, 0x87, 0x90, 0x97][rule(h).code as usize % 4];
                    refusals += 1;
                    // of several attempts the one that was answered is not known
                    if code != want && of.len() == 1 {
                        o.fail("C20.code", format!("message {} of {cid} was answered with {code:#x}, the hook said {want:#x}", p.tag));
                    }
                }
                Some(h) if of.len() == 1 => o.fail("C20.code", format!("message {} of {cid} was acknowledged with {code:#x} although the hook said: {}", p.tag, h.data)),
                _ => {}
            }
        }
        // the after hook, once
        let fin = |h: &H| rule(h).set_tag.unwrap_or(p.tag);
        for h in of.iter().filter(|h| h.accepted()) {
            let n = hs.iter().filter(|x| x.on == "published" && x.cid == *cid && x.num("tag=") == Some(fin(h))).count();
            let k = of.iter().filter(|x| x.accepted() && fin(x) == fin(h)).count();
            if n != k && v.t(h.done.unwrap()) + SEC < v.end {
                o.fail("C20.calls", format!("the after-publish hook was called {n} times for message {} which was accepted {k} times", p.tag));
            }
        }
    }
    // what the actions publish
    let mut acted: BTreeMap<u64, (String, bool, Vec<usize>)> = BTreeMap::new();
    for h in hs.iter().filter(|h| h.accepted() && matches!(h.on.as_str(), "connected" | "published" | "subscribed" | "unsubscribed")) {
        for (t, tag, _, retain) in &rule(h).pubs {
            acted.entry(*tag).or_insert((t.clone(), *retain, vec![])).2.push(h.done.unwrap());
        }
    }
    // ---- what observers got
    for a in (0..v.plan.actors.len()).filter(|a| v.name(*a).starts_with("obs")) {
        if !v.steady(a) {
            if let Some(why) = v.of(a).find_map(|c| v.dropped(c)) {
                o.fail("C20.dropped", format!("the broker ended the connection of {} ({why})", v.name(a)));
            }
            continue;
        }
        let Some(s) = v.subs.iter().find(|s| s.actor == a && s.filter == "#" && s.granted() == Some(2)) else { continue };
        let s0 = s.ack.unwrap();
        for m in &msgs {
            let n = v.apps.iter().filter(|x| x.actor == a && x.tag == m.tag && x.topic == m.topic).count();
            if m.once && m.i > s0 && v.t(m.i) + 5 * SEC < v.end && n != 1 {
                o.fail("C20.effect", format!("message {} on {} ({}) reached {} {n} times", m.tag, m.topic, m.why, v.name(a)));
            }
        }
        for (tag, (topic, _, at)) in &acted {
            let n = v.apps.iter().filter(|x| x.actor == a && x.tag == *tag && x.topic == *topic).count();
            actions += n as u64;
            if n > at.len() || (n < at.len() && at.iter().all(|i| *i > s0 && v.t(*i) + 5 * SEC < v.end)) {
                o.fail("C20.action", format!("publishing {tag} on {topic} was requested {} times, it reached {} {n} times", at.len(), v.name(a)));
            }
        }
    }
    // ---- everything received has a reason
    for x in &v.apps {
        let ok = msgs.iter().any(|m| m.tag == x.tag && m.topic == x.topic && m.i < x.i) || acted.get(&x.tag).is_some_and(|m| m.0 == x.topic && m.2.iter().any(|i| *i < x.i));
        if !ok {
            let early = msgs.iter().any(|m| m.tag == x.tag && m.topic == x.topic) || acted.contains_key(&x.tag);
            o.fail("C20.bypass", format!("{} received {} on {} at {:.3} s {}", v.name(x.actor), x.tag, x.topic, v.t(x.i) as f64 / 1e9,
                if early { "before any hook accepted it" } else { "although no hook accepted that" }));
        }
    }
    // ---- retained messages in the end
    if let Some(a) = (0..v.plan.actors.len()).find(|a| v.name(*a) == "late") {
        if let (true, Some(s)) = (v.steady(a), v.subs.iter().find(|s| s.actor == a && s.filter == "#" && s.granted().is_some())) {
            let mut tops: BTreeMap<&str, Vec<(u64, bool, usize)>> = BTreeMap::new();
            for m in &msgs {
                tops.entry(&m.topic).or_default().push((m.tag, m.retain, m.i));
            }
            for (tag, (topic, retain, at)) in &acted {
                for i in at {
                    tops.entry(topic).or_default().push((*tag, *retain, *i));
                }
            }
            for (t, l) in tops {
                if l.iter().any(|x| v.t(x.2) + 2 * SEC > v.t(s.out)) || v.t(s.out) + 4 * SEC > v.end {
                    continue;
                }
                // the last one that is retained; with the publisher's own order
                let want: Vec<u64> = l.iter().filter(|x| x.1).map(|x| x.0).collect();
                let got: Vec<u64> = v.apps.iter().filter(|x| x.actor == a && x.topic == t && x.retain).map(|x| x.tag).collect();
                let fine = if want.is_empty() { got.is_empty() } else { got.len() == 1 && want.contains(&got[0]) };
                if !fine && (want.is_empty() || !got.is_empty() || l.iter().all(|x| msgs.iter().all(|m| m.tag != x.0 || m.once))) {
                    o.fail("C20.retain", format!("on {t} a new subscriber got the retained messages {got:?}, the hooks left {want:?}"));
                }
            }
        }
    }
    // ---- subscriptions
    for a in (0..v.plan.actors.len()).filter(|a| v.name(*a).starts_with('c')) {
        let cid = v.name(a);
        let mut effs: Vec<Eff> = Vec::new();
        for c in v.of(a) {
            let lo = v.t(c.open);
            match &c.ack {
                Some((i, sp, 0, _)) => {
                    if !sp {
                        effs.push(Eff { lo, hi: v.t(*i), i: c.open, filter: None, on: false });
                    }
                }
                _ if c.sent.is_some() => effs.push(Eff { lo, hi: lo + 6 * SEC, i: c.open, filter: None, on: true }),
                _ => {}
            }
        }
        let mut outs: Vec<usize> = v.subs.iter().filter(|s| s.actor == a).map(|s| s.out).collect();
        outs.dedup();
        for out in outs {
            let l: Vec<&SubR> = v.subs.iter().filter(|s| s.out == out).collect();
            let c5 = v.conns[l[0].conn].p.ver == 5;
            let (mut at, mut hi, mut fs) = (out, l[0].ack.map_or(v.t(out) + 30 * SEC, |i| v.t(i)), l.iter().map(|s| s.filter.clone()).collect::<Vec<_>>());
            let mut eff = true;
            let mut want: Option<Vec<u8>> = Some(l.iter().map(|s| s.opt & 3).collect());
            if on("subscribe") {
                let h = hs.iter().find(|h| h.on == "subscribe" && h.cid == cid && h.i > out && h.num("pid=") == Some(l[0].pid as u64));
                checked += h.is_some() as u64;
                match h {
                    None => {
                        if l[0].ack.is_some() {
                            o.fail("C20.bypass", format!("SUBSCRIBE {} of {cid} was answered without the hook", l[0].pid));
                        }
                        continue;
                    }
                    Some(h) => {
                        let r = rule(h);
                        if l[0].ack.is_some_and(|k| h.done.is_none_or(|d| d > k)) {
                            o.fail("C20.bypass", format!("SUBSCRIBE {} of {cid} was answered before the hook decided", l[0].pid));
                        }
                        if h.accepted() {
                            if let Some(t) = &r.set_topic {
                                fs[0] = t.clone();
                                edits += 1;
                            }
                            if let Some(q) = r.set_qos {
                                want = Some(vec![q; fs.len()]);
                                edits += 1;
                            }
                            // what takes effect may still wait for the after hook, but not longer
                            at = h.done.unwrap();
                            hi = v.t(at) + SEC;
                        } else {
                            eff = false;
                            let code = [0x80, 0x87, 0x8f, 0x97][r.code as usize % 4];
                            want = (h.how == "refuse" && c5).then(|| vec![code; fs.len()]);
                            refusals += 1;
                        }
                    }
                }
            }
            if l[0].ack.is_some() {
                let codes: Vec<u8> = l.iter().filter_map(|s| s.code).collect();
                if want.as_ref() != Some(&codes) {
                    o.fail("C20.code", format!("SUBSCRIBE {} of {cid} was answered with {codes:?}, the hook left {want:?}", l[0].pid));
                }
            }
            if l[0].ack.is_none() && !on("subscribe") {
                // may or may not have been read
                effs.push(Eff { lo: v.t(out), hi: (v.end_t(&v.conns[l[0].conn]) + SEC).min(hi), i: out, filter: None, on: true });
            } else if eff {
                effs.extend(fs.into_iter().map(|f| Eff { lo: v.t(at), hi, i: at, filter: Some(f), on: true }));
            }
        }
        let mut outs: Vec<usize> = v.unsubs.iter().filter(|s| s.actor == a).map(|s| s.out).collect();
        outs.dedup();
        for out in outs {
            let l: Vec<&UnsR> = v.unsubs.iter().filter(|s| s.out == out).collect();
            let c5 = v.conns[l[0].conn].p.ver == 5;
            let Ev::Out(Pkt::Unsubscribe { pid, .. }) = &v.recs[out].ev else { continue };
            let (mut at, mut hi, mut fs) = (out, l[0].ack.map_or(v.t(out) + 30 * SEC, |i| v.t(i)), l.iter().map(|s| s.filter.clone()).collect::<Vec<_>>());
            let mut eff = true;
            let mut want: Option<u8> = None;
            if on("unsubscribe") {
                let h = hs.iter().find(|h| h.on == "unsubscribe" && h.cid == cid && h.i > out && h.num("pid=") == Some(*pid as u64));
                checked += h.is_some() as u64;
                match h {
                    None => {
                        if l[0].ack.is_some() {
                            o.fail("C20.bypass", format!("UNSUBSCRIBE {pid} of {cid} was answered without the hook"));
                        }
                        continue;
                    }
                    Some(h) => {
                        let r = rule(h);
                        if l[0].ack.is_some_and(|k| h.done.is_none_or(|d| d > k)) {
                            o.fail("C20.bypass", format!("UNSUBSCRIBE {pid} of {cid} was answered before the hook decided"));
                        }
                        if h.accepted() {
                            if let Some(t) = &r.set_topic {
                                fs[0] = t.clone();
                                edits += 1;
                            }
                            at = h.done.unwrap();
                            hi = v.t(at) + SEC;
                        } else {
                            eff = false;
                            want = (h.how == "refuse" && c5).then(|| [0x80, 0x87, 0x8f][r.code as usize % 3]);
                            refusals += 1;
                            if want.is_none() && l[0].ack.is_some() {
                                o.fail("C20.code", format!("UNSUBSCRIBE {pid} of {cid} was answered although the hook said: {}", h.data));
                            }
                        }
                    }
                }
            }
            if let (true, true, Some(code)) = (l[0].ack.is_some(), c5, l[0].code) {
                let bad = want.map_or(code >= 0x80, |w| l.iter().any(|x| x.code != Some(w)));
                if bad {
                    o.fail("C20.code", format!("UNSUBSCRIBE {pid} of {cid} was answered with {code:#x}, the hook said {want:x?}"));
                }
            }
            if l[0].ack.is_none() && !on("unsubscribe") {
                // may or may not have been read
                effs.push(Eff { lo: v.t(out), hi: (v.end_t(&v.conns[l[0].conn]) + SEC).min(hi), i: out, filter: None, on: true });
            } else if eff {
                effs.extend(fs.into_iter().map(|f| Eff { lo: v.t(at), hi, i: at, filter: Some(f), on: false }));
            }
        }
        for h in hs.iter().filter(|h| h.cid == cid && h.accepted() && matches!(h.on.as_str(), "connected" | "published" | "subscribed" | "unsubscribed")) {
            let (r, d) = (rule(h), h.done.unwrap());
            for (f, _) in &r.subs {
                effs.push(Eff { lo: v.t(d), hi: v.t(d) + SEC, i: d, filter: Some(f.clone()), on: true });
            }
            for f in &r.unsubs {
                effs.push(Eff { lo: v.t(d), hi: v.t(d) + SEC, i: d, filter: Some(f.clone()), on: false });
            }
        }
        effs.sort_by_key(|e| (e.lo, e.i));
        for p in v.pubs.values().filter(|p| v.name(p.actor).starts_with("pr") && p.topic.starts_with(&format!("s{}/", &cid[1..])) && p.topic.ends_with("/x")) {
            let Some((ack, code)) = p.acked else { continue };
            if code >= 0x80 || !v.steady(p.actor) || p.out != p.last_out {
                continue;
            }
            let (t0, mut t1) = (v.t(p.out), v.t(ack) + SEC);
            // it waits for the client's own hooks, which may end the subscription
            for h in hs.iter().filter(|h| h.cid == cid) {
                let d = h.done.map_or(v.end, |d| v.t(d));
                if v.t(h.i) < t1 && d > t0 {
                    t1 = t1.max(d + SEC);
                }
            }
            let of: Vec<&Eff> = effs.iter().filter(|e| e.filter.as_ref().is_none_or(|f| matches(f, &p.topic))).collect();
            if of.iter().any(|e| e.lo < t1 && e.hi > t0) {
                continue;
            }
            // later ones do not matter; overlapping ones are ambiguous, except in the order of one hook
            let past: Vec<&&Eff> = of.iter().filter(|e| e.hi <= t0).collect();
            let state = past.last().map(|e| e.on && e.filter.is_some());
            let unsure = past.last().is_some_and(|e| past.iter().any(|x| x.i != e.i && x.hi > e.lo && (x.on != e.on || (x.filter.is_none() && x.on))));
            if unsure || past.last().is_some_and(|e| e.filter.is_none() && e.on) {
                continue;
            }
            let got = v.apps.iter().any(|x| x.actor == a && x.tag == p.tag);
            probes += 1;
            match state {
                Some(true) => {
                    let up = v.of(a).any(|c| c.ok() && v.t(c.ack.as_ref().unwrap().0) + SEC < t0 && v.end_t(c) > t1 + 2 * SEC && c.in_err.is_none());
                    if up && !got {
                        o.fail("C20.subscription", format!("message {} on {} did not reach {cid}, which is subscribed after its hooks' decisions", p.tag, p.topic));
                    }
                }
                _ if got => o.fail("C20.subscription", format!("message {} on {} reached {cid}, which is not subscribed after its hooks' decisions", p.tag, p.topic)),
                _ => {}
            }
        }
    }
    // ---- what is sent for the first time is not marked as sent again
    for c in v.conns.iter().filter(|c| c.ok() && !c.sp() && !c.slow) {
        let mut seen: Vec<(u64, &str)> = Vec::new();
        for i in &c.ins {
            let Ev::In(Pkt::Publish(p)) = &v.recs[*i].ev else { continue };
            let key = (crate::client::untag(&p.payload).0, p.topic.as_str());
            if p.dup && !seen.contains(&key) {
                o.fail("C20.dup", format!("{} received message {} on {} as a duplicate at {:.3} s, never before", v.name(c.actor), key.0, key.1, v.t(*i) as f64 / 1e9));
            }
            seen.push(key);
        }
    }
    // ---- connections
    for a in (0..v.plan.actors.len()).filter(|a| v.name(*a).starts_with('c')) {
        let cid = v.name(a);
        let of = |n: &str| hs.iter().filter(|h| h.on == n && h.cid == cid).collect::<Vec<_>>();
        let (before, after, gone) = (of("connect"), of("connected"), of("disconnected"));
        let cs: Vec<&Conn> = v.of(a).filter(|c| c.sent.is_some()).collect();
        let acked: Vec<&&Conn> = cs.iter().filter(|c| c.ok()).collect();
        let open = cs.iter().filter(|c| c.ack.is_none()).count();
        if on("before_connect") {
            if before.len() > cs.len() {
                o.fail("C20.calls", format!("the connect hook was called {} times for {} CONNECTs of {cid}", before.len(), cs.len()));
            }
            for (k, c) in acked.iter().enumerate() {
                let i = c.ack.as_ref().unwrap().0;
                if before.iter().filter(|h| h.accepted() && h.done.unwrap() < i).count() < k + 1 {
                    o.fail("C20.bypass", format!("connection {} of {cid} was accepted before the hook accepted it", c.id));
                }
            }
            let refused: Vec<u8> = cs.iter().filter_map(|c| c.ack.as_ref()).map(|a| a.2).filter(|c| *c != 0).collect();
            let want: Vec<u8> = before.iter().filter(|h| h.how == "refuse" && h.done.is_some()).map(|h| connect_codes(rule(h).code)).collect();
            refusals += want.len() as u64;
            let mut left = want.clone();
            for r in refused {
                match left.iter().position(|x| *x == r) {
                    Some(k) => {
                        left.remove(k);
                    }
                    None => o.fail("C20.code", format!("a connection of {cid} was refused with {r:#x}, the hook said {want:x?}")),
                }
            }
        } else if let Some(c) = cs.iter().find(|c| c.ack.as_ref().is_some_and(|a| a.2 != 0)) {
            o.fail("C20.code", format!("connection {} of {cid} was refused although no hook is called", c.id));
        }
        let settled = cs.iter().all(|c| {
            let d = v.of(a).find(|d| d.id > c.id).map(|d| v.t(d.open));
            let e = c.end.as_ref().map(|e| v.t(e.0)).into_iter().chain(d).min();
            e.is_some_and(|e| e + 32 * SEC < v.end)
        });
        if on("after_connect") {
            if after.len() < acked.iter().filter(|c| v.t(c.ack.as_ref().unwrap().0) + SEC < v.end).count() || after.len() > acked.len() + open {
                o.fail("C20.calls", format!("the after-connect hook was called {} times for {} accepted connections of {cid}", after.len(), acked.len()));
            }
            if on("before_connect") {
                for (k, h) in after.iter().enumerate() {
                    if before.iter().filter(|x| x.accepted() && x.done.unwrap() < h.i).count() < k + 1 {
                        o.fail("C20.bypass", format!("the after-connect hook was called for {cid} at {:.3} s although the connect hook accepted fewer connections", v.t(h.i) as f64 / 1e9));
                    }
                }
            }
            if open == 0 && after.len() == acked.len() {
                for (h, c) in after.iter().zip(&acked) {
                    if h.data.contains("sp=true") != c.sp() {
                        o.fail("C20.session-present", format!("the after-connect hook was told {:?} about connection {} of {cid}, its client {}", h.data, c.id, c.sp()));
                    }
                }
            }
        }
        if on("after_disconnect") {
            let (lo, hi) = if on("after_connect") {
                let n = after.iter().filter(|h| h.accepted()).count();
                (n, n)
            } else {
                (acked.len(), acked.len() + open)
            };
            let pending = after.iter().any(|h| h.done.is_none());
            if gone.len() > hi + after.iter().filter(|h| h.done.is_none()).count() || (settled && !pending && gone.len() < lo) {
                o.fail("C20.calls", format!("the after-disconnect hook was called {} times for {lo} connections of {cid}", gone.len()));
            }
            for (k, h) in gone.iter().enumerate() {
                if on("after_connect") && after.iter().filter(|x| x.accepted() && x.done.unwrap() < h.i).count() < k + 1 {
                    o.fail("C20.calls", format!("the after-disconnect hook was called for {cid} at {:.3} s without a connection", v.t(h.i) as f64 / 1e9));
                }
            }
            // whether it was taken over
            let plain = rules.iter().all(|r| r.on != "disconnected" && r.on != "connected");
            if plain && settled && open == 0 && gone.len() == acked.len() && cs.len() == acked.len() {
                for (k, c) in acked.iter().enumerate() {
                    let taken = gone[k].data.contains("taken_over=true");
                    let next = acked.get(k + 1).map_or(v.end, |d| v.t(d.open));
                    let ended = hs.iter().any(|h| h.cid == cid && (h.how == "fail" || (h.how == "refuse" && c.p.ver < 5)) && h.i > c.open && v.t(h.i) < acked.get(k + 1).map_or(v.end, |d| v.t(d.ack.as_ref().unwrap().0)));
                    // what has ended is noticed after the hook
                    let busy = |e: Ns| hs.iter().any(|h| h.cid == cid && h.on != "disconnected" && h.on != "connect" && h.i > c.open && v.t(h.i) < next && h.done.is_none_or(|d| v.t(d) + SEC > e));
                    pairs += 1;
                    let mine = c.end.as_ref().map(|e| (v.t(e.0), &e.1));
                    let over = c.disc.is_some() || matches!(mine, Some((_, Ev::Cut('r' | 'f'))));
                    if over && mine.is_some_and(|e| e.0 + 3 * SEC < next && !busy(e.0)) && taken {
                        o.fail("C20.taken-over", format!("the after-disconnect hook was told that connection {} of {cid} was taken over although it had ended", c.id));
                    }
                    let nexts = acked.get(k + 1).map(|d| v.t(d.ack.as_ref().unwrap().0));
                    if !over && !ended && !taken && nexts.is_some_and(|n| mine.is_none_or(|e| matches!(e.1, Ev::Closed(_)) && e.0 + 100_000_000 > n && e.0 > next)) {
                        o.fail("C20.taken-over", format!("the after-disconnect hook was not told that connection {} of {cid} was taken over", c.id));
                    }
                }
            }
        }
        // ---- failures end this connection, nothing else does
        for c in v.of(a) {
            let e = v.end_t(c);
            let excused = hs.iter().any(|h| {
                h.cid == cid && h.done.is_some_and(|d| v.t(d) >= v.t(c.open)) && v.t(h.i) <= e && (h.how == "fail" || (h.how == "refuse" && (c.p.ver < 5 || h.on == "connect")))
            });
            if let (false, Some(why)) = (excused, v.dropped(c)) {
                o.fail("C20.dropped", format!("the broker ended connection {} of {cid} ({why}) although no hook failed", c.id));
            }
        }
        for h in hs.iter().filter(|h| h.cid == cid && h.done.is_some() && h.on != "disconnected" && h.on != "connect") {
            let d = h.done.unwrap();
            let Some(c) = v.of(a).filter(|c| c.ok() && c.ack.as_ref().unwrap().0 < h.i.max(1)).last() else { continue };
            let bad = h.how == "fail" || (h.how == "refuse" && c.p.ver < 5);
            if !bad {
                continue;
            }
            fails += 1;
            let end = c.end.as_ref().map_or(v.end, |e| v.t(e.0)).min(v.of(a).find(|x| x.id > c.id).map_or(v.end, |x| v.t(x.open)));
            // its socket is closed after the after-disconnect hook
            let slack = 3 * SEC + rules.iter().filter(|r| r.on == "disconnected").map(|r| r.delay).max().unwrap_or(0) * 1_000_000;
            if end > v.t(d) + slack && v.end > v.t(d) + slack + SEC && !c.hurt {
                o.fail("C20.failed", format!("connection {} of {cid} went on after its hook {} at {:.3} s: {}", c.id, h.on, v.t(d) as f64 / 1e9, h.data));
            }
        }
    }
    // ---- the others do not wait
    for a in (0..v.plan.actors.len()).filter(|a| v.name(*a).starts_with("obs") && v.steady(*a)) {
        let c = v.of(a).next().unwrap();
        let outs: Vec<usize> = c.outs.iter().copied().filter(|i| matches!(v.recs[*i].ev, Ev::Out(Pkt::Pingreq))).collect();
        let ins: Vec<usize> = c.ins.iter().copied().filter(|i| matches!(v.recs[*i].ev, Ev::In(Pkt::Pingresp))).collect();
        for (k, i) in outs.iter().enumerate() {
            let due = v.t(*i) + 2 * SEC;
            if due < v.end && ins.get(k).is_none_or(|j| v.t(*j) > due) {
                o.fail("C20.waits", format!("{} got no answer to the PINGREQ of {:.3} s within 2 s", v.name(a), v.t(*i) as f64 / 1e9));
            }
        }
        for p in v.pubs.values().filter(|p| p.actor == a && p.topic == "o/x") {
            let due = v.t(p.out) + 2 * SEC;
            if due > v.end {
                continue;
            }
            if p.qos > 0 && p.acked.is_none_or(|x| v.t(x.0) > due) {
                o.fail("C20.waits", format!("{}'s message {} was not acknowledged within 2 s", v.name(a), p.tag));
            }
            for b in (0..v.plan.actors.len()).filter(|b| v.name(*b).starts_with("obs") && v.steady(*b)) {
                let subbed = v.subs.iter().any(|s| s.actor == b && s.filter == "#" && s.granted().is_some() && s.ack.unwrap() < p.out);
                if subbed && !v.apps.iter().any(|x| x.actor == b && x.tag == p.tag && v.t(x.i) <= due) {
                    o.fail("C20.waits", format!("message {} of {} did not reach {} within 2 s", p.tag, v.name(a), v.name(b)));
                }
            }
        }
    }
    // ---- packets that wait for hooks hold up what does not belong to them for one hook only
    if let Some(a) = (0..v.plan.actors.len()).find(|a| v.name(*a) == "fl") {
        let d = rules.iter().map(|r| r.delay).max().unwrap_or(0) * 1_000_000;
        let d = rules.iter().filter(|r| r.cid == "fl").map(|r| r.delay).max().map_or(d, |x| x * 1_000_000);
        for c in v.of(a).filter(|c| c.sent.is_some()) {
            let due = v.t(c.sent.unwrap()) + 2 * d + 2 * SEC;
            if due + SEC < v.end && c.ack.as_ref().is_none_or(|x| v.t(x.0) > due) && !c.hurt && c.fail.is_none() && v.end_t(c) > due {
                o.fail("C20.held-up", format!("connection {} of fl was not accepted within {:.1} s", c.id, (2 * d + 2 * SEC) as f64 / 1e9));
            }
        }
        let first = v.of(a).next();
        for p in v.pubs.values().filter(|p| v.name(p.actor) == "pf" && p.topic == "fx/y") {
            let subbed = v.subs.iter().any(|s| s.actor == a && s.filter == "fx/#" && s.granted().is_some() && s.ack.unwrap() < p.out);
            let due = v.t(p.out) + 2 * d + SEC;
            if subbed && v.steady(p.actor) && first.is_some_and(|c| v.end_t(c) > due && !c.hurt && !c.slow) && v.of(a).nth(1).is_none_or(|c| v.t(c.open) > due) && due < v.end {
                pairs += 1;
                if !v.apps.iter().any(|x| x.actor == a && x.tag == p.tag && v.t(x.i) <= due) {
                    o.fail("C20.held-up", format!("message {} did not reach fl within {:.1} s", p.tag, (2 * d + SEC) as f64 / 1e9));
                }
            }
        }
    }
    o.stat("decisions checked", checked);
    o.stat("refusals", refusals);
    o.stat("edits", edits);
    o.stat("actions observed", actions);
    o.stat("connections ended by a hook", fails);
    o.stat("connect and disconnect pairs", pairs);
    o.stat("subscription probes", probes);
}
