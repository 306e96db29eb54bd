//! One run: the broker, its clients, and the verdict.
use crate::client::*;
use crate::hooks::{Rule, SimHook};
use crate::props;
use crate::view::View;
use crate::plan::*;
use crate::wire::Pkt;
use akasa_core::{Config, GlobalState};
use serde_json::{Value, json};
use simcore::{Fatal, Group};
use simdrv::{Outcome, finish};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

static TRACE: AtomicBool = AtomicBool::new(false);

fn config(p: &Plan) -> (Config, Vec<std::net::SocketAddr>) {
    let mut v = serde_json::to_value(Config::new_allow_anonymous()).unwrap();
    if let Value::Object(m) = &p.cfg {
        for (k, x) in m {
            v[k] = x.clone();
        }
    }
    let certs = concat!(env!("CARGO_MANIFEST_DIR"), "/../certs");
    let mut addrs = Vec::new();
    let mut ls = json!({"mqtt": null, "mqtts": null, "ws": null, "wss": null, "http": null});
    for (i, l) in p.fix_listen.iter().enumerate() {
        let port = 7000 + i as u16;
        let addr = if l.v6 { std::net::SocketAddr::from(([0xfd00, 0, 0, 0, 0, 0, 0, 1], port)) } else { ([10, 1, 0, 1], port).into() };
        addrs.push(addr);
        let tls = l.kind == "mqtts" || l.kind == "wss";
        ls[&l.kind] = if tls {
            json!({"addr": addr.to_string(), "reuse_port": l.reuse_port, "proxy": !l.proxy.is_empty(), "ca_file": null,
                "key_file": format!("{certs}/key.pem"), "cert_file": format!("{certs}/cert.pem"),
                "verify_peer": false, "fail_if_no_peer_cert": false})
        } else {
            let mode = match l.proxy.as_str() {
                "" => Value::Null,
                "tls" => "TlsTermination".into(),
                _ => "Normal".into(),
            };
            json!({"addr": addr.to_string(), "reuse_port": l.reuse_port, "proxy_mode": mode})
        };
    }
    v["listeners"] = ls;
    // SCRAM records: [user, password, iterations]
    if let Some(us) = p.x["scram"].as_array() {
        let mut m = serde_json::Map::new();
        for u in us {
            let (n, pw, it) = (u[0].as_str().unwrap_or("u"), u[1].as_str().unwrap_or("p"), u[2].as_u64().unwrap_or(5) as u32);
            let salt = format!("salt of {n}");
            let hash = crate::scram::salted(pw, salt.as_bytes(), it);
            let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
            m.insert(n.into(), json!({"hashed_password": hex(&hash), "iterations": it, "salt": hex(salt.as_bytes())}));
        }
        v["scram_users"] = Value::Object(m);
    }
    (serde_json::from_value(v).expect("configuration"), addrs)
}

#[derive(Debug)]
struct NoVerify;
impl rustls::client::danger::ServerCertVerifier for NoVerify {
    fn verify_server_cert(
        &self,
        _: &rustls::pki_types::CertificateDer<'_>,
        _: &[rustls::pki_types::CertificateDer<'_>],
        _: &rustls::pki_types::ServerName<'_>,
        _: &[u8],
        _: rustls::pki_types::UnixTime,
    ) -> Result<rustls::client::danger::ServerCertVerified, rustls::Error> {
        Ok(rustls::client::danger::ServerCertVerified::assertion())
    }
    fn verify_tls12_signature(&self, _: &[u8], _: &rustls::pki_types::CertificateDer<'_>, _: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
    }
    fn verify_tls13_signature(&self, _: &[u8], _: &rustls::pki_types::CertificateDer<'_>, _: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
    }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
        rustls::crypto::ring::default_provider().signature_verification_algorithms.supported_schemes()
    }
}
fn tls_client() -> rustls::ClientConfig {
    let p = Arc::new(rustls::crypto::ring::default_provider());
    let mut c = rustls::ClientConfig::builder_with_provider(p)
        .with_safe_default_protocol_versions()
        .unwrap()
        .dangerous()
        .with_custom_certificate_verifier(Arc::new(NoVerify))
        .with_no_client_auth();
    c.resumption = rustls::client::Resumption::disabled();
    c
}

pub fn exec(v: &Value, trace: bool) -> ! {
    TRACE.store(trace, Ordering::SeqCst);
    let plan: Plan = match serde_json::from_value(v.clone()) {
        Ok(p) => p,
        Err(e) => finish(&Outcome { inconclusive: Some(format!("bad plan: {e}")), ..Default::default() }),
    };
    let prop = plan.prop.clone();
    simcore::init(
        simcore::SchedConfig {
            seed: plan.seed,
            workers: plan.sched.workers.max(1),
            preempt_ppm: plan.sched.preempt_ppm,
            long_ppm: plan.sched.long_ppm,
            long_max: plan.sched.long_us * 1_000,
            fifo: plan.sched.fifo,
            wake_delay_ppm: plan.sched.wake_delay_ppm,
            wake_delay_max: plan.sched.wake_delay_us * 1000,
            max_steps: plan.sched.max_steps,
            max_time: 40_000 * SEC,
        },
        Box::new(move |f| {
            let mut o = Outcome::default();
            match f {
                Fatal::LockDeadlock(l) => o.fail(format!("{prop}.lock-deadlock"), format!("every running task waits for a lock held by another ({l})")),
                Fatal::HarnessPanic(p) => o.inconclusive = Some(format!("harness panicked: {p}")),
                Fatal::Steps => {
                    if matches!(prop.as_str(), "C12" | "C14" | "C21" | "C23") {
                        o.fail(format!("{prop}.livelock"), "the broker does not stop running although nothing happens")
                    } else {
                        o.inconclusive = Some("step limit".into())
                    }
                }
                f => o.inconclusive = Some(format!("{f:?}")),
            }
            wrap_up(o)
        }),
    );
    struct Hashing;
    impl ahash::random_state::RandomSource for Hashing {
        fn gen_hasher_seed(&self) -> usize {
            simcore::entropy() as usize
        }
    }
    let _ = ahash::random_state::set_random_source(Hashing);
    tokio::net::configure(plan.seed);
    let (cfg, addrs) = config(&plan);
    // listeners in trouble from the beginning: listener, call, error, number, ms
    for f in plan.x["faults"].as_array().into_iter().flatten() {
        if let Some(a) = addrs.get(f[0].as_u64().unwrap_or(0) as usize) {
            inject(*a, f[1].as_str().unwrap_or(""), f[2].as_str().unwrap_or(""), f[3].as_u64().unwrap_or(0) as u32, f[4].as_u64().unwrap_or(0));
        }
    }
    let mut sync_need: BTreeMap<u32, usize> = BTreeMap::new();
    for a in &plan.actors {
        let mut ks: Vec<u32> = a.ops.iter().filter_map(|o| if let Op::Sync(k) = o { Some(*k) } else { None }).collect();
        ks.sort();
        ks.dedup();
        for k in ks {
            *sync_need.entry(k).or_default() += 1;
        }
    }
    let mut global = GlobalState::new(cfg);
    if let Some(us) = plan.x["users"].as_array() {
        for u in us {
            let (n, p, alg) = (u[0].as_str().unwrap_or("u"), u[1].as_str().unwrap_or("p"), u[2].as_u64().unwrap_or(0));
            let it = std::num::NonZeroU32::new(5).unwrap();
            let alg = match alg {
                0 => akasa_core::HashAlgorithm::Sha256,
                1 => akasa_core::HashAlgorithm::Sha512,
                2 => akasa_core::HashAlgorithm::Sha256Pkbdf2 { iterations: it },
                _ => akasa_core::HashAlgorithm::Sha512Pkbdf2 { iterations: it },
            };
            let salt = b"0123456789abcdef".to_vec();
            let h = akasa_core::hash_password(alg, &salt, p.as_bytes());
            global.auth_passwords.insert(n.into(), akasa_core::AuthPassword { hash_algorithm: alg, hashed_password: h, salt });
        }
    }
    let _ = &mut global;
    let global = Arc::new(global);
    let rules: Vec<Rule> = serde_json::from_value(plan.x["hook"].clone()).unwrap_or_default();
    let hook = SimHook::new(rules);
    let cx = Cx { plan, addrs, global: global.clone(), syncs: Mutex::new(BTreeMap::new()), sync_need, tls: Arc::new(tls_client()) };
    if CX.set(cx).is_err() {
        panic!("context set twice");
    }
    tokio::task::spawn_in(Some(Group::Harness), director());
    let r = akasa_core::server::rt::start(hook, global);
    if CX.get().is_some_and(|c| c.plan.prop == "C21") {
        let mut o = Outcome::default();
        o.fail("C21.ended", format!("the broker ended: {r:?}"));
        wrap_up(o)
    }
    finish(&Outcome { inconclusive: Some(format!("the broker ended: {r:?}")), ..Default::default() })
}

async fn director() {
    let plan = &cx().plan;
    // the listeners come up first
    tokio::time::sleep(Duration::from_millis(20)).await;
    let mut hs = Vec::new();
    for (i, a) in plan.actors.iter().enumerate() {
        hs.push(tokio::spawn(async move {
            let mut act = Act::new(i, a, cx().plan.seed);
            for op in &a.ops {
                act.op(op).await;
            }
        }));
    }
    for h in hs {
        let _ = h.await;
    }
    tokio::time::sleep(Duration::from_secs(plan.settle)).await;
    counters(usize::MAX);
    let mut o = Outcome::default();
    let v = View::take();
    v.sane(&mut o, &plan.prop);
    (props::get(&plan.prop).judge)(&v, &mut o);
    wrap_up(o)
}

fn fnv(h: u64, b: &[u8]) -> u64 {
    b.iter().fold(h, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}
/// An event without times, short.
pub fn short(e: &Ev) -> String {
    match e {
        Ev::In(Pkt::Publish(p)) | Ev::Out(Pkt::Publish(p)) => {
            let (tag, _) = untag(&p.payload);
            format!(
                "{} PUBLISH {} tag {tag} ({} bytes) q{} pid {}{}{} {:?}",
                if matches!(e, Ev::In(_)) { "<-" } else { "->" },
                clip(p.topic.clone()),
                p.payload.len(),
                p.qos,
                p.pid,
                if p.dup { " dup" } else { "" },
                if p.retain { " retain" } else { "" },
                p.props
            )
        }
        Ev::In(p) => format!("<- {}", clip(format!("{p:?}"))),
        Ev::Out(p) => format!("-> {}", clip(format!("{p:?}"))),
        e => clip(format!("{e:?}")),
    }
}
fn clip(s: String) -> String {
    if s.len() <= 300 {
        return s;
    }
    let mut n = 300;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{}...", &s[..n])
}

fn wrap_up(mut o: Outcome) -> ! {
    let plan = CX.get().map(|c| &c.plan);
    let prop = plan.map(|p| p.prop.clone()).unwrap_or_default();
    for p in simcore::system_panics() {
        o.fail(format!("{prop}.panic"), format!("a task of the broker panicked: {p}"));
    }
    let n = tokio::net::net_stats();
    let s = simcore::stats();
    for (k, v) in [
        ("connections", n.conns),
        ("bytes", n.bytes),
        ("fault short read", n.short_reads),
        ("fault partial write", n.short_writes),
        ("fault refused write", n.pend_writes),
        ("fault full window", n.window_full),
        ("fault reset", n.rst),
        ("fault close", n.fin),
        ("fault silence", n.silent),
        ("fault cut at byte", n.cut_after),
        ("fault accept error", n.accept_errors),
        ("fault bind error", n.bind_errors),
        ("fault listen error", n.listen_errors),
        ("fault stall", n.stalls),
        ("fault delayed wake-up", s.wake_delays),
        ("preemptions at locks", s.preemptions),
        ("threads held back for a while", s.stalls),
        ("task polls", s.polls),
        ("lock operations", s.lock_ops),
        ("timers", s.timers),
        ("tasks", s.spawned),
    ] {
        if v > 0 {
            o.stat(k, v);
        }
    }
    let mut shape = 0xcbf29ce484222325u64;
    hist(|h| {
        let names: Vec<String> = plan.map(|p| p.actors.iter().map(|a| a.name.clone()).collect()).unwrap_or_default();
        for r in &h.recs {
            let s = short(&r.ev);
            shape = fnv(fnv(shape, &[r.actor as u8, r.conn as u8]), s.as_bytes());
            if matches!(r.ev, Ev::Cut(_) | Ev::Fault(_) | Ev::Jump(_) | Ev::Closed(_) | Ev::InErr(_)) {
                o.nontrivial = true;
            }
            if let Ev::Jump(_) = r.ev {
                o.stat("fault clock step", 1);
            }
            if TRACE.load(Ordering::SeqCst) {
                let who = names.get(r.actor).map_or("-", |s| s);
                o.trace.push(format!("{:>12.6} {who}#{} {s}", r.t as f64 / 1e9, r.conn));
            }
        }
        o.stat("events", h.recs.len() as u64);
    });
    if n.short_reads + n.short_writes + n.pend_writes + n.stalls + n.window_full + s.wake_delays + s.preemptions + n.cut_after + n.accept_errors + n.bind_errors > 0 {
        o.nontrivial = true;
    }
    o.shape = shape;
    o.fp = simcore::fingerprint();
    o.sim_ns = simcore::now();
    finish(&o)
}
