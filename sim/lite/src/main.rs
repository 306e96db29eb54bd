//! Simulations of the parts of the broker that need no MQTT: the SCRAM state
//! machines and the PROXY protocol reader, compiled straight from /repo.
#![allow(dead_code)]

pub mod protocols {
    #[path = "/repo/akasa-core/src/protocols/scram/mod.rs"]
    pub mod scram;
}
pub mod server {
    #[path = "/repo/akasa-core/src/server/proxy.rs"]
    pub mod proxy;
}
mod c18;
mod c19;

use serde_json::Value;
use simdrv::{Budget, Info, Suite};

struct Lite;
impl Suite for Lite {
    fn props(&self) -> Vec<&'static str> {
        vec!["C18", "C19"]
    }
    fn budget(&self, prop: &str, thorough: bool) -> Budget {
        let runs = if prop == "C18" { 4000 } else { 6000 };
        if thorough { Budget { runs: runs * 40, secs: 600 } } else { Budget { runs, secs: 90 } }
    }
    fn plan(&self, prop: &str, seed: u64, i: u64) -> Value {
        let mut p = match prop {
            "C18" => c18::plan(seed, i),
            "C19" => c19::plan(seed, i),
            _ => panic!("not a property of this suite: {prop}"),
        };
        p["prop"] = prop.into();
        p["suite"] = "lite".into();
        p["index"] = i.into();
        p
    }
    fn exec(&self, plan: &Value, trace: bool) -> ! {
        match plan["prop"].as_str() {
            Some("C18") => c18::exec(plan, trace),
            _ => c19::exec(plan, trace),
        }
    }
    fn info(&self, prop: &str) -> Info {
        let real = |v: &[&str]| v.iter().map(|x| x.to_string()).collect();
        if prop == "C18" {
            Info {
                rule: "A case is a set of concurrent SCRAM exchanges whose names, passwords and channel edits (corruption, loss, duplication, reordering, replay from another exchange, forged fields) are drawn from the seed; distinct non-trivial cases are counted by the sequence of message edits, verdicts and error kinds, and need at least one edit or wrong secret.".into(),
                level_note: String::new(),
                assumptions: vec!["ring's SHA-256, HMAC and PBKDF2 are correct".into(), "passwords contain no NUL (HMAC pads keys with zeros)".into()],
                real: real(&["protocols/scram/client.rs", "protocols/scram/server.rs", "protocols/scram/mod.rs"]),
                stub: real(&["message channel (simulated, adversarial)", "entropy (seeded)"]),
            }
        } else {
            Info {
                rule: "A case is a byte stream (well-formed, mutated, truncated or hostile PROXY v2 header followed by payload) delivered over a simulated connection with seeded segmentation, stalls, short reads and ends; distinct non-trivial cases are counted by header, verdict and segmentation, and need more than one segment or a malformed or cut header.".into(),
                level_note: String::new(),
                assumptions: vec!["the reference parser in lite/src/c19.rs follows the PROXY protocol v2 specification; where the broker documents a restriction (at most 256 bytes of TLVs, LOCAL without payload, unspecified family refused) an error is accepted too".into()],
                real: real(&["server/proxy.rs"]),
                stub: real(&["TCP stream (simulated)", "executor and clock (simulated)"]),
            }
        }
    }
}

fn main() {
    std::process::exit(simdrv::main(&Lite))
}
