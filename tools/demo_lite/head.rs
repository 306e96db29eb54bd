#![allow(dead_code, unused_imports)]
mod protocols {
    #[path = "/repo/akasa-core/src/protocols/scram/mod.rs"]
    pub mod scram;
}
mod server {
    #[path = "/repo/akasa-core/src/server/proxy.rs"]
    pub mod proxy;
}
use base64::{Engine, engine::general_purpose::STANDARD as B64};
use protocols::scram::{AuthenticationStatus, client::ScramClient, hash_password, server::ScramServer};
use std::num::NonZeroU32;
