//! Stand-in for the `mqtt-proto` crate. The real crate is a git dependency of
//! akasa that cannot be fetched in this sandbox; this one implements the MQTT
//! 3.1, 3.1.1 and 5.0 wire formats from the OASIS documents behind the API that
//! akasa uses. It is part of the harness (a stub of a dependency), not of the
//! code under test.
#![allow(clippy::all)]
mod common;
mod error;
mod poll;
mod types;
pub mod v3;
pub mod v5;

pub use common::{decode_raw_header_async, header_len, split_frame, total_len, Encodable};
pub use error::{Error, IoErrorKind};
pub use poll::{GenericPollBodyState, GenericPollPacket, GenericPollPacketState, PollHeader, PollHeaderState};
pub use types::{Pid, Protocol, QoS, QosPid, TopicFilter, TopicName, VarBytes};

pub const LEVEL_SEP: char = '/';
pub const MATCH_ALL_CHAR: char = '#';
pub const MATCH_ALL_STR: &str = "#";
pub const MATCH_ONE_CHAR: char = '+';
pub const MATCH_ONE_STR: &str = "+";
pub const SHARED_PREFIX: &str = "$share/";
pub const SYS_PREFIX: &str = "$SYS/";
