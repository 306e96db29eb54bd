//! MQTT 5.0.
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io;
use std::sync::Arc;

use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt};

use crate::common::*;
use crate::v3::ConnectFlags;
use crate::{
    Error, GenericPollPacket, GenericPollPacketState, Pid, PollHeader, Protocol, QoS, QosPid,
    TopicFilter, TopicName, VarBytes,
};

pub type PollPacket<'a, T> = GenericPollPacket<'a, T, Header>;
pub type PollPacketState = GenericPollPacketState<Header>;

// ---------------------------------------------------------------- errors

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ErrorV5 {
    Common(Error),
    InvalidReasonCode(PacketType, u8),
    InvalidSubscriptionOption(u8),
    InvalidPropertyId(u8),
    InvalidProperty(PacketType, PropertyId),
    DuplicatedProperty(PropertyId),
    InvalidPropertyLength(u32),
    InvalidByteProperty(PropertyId, u8),
    InvalidWillProperty(PropertyId),
    InvalidResponseTopic(String),
    InvalidPayloadFormat,
}
impl fmt::Display for ErrorV5 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            ErrorV5::Common(e) => e.fmt(f),
            ErrorV5::InvalidReasonCode(t, c) => write!(f, "invalid reason code: {c}, packet={t:?}"),
            ErrorV5::InvalidSubscriptionOption(b) => write!(f, "invalid subscription option: {b}"),
            ErrorV5::InvalidPropertyId(b) => write!(f, "invalid property id: {b}"),
            ErrorV5::InvalidProperty(t, p) => write!(f, "property {p:?} not allowed in {t:?}"),
            ErrorV5::DuplicatedProperty(p) => write!(f, "duplicated property: {p:?}"),
            ErrorV5::InvalidPropertyLength(l) => write!(f, "invalid property length: {l}"),
            ErrorV5::InvalidByteProperty(p, v) => write!(f, "invalid byte property: {p:?}={v}"),
            ErrorV5::InvalidWillProperty(p) => write!(f, "invalid will property: {p:?}"),
            ErrorV5::InvalidResponseTopic(s) => write!(f, "invalid response topic: {s}"),
            ErrorV5::InvalidPayloadFormat => f.write_str("invalid payload format, utf8 expected"),
        }
    }
}
impl std::error::Error for ErrorV5 {}
impl From<Error> for ErrorV5 {
    fn from(e: Error) -> Self {
        ErrorV5::Common(e)
    }
}
impl From<io::Error> for ErrorV5 {
    fn from(e: io::Error) -> Self {
        ErrorV5::Common(e.into())
    }
}
impl From<ErrorV5> for io::Error {
    fn from(e: ErrorV5) -> Self {
        match e {
            ErrorV5::Common(e) => e.into(),
            e => io::Error::new(io::ErrorKind::InvalidData, e),
        }
    }
}
impl ErrorV5 {
    pub fn is_eof(&self) -> bool {
        matches!(self, ErrorV5::Common(e) if e.is_eof())
    }
}

// ---------------------------------------------------------------- header

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PacketType {
    Connect,
    Connack,
    Publish,
    Puback,
    Pubrec,
    Pubrel,
    Pubcomp,
    Subscribe,
    Suback,
    Unsubscribe,
    Unsuback,
    Pingreq,
    Pingresp,
    Disconnect,
    Auth,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Header {
    pub typ: PacketType,
    pub dup: bool,
    pub qos: QoS,
    pub retain: bool,
    pub remaining_len: u32,
    pub total_len: u32,
}
impl Header {
    pub fn new(typ: PacketType, dup: bool, qos: QoS, retain: bool, remaining_len: u32) -> Self {
        let total_len = total_len(remaining_len as usize).unwrap_or(0) as u32;
        Header { typ, dup, qos, retain, remaining_len, total_len }
    }
    pub fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Header, Error> {
        use PacketType::*;
        let typ = match hd >> 4 {
            1 => Connect,
            2 => Connack,
            3 => Publish,
            4 => Puback,
            5 => Pubrec,
            6 => Pubrel,
            7 => Pubcomp,
            8 => Subscribe,
            9 => Suback,
            10 => Unsubscribe,
            11 => Unsuback,
            12 => Pingreq,
            13 => Pingresp,
            14 => Disconnect,
            15 => Auth,
            _ => return Err(Error::InvalidHeader),
        };
        let (mut dup, mut qos, mut retain) = (false, QoS::Level0, false);
        match typ {
            Publish => {
                dup = hd & 8 != 0;
                qos = QoS::from_u8((hd >> 1) & 3)?;
                retain = hd & 1 != 0;
            }
            Pubrel | Subscribe | Unsubscribe if hd & 15 == 2 => {}
            Pubrel | Subscribe | Unsubscribe => return Err(Error::InvalidHeader),
            _ if hd & 15 == 0 => {}
            _ => return Err(Error::InvalidHeader),
        }
        Ok(Header { typ, dup, qos, retain, remaining_len, total_len })
    }
}
impl PollHeader for Header {
    type Error = ErrorV5;
    type Packet = Packet;
    fn new_with(control: u8, remaining_len: u32, total_len: u32) -> Result<Self, ErrorV5> {
        Ok(Header::new_with(control, remaining_len, total_len)?)
    }
    fn remaining_len(&self) -> usize {
        self.remaining_len as usize
    }
    fn total_len(&self) -> usize {
        self.total_len as usize
    }
    fn decode_body(self, body: &[u8]) -> Result<Packet, ErrorV5> {
        decode_body(self, body)
    }
}

// ---------------------------------------------------------------- properties

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct UserProperty {
    pub name: Arc<str>,
    pub value: Arc<str>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct VarByteInt(u32);
impl VarByteInt {
    pub fn value(self) -> u32 {
        self.0
    }
}
impl TryFrom<u32> for VarByteInt {
    type Error = Error;
    fn try_from(v: u32) -> Result<Self, Error> {
        if v as usize > MAX_VAR_INT {
            Err(Error::InvalidVarByteInt)
        } else {
            Ok(VarByteInt(v))
        }
    }
}

macro_rules! property_ids {
    ($($n:ident = $v:expr),* $(,)?) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        #[repr(u8)]
        pub enum PropertyId { $($n = $v),* }
        impl PropertyId {
            pub fn from_u8(b: u8) -> Result<Self, ErrorV5> {
                match b {
                    $($v => Ok(PropertyId::$n),)*
                    _ => Err(ErrorV5::InvalidPropertyId(b)),
                }
            }
        }
    };
}
property_ids! {
    PayloadFormatIndicator = 0x01, MessageExpiryInterval = 0x02, ContentType = 0x03,
    ResponseTopic = 0x08, CorrelationData = 0x09, SubscriptionIdentifier = 0x0b,
    SessionExpiryInterval = 0x11, AssignedClientIdentifier = 0x12, ServerKeepAlive = 0x13,
    AuthenticationMethod = 0x15, AuthenticationData = 0x16, RequestProblemInformation = 0x17,
    WillDelayInterval = 0x18, RequestResponseInformation = 0x19, ResponseInformation = 0x1a,
    ServerReference = 0x1c, ReasonString = 0x1f, ReceiveMaximum = 0x21, TopicAliasMaximum = 0x22,
    TopicAlias = 0x23, MaximumQoS = 0x24, RetainAvailable = 0x25, UserProperty = 0x26,
    MaximumPacketSize = 0x27, WildcardSubscriptionAvailable = 0x28,
    SubscriptionIdentifierAvailable = 0x29, SharedSubscriptionAvailable = 0x2a,
}

trait PropVal {
    fn put(&self, id: PropertyId, w: &mut Vec<u8>);
    fn get(&mut self, id: PropertyId, c: &mut Cur<'_>) -> Result<(), ErrorV5>;
}
macro_rules! prop_val {
    ($t:ty, |$v:ident, $w:ident| $put:expr, |$id:ident, $c:ident| $get:expr) => {
        impl PropVal for Option<$t> {
            fn put(&self, id: PropertyId, $w: &mut Vec<u8>) {
                if let Some($v) = self {
                    $w.push(id as u8);
                    $put;
                }
            }
            fn get(&mut self, $id: PropertyId, $c: &mut Cur<'_>) -> Result<(), ErrorV5> {
                if self.is_some() {
                    return Err(ErrorV5::DuplicatedProperty($id));
                }
                *self = Some($get);
                Ok(())
            }
        }
    };
}
prop_val!(bool, |v, w| w.push(*v as u8), |id, c| match c.u8()? {
    0 => false,
    1 => true,
    b => return Err(ErrorV5::InvalidByteProperty(id, b)),
});
prop_val!(u16, |v, w| put_u16(w, *v), |_id, c| c.u16()?);
prop_val!(u32, |v, w| put_u32(w, *v), |_id, c| c.u32()?);
prop_val!(VarByteInt, |v, w| put_var_int(w, v.0 as usize), |_id, c| VarByteInt(c.var_int()?));
prop_val!(Arc<str>, |v, w| put_bytes(w, v.as_bytes()), |_id, c| c.string()?);
prop_val!(Bytes, |v, w| put_bytes(w, v), |_id, c| c.bytes()?);
prop_val!(TopicName, |v, w| put_bytes(w, v.as_bytes()), |_id, c| TopicName::try_from(c.string()?)?);
prop_val!(QoS, |v, w| w.push(*v as u8), |id, c| match c.u8()? {
    0 => QoS::Level0,
    1 => QoS::Level1,
    b => return Err(ErrorV5::InvalidByteProperty(id, b)),
});
impl PropVal for Vec<UserProperty> {
    fn put(&self, id: PropertyId, w: &mut Vec<u8>) {
        for p in self {
            w.push(id as u8);
            put_bytes(w, p.name.as_bytes());
            put_bytes(w, p.value.as_bytes());
        }
    }
    fn get(&mut self, _: PropertyId, c: &mut Cur<'_>) -> Result<(), ErrorV5> {
        let (name, value) = (c.string()?, c.string()?);
        self.push(UserProperty { name, value });
        Ok(())
    }
}
impl PropVal for Vec<VarByteInt> {
    fn put(&self, id: PropertyId, w: &mut Vec<u8>) {
        for v in self {
            w.push(id as u8);
            put_var_int(w, v.0 as usize);
        }
    }
    fn get(&mut self, _: PropertyId, c: &mut Cur<'_>) -> Result<(), ErrorV5> {
        self.push(VarByteInt(c.var_int()?));
        Ok(())
    }
}

macro_rules! properties {
    ($name:ident, $pt:ident, { $($f:ident : $t:ty = $id:ident),* $(,)? }) => {
        #[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
        pub struct $name { $(pub $f: $t),* }
        impl $name {
            #[allow(dead_code)]
            fn body(&self) -> Vec<u8> {
                #[allow(unused_mut)]
                let mut w = Vec::new();
                $(self.$f.put(PropertyId::$id, &mut w);)*
                w
            }
            #[allow(dead_code)]
            fn put(&self, w: &mut Vec<u8>) {
                let b = self.body();
                put_var_int(w, b.len());
                w.extend_from_slice(&b);
            }
            #[allow(dead_code)]
            fn get(c: &mut Cur<'_>) -> Result<Self, ErrorV5> {
                let n = c.var_int()? as usize;
                let mut c = Cur { b: c.take(n).map_err(|_| ErrorV5::InvalidPropertyLength(n as u32))? };
                let mut r = Self::default();
                while !c.b.is_empty() {
                    let id = PropertyId::from_u8(c.u8()?)?;
                    match id {
                        $(PropertyId::$id => r.$f.get(id, &mut c)?,)*
                        #[allow(unreachable_patterns)]
                        _ => return Err(ErrorV5::InvalidProperty(PacketType::$pt, id)),
                    }
                }
                Ok(r)
            }
            #[allow(dead_code)]
            fn is_empty(&self) -> bool { *self == Self::default() }
        }
    };
}
properties!(ConnectProperties, Connect, {
    session_expiry_interval: Option<u32> = SessionExpiryInterval,
    receive_max: Option<u16> = ReceiveMaximum,
    max_packet_size: Option<u32> = MaximumPacketSize,
    topic_alias_max: Option<u16> = TopicAliasMaximum,
    request_response_info: Option<bool> = RequestResponseInformation,
    request_problem_info: Option<bool> = RequestProblemInformation,
    user_properties: Vec<UserProperty> = UserProperty,
    auth_method: Option<Arc<str>> = AuthenticationMethod,
    auth_data: Option<Bytes> = AuthenticationData,
});
properties!(WillProperties, Connect, {
    delay_interval: Option<u32> = WillDelayInterval,
    payload_is_utf8: Option<bool> = PayloadFormatIndicator,
    message_expiry_interval: Option<u32> = MessageExpiryInterval,
    content_type: Option<Arc<str>> = ContentType,
    response_topic: Option<TopicName> = ResponseTopic,
    correlation_data: Option<Bytes> = CorrelationData,
    user_properties: Vec<UserProperty> = UserProperty,
});
properties!(ConnackProperties, Connack, {
    session_expiry_interval: Option<u32> = SessionExpiryInterval,
    receive_max: Option<u16> = ReceiveMaximum,
    max_qos: Option<QoS> = MaximumQoS,
    retain_available: Option<bool> = RetainAvailable,
    max_packet_size: Option<u32> = MaximumPacketSize,
    assigned_client_id: Option<Arc<str>> = AssignedClientIdentifier,
    topic_alias_max: Option<u16> = TopicAliasMaximum,
    reason_string: Option<Arc<str>> = ReasonString,
    user_properties: Vec<UserProperty> = UserProperty,
    wildcard_subscription_available: Option<bool> = WildcardSubscriptionAvailable,
    subscription_id_available: Option<bool> = SubscriptionIdentifierAvailable,
    shared_subscription_available: Option<bool> = SharedSubscriptionAvailable,
    server_keep_alive: Option<u16> = ServerKeepAlive,
    response_info: Option<Arc<str>> = ResponseInformation,
    server_reference: Option<Arc<str>> = ServerReference,
    auth_method: Option<Arc<str>> = AuthenticationMethod,
    auth_data: Option<Bytes> = AuthenticationData,
});
properties!(DisconnectProperties, Disconnect, {
    session_expiry_interval: Option<u32> = SessionExpiryInterval,
    reason_string: Option<Arc<str>> = ReasonString,
    user_properties: Vec<UserProperty> = UserProperty,
    server_reference: Option<Arc<str>> = ServerReference,
});
properties!(AuthProperties, Auth, {
    auth_method: Option<Arc<str>> = AuthenticationMethod,
    auth_data: Option<Bytes> = AuthenticationData,
    reason_string: Option<Arc<str>> = ReasonString,
    user_properties: Vec<UserProperty> = UserProperty,
});
properties!(PublishProperties, Publish, {
    payload_is_utf8: Option<bool> = PayloadFormatIndicator,
    message_expiry_interval: Option<u32> = MessageExpiryInterval,
    topic_alias: Option<u16> = TopicAlias,
    response_topic: Option<TopicName> = ResponseTopic,
    correlation_data: Option<Bytes> = CorrelationData,
    user_properties: Vec<UserProperty> = UserProperty,
    subscription_ids: Vec<VarByteInt> = SubscriptionIdentifier,
    content_type: Option<Arc<str>> = ContentType,
});
macro_rules! ack_properties {
    ($($n:ident, $pt:ident);*) => { $(properties!($n, $pt, {
        reason_string: Option<Arc<str>> = ReasonString,
        user_properties: Vec<UserProperty> = UserProperty,
    });)* };
}
ack_properties!(PubackProperties, Puback; PubrecProperties, Pubrec; PubrelProperties, Pubrel;
    PubcompProperties, Pubcomp; SubackProperties, Suback; UnsubackProperties, Unsuback);
properties!(SubscribeProperties, Subscribe, {
    subscription_id: Option<VarByteInt> = SubscriptionIdentifier,
    user_properties: Vec<UserProperty> = UserProperty,
});
properties!(UnsubscribeProperties, Unsubscribe, {
    user_properties: Vec<UserProperty> = UserProperty,
});

// ---------------------------------------------------------------- reason codes

macro_rules! codes {
    ($name:ident { $($n:ident = $v:expr),* $(,)? }) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        #[repr(u8)]
        pub enum $name { $($n = $v),* }
        impl $name {
            pub fn from_u8(b: u8) -> Option<Self> {
                match b { $($v => Some($name::$n),)* _ => None }
            }
            pub fn to_u8(self) -> u8 { self as u8 }
        }
    };
}
codes!(ConnectReasonCode { Success = 0, UnspecifiedError = 0x80, MalformedPacket = 0x81, ProtocolError = 0x82,
    ImplementationSpecificError = 0x83, UnsupportedProtocolVersion = 0x84, ClientIdentifierNotValid = 0x85,
    BadUserNameOrPassword = 0x86, NotAuthorized = 0x87, ServerUnavailable = 0x88, ServerBusy = 0x89,
    Banned = 0x8a, BadAuthMethod = 0x8c, TopicNameInvalid = 0x90, PacketTooLarge = 0x95, QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9a, QoSNotSupported = 0x9b, UseAnotherServer = 0x9c,
    ServerMoved = 0x9d, ConnectionRateExceeded = 0x9f });
codes!(DisconnectReasonCode { NormalDisconnect = 0, DisconnectWithWillMessage = 4, UnspecifiedError = 0x80,
    MalformedPacket = 0x81, ProtocolError = 0x82, ImplementationSpecificError = 0x83, NotAuthorized = 0x87,
    ServerBusy = 0x89, ServerShuttingDown = 0x8b, KeepAliveTimeout = 0x8d, SessionTakenOver = 0x8e,
    TopicFilterInvalid = 0x8f, TopicNameInvalid = 0x90, ReceiveMaximumExceeded = 0x93, TopicAliasInvalid = 0x94,
    PacketTooLarge = 0x95, MessageRateTooHigh = 0x96, QuotaExceeded = 0x97, AdministrativeAction = 0x98,
    PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9a, QoSNotSupported = 0x9b, UserAnotherServer = 0x9c,
    ServerMoved = 0x9d, SharedSubscriptionNotSupported = 0x9e, ConnectionRateExceeded = 0x9f,
    MaximumConnectTime = 0xa0, SubscriptionIdentifiersNotSupported = 0xa1, WildcardSubscriptionsNotSupported = 0xa2 });
codes!(AuthReasonCode { Success = 0, ContinueAuthentication = 0x18, ReAuthentication = 0x19 });
codes!(PubackReasonCode { Success = 0, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicNameInvalid = 0x90, PacketIdentifierInUse = 0x91,
    QuotaExceeded = 0x97, PayloadFormatInvalid = 0x99 });
codes!(PubrecReasonCode { Success = 0, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicNameInvalid = 0x90, PacketIdentifierInUse = 0x91,
    QuotaExceeded = 0x97, PayloadFormatInvalid = 0x99 });
codes!(PubrelReasonCode { Success = 0, PacketIdentifierNotFound = 0x92 });
codes!(PubcompReasonCode { Success = 0, PacketIdentifierNotFound = 0x92 });
codes!(SubscribeReasonCode { GrantedQoS0 = 0, GrantedQoS1 = 1, GrantedQoS2 = 2, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicFilterInvalid = 0x8f, PacketIdentifierInUse = 0x91,
    QuotaExceeded = 0x97, SharedSubscriptionNotSupported = 0x9e, SubscriptionIdentifiersNotSupported = 0xa1,
    WildcardSubscriptionsNotSupported = 0xa2 });
codes!(UnsubscribeReasonCode { Success = 0, NoSubscriptionExisted = 0x11, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicFilterInvalid = 0x8f, PacketIdentifierInUse = 0x91 });

// ---------------------------------------------------------------- packets

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct LastWill {
    pub qos: QoS,
    pub retain: bool,
    pub topic_name: TopicName,
    pub payload: Bytes,
    pub properties: WillProperties,
}
impl LastWill {
    pub fn new(qos: QoS, topic_name: TopicName, payload: Bytes) -> Self {
        LastWill { qos, retain: false, topic_name, payload, properties: WillProperties::default() }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connect {
    pub protocol: Protocol,
    pub clean_start: bool,
    pub keep_alive: u16,
    pub properties: ConnectProperties,
    pub client_id: Arc<str>,
    pub last_will: Option<LastWill>,
    pub username: Option<Arc<str>>,
    pub password: Option<Bytes>,
}
impl Connect {
    pub fn new(client_id: Arc<str>, keep_alive: u16) -> Self {
        Connect {
            protocol: Protocol::V500,
            clean_start: true,
            keep_alive,
            properties: Default::default(),
            client_id,
            last_will: None,
            username: None,
            password: None,
        }
    }
    fn decode_cur(c: &mut Cur<'_>, protocol: Protocol) -> Result<Self, ErrorV5> {
        let flags = ConnectFlags::parse(c.u8()?)?;
        let keep_alive = c.u16()?;
        let properties = ConnectProperties::get(c)?;
        let client_id = c.string()?;
        let last_will = match flags.will {
            Some((qos, retain)) => {
                let properties = WillProperties::get(c)?;
                let topic_name = TopicName::try_from(c.string()?)?;
                let payload = c.bytes()?;
                if properties.payload_is_utf8 == Some(true) && std::str::from_utf8(&payload).is_err() {
                    return Err(ErrorV5::InvalidPayloadFormat);
                }
                Some(LastWill { qos, retain, topic_name, payload, properties })
            }
            None => None,
        };
        let username = if flags.username { Some(c.string()?) } else { None };
        let password = if flags.password { Some(c.bytes()?) } else { None };
        Ok(Connect {
            protocol,
            clean_start: flags.clean,
            keep_alive,
            properties,
            client_id,
            last_will,
            username,
            password,
        })
    }
    /// Reads the packet after the protocol name and level.
    pub async fn decode_stream_with_protocol<T: AsyncRead + Unpin>(
        r: &mut T,
        header: Header,
        protocol: Protocol,
    ) -> Result<Self, ErrorV5> {
        if protocol != Protocol::V500 {
            return Err(Error::UnexpectedProtocol(protocol).into());
        }
        let used = 2 + protocol.to_pair().0.len() + 1;
        let Some(n) = (header.remaining_len as usize).checked_sub(used) else {
            return Err(Error::InvalidRemainingLength.into());
        };
        let mut body = vec![0u8; n];
        read_exact_async(r, &mut body).await?;
        let mut c = Cur { b: &body };
        let p = Connect::decode_cur(&mut c, protocol)?;
        c.end()?;
        Ok(p)
    }
    fn put(&self, w: &mut Vec<u8>) {
        let (name, level) = self.protocol.to_pair();
        put_bytes(w, name.as_bytes());
        w.push(level);
        w.push(
            ConnectFlags {
                clean: self.clean_start,
                will: self.last_will.as_ref().map(|l| (l.qos, l.retain)),
                username: self.username.is_some(),
                password: self.password.is_some(),
            }
            .byte(),
        );
        put_u16(w, self.keep_alive);
        self.properties.put(w);
        put_bytes(w, self.client_id.as_bytes());
        if let Some(l) = &self.last_will {
            l.properties.put(w);
            put_bytes(w, l.topic_name.as_bytes());
            put_bytes(w, &l.payload);
        }
        if let Some(u) = &self.username {
            put_bytes(w, u.as_bytes());
        }
        if let Some(p) = &self.password {
            put_bytes(w, p);
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connack {
    pub session_present: bool,
    pub reason_code: ConnectReasonCode,
    pub properties: ConnackProperties,
}
impl Connack {
    pub fn new(session_present: bool, reason_code: ConnectReasonCode) -> Self {
        Connack { session_present, reason_code, properties: Default::default() }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Disconnect {
    pub reason_code: DisconnectReasonCode,
    pub properties: DisconnectProperties,
}
impl Disconnect {
    pub fn new(reason_code: DisconnectReasonCode) -> Self {
        Disconnect { reason_code, properties: Default::default() }
    }
    pub fn new_normal() -> Self {
        Self::new(DisconnectReasonCode::NormalDisconnect)
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Auth {
    pub reason_code: AuthReasonCode,
    pub properties: AuthProperties,
}
impl Auth {
    pub fn new(reason_code: AuthReasonCode) -> Self {
        Auth { reason_code, properties: Default::default() }
    }
    pub fn new_success() -> Self {
        Self::new(AuthReasonCode::Success)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Publish {
    pub dup: bool,
    pub qos_pid: QosPid,
    pub retain: bool,
    pub topic_name: TopicName,
    pub payload: Bytes,
    pub properties: PublishProperties,
}
impl Hash for Publish {
    // the DUP flag is not part of a message's identity
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.qos_pid.hash(h);
        self.retain.hash(h);
        self.topic_name.hash(h);
        self.payload.hash(h);
        self.properties.hash(h);
    }
}
impl Publish {
    pub fn new(qos_pid: QosPid, topic_name: TopicName, payload: Bytes) -> Self {
        Publish { dup: false, qos_pid, retain: false, topic_name, payload, properties: Default::default() }
    }
}
impl Encodable for Publish {
    fn encode(&self, w: &mut Vec<u8>) {
        put_bytes(w, self.topic_name.as_bytes());
        if let Some(p) = self.qos_pid.pid() {
            put_u16(w, p.value());
        }
        self.properties.put(w);
        w.extend_from_slice(&self.payload);
    }
    fn encode_len(&self) -> usize {
        let props = self.properties.body().len();
        2 + self.topic_name.len()
            + if self.qos_pid.pid().is_some() { 2 } else { 0 }
            + var_int_len(props)
            + props
            + self.payload.len()
    }
}

macro_rules! acks {
    ($($n:ident, $rc:ident, $props:ident);*) => { $(
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub struct $n {
            pub pid: Pid,
            pub reason_code: $rc,
            pub properties: $props,
        }
        impl $n {
            pub fn new(pid: Pid, reason_code: $rc) -> Self {
                $n { pid, reason_code, properties: Default::default() }
            }
            pub fn new_success(pid: Pid) -> Self {
                Self::new(pid, $rc::Success)
            }
            fn put(&self, w: &mut Vec<u8>) {
                put_u16(w, self.pid.value());
                if !self.properties.is_empty() {
                    w.push(self.reason_code as u8);
                    self.properties.put(w);
                } else if self.reason_code != $rc::Success {
                    w.push(self.reason_code as u8);
                }
            }
            fn get(c: &mut Cur<'_>) -> Result<Self, ErrorV5> {
                let pid = c.pid()?;
                let reason_code = if c.b.is_empty() {
                    $rc::Success
                } else {
                    let b = c.u8()?;
                    $rc::from_u8(b).ok_or(ErrorV5::InvalidReasonCode(PacketType::$n, b))?
                };
                let properties = if c.b.is_empty() { Default::default() } else { $props::get(c)? };
                Ok($n { pid, reason_code, properties })
            }
        }
    )* };
}
acks!(Puback, PubackReasonCode, PubackProperties; Pubrec, PubrecReasonCode, PubrecProperties;
    Pubrel, PubrelReasonCode, PubrelProperties; Pubcomp, PubcompReasonCode, PubcompProperties);

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum RetainHandling {
    SendAtSubscribe = 0,
    SendAtSubscribeIfNotExist = 1,
    DoNotSend = 2,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct SubscriptionOptions {
    pub max_qos: QoS,
    pub no_local: bool,
    pub retain_as_published: bool,
    pub retain_handling: RetainHandling,
}
impl SubscriptionOptions {
    pub fn new(max_qos: QoS) -> Self {
        SubscriptionOptions {
            max_qos,
            no_local: false,
            retain_as_published: true,
            retain_handling: RetainHandling::SendAtSubscribe,
        }
    }
    pub fn to_u8(&self) -> u8 {
        self.max_qos as u8
            | (self.no_local as u8) << 2
            | (self.retain_as_published as u8) << 3
            | (self.retain_handling as u8) << 4
    }
    fn from_u8(b: u8) -> Result<Self, ErrorV5> {
        let bad = ErrorV5::InvalidSubscriptionOption(b);
        if b & 0xc0 != 0 {
            return Err(bad);
        }
        Ok(SubscriptionOptions {
            max_qos: QoS::from_u8(b & 3).map_err(|_| bad.clone())?,
            no_local: b & 4 != 0,
            retain_as_published: b & 8 != 0,
            retain_handling: match (b >> 4) & 3 {
                0 => RetainHandling::SendAtSubscribe,
                1 => RetainHandling::SendAtSubscribeIfNotExist,
                2 => RetainHandling::DoNotSend,
                _ => return Err(bad),
            },
        })
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Subscribe {
    pub pid: Pid,
    pub properties: SubscribeProperties,
    pub topics: Vec<(TopicFilter, SubscriptionOptions)>,
}
impl Subscribe {
    pub fn new(pid: Pid, topics: Vec<(TopicFilter, SubscriptionOptions)>) -> Self {
        Subscribe { pid, properties: Default::default(), topics }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Suback {
    pub pid: Pid,
    pub properties: SubackProperties,
    pub topics: Vec<SubscribeReasonCode>,
}
impl Suback {
    pub fn new(pid: Pid, topics: Vec<SubscribeReasonCode>) -> Self {
        Suback { pid, properties: Default::default(), topics }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsubscribe {
    pub pid: Pid,
    pub properties: UnsubscribeProperties,
    pub topics: Vec<TopicFilter>,
}
impl Unsubscribe {
    pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> Self {
        Unsubscribe { pid, properties: Default::default(), topics }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsuback {
    pub pid: Pid,
    pub properties: UnsubackProperties,
    pub topics: Vec<UnsubscribeReasonCode>,
}
impl Unsuback {
    pub fn new(pid: Pid, topics: Vec<UnsubscribeReasonCode>) -> Self {
        Unsuback { pid, properties: Default::default(), topics }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Packet {
    Connect(Connect),
    Connack(Connack),
    Publish(Publish),
    Puback(Puback),
    Pubrec(Pubrec),
    Pubrel(Pubrel),
    Pubcomp(Pubcomp),
    Subscribe(Subscribe),
    Suback(Suback),
    Unsubscribe(Unsubscribe),
    Unsuback(Unsuback),
    Pingreq,
    Pingresp,
    Disconnect(Disconnect),
    Auth(Auth),
}
macro_rules! from_inner {
    ($($t:ident),*) => { $(impl From<$t> for Packet { fn from(p: $t) -> Packet { Packet::$t(p) } })* };
}
from_inner!(
    Connect, Connack, Publish, Puback, Pubrec, Pubrel, Pubcomp, Subscribe, Suback, Unsubscribe, Unsuback,
    Disconnect, Auth
);

fn decode_body(h: Header, body: &[u8]) -> Result<Packet, ErrorV5> {
    use PacketType as T;
    let mut c = Cur { b: body };
    let c = &mut c;
    let p = match h.typ {
        T::Connect => {
            let name = c.string()?;
            let protocol = Protocol::new(&name, c.u8()?)?;
            if protocol != Protocol::V500 {
                return Err(Error::UnexpectedProtocol(protocol).into());
            }
            Connect::decode_cur(c, protocol)?.into()
        }
        T::Connack => {
            let f = c.u8()?;
            if f > 1 {
                return Err(Error::InvalidConnackFlags(f).into());
            }
            let b = c.u8()?;
            let reason_code = ConnectReasonCode::from_u8(b).ok_or(ErrorV5::InvalidReasonCode(h.typ, b))?;
            Connack { session_present: f == 1, reason_code, properties: ConnackProperties::get(c)? }.into()
        }
        T::Publish => {
            let topic_name = TopicName::try_from(c.string()?)?;
            let qos_pid = match h.qos {
                QoS::Level0 => QosPid::Level0,
                QoS::Level1 => QosPid::Level1(c.pid()?),
                QoS::Level2 => QosPid::Level2(c.pid()?),
            };
            let properties = PublishProperties::get(c)?;
            let payload = Bytes::copy_from_slice(c.take(c.b.len())?);
            if properties.payload_is_utf8 == Some(true) && std::str::from_utf8(&payload).is_err() {
                return Err(ErrorV5::InvalidPayloadFormat);
            }
            Publish { dup: h.dup, qos_pid, retain: h.retain, topic_name, payload, properties }.into()
        }
        T::Puback => Puback::get(c)?.into(),
        T::Pubrec => Pubrec::get(c)?.into(),
        T::Pubrel => Pubrel::get(c)?.into(),
        T::Pubcomp => Pubcomp::get(c)?.into(),
        T::Subscribe => {
            let pid = c.pid()?;
            let properties = SubscribeProperties::get(c)?;
            let mut topics = Vec::new();
            while !c.b.is_empty() {
                let f = TopicFilter::try_from(&*c.string()?)?;
                topics.push((f, SubscriptionOptions::from_u8(c.u8()?)?));
            }
            if topics.is_empty() {
                return Err(Error::EmptySubscription.into());
            }
            Subscribe { pid, properties, topics }.into()
        }
        T::Suback => {
            let pid = c.pid()?;
            let properties = SubackProperties::get(c)?;
            let topics = c
                .take(c.b.len())?
                .iter()
                .map(|b| SubscribeReasonCode::from_u8(*b).ok_or(ErrorV5::InvalidReasonCode(h.typ, *b)))
                .collect::<Result<Vec<_>, _>>()?;
            Suback { pid, properties, topics }.into()
        }
        T::Unsubscribe => {
            let pid = c.pid()?;
            let properties = UnsubscribeProperties::get(c)?;
            let mut topics = Vec::new();
            while !c.b.is_empty() {
                topics.push(TopicFilter::try_from(&*c.string()?)?);
            }
            if topics.is_empty() {
                return Err(Error::EmptySubscription.into());
            }
            Unsubscribe { pid, properties, topics }.into()
        }
        T::Unsuback => {
            let pid = c.pid()?;
            let properties = UnsubackProperties::get(c)?;
            let topics = c
                .take(c.b.len())?
                .iter()
                .map(|b| UnsubscribeReasonCode::from_u8(*b).ok_or(ErrorV5::InvalidReasonCode(h.typ, *b)))
                .collect::<Result<Vec<_>, _>>()?;
            Unsuback { pid, properties, topics }.into()
        }
        T::Pingreq => Packet::Pingreq,
        T::Pingresp => Packet::Pingresp,
        T::Disconnect => {
            let b = if c.b.is_empty() { 0 } else { c.u8()? };
            let reason_code = DisconnectReasonCode::from_u8(b).ok_or(ErrorV5::InvalidReasonCode(h.typ, b))?;
            let properties = if c.b.is_empty() { Default::default() } else { DisconnectProperties::get(c)? };
            Disconnect { reason_code, properties }.into()
        }
        T::Auth => {
            let b = if c.b.is_empty() { 0 } else { c.u8()? };
            let reason_code = AuthReasonCode::from_u8(b).ok_or(ErrorV5::InvalidReasonCode(h.typ, b))?;
            let properties = if c.b.is_empty() { Default::default() } else { AuthProperties::get(c)? };
            Auth { reason_code, properties }.into()
        }
    };
    c.end()?;
    Ok(p)
}

impl Packet {
    pub fn get_type(&self) -> PacketType {
        match self {
            Packet::Connect(_) => PacketType::Connect,
            Packet::Connack(_) => PacketType::Connack,
            Packet::Publish(_) => PacketType::Publish,
            Packet::Puback(_) => PacketType::Puback,
            Packet::Pubrec(_) => PacketType::Pubrec,
            Packet::Pubrel(_) => PacketType::Pubrel,
            Packet::Pubcomp(_) => PacketType::Pubcomp,
            Packet::Subscribe(_) => PacketType::Subscribe,
            Packet::Suback(_) => PacketType::Suback,
            Packet::Unsubscribe(_) => PacketType::Unsubscribe,
            Packet::Unsuback(_) => PacketType::Unsuback,
            Packet::Pingreq => PacketType::Pingreq,
            Packet::Pingresp => PacketType::Pingresp,
            Packet::Disconnect(_) => PacketType::Disconnect,
            Packet::Auth(_) => PacketType::Auth,
        }
    }
    fn raw(&self) -> (u8, Vec<u8>) {
        let mut w = Vec::new();
        let control = match self {
            Packet::Connect(c) => {
                c.put(&mut w);
                0x10
            }
            Packet::Connack(c) => {
                w.push(c.session_present as u8);
                w.push(c.reason_code as u8);
                c.properties.put(&mut w);
                0x20
            }
            Packet::Publish(p) => {
                p.encode(&mut w);
                0x30 | (p.dup as u8) << 3 | (p.qos_pid.qos() as u8) << 1 | p.retain as u8
            }
            Packet::Puback(p) => {
                p.put(&mut w);
                0x40
            }
            Packet::Pubrec(p) => {
                p.put(&mut w);
                0x50
            }
            Packet::Pubrel(p) => {
                p.put(&mut w);
                0x62
            }
            Packet::Pubcomp(p) => {
                p.put(&mut w);
                0x70
            }
            Packet::Subscribe(s) => {
                put_u16(&mut w, s.pid.value());
                s.properties.put(&mut w);
                for (f, o) in &s.topics {
                    put_bytes(&mut w, f.as_bytes());
                    w.push(o.to_u8());
                }
                0x82
            }
            Packet::Suback(s) => {
                put_u16(&mut w, s.pid.value());
                s.properties.put(&mut w);
                w.extend(s.topics.iter().map(|t| *t as u8));
                0x90
            }
            Packet::Unsubscribe(s) => {
                put_u16(&mut w, s.pid.value());
                s.properties.put(&mut w);
                for f in &s.topics {
                    put_bytes(&mut w, f.as_bytes());
                }
                0xa2
            }
            Packet::Unsuback(s) => {
                put_u16(&mut w, s.pid.value());
                s.properties.put(&mut w);
                w.extend(s.topics.iter().map(|t| *t as u8));
                0xb0
            }
            Packet::Pingreq => 0xc0,
            Packet::Pingresp => 0xd0,
            Packet::Disconnect(d) => {
                if !d.properties.is_empty() {
                    w.push(d.reason_code as u8);
                    d.properties.put(&mut w);
                } else if d.reason_code != DisconnectReasonCode::NormalDisconnect {
                    w.push(d.reason_code as u8);
                }
                0xe0
            }
            Packet::Auth(a) => {
                if !a.properties.is_empty() {
                    w.push(a.reason_code as u8);
                    a.properties.put(&mut w);
                } else if a.reason_code != AuthReasonCode::Success {
                    w.push(a.reason_code as u8);
                    w.push(0);
                }
                0xf0
            }
        };
        (control, w)
    }
    pub fn encode(&self) -> Result<VarBytes, ErrorV5> {
        let (c, b) = self.raw();
        let v = frame(c, &b)?;
        Ok(match v.len() {
            2 => VarBytes::Fixed2([v[0], v[1]]),
            4 => VarBytes::Fixed4([v[0], v[1], v[2], v[3]]),
            _ => VarBytes::Dynamic(v),
        })
    }
    pub fn encode_len(&self) -> Result<usize, ErrorV5> {
        Ok(total_len(self.raw().1.len())?)
    }
    pub async fn encode_async<T: AsyncWrite + Unpin>(&self, w: &mut T) -> Result<(), ErrorV5> {
        let data = self.encode()?;
        w.write_all(data.as_ref()).await?;
        Ok(())
    }
    /// `Ok(None)`: more bytes are needed.
    pub fn decode(bytes: &[u8]) -> Result<Option<Packet>, ErrorV5> {
        match split_frame(bytes)? {
            None => Ok(None),
            Some((c, body, total)) => {
                decode_body(Header::new_with(c, body.len() as u32, total as u32)?, body).map(Some)
            }
        }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<Packet, ErrorV5> {
        let (c, rem, total) = decode_raw_header_async(r).await?;
        let h = Header::new_with(c, rem, total as u32)?;
        let mut body = vec![0u8; rem as usize];
        read_exact_async(r, &mut body).await?;
        decode_body(h, &body)
    }
}
