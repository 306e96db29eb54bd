use std::fmt;
use std::io;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum IoErrorKind {
    UnexpectedEof,
    TimedOut,
    InvalidData,
    InvalidInput,
    BrokenPipe,
    ConnectionReset,
    ConnectionAborted,
    WriteZero,
    NotConnected,
    Other,
}

impl From<io::ErrorKind> for IoErrorKind {
    fn from(k: io::ErrorKind) -> Self {
        match k {
            io::ErrorKind::UnexpectedEof => Self::UnexpectedEof,
            io::ErrorKind::TimedOut => Self::TimedOut,
            io::ErrorKind::InvalidData => Self::InvalidData,
            io::ErrorKind::InvalidInput => Self::InvalidInput,
            io::ErrorKind::BrokenPipe => Self::BrokenPipe,
            io::ErrorKind::ConnectionReset => Self::ConnectionReset,
            io::ErrorKind::ConnectionAborted => Self::ConnectionAborted,
            io::ErrorKind::WriteZero => Self::WriteZero,
            io::ErrorKind::NotConnected => Self::NotConnected,
            _ => Self::Other,
        }
    }
}
impl From<IoErrorKind> for io::ErrorKind {
    fn from(k: IoErrorKind) -> Self {
        match k {
            IoErrorKind::UnexpectedEof => io::ErrorKind::UnexpectedEof,
            IoErrorKind::TimedOut => io::ErrorKind::TimedOut,
            IoErrorKind::InvalidData => io::ErrorKind::InvalidData,
            IoErrorKind::InvalidInput => io::ErrorKind::InvalidInput,
            IoErrorKind::BrokenPipe => io::ErrorKind::BrokenPipe,
            IoErrorKind::ConnectionReset => io::ErrorKind::ConnectionReset,
            IoErrorKind::ConnectionAborted => io::ErrorKind::ConnectionAborted,
            IoErrorKind::WriteZero => io::ErrorKind::WriteZero,
            IoErrorKind::NotConnected => io::ErrorKind::NotConnected,
            IoErrorKind::Other => io::ErrorKind::Other,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    InvalidRemainingLength,
    EmptySubscription,
    ZeroPid,
    InvalidQos(u8),
    InvalidConnectFlags(u8),
    InvalidConnackFlags(u8),
    InvalidConnectReturnCode(u8),
    InvalidProtocol(String, u8),
    UnexpectedProtocol(crate::Protocol),
    InvalidHeader,
    InvalidVarByteInt,
    InvalidTopicName(String),
    InvalidTopicFilter(String),
    InvalidString,
    IoError(IoErrorKind),
}

impl Error {
    pub fn is_eof(&self) -> bool {
        matches!(self, Error::IoError(IoErrorKind::UnexpectedEof))
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::InvalidRemainingLength => f.write_str("invalid remaining length"),
            Error::EmptySubscription => f.write_str("empty subscription"),
            Error::ZeroPid => f.write_str("packet identifier is 0"),
            Error::InvalidQos(v) => write!(f, "invalid qos: {v}"),
            Error::InvalidConnectFlags(v) => write!(f, "invalid connect flags: {v}"),
            Error::InvalidConnackFlags(v) => write!(f, "invalid connack flags: {v}"),
            Error::InvalidConnectReturnCode(v) => write!(f, "invalid connect return code: {v}"),
            Error::InvalidProtocol(n, l) => write!(f, "invalid protocol: {n:?}, {l}"),
            Error::UnexpectedProtocol(p) => write!(f, "unexpected protocol: {p}"),
            Error::InvalidHeader => f.write_str("invalid header"),
            Error::InvalidVarByteInt => f.write_str("invalid variable byte integer"),
            Error::InvalidTopicName(v) => write!(f, "invalid topic name: {v:?}"),
            Error::InvalidTopicFilter(v) => write!(f, "invalid topic filter: {v:?}"),
            Error::InvalidString => f.write_str("invalid utf-8 string"),
            Error::IoError(k) => write!(f, "io error: {k:?}"),
        }
    }
}
impl std::error::Error for Error {}
impl From<io::Error> for Error {
    fn from(e: io::Error) -> Self {
        Error::IoError(e.kind().into())
    }
}
impl From<Error> for io::Error {
    fn from(e: Error) -> Self {
        match e {
            Error::IoError(k) => io::Error::from(io::ErrorKind::from(k)),
            e => io::Error::new(io::ErrorKind::InvalidData, e),
        }
    }
}
