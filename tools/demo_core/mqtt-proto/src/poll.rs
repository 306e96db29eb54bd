use std::future::Future;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::task::{Context, Poll};

use tokio::io::{AsyncRead, ReadBuf};

use crate::{Error, IoErrorKind};

pub trait PollHeader: Sized {
    type Error: From<Error>;
    type Packet;
    fn new_with(control: u8, remaining_len: u32, total_len: u32) -> Result<Self, Self::Error>;
    fn remaining_len(&self) -> usize;
    fn total_len(&self) -> usize;
    fn decode_body(self, body: &[u8]) -> Result<Self::Packet, Self::Error>;
}

#[derive(Debug, Clone, Default)]
pub struct PollHeaderState {
    pub control_byte: Option<u8>,
    pub var_idx: usize,
    pub var_int: u32,
}
#[derive(Debug)]
pub struct GenericPollBodyState<H> {
    pub header: H,
    pub idx: usize,
    pub buf: Vec<MaybeUninit<u8>>,
}
#[derive(Debug)]
pub enum GenericPollPacketState<H> {
    Header(PollHeaderState),
    Body(GenericPollBodyState<H>),
}
impl<H> Default for GenericPollPacketState<H> {
    fn default() -> Self {
        GenericPollPacketState::Header(PollHeaderState::default())
    }
}

pub struct GenericPollPacket<'a, T, H> {
    state: &'a mut GenericPollPacketState<H>,
    reader: &'a mut T,
}
impl<'a, T, H> GenericPollPacket<'a, T, H> {
    pub fn new(state: &'a mut GenericPollPacketState<H>, reader: &'a mut T) -> Self {
        GenericPollPacket { state, reader }
    }
}

impl<'a, T, H> Future for GenericPollPacket<'a, T, H>
where
    T: AsyncRead + Unpin,
    H: PollHeader + Copy + Unpin,
{
    type Output = Result<(usize, Vec<MaybeUninit<u8>>, H::Packet), H::Error>;

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let GenericPollPacket { state, reader } = self.get_mut();
        let eof = || Poll::Ready(Err(H::Error::from(Error::IoError(IoErrorKind::UnexpectedEof))));
        loop {
            match state {
                GenericPollPacketState::Header(h) => {
                    let mut byte = [0u8; 1];
                    let mut rb = ReadBuf::new(&mut byte);
                    match Pin::new(&mut **reader).poll_read(cx, &mut rb) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(Err(e)) => return Poll::Ready(Err(Error::from(e).into())),
                        Poll::Ready(Ok(())) => {
                            if rb.filled().is_empty() {
                                return eof();
                            }
                        }
                    }
                    let b = byte[0];
                    let Some(control) = h.control_byte else {
                        h.control_byte = Some(b);
                        continue;
                    };
                    h.var_int |= ((b & 0x7f) as u32) << (7 * h.var_idx);
                    h.var_idx += 1;
                    if b & 0x80 != 0 {
                        if h.var_idx >= 4 {
                            return Poll::Ready(Err(Error::InvalidVarByteInt.into()));
                        }
                        continue;
                    }
                    let total = 1 + h.var_idx as u32 + h.var_int;
                    let header = match H::new_with(control, h.var_int, total) {
                        Ok(x) => x,
                        Err(e) => return Poll::Ready(Err(e)),
                    };
                    let len = header.remaining_len();
                    let mut buf = Vec::with_capacity(len);
                    buf.resize(len, MaybeUninit::new(0));
                    **state = GenericPollPacketState::Body(GenericPollBodyState { header, idx: 0, buf });
                }
                GenericPollPacketState::Body(b) => {
                    while b.idx < b.buf.len() {
                        let mut rb = ReadBuf::uninit(&mut b.buf[b.idx..]);
                        match Pin::new(&mut **reader).poll_read(cx, &mut rb) {
                            Poll::Pending => return Poll::Pending,
                            Poll::Ready(Err(e)) => return Poll::Ready(Err(Error::from(e).into())),
                            Poll::Ready(Ok(())) => {
                                let n = rb.filled().len();
                                if n == 0 {
                                    return eof();
                                }
                                b.idx += n;
                            }
                        }
                    }
                    let body: Vec<u8> = b.buf.iter().map(|v| unsafe { v.assume_init() }).collect();
                    let total = b.header.total_len();
                    let buf = std::mem::take(&mut b.buf);
                    return Poll::Ready(b.header.decode_body(&body).map(|p| (total, buf, p)));
                }
            }
        }
    }
}
