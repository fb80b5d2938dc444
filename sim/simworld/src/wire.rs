//! An independent reader of the wire format: header (26 bytes, little endian) and storage entries.
use std::cell::RefCell;
use std::collections::HashMap;

pub const HEADER: usize = 26;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    Own, Assigned, SelfKeyResponse, HashRequest, HashResponse, BeaconConfirmation, ConnectConfirmation,
    Echo, Reply, Multi, RespA, RespB, RespC, Same, Quick, Fail, Refuse, Ask, Answer, InnerAnswer,
    Note, NoteB, NoteC, News, InnerNews, Tick, Pulse, Ping, Mark, Other,
}
impl K {
    pub fn is_request(self) -> bool {
        matches!(self, K::Echo | K::Multi | K::Same | K::Quick | K::Ask)
    }
    pub fn is_beacon(self) -> bool {
        matches!(self, K::Ping | K::Mark)
    }
    pub fn is_broadcast(self) -> bool {
        matches!(self, K::Note | K::NoteB | K::NoteC | K::News | K::InnerNews)
    }
    pub fn is_event(self) -> bool {
        matches!(self, K::Tick | K::Pulse)
    }
    pub fn is_handshake(self) -> bool {
        matches!(self, K::Own | K::HashRequest)
    }
    pub fn is_handshake_answer(self) -> bool {
        matches!(self, K::ConnectConfirmation | K::SelfKeyResponse | K::HashResponse)
    }
}

thread_local! {
    static KINDS: RefCell<HashMap<u32, K>> = RefCell::new(HashMap::new());
}
pub fn set_kinds(v: &[(u32, K)]) {
    KINDS.with(|k| *k.borrow_mut() = v.iter().cloned().collect());
}
pub fn kind_of(id: u32) -> K {
    KINDS.with(|k| k.borrow().get(&id).copied().unwrap_or(K::Other))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub id: u32,
    pub kind: K,
    pub sig: u16,
    pub seq: u32,
    pub len: u64,
    /// first and second u64 entries (op / bid, op), when the body has the shape of our messages
    pub a: u64,
    pub b: u64,
    /// text of the first entry (handshake and confirmation messages)
    pub text: Option<String>,
    pub text2: Option<String>,
    /// position of the frame in its stream
    pub start: u64,
    pub end: u64,
    pub body_hash: u64,
}

pub fn le(b: &[u8]) -> u64 {
    b.iter().take(8).enumerate().fold(0u64, |a, (i, x)| a | ((*x as u64) << (8 * i)))
}
/// Storage entries of a body, `None` if the body is not well formed.
pub fn entries(b: &[u8]) -> Option<Vec<(u16, &[u8])>> {
    let mut v = vec![];
    let mut p = 0usize;
    while p < b.len() {
        if p + 3 > b.len() {
            return None;
        }
        let id = le(&b[p..p + 2]) as u16;
        let w = match b[p + 2] {
            8 => 1,
            16 => 2,
            32 => 4,
            64 => 8,
            _ => return None,
        };
        p += 3;
        if p + w > b.len() {
            return None;
        }
        let len = le(&b[p..p + w]) as usize;
        p += w;
        if len > b.len() || p + len > b.len() {
            return None;
        }
        v.push((id, &b[p..p + len]));
        p += len;
    }
    Some(v)
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for x in b {
        h = (h ^ (*x as u64)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}
/// One frame at the start of `b`, or `None` when it is incomplete.
pub fn parse_one(b: &[u8], off: u64) -> Option<(Frame, usize)> {
    if b.len() < HEADER {
        return None;
    }
    let id = le(&b[0..4]) as u32;
    let sig = le(&b[4..6]) as u16;
    let seq = le(&b[6..10]) as u32;
    let len = le(&b[18..26]);
    if len > (1 << 32) || b.len() - HEADER < len as usize {
        return None;
    }
    let body = &b[HEADER..HEADER + len as usize];
    let mut f = Frame {
        id, kind: kind_of(id), sig, seq, len, a: 0, b: 0, text: None, text2: None,
        start: off, end: off + HEADER as u64 + len, body_hash: hash(body),
    };
    if let Some(e) = entries(body) {
        if let Some((_, x)) = e.first() {
            if x.len() == 8 {
                f.a = le(x);
            }
            if matches!(f.kind, K::Own | K::HashRequest | K::HashResponse | K::BeaconConfirmation | K::SelfKeyResponse) && !x.is_empty() {
                f.text = Some(String::from_utf8_lossy(x).into_owned());
            }
        }
        if let Some((_, x)) = e.get(1) {
            if x.len() == 8 {
                f.b = le(x);
            }
            if f.kind == K::HashRequest {
                f.text2 = Some(String::from_utf8_lossy(x).into_owned());
            }
        }
    }
    let n = HEADER + len as usize;
    Some((f, n))
}

#[derive(Default, Debug)]
pub struct StreamParser {
    buf: Vec<u8>,
    pub off: u64,
}
impl StreamParser {
    pub fn feed(&mut self, b: &[u8]) -> Vec<Frame> {
        self.buf.extend_from_slice(b);
        let mut v = vec![];
        let mut p = 0;
        while let Some((f, n)) = parse_one(&self.buf[p..], self.off) {
            p += n;
            self.off += n as u64;
            v.push(f);
        }
        self.buf.drain(..p);
        v
    }
    pub fn pending(&self) -> usize {
        self.buf.len()
    }
}
/// Cuts a buffer into whole frames; the remainder (if any) is the last element.
pub fn split_frames(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut p = 0;
    while p < b.len() {
        match parse_one(&b[p..], 0) {
            Some((_, n)) => {
                v.push(b[p..p + n].to_vec());
                p += n;
            }
            None => {
                v.push(b[p..].to_vec());
                break;
            }
        }
    }
    v
}
pub fn header(id: u32, sig: u16, seq: u32, len: u64) -> Vec<u8> {
    let mut v = vec![];
    v.extend_from_slice(&id.to_le_bytes());
    v.extend_from_slice(&sig.to_le_bytes());
    v.extend_from_slice(&seq.to_le_bytes());
    v.extend_from_slice(&0u64.to_le_bytes());
    v.extend_from_slice(&len.to_le_bytes());
    v
}
/// A storage entry the way a peer writes it: the narrowest length that fits.
pub fn entry(id: u16, b: &[u8]) -> Vec<u8> {
    let mut v = id.to_le_bytes().to_vec();
    let n = b.len() as u64;
    let w = if n < 1 << 8 { 1 } else if n < 1 << 16 { 2 } else if n < 1 << 32 { 4 } else { 8 };
    v.push(w as u8 * 8);
    v.extend_from_slice(&n.to_le_bytes()[..w]);
    v.extend_from_slice(b);
    v
}
