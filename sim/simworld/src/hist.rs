//! The recorded history of one simulated run.
use crate::wire::{Frame, K};

/// Index of a connection in `World::conns`.
pub type Cx = usize;

#[derive(Clone, Debug, PartialEq)]
pub struct KeyV {
    pub name: String,
    pub rank: u32,
    pub note: Option<String>,
    pub tag: Option<u64>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct AsgV {
    pub uid: String,
    pub level: u32,
    pub admin: Option<bool>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct IdV {
    pub cx: Cx,
    pub key: Option<KeyV>,
    pub asg: Option<AsgV>,
}
/// What the selection helpers returned at a handler's entry.
#[derive(Clone, Debug, PartialEq)]
pub struct View {
    pub all: Vec<Cx>,
    pub except: (Cx, Vec<Cx>),
    pub exclude: (Vec<Cx>, Vec<Cx>),
    /// connections with an odd key rank / with an assigned identity
    pub odd: Vec<Cx>,
    pub assigned: Vec<Cx>,
    /// what the predicate was shown, in order
    pub seen: Vec<IdV>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum IdSet {
    Key(KeyV, bool),
    Asg(AsgV, bool),
}
#[derive(Clone, Debug, PartialEq)]
pub enum CallRes {
    /// kind of the answer, its op, content intact
    Answer(K, u64, bool),
    /// declared error: its op, content intact
    Declared(K, u64, bool),
    Confirmed,
    Timeout,
    /// handler error text carried by a beacon confirmation
    BeaconErr(String),
    Err(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Dir {
    C2S,
    S2C,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    // ---- producer application
    PRunStart { epoch: u32 },
    PRunEnd { epoch: u32, ok: bool, err: String },
    PReady,
    PShutdown,
    PConnected { cx: Cx, id: IdV, view: View },
    PDisconnected { cx: Cx, id: IdV, view: View },
    PHandle { kind: K, op: u64, cx: Cx, intact: bool, id: IdV, view: View },
    PEvent { kind: K, op: u64, intact: bool, view: View },
    PHandlerEnd { kind: K, op: u64, cx: Option<Cx> },
    PError { cx: Option<Cx>, class: &'static str, what: String, id: Option<IdV> },
    PSet { cx: Cx, set: IdSet, ok: bool },
    PDeferred { op: u64, end: bool },
    /// broadcast chosen by a handler: recipients are connections; `unknown` are made-up ids
    PBroadcast { kind: K, bid: u64, op: u64, to: Vec<Cx>, unknown: usize, slot: u8 },
    PEmit { task: u32, kind: K, op: u64, ok: bool },
    PAppDisconnect { cx: Cx },
    PShutdownCall { id: u32, wait: bool },
    PShutdownRet { id: u32, ok: bool },
    PShutdownDropped { id: u32 },
    // ---- server transport
    TListen { epoch: u32 },
    TSend { cx: Option<Cx>, frames: Vec<Frame>, tail: usize, err: bool, all: bool },
    TDisconnect { cx: Option<Cx>, err: bool },
    TShutdown { epoch: u32 },
    TUp { cx: Cx },
    TDown { cx: Cx },
    TRecv { cx: Cx, n: usize },
    /// complete frames handed to the producer so far on this connection
    TFrames { cx: Cx, frames: Vec<Frame> },
    TEnd { epoch: u32 },
    /// listening ended with an error
    TFail { epoch: u32, what: String },
    TConnError { cx: Option<Cx> },
    /// the producer's transport reports an error: its text contains #e<n>#
    TError { n: u64, class: &'static str, cx: Option<Cx>, epoch: u32 },
    /// the transport of a consumer does; `last` as the result of the session
    CTError { c: usize, n: u64, class: &'static str, last: bool },
    /// from this offset on the stream has no reliable framing
    Desync { cx: Cx, dir: Dir, off: u64 },
    // ---- client side
    CStart { c: usize },
    CAttempt { c: usize },
    CLinkUp { c: usize, cx: Cx },
    CLinkDown { c: usize, cx: Cx, clean: bool },
    CRefused { c: usize },
    CSend { c: usize, cx: Option<Cx>, frames: Vec<Frame>, ok: bool },
    /// something of the transport that carries no message of the protocol
    CForeign { c: usize, cx: Cx },
    CRecv { c: usize, cx: Cx, frames: Vec<Frame>, n: usize },
    CTShutdown { c: usize },
    CConnected { c: usize },
    CDisconnected { c: usize },
    CShutdown { c: usize, err: Option<String> },
    CError { c: usize, class: &'static str, what: String },
    CReconnect { c: usize, timeout: u64, yes: bool },
    CBroadcast { c: usize, kind: K, bid: u64, intact: bool },
    CBroadcastEnd { c: usize, bid: u64 },
    CCall { c: usize, kind: K, op: u64 },
    CRet { c: usize, op: u64, res: CallRes },
    /// the caller went away
    CDrop { c: usize, op: u64 },
    CShutdownCall { c: usize, id: u32 },
    CShutdownRet { c: usize, id: u32, ok: bool },
    CShutdownDropped { c: usize, id: u32 },
    /// the application asks for access to a consumer
    CGetCall { c: usize, id: u32 },
    CGetRet { c: usize, id: u32, ok: bool },
    /// the token of a consumer it was given is cancelled
    CToken { c: usize, id: u32 },
    /// what a call on it gives then; None: nothing in time
    CStale { c: usize, id: u32, res: Option<CallRes> },
    // ---- director
    Phase(&'static str),
    Fault(String),
    Crash { node: u32 },
    Reset { cx: Cx },
    /// a raw client decoded a message
    CGot { c: usize, cx: Cx, kind: K, id: u64, seq: u32, intact: bool },
    /// the answer with this sequence was not seen in time by a raw client
    CMissing { c: usize, cx: Cx, seq: u32 },
    ProbeEnd { cx: Option<Cx>, ok: bool },
    Note(String),
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub t: u64,
    pub ev: Ev,
}
