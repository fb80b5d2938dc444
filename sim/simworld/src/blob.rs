//! Plain values of every declared type, the seeded generator for them, and macros that convert between
//! them and the generated types of either side. Floats are kept as bit patterns.
use simrt::Rng;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct LeafV {
    pub name: String,
    pub v: i16,
    pub b: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum ModeV {
    Low(u8),
    High(String),
    Defaults,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SpotV {
    pub x: i32,
    pub mode: ModeV,
    pub seen: Vec<ModeV>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum FlagV {
    Off(String),
    On(String),
    Auto(String),
    Defaults,
}
#[derive(Clone, Debug, PartialEq)]
pub enum KindV {
    Text(String),
    Byte(u8),
    Big(u64),
    Small(i32),
    Real(u64),
    List(Vec<u16>),
    Names(Vec<String>),
    One(LeafV),
    Spot(SpotV),
    Defaults,
}
#[derive(Clone, Debug, PartialEq)]
pub struct BlobV {
    pub a8: u8, pub a16: u16, pub a32: u32, pub a64: u64,
    pub b8: i8, pub b16: i16, pub b32: i32, pub b64: i64,
    pub f: u32, pub d: u64, pub t: bool, pub s: String,
    pub v8: Vec<u8>, pub v16: Vec<u16>, pub v32: Vec<u32>, pub v64: Vec<u64>,
    pub w8: Vec<i8>, pub w16: Vec<i16>, pub w32: Vec<i32>, pub w64: Vec<i64>,
    pub vf: Vec<u32>, pub vd: Vec<u64>, pub vt: Vec<bool>, pub vs: Vec<String>,
    pub leaf: LeafV, pub leaves: Vec<LeafV>,
    pub flag: FlagV, pub kind: KindV,
    pub os: Option<String>, pub on: Option<u64>, pub od: Option<u64>, pub ob: Option<bool>,
    pub o8: Option<Vec<u8>>, pub ov: Option<Vec<String>>,
    pub oleaf: Option<LeafV>, pub okind: Option<KindV>, pub oflag: Option<FlagV>,
    pub kinds: Vec<KindV>, pub flags: Vec<FlagV>,
    pub spot: SpotV, pub spots: Vec<SpotV>, pub mode: ModeV, pub modes: Vec<ModeV>, pub omode: Option<ModeV>, pub ospot: Option<SpotV>,
    pub ospots: Option<Vec<SpotV>>, pub okinds: Option<Vec<KindV>>,
}

fn int(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => 1,
        3 => 1 << r.below(64),
        4 => (1u64 << r.below(64)).wrapping_sub(1),
        5 => 0x8000_0000_0000_0000,
        6 => r.below(300),
        _ => r.next(),
    }
}
thread_local! {
    static ONE_NAN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Other simulators know one NaN only.
pub fn one_nan() {
    ONE_NAN.with(|x| x.set(true));
}
fn quiet() -> bool {
    ONE_NAN.with(|x| x.get())
}
pub fn bits32(v: &f32) -> u32 {
    if v.is_nan() && quiet() { 0x7fc0_0000 } else { v.to_bits() }
}
pub fn bits64(v: &f64) -> u64 {
    if v.is_nan() && quiet() { 0x7ff8_0000_0000_0000 } else { v.to_bits() }
}
fn f32b(r: &mut Rng) -> u32 {
    let v = f32_any(r);
    if f32::from_bits(v).is_nan() && quiet() { 0x7fc0_0000 } else { v }
}
fn f64b(r: &mut Rng) -> u64 {
    let v = f64_any(r);
    if f64::from_bits(v).is_nan() && quiet() { 0x7ff8_0000_0000_0000 } else { v }
}
fn f32_any(r: &mut Rng) -> u32 {
    match r.below(10) {
        0 => 0x7f80_0000,
        1 => 0xff80_0000,
        2 => 0x7fc0_0001 | (r.next() as u32 & 0x3f_ffff),
        3 => 0x8000_0000,
        4 => 0,
        5 => 1,
        6 => f32::MAX.to_bits(),
        7 => f32::MIN_POSITIVE.to_bits(),
        8 => 1.5f32.to_bits(),
        _ => {
            let v = r.next() as u32;
            // keep signalling NaNs quiet: hardware may quieten them in transit through a register
            if v & 0x7f80_0000 == 0x7f80_0000 { v | 0x0040_0000 } else { v }
        }
    }
}
fn f64_any(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => 0x7ff0_0000_0000_0000,
        1 => 0xfff0_0000_0000_0000,
        2 => 0x7ff8_0000_0000_0001 | (r.next() & 0x7_ffff_ffff_ffff),
        3 => 0x8000_0000_0000_0000,
        4 => 0,
        5 => 1,
        6 => f64::MAX.to_bits(),
        7 => f64::MIN_POSITIVE.to_bits(),
        8 => 1.5f64.to_bits(),
        _ => {
            let v = r.next();
            if v & 0x7ff0_0000_0000_0000 == 0x7ff0_0000_0000_0000 { v | 0x0008_0000_0000_0000 } else { v }
        }
    }
}
/// Lengths cluster around the switch points of the length encoding.
fn size(r: &mut Rng, big: u64) -> usize {
    (match r.below(12) {
        0 | 1 => 0,
        2 => 1,
        3 => 2,
        4 => if big > 0 { 254 + r.below(4) } else { 3 },
        5 => if big > 0 { 127 + r.below(3) } else { 4 },
        6 if big > 1 && r.below(6) == 0 => 65533 + r.below(6),
        7 if big > 1 && (big > 2 || r.below(12) == 0) => 70000 + r.below(70000),
        _ => r.below(12),
    }) as usize
}
pub fn text(r: &mut Rng, big: u64) -> String {
    let n = size(r, big);
    let mode = r.below(4);
    let mut s = String::new();
    while s.len() < n {
        s.push(match mode {
            0 => (b'a' + r.below(26) as u8) as char,
            1 => *r.pick(&['\u{0}', '\u{7f}', '"', '\\', '\n', ' ', 'Z']),
            2 => *r.pick(&['\u{e9}', '\u{20ac}', '\u{1f980}', 'x', '\u{0301}', '\u{feff}']),
            _ => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('?'),
        });
    }
    s
}
fn vec_of<T>(r: &mut Rng, big: u64, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let n = size(r, big);
    (0..n).map(|_| f(r)).collect()
}
fn strs(r: &mut Rng, big: u64) -> Vec<String> {
    let n = if big > 0 && r.below(12) == 0 { 250 + r.below(12) } else { r.below(5) };
    (0..n).map(|_| text(r, if n < 5 { big } else { 0 })).collect()
}
pub fn leaf(r: &mut Rng, big: u64) -> LeafV {
    LeafV { name: text(r, big), v: int(r) as i16, b: r.below(2) == 1 }
}
fn mode(r: &mut Rng, big: u64) -> ModeV {
    match r.below(2) {
        0 => ModeV::Low(int(r) as u8),
        _ => ModeV::High(text(r, big)),
    }
}
fn spot(r: &mut Rng, big: u64) -> SpotV {
    SpotV { x: int(r) as i32, mode: mode(r, big), seen: few(r, 0, mode) }
}
pub fn flag(r: &mut Rng, big: u64) -> FlagV {
    let s = text(r, big);
    match r.below(3) {
        0 => FlagV::Off(s),
        1 => FlagV::On(s),
        _ => FlagV::Auto(s),
    }
}
pub fn kind(r: &mut Rng, big: u64) -> KindV {
    match r.below(9) {
        0 => KindV::Text(text(r, big)),
        1 => KindV::Byte(int(r) as u8),
        2 => KindV::Big(int(r)),
        3 => KindV::Small(int(r) as i32),
        4 => KindV::Real(f64b(r)),
        5 => KindV::List(vec_of(r, big.min(1), |r| int(r) as u16)),
        6 => KindV::One(leaf(r, big.min(1))),
        7 => KindV::Spot(spot(r, big.min(1))),
        _ => KindV::Names(strs(r, big.min(1))),
    }
}
fn few<T>(r: &mut Rng, big: u64, f: impl Fn(&mut Rng, u64) -> T) -> Vec<T> {
    let n = if big > 0 && r.below(20) == 0 { 250 + r.below(12) } else { r.below(4) };
    (0..n).map(|_| f(r, if n < 4 { big.min(1) } else { 0 })).collect()
}
fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.below(2) == 0 {
        None
    } else {
        Some(f(r))
    }
}
thread_local! {
    static SALT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Contents differ from run to run.
pub fn set_salt(s: u64) {
    SALT.with(|x| x.set(s));
}
fn fork(id: u64, tag: u64) -> Rng {
    Rng::fork(id ^ SALT.with(|x| x.get()) << 20, tag)
}
/// `big`: 0 small values only, 1 medium, 2 up to several hundred kilobytes.
pub fn blob(seed: u64, big: u64) -> BlobV {
    let mut rr = fork(seed, 0xB10B);
    let r = &mut rr;
    BlobV {
        a8: int(r) as u8, a16: int(r) as u16, a32: int(r) as u32, a64: int(r),
        b8: int(r) as i8, b16: int(r) as i16, b32: int(r) as i32, b64: int(r) as i64,
        f: f32b(r), d: f64b(r), t: r.below(2) == 1, s: text(r, big),
        v8: vec_of(r, big, |r| int(r) as u8), v16: vec_of(r, big.min(1), |r| int(r) as u16),
        v32: vec_of(r, big.min(1), |r| int(r) as u32), v64: vec_of(r, big.min(1), int),
        w8: vec_of(r, big.min(1), |r| int(r) as i8), w16: vec_of(r, big.min(1), |r| int(r) as i16),
        w32: vec_of(r, big.min(1), |r| int(r) as i32), w64: vec_of(r, big.min(1), |r| int(r) as i64),
        vf: vec_of(r, big.min(1), f32b), vd: vec_of(r, big.min(1), f64b), vt: vec_of(r, big.min(1), |r| r.below(2) == 1), vs: strs(r, big),
        leaf: leaf(r, big.min(1)), leaves: few(r, big, leaf),
        flag: flag(r, big.min(1)), kind: kind(r, big),
        os: opt(r, |r| text(r, big)), on: opt(r, int), od: opt(r, f64b), ob: opt(r, |r| r.below(2) == 1),
        o8: opt(r, |r| vec_of(r, big.min(1), |r| int(r) as u8)), ov: opt(r, |r| strs(r, big.min(1))),
        oleaf: opt(r, |r| leaf(r, big.min(1))), okind: opt(r, |r| kind(r, big.min(1))), oflag: opt(r, |r| flag(r, big.min(1))),
        kinds: few(r, big, kind), flags: few(r, big, flag),
        spot: spot(r, big.min(1)), spots: few(r, big, spot), mode: mode(r, big), modes: few(r, big, mode),
        omode: opt(r, |r| mode(r, big.min(1))), ospot: opt(r, |r| spot(r, big.min(1))),
        ospots: opt(r, |r| few(r, big, spot)), okinds: opt(r, |r| few(r, big, kind)),
    }
}

/// Equal values. Known finding R21: an optional value that is present but empty (`Some("")`, `Some(vec![])`)
/// is written like an absent one and read as `None`; it is counted, everything else has to be the same.
pub fn same_blob(got: &BlobV, want: &BlobV) -> bool {
    if got == want {
        return true;
    }
    let mut w = want.clone();
    let mut known = 0;
    macro_rules! known {
        ($($f:ident),*) => {
            $(if got.$f.is_none() && w.$f.as_ref().map(|x| x.is_empty()).unwrap_or(false) {
                w.$f = None;
                known += 1;
            })*
        };
    }
    known!(os, o8, ov, ospots, okinds);
    if *got == w {
        crate::with(|x| x.known_empty += known);
        return true;
    }
    false
}

/// Text derived from an id: the content of every textual message is a function of its op or bid.
pub fn text_of(id: u64) -> String {
    let mut r = fork(id, 0x7e87);
    format!("{}#{}", text(&mut r, 1), id)
}
pub fn data_of(id: u64) -> Vec<u8> {
    let mut r = fork(id, 0xda7a);
    let n = size(&mut r, 1);
    (0..n).map(|_| r.next() as u8).collect()
}
pub fn kind_of_id(id: u64) -> KindV {
    kind(&mut fork(id, 0x419d), 0)
}
pub fn num_of(id: u64) -> u64 {
    int(&mut fork(id, 0x4444))
}

#[macro_export]
macro_rules! blob_conversions {
    ($p:path) => {
        pub mod conv {
            use $p as protocol;
            use simworld::blob::*;
            pub fn leaf_to(v: &LeafV) -> protocol::Leaf {
                protocol::Leaf { name: v.name.clone(), v: v.v, b: v.b }
            }
            pub fn leaf_from(v: &protocol::Leaf) -> LeafV {
                LeafV { name: v.name.clone(), v: v.v, b: v.b }
            }
            pub fn mode_to(v: &ModeV) -> protocol::Vals::Mode {
                match v {
                    ModeV::Low(s) => protocol::Vals::Mode::Low(*s),
                    ModeV::High(s) => protocol::Vals::Mode::High(s.clone()),
                    ModeV::Defaults => protocol::Vals::Mode::Defaults,
                }
            }
            pub fn mode_from(v: &protocol::Vals::Mode) -> ModeV {
                match v {
                    protocol::Vals::Mode::Low(s) => ModeV::Low(*s),
                    protocol::Vals::Mode::High(s) => ModeV::High(s.clone()),
                    protocol::Vals::Mode::Defaults => ModeV::Defaults,
                }
            }
            pub fn spot_to(v: &SpotV) -> protocol::Vals::Spot {
                protocol::Vals::Spot { x: v.x, mode: mode_to(&v.mode), seen: v.seen.iter().map(mode_to).collect() }
            }
            pub fn spot_from(v: &protocol::Vals::Spot) -> SpotV {
                SpotV { x: v.x, mode: mode_from(&v.mode), seen: v.seen.iter().map(mode_from).collect() }
            }
            pub fn flag_to(v: &FlagV) -> protocol::Flag {
                match v {
                    FlagV::Off(s) => protocol::Flag::Off(s.clone()),
                    FlagV::On(s) => protocol::Flag::On(s.clone()),
                    FlagV::Auto(s) => protocol::Flag::Auto(s.clone()),
                    FlagV::Defaults => protocol::Flag::Defaults,
                }
            }
            pub fn flag_from(v: &protocol::Flag) -> FlagV {
                match v {
                    protocol::Flag::Off(s) => FlagV::Off(s.clone()),
                    protocol::Flag::On(s) => FlagV::On(s.clone()),
                    protocol::Flag::Auto(s) => FlagV::Auto(s.clone()),
                    protocol::Flag::Defaults => FlagV::Defaults,
                }
            }
            pub fn kind_to(v: &KindV) -> protocol::Kind {
                match v {
                    KindV::Text(s) => protocol::Kind::Text(s.clone()),
                    KindV::Byte(s) => protocol::Kind::Byte(*s),
                    KindV::Big(s) => protocol::Kind::Big(*s),
                    KindV::Small(s) => protocol::Kind::Small(*s),
                    KindV::Real(s) => protocol::Kind::Real(f64::from_bits(*s)),
                    KindV::List(s) => protocol::Kind::List(s.clone()),
                    KindV::Names(s) => protocol::Kind::Names(s.clone()),
                    KindV::One(s) => protocol::Kind::One(leaf_to(s)),
                    KindV::Spot(s) => protocol::Kind::Spot(spot_to(s)),
                    KindV::Defaults => protocol::Kind::Defaults,
                }
            }
            pub fn kind_from(v: &protocol::Kind) -> KindV {
                match v {
                    protocol::Kind::Text(s) => KindV::Text(s.clone()),
                    protocol::Kind::Byte(s) => KindV::Byte(*s),
                    protocol::Kind::Big(s) => KindV::Big(*s),
                    protocol::Kind::Small(s) => KindV::Small(*s),
                    protocol::Kind::Real(s) => KindV::Real(bits64(s)),
                    protocol::Kind::List(s) => KindV::List(s.clone()),
                    protocol::Kind::Names(s) => KindV::Names(s.clone()),
                    protocol::Kind::One(s) => KindV::One(leaf_from(s)),
                    protocol::Kind::Spot(s) => KindV::Spot(spot_from(s)),
                    protocol::Kind::Defaults => KindV::Defaults,
                }
            }
            pub fn blob_to(v: &BlobV) -> protocol::Blob {
                let v = v.clone();
                protocol::Blob {
                    a8: v.a8, a16: v.a16, a32: v.a32, a64: v.a64,
                    b8: v.b8, b16: v.b16, b32: v.b32, b64: v.b64,
                    f: f32::from_bits(v.f), d: f64::from_bits(v.d), t: v.t, s: v.s,
                    v8: v.v8, v16: v.v16, v32: v.v32, v64: v.v64,
                    w8: v.w8, w16: v.w16, w32: v.w32, w64: v.w64,
                    vf: v.vf.iter().map(|x| f32::from_bits(*x)).collect(),
                    vd: v.vd.iter().map(|x| f64::from_bits(*x)).collect(),
                    vt: v.vt, vs: v.vs,
                    leaf: leaf_to(&v.leaf), leaves: v.leaves.iter().map(leaf_to).collect(),
                    flag: flag_to(&v.flag), kind: kind_to(&v.kind),
                    os: v.os, on: v.on, od: v.od.map(f64::from_bits), ob: v.ob, o8: v.o8, ov: v.ov,
                    oleaf: v.oleaf.as_ref().map(leaf_to),
                    okind: v.okind.as_ref().map(kind_to),
                    oflag: v.oflag.as_ref().map(flag_to),
                    kinds: v.kinds.iter().map(kind_to).collect(), flags: v.flags.iter().map(flag_to).collect(),
                    spot: spot_to(&v.spot), spots: v.spots.iter().map(spot_to).collect(), mode: mode_to(&v.mode), modes: v.modes.iter().map(mode_to).collect(),
                    omode: v.omode.as_ref().map(mode_to), ospot: v.ospot.as_ref().map(spot_to),
                    ospots: v.ospots.as_ref().map(|x| x.iter().map(spot_to).collect()), okinds: v.okinds.as_ref().map(|x| x.iter().map(kind_to).collect()),
                }
            }
            pub fn blob_from(v: &protocol::Blob) -> BlobV {
                let v = v.clone();
                BlobV {
                    a8: v.a8, a16: v.a16, a32: v.a32, a64: v.a64,
                    b8: v.b8, b16: v.b16, b32: v.b32, b64: v.b64,
                    f: bits32(&v.f), d: bits64(&v.d), t: v.t, s: v.s,
                    v8: v.v8, v16: v.v16, v32: v.v32, v64: v.v64,
                    w8: v.w8, w16: v.w16, w32: v.w32, w64: v.w64,
                    vf: v.vf.iter().map(bits32).collect(),
                    vd: v.vd.iter().map(bits64).collect(),
                    vt: v.vt, vs: v.vs,
                    leaf: leaf_from(&v.leaf), leaves: v.leaves.iter().map(leaf_from).collect(),
                    flag: flag_from(&v.flag), kind: kind_from(&v.kind),
                    os: v.os, on: v.on, od: v.od.as_ref().map(bits64), ob: v.ob, o8: v.o8, ov: v.ov,
                    oleaf: v.oleaf.as_ref().map(leaf_from),
                    okind: v.okind.as_ref().map(kind_from),
                    oflag: v.oflag.as_ref().map(flag_from),
                    kinds: v.kinds.iter().map(kind_from).collect(), flags: v.flags.iter().map(flag_from).collect(),
                    spot: spot_from(&v.spot), spots: v.spots.iter().map(spot_from).collect(), mode: mode_from(&v.mode), modes: v.modes.iter().map(mode_from).collect(),
                    omode: v.omode.as_ref().map(mode_from), ospot: v.ospot.as_ref().map(spot_from),
                    ospots: v.ospots.as_ref().map(|x| x.iter().map(spot_from).collect()), okinds: v.okinds.as_ref().map(|x| x.iter().map(kind_from).collect()),
                }
            }
        }
    };
}

/// Constructors of every message as a function of its op (or bid), and the reverse check.
#[macro_export]
macro_rules! msg_content {
    ($p:path) => {
        pub mod content {
            use super::conv::*;
            use $p as protocol;
            use simworld::blob::*;
            use simworld::wire::K;
            pub fn echo(op: u64, big: u64) -> protocol::Echo {
                protocol::Echo { op, blob: blob_to(&blob(op, big)) }
            }
            pub fn echo_ok(m: &protocol::Echo, big: u64) -> bool {
                same_blob(&blob_from(&m.blob), &blob(m.op, big))
            }
            pub fn reply(op: u64, big: u64) -> protocol::Reply {
                protocol::Reply { op, blob: blob_to(&blob(op ^ 0x55_0000_0000, big)) }
            }
            pub fn reply_ok(m: &protocol::Reply, big: u64) -> bool {
                same_blob(&blob_from(&m.blob), &blob(m.op ^ 0x55_0000_0000, big))
            }
            pub fn multi(op: u64) -> protocol::Multi {
                protocol::Multi { op, text: text_of(op) }
            }
            pub fn multi_ok(m: &protocol::Multi) -> bool {
                m.text == text_of(m.op)
            }
            pub fn resp_a(op: u64) -> protocol::RespA {
                protocol::RespA { op, text: text_of(op ^ 0xA1_0000_0000) }
            }
            pub fn resp_a_ok(m: &protocol::RespA) -> bool {
                m.text == text_of(m.op ^ 0xA1_0000_0000)
            }
            pub fn resp_b(op: u64) -> protocol::RespB {
                protocol::RespB { op, code: num_of(op) as u32, data: data_of(op) }
            }
            pub fn resp_b_ok(m: &protocol::RespB) -> bool {
                m.code == num_of(m.op) as u32 && m.data == data_of(m.op)
            }
            pub fn resp_c(op: u64) -> protocol::RespC {
                protocol::RespC { op }
            }
            pub fn same(op: u64, answer: bool) -> protocol::Same {
                let x = if answer { op ^ 0x5A_0000_0000 } else { op };
                protocol::Same { op, text: text_of(x), n: num_of(x) as u32 }
            }
            pub fn same_ok(m: &protocol::Same, answer: bool) -> bool {
                let x = if answer { m.op ^ 0x5A_0000_0000 } else { m.op };
                m.text == text_of(x) && m.n == num_of(x) as u32
            }
            pub fn quick(op: u64) -> protocol::Quick {
                protocol::Quick { op }
            }
            pub fn fail(op: u64) -> protocol::Errors::Fail {
                protocol::Errors::Fail { op, error: text_of(op ^ 0xFA_0000_0000), code: num_of(op ^ 0xFA) as u32 }
            }
            pub fn fail_ok(m: &protocol::Errors::Fail) -> bool {
                m.error == text_of(m.op ^ 0xFA_0000_0000) && m.code == num_of(m.op ^ 0xFA) as u32
            }
            pub fn refuse(op: u64) -> protocol::Deep::Refuse {
                protocol::Deep::Refuse { op, error: text_of(op ^ 0xFB_0000_0000) }
            }
            pub fn refuse_ok(m: &protocol::Deep::Refuse) -> bool {
                m.error == text_of(m.op ^ 0xFB_0000_0000)
            }
            pub fn ask(op: u64) -> protocol::Deep::Ask {
                protocol::Deep::Ask { op, text: text_of(op) }
            }
            pub fn ask_ok(m: &protocol::Deep::Ask) -> bool {
                m.text == text_of(m.op)
            }
            pub fn answer(op: u64) -> protocol::Deep::Answer {
                protocol::Deep::Answer { op, text: text_of(op ^ 0xA2_0000_0000) }
            }
            pub fn answer_ok(m: &protocol::Deep::Answer) -> bool {
                m.text == text_of(m.op ^ 0xA2_0000_0000)
            }
            pub fn inner_answer(op: u64) -> protocol::Deep::Inner::Answer {
                protocol::Deep::Inner::Answer { op, v: num_of(op) as i64 }
            }
            pub fn inner_answer_ok(m: &protocol::Deep::Inner::Answer) -> bool {
                m.v == num_of(m.op) as i64
            }
            pub fn note(bid: u64, op: u64) -> protocol::Note {
                protocol::Note { bid, op, text: text_of(bid) }
            }
            pub fn note_ok(m: &protocol::Note) -> bool {
                m.text == text_of(m.bid)
            }
            pub fn note_b(bid: u64, op: u64) -> protocol::NoteB {
                protocol::NoteB { bid, op, data: data_of(bid) }
            }
            pub fn note_b_ok(m: &protocol::NoteB) -> bool {
                m.data == data_of(m.bid)
            }
            pub fn note_c(bid: u64, op: u64) -> protocol::NoteC {
                protocol::NoteC { bid, op, blob: blob_to(&blob(bid, bid % 2)) }
            }
            pub fn note_c_ok(m: &protocol::NoteC) -> bool {
                same_blob(&blob_from(&m.blob), &blob(m.bid, m.bid % 2))
            }
            pub fn news(bid: u64, op: u64) -> protocol::Deep::News {
                protocol::Deep::News { bid, op, text: text_of(bid) }
            }
            pub fn news_ok(m: &protocol::Deep::News) -> bool {
                m.text == text_of(m.bid)
            }
            pub fn inner_news(bid: u64, op: u64) -> protocol::Deep::Inner::News {
                protocol::Deep::Inner::News { bid, op, kind: kind_to(&kind_of_id(bid)) }
            }
            pub fn inner_news_ok(m: &protocol::Deep::Inner::News) -> bool {
                kind_from(&m.kind) == kind_of_id(m.bid)
            }
            pub fn tick(op: u64) -> protocol::Tick {
                protocol::Tick { op, text: text_of(op) }
            }
            pub fn tick_ok(m: &protocol::Tick) -> bool {
                m.text == text_of(m.op)
            }
            pub fn pulse(op: u64) -> protocol::Deep::Pulse {
                protocol::Deep::Pulse { op, text: text_of(op) }
            }
            pub fn pulse_ok(m: &protocol::Deep::Pulse) -> bool {
                m.text == text_of(m.op)
            }
            pub fn ping(op: u64) -> protocol::Ping {
                protocol::Ping { op, mode: num_of(op) as u32 }
            }
            pub fn ping_ok(m: &protocol::Ping) -> bool {
                m.mode == num_of(m.op) as u32
            }
            pub fn mark(op: u64) -> protocol::Deep::Mark {
                protocol::Deep::Mark { op, text: text_of(op) }
            }
            pub fn mark_ok(m: &protocol::Deep::Mark) -> bool {
                m.text == text_of(m.op)
            }
            /// Kind and op (or bid), and whether the content is what that op (or bid) stands for.
            pub fn classify(m: &protocol::AvailableMessages, big: impl Fn(u64) -> u64) -> (K, u64, bool) {
                use protocol::AvailableMessages as M;
                match m {
                    M::Echo(m) => (K::Echo, m.op, echo_ok(m, big(m.op))),
                    M::Reply(m) => (K::Reply, m.op, reply_ok(m, big(m.op))),
                    M::Multi(m) => (K::Multi, m.op, multi_ok(m)),
                    M::RespA(m) => (K::RespA, m.op, resp_a_ok(m)),
                    M::RespB(m) => (K::RespB, m.op, resp_b_ok(m)),
                    M::RespC(m) => (K::RespC, m.op, true),
                    M::Same(m) => (K::Same, m.op, same_ok(m, true)),
                    M::Quick(m) => (K::Quick, m.op, true),
                    M::Note(m) => (K::Note, m.bid, note_ok(m)),
                    M::NoteB(m) => (K::NoteB, m.bid, note_b_ok(m)),
                    M::NoteC(m) => (K::NoteC, m.bid, note_c_ok(m)),
                    M::Tick(m) => (K::Tick, m.op, tick_ok(m)),
                    M::Ping(m) => (K::Ping, m.op, ping_ok(m)),
                    M::Errors(protocol::Errors::AvailableMessages::Fail(m)) => (K::Fail, m.op, fail_ok(m)),
                    M::Deep(protocol::Deep::AvailableMessages::Ask(m)) => (K::Ask, m.op, ask_ok(m)),
                    M::Deep(protocol::Deep::AvailableMessages::Answer(m)) => (K::Answer, m.op, answer_ok(m)),
                    M::Deep(protocol::Deep::AvailableMessages::Refuse(m)) => (K::Refuse, m.op, refuse_ok(m)),
                    M::Deep(protocol::Deep::AvailableMessages::News(m)) => (K::News, m.bid, news_ok(m)),
                    M::Deep(protocol::Deep::AvailableMessages::Pulse(m)) => (K::Pulse, m.op, pulse_ok(m)),
                    M::Deep(protocol::Deep::AvailableMessages::Mark(m)) => (K::Mark, m.op, mark_ok(m)),
                    M::Deep(protocol::Deep::AvailableMessages::Inner(protocol::Deep::Inner::AvailableMessages::Answer(m))) => (K::InnerAnswer, m.op, inner_answer_ok(m)),
                    M::Deep(protocol::Deep::AvailableMessages::Inner(protocol::Deep::Inner::AvailableMessages::News(m))) => (K::InnerNews, m.bid, inner_news_ok(m)),
                    _ => (K::Other, 0, false),
                }
            }
        }
    };
}
