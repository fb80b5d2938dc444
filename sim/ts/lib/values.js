'use strict';
// Values of every declared type as a function of an id: the same numbers as sim/simworld/src/blob.rs gives.
const M = (1n << 64n) - 1n;
class Rng64 {
    constructor(seed) { this.s = (BigInt(seed) ^ 0x9E3779B97F4A7C15n) & M; this.next(); }
    static fork(seed, tag) {
        const r = new Rng64(((seed * 0xD1342543DE82EF95n) & M) ^ ((tag * 0xA24BAED4963EE407n) & M));
        r.next(); r.next();
        return r;
    }
    next() {
        this.s = (this.s + 0x9E3779B97F4A7C15n) & M;
        let z = this.s;
        z = ((z ^ (z >> 30n)) * 0xBF58476D1CE4E5B9n) & M;
        z = ((z ^ (z >> 27n)) * 0x94D049BB133111EBn) & M;
        return z ^ (z >> 31n);
    }
    below(n) { return n === 0 ? 0 : Number(this.next() % BigInt(n)); }
    pick(a) { return a[this.below(a.length)]; }
}

const view = new DataView(new ArrayBuffer(8));
const f32of = (bits) => { view.setUint32(0, bits >>> 0); return view.getFloat32(0); };
const f64of = (bits) => { view.setBigUint64(0, bits); return view.getFloat64(0); };
function int(r) {
    switch (r.below(8)) {
        case 0: return 0n;
        case 1: return M;
        case 2: return 1n;
        case 3: return 1n << BigInt(r.below(64));
        case 4: return ((1n << BigInt(r.below(64))) - 1n) & M;
        case 5: return 0x8000000000000000n;
        case 6: return BigInt(r.below(300));
        default: return r.next();
    }
}
const U = (n) => (r) => Number(BigInt.asUintN(n, int(r)));
const I = (n) => (r) => Number(BigInt.asIntN(n, int(r)));
const i64 = (r) => BigInt.asIntN(64, int(r));
function f32(r) {
    const low = (x) => Number(x & 0xffffffffn);
    switch (r.below(10)) {
        case 0: return f32of(0x7f800000);
        case 1: return f32of(0xff800000);
        case 2: r.next(); return NaN;
        case 3: return -0;
        case 4: return 0;
        case 5: return f32of(1);
        case 6: return f32of(0x7f7fffff);
        case 7: return f32of(0x00800000);
        case 8: return 1.5;
        default: { const v = low(r.next()); return (v & 0x7f800000) === 0x7f800000 ? f32of((v | 0x00400000) >>> 0) : f32of(v); }
    }
}
function f64(r) {
    switch (r.below(10)) {
        case 0: return Infinity;
        case 1: return -Infinity;
        case 2: r.next(); return NaN;
        case 3: return -0;
        case 4: return 0;
        case 5: return f64of(1n);
        case 6: return Number.MAX_VALUE;
        case 7: return 2.2250738585072014e-308;
        case 8: return 1.5;
        default: { const v = r.next(); return (v & 0x7ff0000000000000n) === 0x7ff0000000000000n ? f64of(v | 0x0008000000000000n) : f64of(v); }
    }
}
function size(r, big) {
    const k = r.below(12);
    if (k <= 1) return 0;
    if (k === 2) return 1;
    if (k === 3) return 2;
    if (k === 4) return big > 0 ? 254 + r.below(4) : 3;
    if (k === 5) return big > 0 ? 127 + r.below(3) : 4;
    if (k === 6 && big > 1 && r.below(6) === 0) return 65533 + r.below(6);
    if (k === 7 && big > 1 && r.below(12) === 0) return 70000 + r.below(70000);
    return r.below(12);
}
const SPEC1 = ['\u{0}', '\u{7f}', '"', '\\', '\n', ' ', 'Z'];
const SPEC2 = ['\u{e9}', '\u{20ac}', '\u{1f980}', 'x', '\u{0301}', '\u{feff}'];
const bytes = (c) => { const p = c.codePointAt(0); return p < 0x80 ? 1 : p < 0x800 ? 2 : p < 0x10000 ? 3 : 4; };
function text(r, big) {
    const n = size(r, big);
    const mode = r.below(4);
    let s = '', len = 0;
    while (len < n) {
        let c;
        if (mode === 0) c = String.fromCharCode(97 + r.below(26));
        else if (mode === 1) c = r.pick(SPEC1);
        else if (mode === 2) c = r.pick(SPEC2);
        else { const p = r.below(0x110000); c = p >= 0xd800 && p < 0xe000 ? '?' : String.fromCodePoint(p); }
        s += c;
        len += bytes(c);
    }
    return s;
}
function vec(r, big, f) {
    const n = size(r, big), out = [];
    for (let i = 0; i < n; i++) out.push(f(r));
    return out;
}
function strs(r, big) {
    const n = big > 0 && r.below(12) === 0 ? 250 + r.below(12) : r.below(5), out = [];
    for (let i = 0; i < n; i++) out.push(text(r, n < 5 ? big : 0));
    return out;
}
const bool = (r) => r.below(2) === 1;
const one = (b) => Math.min(b, 1);
const leaf = (r, big) => { const name = text(r, big); const v = I(16)(r); return { name, v, b: bool(r) }; };
function flag(r, big) {
    const s = text(r, big);
    switch (r.below(3)) { case 0: return { Off: s }; case 1: return { On: s }; default: return { Auto: s }; }
}
function mode(r, big) {
    return r.below(2) === 0 ? { Low: U(8)(r) } : { High: text(r, big) };
}
function spot(r, big) {
    const x = I(32)(r), m = mode(r, big);
    return { x, mode: m, seen: few(r, 0, mode) };
}
function kind(r, big) {
    switch (r.below(9)) {
        case 0: return { Text: text(r, big) };
        case 1: return { Byte: U(8)(r) };
        case 2: return { Big: int(r) };
        case 3: return { Small: I(32)(r) };
        case 4: return { Real: f64(r) };
        case 5: return { List: vec(r, one(big), U(16)) };
        case 6: return { One: leaf(r, one(big)) };
        case 7: return { Spot: spot(r, one(big)) };
        default: return { Names: strs(r, one(big)) };
    }
}
function few(r, big, f) {
    const n = big > 0 && r.below(20) === 0 ? 250 + r.below(12) : r.below(4), out = [];
    for (let i = 0; i < n; i++) out.push(f(r, n < 4 ? one(big) : 0));
    return out;
}
const opt = (r, f) => (r.below(2) === 0 ? undefined : f(r));

class Values {
    constructor(salt) { this.salt = BigInt(salt); }
    fork(id, tag) { return Rng64.fork((BigInt(id) ^ (this.salt << 20n)) & M, tag); }
    blob(id, big) {
        const r = this.fork(id, 0xB10Bn), m = one(big);
        return {
            a8: U(8)(r), a16: U(16)(r), a32: U(32)(r), a64: int(r),
            b8: I(8)(r), b16: I(16)(r), b32: I(32)(r), b64: i64(r),
            f: f32(r), d: f64(r), t: bool(r), s: text(r, big),
            v8: vec(r, big, U(8)), v16: vec(r, m, U(16)), v32: vec(r, m, U(32)), v64: vec(r, m, int),
            w8: vec(r, m, I(8)), w16: vec(r, m, I(16)), w32: vec(r, m, I(32)), w64: vec(r, m, i64),
            vf: vec(r, m, f32), vd: vec(r, m, f64), vt: vec(r, m, bool), vs: strs(r, big),
            leaf: leaf(r, m), leaves: few(r, big, leaf),
            flag: flag(r, m), kind: kind(r, big),
            os: opt(r, (r) => text(r, big)), on: opt(r, int), od: opt(r, f64), ob: opt(r, bool),
            o8: opt(r, (r) => vec(r, m, U(8))), ov: opt(r, (r) => strs(r, m)),
            oleaf: opt(r, (r) => leaf(r, m)), okind: opt(r, (r) => kind(r, m)), oflag: opt(r, (r) => flag(r, m)),
            kinds: few(r, big, kind), flags: few(r, big, flag),
            spot: spot(r, m), spots: few(r, big, spot), mode: mode(r, big), modes: few(r, big, mode),
            omode: opt(r, (r) => mode(r, m)), ospot: opt(r, (r) => spot(r, m)),
            ospots: opt(r, (r) => few(r, big, spot)), okinds: opt(r, (r) => few(r, big, kind)),
        };
    }
    text(id) { id = BigInt(id); return text(this.fork(id, 0x7e87n), 1) + '#' + id; }
    data(id) { const r = this.fork(id, 0xda7an), n = size(r, 1), out = []; for (let i = 0; i < n; i++) out.push(Number(r.next() & 0xffn)); return out; }
    kind(id) { return kind(this.fork(id, 0x419dn), 0); }
    num(id) { return int(this.fork(id, 0x4444n)); }
    u32(id) { return Number(this.num(id) & 0xffffffffn); }

    /// Content of a message of the kind `k` with the id (op or bid) `id`; big: size of values.
    content(k, id, op, big) {
        switch (k) {
            case 'Echo': return { op: id, blob: this.blob(id, big) };
            case 'Reply': return { op: id, blob: this.blob(id ^ 0x5500000000n, big) };
            case 'Multi': return { op: id, text: this.text(id) };
            case 'RespA': return { op: id, text: this.text(id ^ 0xA100000000n) };
            case 'RespB': return { op: id, code: this.u32(id), data: this.data(id) };
            case 'RespC': return { op: id };
            case 'Same': return { op: id, text: this.text(id), n: this.u32(id) };
            case 'SameAnswer': { const x = id ^ 0x5A00000000n; return { op: id, text: this.text(x), n: this.u32(x) }; }
            case 'Quick': return { op: id };
            case 'Errors.Fail': return { op: id, error: this.text(id ^ 0xFA00000000n), code: this.u32(id ^ 0xFAn) };
            case 'Deep.Refuse': return { op: id, error: this.text(id ^ 0xFB00000000n) };
            case 'Deep.Ask': return { op: id, text: this.text(id) };
            case 'Deep.Answer': return { op: id, text: this.text(id ^ 0xA200000000n) };
            case 'Deep.Inner.Answer': return { op: id, v: BigInt.asIntN(64, this.num(id)) };
            case 'Note': return { bid: id, op, text: this.text(id) };
            case 'NoteB': return { bid: id, op, data: this.data(id) };
            case 'NoteC': return { bid: id, op, blob: this.blob(id, Number(id % 2n)) };
            case 'Deep.News': return { bid: id, op, text: this.text(id) };
            case 'Deep.Inner.News': return { bid: id, op, kind: this.kind(id) };
            case 'Tick': return { op: id, text: this.text(id) };
            case 'Deep.Pulse': return { op: id, text: this.text(id) };
            case 'Ping': return { op: id, mode: this.u32(id) };
            case 'Deep.Mark': return { op: id, text: this.text(id) };
        }
        throw new Error('no content for ' + k);
    }
}

/// The class of a message in a protocol namespace.
function type(P, k) {
    return k.split('.').reduce((at, x) => at[x], P);
}
/// Instance of the generated class (of requests: of the class `C`).
function make(P, k, plain, C) {
    const spot = (x) => new P.Vals.Spot(x);
    const kind = (x) => x.One !== undefined ? { One: new P.Leaf(x.One) } : x.Spot !== undefined ? { Spot: spot(x.Spot) } : x;
    if (plain.kind !== undefined) plain = { ...plain, kind: kind(plain.kind) };
    if (plain.blob !== undefined) {
        const b = { ...plain.blob };
        b.kind = kind(b.kind);
        b.okind = b.okind === undefined ? undefined : kind(b.okind);
        b.kinds = b.kinds.map(kind);
        b.spot = spot(b.spot);
        b.spots = b.spots.map(spot);
        b.ospot = b.ospot === undefined ? undefined : spot(b.ospot);
        b.ospots = b.ospots === undefined ? undefined : b.ospots.map(spot);
        b.okinds = b.okinds === undefined ? undefined : b.okinds.map(kind);
        b.leaf = new P.Leaf(b.leaf);
        b.leaves = b.leaves.map((x) => new P.Leaf(x));
        b.oleaf = b.oleaf === undefined ? undefined : new P.Leaf(b.oleaf);
        plain = { ...plain, blob: new P.Blob(b) };
    }
    return C === undefined ? new (type(P, k))(plain) : C(plain);
}

/// Compares what the application got with the plain value. Returns a path of the first difference.
/// Known finding: an optional text or array that is present and empty reads as an absent one.
function differs(got, want, counts, path = '', keys) {
    if (want === null || typeof want !== 'object') {
        if (typeof got === 'number' && typeof want === 'number') return Object.is(got, want) ? undefined : path;
        return got === want ? undefined : path;
    }
    if (Array.isArray(want)) {
        if (!Array.isArray(got) || got.length !== want.length) return path + '.length';
        for (let i = 0; i < want.length; i++) {
            const d = differs(got[i], want[i], counts, path + '[' + i + ']');
            if (d !== undefined) return d;
        }
        return undefined;
    }
    if (got === null || typeof got !== 'object') return path;
    for (const k of Object.keys(want)) {
        if (got[k] === undefined && ['os', 'o8', 'ov', 'ospots', 'okinds'].includes(k) && want[k] !== undefined && want[k].length === 0) {
            counts.empty = (counts.empty || 0) + 1;
            continue;
        }
        const d = differs(got[k], want[k], counts, path + '.' + k);
        if (d !== undefined) return d;
    }
    // members of an option that has not been chosen
    for (const k of keys || Object.keys(got)) {
        if (!k.startsWith('_') && typeof got[k] !== 'function' && got[k] !== undefined && !(k in want)) return path + '.' + k;
    }
    return undefined;
}

module.exports = { Rng64, Values, type, make, differs, text, size };
