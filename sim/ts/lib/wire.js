'use strict';
// Wire format, written from the protocol's description: header, then (for structs) id, rank, length, value of each field.
const HEAD = 26;
const OP = 0x5E0A000000000000n, BID = 0xB1D0000000000000n, TAG = 0xffff000000000000n;
function bytes(b) {
    if (Buffer.isBuffer(b)) return Buffer.from(b);
    if (b instanceof ArrayBuffer || b instanceof SharedArrayBuffer) return Buffer.from(Buffer.from(b));
    if (ArrayBuffer.isView(b)) return Buffer.from(Buffer.from(b.buffer, b.byteOffset, b.byteLength));
    throw new Error('transport has been given something that is no buffer');
}
function head(b) {
    return { id: b.readUInt32LE(0), sig: b.readUInt16LE(4), seq: b.readUInt32LE(6), ts: b.readBigUInt64LE(10), len: Number(b.readBigUInt64LE(18)) };
}
function frame(id, sig, seq, body) {
    const h = Buffer.alloc(HEAD);
    h.writeUInt32LE(id, 0); h.writeUInt16LE(sig, 4); h.writeUInt32LE(seq >>> 0, 6);
    h.writeBigUInt64LE(1700000000000n, 10); h.writeBigUInt64LE(BigInt(body.length), 18);
    return Buffer.concat([h, body]);
}
/// Fields of a struct's body, undefined if it is none.
function fields(b) {
    const out = [];
    let p = 0;
    while (p < b.length) {
        if (p + 3 > b.length) return undefined;
        const id = b.readUInt16LE(p), rank = b[p + 2];
        p += 3;
        let len;
        if (rank === 8 && p + 1 <= b.length) { len = b[p]; p += 1; }
        else if (rank === 16 && p + 2 <= b.length) { len = b.readUInt16LE(p); p += 2; }
        else if (rank === 32 && p + 4 <= b.length) { len = b.readUInt32LE(p); p += 4; }
        else if (rank === 64 && p + 8 <= b.length) { len = Number(b.readBigUInt64LE(p)); p += 8; }
        else return undefined;
        if (p + len > b.length) return undefined;
        out.push({ id, body: b.subarray(p, p + len) });
        p += len;
    }
    return out;
}
/// The ids a message carries: numbers of 8 bytes with a tag.
function marks(body) {
    const out = {};
    for (const f of fields(body) || []) {
        if (f.body.length !== 8) continue;
        const v = f.body.readBigUInt64LE(0);
        if ((v & TAG) === OP && out.op === undefined) out.op = v;
        if ((v & TAG) === BID && out.bid === undefined) out.bid = v;
    }
    return out;
}
module.exports = { HEAD, OP, BID, TAG, bytes, head, frame, fields, marks };
