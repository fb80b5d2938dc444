'use strict';
// A packing middleware as an application could have one: what it writes can be read with the number and sequence it was given only.
const wire = require('./wire');

function keystream(id, seq) {
    let x = (Math.imul(id, 0x9E3779B1) ^ Math.imul(seq + 1, 0x85EBCA77)) >>> 0;
    return () => { x ^= x << 13; x >>>= 0; x ^= x >>> 17; x ^= x << 5; x >>>= 0; return x & 0xff; };
}
function sum(id, seq, b) {
    let h = (id ^ Math.imul(seq, 0x01000193)) >>> 0;
    for (let i = 0; i < b.length; i++) h = Math.imul(h ^ b[i], 0x01000193) >>> 0;
    return h;
}
function seal(id, seq, b) {
    const out = Buffer.alloc(5 + b.length), next = keystream(id, seq);
    out[0] = 0xA5;
    out.writeUInt32LE(sum(id, seq, b), 1);
    for (let i = 0; i < b.length; i++) out[5 + i] = b[i] ^ next();
    return out;
}
function open(id, seq, b) {
    if (b.length < 5 || b[0] !== 0xA5) return undefined;
    const out = Buffer.alloc(b.length - 5), next = keystream(id, seq);
    for (let i = 0; i < out.length; i++) out[i] = b[5 + i] ^ next();
    return sum(id, seq, out) === b.readUInt32LE(1) ? out : undefined;
}

/// Installs a middleware in one of the two programs. `plain`: the kind of buffer it gives back.
function install(sim, P, side, plain) {
    const form = (b) => (plain ? b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength) : b);
    const read = new Map();
    sim.wares[side] = read;
    return new (class extends P.PackingMiddleware {
        encode(buffer, id, seq) {
            const b = wire.bytes(buffer);
            sim.w.note('encode ' + side + ' ' + id + ' ' + seq);
            sim.decided('T11', false);
            if (!sim.net.names.has(id)) sim.w.violate(['T11'], 'ware-id', 'the middleware of the ' + side + ' is to encode a message of the unknown number ' + id);
            if (b.length > 4 && b[0] === 0xA5 && open(id, seq, b) !== undefined) sim.w.violate(['T11'], 'ware-twice', 'the middleware of the ' + side + ' is to encode a message that it has encoded');
            const s = seal(id, seq, b);
            sim.sealed.add(id + ':' + seq + ':' + sum(id, seq, s));
            return form(s);
        }
        decode(buffer, id, seq) {
            const b = wire.bytes(buffer);
            sim.decided('T11', true);
            const k = id + ':' + seq + ':' + sum(id, seq, b), n = (read.get(k) || 0) + 1;
            read.set(k, n);
            if (n > (sim.given[side].get(k) || 0)) sim.w.violate(['T11'], 'ware-decode', 'the middleware of the ' + side + ' is to decode what has not been received, or again (message ' + id + ', sequence ' + seq + ')');
            const out = open(id, seq, b);
            return out === undefined ? new Error('sealed by somebody else') : form(out);
        }
    })();
}
module.exports = { seal, open, sum, install };
