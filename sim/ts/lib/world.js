'use strict';
// The simulator: seeded choices, virtual time, modules of the generated peers, transports.
const fs = require('fs'), path = require('path'), vm = require('vm'), Module = require('module');

const real = { setImmediate: global.setImmediate, Date: global.Date, random: Math.random, setTimeout: global.setTimeout };
const drain = () => new Promise((r) => real.setImmediate(r));

/// 32-bit generator (sfc32): every choice of an execution comes from here.
class Rng {
    constructor(seed) {
        let h = BigInt(seed) & 0xffffffffffffffffn;
        const mix = () => {
            h = (h + 0x9E3779B97F4A7C15n) & 0xffffffffffffffffn;
            let z = h;
            z = ((z ^ (z >> 30n)) * 0xBF58476D1CE4E5B9n) & 0xffffffffffffffffn;
            z = ((z ^ (z >> 27n)) * 0x94D049BB133111EBn) & 0xffffffffffffffffn;
            return Number((z ^ (z >> 31n)) & 0xffffffffn) | 0;
        };
        this.a = mix(); this.b = mix(); this.c = mix(); this.d = 1;
        for (let i = 0; i < 12; i++) this.u32();
    }
    u32() {
        const t = (((this.a + this.b) | 0) + this.d) | 0;
        this.d = (this.d + 1) | 0;
        this.a = this.b ^ (this.b >>> 9);
        this.b = (this.c + (this.c << 3)) | 0;
        this.c = ((this.c << 21) | (this.c >>> 11)) + t | 0;
        return t >>> 0;
    }
    below(n) { return n <= 1 ? 0 : this.u32() % n; }
    chance(p) { return this.u32() / 4294967296 < p; }
    pick(a) { return a[this.below(a.length)]; }
    /// mostly small, at most n
    skew(n) { return this.below(this.below(n + 1) + 1); }
}

/// Modules of a generated tree, compiled once, instantiated anew for every execution.
class Tree {
    constructor(root, stub) { this.root = root; this.stub = stub; this.fns = new Map(); }
    fn(file) {
        let f = this.fns.get(file);
        if (f === undefined) {
            const src = fs.readFileSync(file, 'utf8');
            f = vm.compileFunction(src, ['exports', 'require', 'module', '__filename', '__dirname', 'global'], { filename: file });
            this.fns.set(file, f);
        }
        return f;
    }
    instance(clibri) {
        const space = {}; // of its own, as a program has
        const cache = new Map();
        const load = (file) => {
            const known = cache.get(file);
            if (known !== undefined) return known.exports;
            const m = { exports: {} };
            cache.set(file, m);
            this.fn(file).call(m.exports, m.exports, (r) => {
                if (r === 'clibri') return clibri;
                if (!r.startsWith('.')) return require(r);
                const at = path.resolve(path.dirname(file), r);
                const found = [at + '.js', path.join(at, 'index.js')].find((x) => this.fns.has(x) || fs.existsSync(x));
                if (found === undefined) throw new Error('no module ' + r + ' for ' + file);
                return load(found);
            }, m, file, path.dirname(file), space);
            return m.exports;
        };
        return (rel) => load(path.join(this.root, rel));
    }
}

class Violation extends Error {
    constructor(props, cls, msg) { super(msg); this.props = props; this.cls = cls; }
}

const PROPS = ['T01', 'T02', 'T03', 'T04', 'T05', 'T06', 'T07', 'T08', 'T09', 'T10', 'T11', 'T12'];
const EPOCH = 1700000000000;
class World {
    constructor(seed) {
        this.rng = new Rng(seed);
        this.now = 0;
        this.heap = [];
        this.n = 0;
        this.hash = 0x811c9dc5;
        this.steps = 0;
        this.events = 0;
        this.violations = [];
        this.faults = {};
        this.crash = undefined;
        this.timers = new Map();
    }
    mix(s) {
        let h = this.hash;
        for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 0x01000193);
        this.hash = h >>> 0;
    }
    note(what) {
        this.events++;
        this.mix(what);
        if (this.log !== undefined) this.log.push(this.now + ' ' + what);
    }
    fault(kind) { this.faults[kind] = (this.faults[kind] || 0) + 1; }
    at(delay, label, fn) {
        const e = { t: this.now + Math.max(0, Math.floor(delay)), tie: this.rng.u32(), n: this.n++, label, fn, off: false };
        const h = this.heap;
        let i = h.push(e) - 1;
        while (i > 0) {
            const p = (i - 1) >> 1;
            if (!World.before(h[i], h[p])) break;
            [h[i], h[p]] = [h[p], h[i]];
            i = p;
        }
        return e;
    }
    static before(a, b) { return a.t !== b.t ? a.t < b.t : a.tie !== b.tie ? a.tie < b.tie : a.n < b.n; }
    pop() {
        const h = this.heap;
        if (h.length === 0) return undefined;
        const top = h[0], last = h.pop();
        if (h.length > 0) {
            h[0] = last;
            let i = 0;
            for (;;) {
                let m = i;
                for (const c of [2 * i + 1, 2 * i + 2]) if (c < h.length && World.before(h[c], h[m])) m = c;
                if (m === i) break;
                [h[i], h[m]] = [h[m], h[i]];
                i = m;
            }
        }
        return top;
    }
    violate(props, cls, msg) {
        this.violations.push(new Violation(props, cls, msg));
        this.note('violation ' + cls);
    }
    async run(limit) {
        for (;;) {
            const e = this.pop();
            if (e === undefined) return true;
            if (e.off) continue;
            if (++this.steps > limit) return false;
            this.now = e.t;
            this.note(e.label);
            try {
                e.fn();
            } catch (err) {
                this.crashed(err, e.label);
            }
            await drain();
        }
    }
    crashed(err, where) {
        if (this.crash === undefined) {
            this.crash = { where, message: err instanceof Error ? err.message + ' ' + (err.stack || '').split('\n').slice(1, 3).map((x) => x.trim().replace(/\(.*[/]gen/, '(')).join(' ') : String(err) };
            this.violate(PROPS, 'crash', 'exception reaches the transport or nobody (' + where + '): ' + this.crash.message);
        }
    }
    install() {
        const w = this;
        global.setTimeout = (f, d, ...a) => { const id = ++w.n; w.timers.set(id, w.at(d || 0, 'timer', () => { w.timers.delete(id); f(...a); })); return id; };
        global.clearTimeout = (id) => { const e = w.timers.get(id); if (e) e.off = true; w.timers.delete(id); };
        global.setInterval = (f, d, ...a) => { const id = ++w.n; const go = () => w.timers.set(id, w.at(d || 1, 'interval', () => { f(...a); w.timers.has(id) && go(); })); go(); return id; };
        global.clearInterval = global.clearTimeout;
        global.setImmediate = (f, ...a) => global.setTimeout(f, 0, ...a);
        global.clearImmediate = global.clearTimeout;
        Math.random = () => w.rng.u32() / 4294967296;
        global.Date = class extends real.Date {
            constructor(...a) { if (a.length === 0) super(EPOCH + w.now); else super(...a); }
            static now() { return EPOCH + w.now; }
        };
    }
    static uninstall() { global.Date = real.Date; Math.random = real.random; global.setTimeout = real.setTimeout; global.setImmediate = real.setImmediate; }
}

module.exports = { PROPS, Rng, Tree, World, Violation, real, drain };
