'use strict';
// Peers of both languages in one execution: a producer in Rust or TypeScript, consumers in both.
const { Sim, CASTS, opOf, real, short } = require('./sim');
const { Peer } = require('./peer');
const { REQS, BEACONS } = require('./plan');
const { Rng } = require('./world');
const wire = require('./wire');

const PROFILES = ['x-calm', 'x-busy', 'x-loss', 'x-values', 'x-refuse'];
function generate(seed, profile) {
    const r = new Rng(BigInt(seed) * 3n + 2n);
    const set = {
        delay: r.pick([0, 1, 5, 30]), latency: r.pick([0, 0, 3, 20]), cut: r.pick(['whole', 'frame', 'any', 'any', 'edge', 'bytes']),
        hold: r.pick([0, 1, 20, 80]), plainBuffers: r.chance(0.5), big: r.pick([0, 0, 1]), salt: r.u32(),
        err: 0, ident: r.below(2), assign: r.pick([0, 0.5, 1]), failDisconnect: 0, beaconFail: r.pick([0, 0.2]), global: false,
        horizon: r.pick([20, 100, 300]), handlerFail: 0, deferred: r.chance(0.5), reconnect: r.pick([0, 1, 20]), mixed: true,
        producer: r.pick(['rust', 'ts']), failText: r.below(4),
    };
    if (profile === 'x-values') { set.big = r.pick([1, 2, 2]); set.cut = r.pick(['whole', 'any', 'edge']); }
    if (set.big === 2) set.delay = Math.min(set.delay, 1);
    const ops = [];
    const when = () => r.below(set.horizon);
    const n = profile === 'x-busy' ? 2 + r.below(4) : 1 + r.below(3);
    const other = set.producer === 'rust' ? 'ts' : 'rust';
    let uid = 1;
    for (let c = 0; c < n; c++) {
        ops.push({ k: 'consumer', c, at: r.chance(0.6) ? 0 : when(), lang: c === 0 || r.chance(0.6) ? other : set.producer });
        const calls = profile === 'x-busy' ? 4 + r.below(25) : profile === 'x-values' ? 2 + r.below(5) : r.below(10);
        const burst = r.chance(0.4) ? when() : undefined;
        for (let i = 0; i < calls; i++) {
            const kind = r.pick(profile === 'x-values' ? ['Echo', 'Echo', 'Quick', 'Multi', 'Deep.Ask'] : [...REQS, ...REQS, ...BEACONS]);
            ops.push({ k: 'call', c, id: uid++, kind, at: burst !== undefined && r.chance(0.7) ? burst : when(), ready: true });
        }
        if (profile === 'x-loss') {
            for (let i = r.below(3); i > 0; i--) ops.push({ k: 'drop', c, at: when(), clean: r.chance(0.3) });
            for (let i = r.below(3); i > 0; i--) ops.push({ k: 'again', c, at: when() + r.below(60) });
            if (r.chance(0.15)) ops.push({ k: 'destroy', c, at: when() });
            if (r.chance(0.2)) ops.push({ k: 'kick', c, at: when() });
        }
        if (profile === 'x-refuse' && r.chance(0.6)) ops.push({ k: 'tamper', c, at: 0, hash: r.below(2), pos: r.below(64) });
    }
    for (let i = r.below(profile === 'x-busy' ? 8 : 3); i > 0; i--) ops.push({ k: 'event', kind: r.pick(['Tick', 'Deep.Pulse']), at: when(), id: uid++ });
    return { seed, profile, set, ops };
}

const text = (h) => Buffer.from(h, 'hex').toString();
class Mix extends Sim {
    key(n) { return this.plainKey(n); }
    constructor(plan, trees) {
        super(plan, trees);
        const violate = this.w.violate.bind(this.w);
        this.w.violate = (props, cls, msg) => { if (props.some((p) => p <= 'T04')) violate(['T04'], cls, msg); };
    }
    decided(p, hard) { super.decided('T04', hard); }
    uuid() {
        const h = () => this.w.rng.u32().toString(16).padStart(8, '0');
        const a = h(), b = h(), c = h(), d = h();
        return a + '-' + b.slice(0, 4) + '-4' + b.slice(5) + '-8' + c.slice(1, 4) + '-' + c.slice(4) + d;
    }
    start() {
        const s = this.set;
        this.peer = new Peer(this.w, this.trees.peer, [BigInt.asUintN(63, BigInt(this.plan.seed)), s.salt, s.big, s.hold, Math.round(s.assign * 1000), Math.round(s.beaconFail * 1000)], (a) => this.said(a));
        super.start();
    }
    async execute() {
        try { await super.execute(); } finally { this.peer && this.peer.close(); }
    }
    produce(prod, context) {
        if (this.set.producer === 'ts') return super.produce(prod, context);
        const { peer } = this, server = this.net.server;
        server.getEvents = () => ({ connected: { emit: (u) => peer.cmd('up ' + u) }, disconnected: { emit: (u) => peer.cmd('down ' + u) } });
        server.received = (conn, chunk) => peer.cmd('data ' + conn.uuid + ' ' + chunk.toString('hex'));
        this.producer = { destroy: async () => { this.stopping = true; peer.cmd('stop'); }, disconnect: async (u) => peer.cmd('kick ' + u) };
        peer.cmd('producer ' + this.set.ident + ' ' + this.set.err);
    }
    // ---- the plan
    consumer(op) {
        if (op.lang !== 'rust') return super.consumer(op);
        const net = this.net, me = { n: op.c, rust: true, ready: false, session: 0, queue: [], objs: new Map(), destroyed: false, rx: [] };
        const sim = this;
        me.client = {
            me, conn: undefined,
            data(conn, chunk) { conn.left || sim.peer.cmd('cdata ' + op.c + ' ' + chunk.toString('hex')); },
            opened(conn) { conn.left || sim.peer.cmd('cup ' + op.c + ' ' + conn.uuid); },
            gone(conn) { sim.clientClosed(this, conn); conn.left || sim.peer.cmd('cdown ' + op.c); },
            send(b) {
                const c = this.conn;
                if (c === undefined || c.cli !== 'open') { sim.w.fault('send to a closed connection'); return sim.clientSent(this, c, new (require('./net').Pipe)(net, c, 'x').write(b), 'lost'); }
                const metas = net.tamper(c, b);
                sim.w.note('csend ' + c.n + ' ' + metas.map((m) => m.id + ':' + m.seq + ':' + m.body.length).join(','));
                sim.clientSent(this, c, metas, c.c2s.dead ? 'lost' : 'ok');
            },
        };
        this.consumers.set(op.c, me);
        this.peer.cmd('consumer ' + op.c + ' ' + this.set.reconnect);
    }
    step(op) {
        const c = op.c === undefined ? undefined : this.consumers.get(op.c);
        if (c !== undefined && c.rust) {
            if (op.k === 'again') return;
            if (op.k === 'destroy') {
                if (c.asked) return;
                this.w.fault('consumer destroyed');
                c.asked = true;
                if (c.client.conn) c.client.conn.clean = false;
                this.peer.cmd('destroy ' + op.c);
                return;
            }
            if (op.k === 'tamper' && c.client.conn === undefined) { this.pendingTamper = this.pendingTamper || new Map(); this.pendingTamper.set(op.c, op); return; }
        }
        return super.step(op);
    }
    call(me, op) {
        if (!me.rust) return super.call(me, op);
        const id = opOf(op.id);
        this.recs.push({ me, op: id, kind: op.kind, beacon: BEACONS.includes(op.kind), conn: me.client.conn, settled: false, sent: 'no', called: [], killed: false });
        this.w.note('call ' + op.id + ' ' + op.kind);
        this.peer.cmd('call ' + me.n + ' ' + op.kind + ' ' + id);
    }
    event(op, ...x) {
        if (x.length > 0 || this.set.producer === 'ts') return super.event(op, ...x);
        const id = opOf(op.id);
        this.w.note('event ' + op.id);
        this.runs.set(id, { kind: op.kind, op: id, want: false, casts: [] });
        this.peer.cmd('event ' + op.kind + ' ' + id);
    }
    // ---- what the Rust peers tell
    key4(id, uuid, what) {
        const conn = this.net.byUuid.get(uuid);
        if (id === '-' || conn === undefined) return;
        const k = this.key(conn.peer.me.n), [name, rank, note, tag] = id.split('|');
        const got = { name: text(name), rank: Number(rank), note: note === '-' ? undefined : text(note), tag: tag === '-' ? undefined : BigInt(tag) };
        for (const f of Object.keys(k)) if (got[f] !== k[f]) this.w.violate(['T04'], 'key', what + ' knows consumer ' + conn.peer.me.n + ' by another value of ' + f);
    }
    said(a) {
        const { w, net } = this;
        const me = () => this.consumers.get(Number(a[1]));
        w.note('rust ' + (a[0].endsWith('send') ? a[0] + ' ' + a[1] : a.join(' ').slice(0, 300)));
        switch (a[0]) {
            case 'destroying': { const m = me(); m.destroyed = true; if (m.client.conn) m.client.conn.clean = false; return; }
            case 'nodestroy': me().asked = false; me().destroyed = false; return;
            case 'listening': case 'prodready': case 'offline': case 'proderror': return;
            case 'ssend': net.server.send(Buffer.from(a[2], 'hex'), a[1]).catch(() => undefined); return;
            case 'sdisc': net.server.disconnect(a[1]).catch(() => undefined); return;
            case 'cconnect': {
                const m = me();
                if (m.client.conn !== undefined) w.fault('reconnect');
                net.connect(m.client);
                const t = this.pendingTamper && this.pendingTamper.get(m.n);
                if (t) this.tamper(m.client.conn, t);
                return;
            }
            case 'csend': return me().client.send(Buffer.from(a[2], 'hex'));
            case 'cclose': { const c = me().client.conn; if (c !== undefined && c.cli !== 'closed') { c.clean = false; c.left = true; c.drop(true); } return; }
            case 'ready': return this.became(me(), me().client.conn.uuid);
            case 'connected': {
                const c = net.byUuid.get(a[1]);
                c.told = (c.told || 0) + 1;
                if (c.told > 1) w.violate(['T04'], 'connected-twice', 'the application is told twice of ' + a[1]);
                return this.key4(a[2], a[1], 'the handler of new consumers');
            }
            case 'disconnected': return this.key4(a[2], a[1], 'the handler of leaving consumers');
            case 'assigned': net.byUuid.get(a[1]).assigned = true; return;
            case 'handle': {
                const op = BigInt(a[2]);
                this.invokes(a[1], op, a[3], () => (a[4] === '1' ? undefined : 'its content'));
                if (a[5] === '-') w.violate(['T04'], 'key', 'the handler of ' + a[1] + ' does not know the key of ' + a[3]);
                return this.key4(a[5], a[3], 'the handler of ' + a[1]);
            }
            case 'done': {
                const run = this.runs.get(BigInt(a[2]));
                if (run === undefined) return;
                run.done = true; run.doneAt = w.now;
                if (BEACONS.includes(run.kind)) run.fail = a[4] === '-' ? undefined : text(a[4]);
                else if (REQS.includes(run.kind)) {
                    const flow = this.FLOW[run.kind], o = Number(a[3]);
                    const [k, cb] = o === 255 ? [flow.err, 'err'] : flow.cases[Math.min(o, flow.cases.length - 1)];
                    run.answer = k; run.cb = cb;
                }
                return;
            }
            case 'cast': {
                const bid = BigInt(a[2]), uuids = a[4] === '' ? [] : a[4].split(',');
                this.casts.set(bid, { k: a[1], bid, op: BigInt(a[3]), uuids, sent: new Map(), at: w.now });
                return;
            }
            case 'event': {
                const run = this.runs.get(BigInt(a[2]));
                if (run === undefined || run.kind !== a[1] || run.seen) { w.violate(['T04'], 'event-wrong', 'handler of ' + a[1] + ' runs for an event that has not been emitted, or again'); return; }
                run.seen = true;
                if (a[3] !== '1') w.violate(['T04'], 'event-content', a[1] + ' reaches its handler with other content');
                return;
            }
            case 'emitted': { const run = this.runs.get(BigInt(a[1])); if (a[2] === '1') run.want = true; return; }
            case 'heard': return this.heardRust(me(), a[2], BigInt(a[3]), a[4] === '1');
            case 'nocall': { const rec = this.recs.find((x) => x.op === BigInt(a[2])); rec.settled = true; rec.settledAt = w.now; return; }
            case 'ret': return this.returned(this.recs.find((x) => x.op === BigInt(a[2])), a.slice(3));
            case 'cerror': if (['Buffer', 'Unknown'].includes(a[2]) && me().client.conn.cli === 'open') w.violate(['T04'], 'unreadable', 'consumer ' + a[1] + ' cannot read what the producer sends: ' + text(a[3])); return;
            case 'cshutdown': {
                const m = me();
                m.ended = true; m.ready = false;
                return;
            }
            case 'prodend': if (!this.stopping) w.violate(['T04'], 'producer-ends', 'the producer ends: ' + text(a[2])); return;
            case 'died': w.violate(['T04'], 'died', 'the process running the Rust peers dies'); return;
            case 'panic': w.violate(['T04'], 'panic', 'Rust panics: ' + text(a[2])); return;
            default: throw new Error('said ' + a.join(' ').slice(0, 200));
        }
    }
    heardRust(me, k, bid, intact) {
        const { w } = this;
        const conns = this.net.conns.filter((c) => c.peer === me.client && c.rx.length > 0);
        const conn = conns.find((c) => c.rx[0].bid === bid) || conns.find((c) => c.cli === 'open');
        this.decided('T04', conn === undefined || !conn.clean);
        if (conn === undefined) { w.violate(['T04'], 'heard-more', 'consumer ' + me.n + ' is told of a ' + k + ' ' + short(bid) + ' that it has not been sent, or again'); return; }
        const x = conn.rx.shift();
        if (x.k !== k || x.bid !== bid) { w.violate(['T04'], 'heard-other', 'consumer ' + me.n + ' is told of ' + k + ' ' + short(bid) + ', the next one sent to it is ' + x.k + ' ' + short(x.bid)); return; }
        if (!intact) w.violate(['T04'], 'heard-content', k + ' ' + short(bid) + ' is received with other content');
    }
    returned(rec, r) {
        const { w } = this;
        rec.settled = true; rec.settledAt = w.now;
        const f = rec.conn === undefined ? undefined : rec.conn.frames.find((x) => x.op === rec.op && x.name === rec.kind && x.seq === rec.seq);
        const run = f && f.run;
        this.decided('T04', rec.conn !== undefined && !rec.conn.clean || this.recs.some((x) => x !== rec && !x.settled));
        const what = rec.kind + ' ' + short(rec.op);
        if (r[0] === 'answer' || r[0] === 'confirmed' || r[0] === 'failed') {
            if (run === undefined || !run.done) { w.violate(['T04'], 'answer-invented', what + ' is answered, its handler has not ' + (run === undefined ? 'run' : 'ended')); return; }
            if (r[0] === 'failed') { if (!rec.beacon || text(r[1]) !== run.fail) w.violate(['T04'], 'beacon-error', 'the failure of ' + what + ' is reported as ' + text(r[1]) + ', its handler ended with ' + run.fail); return; }
            if (r[0] === 'confirmed') { if (!rec.beacon || run.fail !== undefined) w.violate(['T04'], 'beacon-failed', what + ' is confirmed, its handler failed'); return; }
            if (rec.beacon || real(run.answer) !== r[1] || BigInt(r[2]) !== rec.op) { w.violate(['T04'], 'answer-kind', what + ' gets ' + r[1] + ' ' + short(BigInt(r[2])) + ', its handler gave ' + run.answer); return; }
            if (r[3] !== '1') w.violate(['T04'], 'answer-content', 'the answer to ' + what + ' has other content');
            return;
        }
        const why = rec.me.destroyed || rec.conn === undefined || rec.conn.cli === 'closed';
        if (!why) w.violate(['T04'], 'rejected', what + ' ends with ' + r[0] + ' ' + (r[1] ? text(r[1]) : '') + (rec.answered !== undefined ? ', though its answer has been received' : ', though its session goes on'));
    }
}
async function execute(plan, trees, log) {
    const s = new Mix(plan, trees);
    if (log) s.w.log = log;
    await s.execute();
    return s;
}
module.exports = { execute, generate, PROFILES };
