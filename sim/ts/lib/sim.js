'use strict';
// One execution: generated TypeScript producer and consumers, raw clients, faults; and what has to hold.
const path = require('path');
const { Rng, Tree, World, PROPS, drain } = require('./world');
const wire = require('./wire'), ware = require('./ware');
const { Net } = require('./net');
const { Values, type, make, differs } = require('./values');
const { REQS, BEACONS } = require('./plan');

const CLASS = { 'Echo': 'Echo', 'Multi': 'Multi', 'Same': 'Same', 'Quick': 'Quick', 'Deep.Ask': 'DeepAsk', 'Ping': 'BeaconPing', 'Deep.Mark': 'BeaconDeepMark' };
const APP = [...REQS, ...BEACONS];
const ANSWERS = new Set(['Reply', 'RespA', 'RespB', 'RespC', 'Same', 'Deep.Answer', 'Deep.Inner.Answer', 'Errors.Fail', 'Deep.Refuse']);
const CASTS = ['Note', 'NoteB', 'NoteC', 'Deep.News', 'Deep.Inner.News'];
const SERVICE = ['SelfKeyResponse', 'HashRequest', 'HashResponse', 'BeaconConfirmation', 'ConnectConfirmationBeacon'];
const ALL = ['Keys.Own', 'Keys.Assigned', 'Echo', 'Reply', 'Multi', 'RespA', 'RespB', 'RespC', 'Same', 'Quick', 'Errors.Fail', ...CASTS, 'Deep.Ask', 'Deep.Answer', 'Deep.Refuse', 'Deep.Pulse', 'Deep.Mark', 'Deep.Inner.Answer', 'Tick', 'Ping', 'Flag', 'Kind',
    ...SERVICE.map((x) => 'InternalServiceGroup.' + x)];
const opOf = (id) => wire.OP | BigInt(id);
const real = (k) => (k === 'SameAnswer' ? 'Same' : k);
const short = (x) => (typeof x === 'bigint' ? '#' + (x & ~wire.TAG) : String(x));

class Sim {
    constructor(plan, trees) {
        this.plan = plan; this.set = plan.set;
        this.w = new World(BigInt(plan.seed) * 7n + 5n);
        this.values = new Values(this.set.salt);
        this.counts = Object.fromEntries(PROPS.map((p) => [p, 0]));
        this.hard = { ...this.counts };
        this.known = {};
        this.life = { listen: undefined, ready: 0, shutdown: 0, errs: new Map() };
        this.consumers = new Map();
        this.raws = [];
        this.runs = new Map();   // op -> what its handler did
        this.outs = [];          // runs of handlers of any kind that broadcast
        this.casts = new Map();  // bid -> broadcast
        this.nbid = 0;
        this.recs = [];
        this.errors = [];
        this.trees = trees;
        const clibri = trees.clibri.instance({})('clibri/index.js');
        this.clibri = clibri;
        this.P = trees.prod.instance(clibri);
        this.C = trees.cons.instance(clibri);
    }
    uuid(n) { return 'uuid-' + n + '-' + (this.w.rng.u32() % 1000); }
    decided(p, hard) { this.counts[p]++; if (hard) this.hard[p]++; }
    big(op) { return this.set.big; }
    content(k, id, op) { return this.values.content(k, id, op, this.big(id)); }

    async execute() {
        const { w, set, plan } = this;
        global.SIM = this;
        w.install();
        const onReject = (e) => w.crashed(e, 'unhandled rejection');
        process.on('unhandledRejection', onReject);
        try {
            this.start();
            for (const op of plan.ops) w.at(op.at + 1, op.k, () => this.step(op));
            if (!(await w.run(200000))) w.violate(PROPS, 'endless', 'traffic does not come to an end');
            this.quiet();
            // the end: every session ends
            for (const c of this.net.conns) c.drop(true);
            await w.run(400000);
            this.end();
            for (const c of this.consumers.values()) c.destroyed || c.consumer === undefined || c.consumer.destroy().catch(() => undefined);
            this.over === undefined && this.producer.destroy().catch(() => undefined);
            await w.run(500000);
            this.ended();
        } finally {
            process.removeListener('unhandledRejection', onReject);
            World.uninstall();
            global.SIM = undefined;
        }
    }

    start() {
        const { w, set } = this;
        const prod = this.P('implementation/index.js'), context = this.P('context.js');
        this.PP = this.P('implementation/protocol/index.js');
        this.cons = this.C('index.js');
        this.CP = this.cons.Protocol;
        this.wares = {}; this.sealed = new Set(); this.given = { producer: new Map(), consumer: new Map() };
        if (set.middleware) {
            const violate = w.violate.bind(w);
            w.violate = (props, cls, msg) => violate(props.includes('T03') && !props.includes('T11') ? [...props, 'T11'] : props, cls, msg);
        }
        if (set.middleware) { ware.install(this, this.PP, 'producer', set.plainWare); ware.install(this, this.CP, 'consumer', set.plainWare); }
        // conclusion, callback, broadcasts (with a mark: optional) as the workflow declares them
        this.FLOW = this.trees.flow.flow; this.EVENTS = this.trees.flow.events;
        this.net = new Net(w, this.clibri, set, this);
        for (const k of ALL) this.net.names.set(type(this.PP, k).getId(), k);
        this.hashes = [prod.Producer.hash.PROTOCOL, prod.Producer.hash.WORKFLOW];
        this.produce(prod, context);
    }
    produce(prod, context) {
        const { w, set } = this;
        const { Options } = this.clibri;
        this.producer = new prod.Producer(this.net.server, new context.Context(), new Options({ consumerErrorHandelingStrategy: set.err, producerIndentificationStrategy: set.ident }));
        this.producer.listen().then(() => { this.life.listen = true; }, (e) => { this.life.listen = e; set.listenFail || w.crashed(e, 'listen'); });
    }

    // ---- the plan -------------------------------------------------------------------------------
    step(op) {
        const c = op.c === undefined ? undefined : this.consumers.get(op.c);
        switch (op.k) {
            case 'consumer': return this.consumer(op);
            case 'call':
                if (c === undefined || c.destroyed) return;
                if (op.ready && !c.ready) { c.queue.push(op); return; }
                return this.call(c, op);
            case 'drop': if (c && c.client.conn && !c.client.conn.closing) { this.w.fault('connection lost'); c.client.conn.clean = false; c.client.conn.drop(op.clean); } return;
            case 'again': if (c && !c.destroyed && c.client.conn.cli === 'closed') { this.w.fault('reconnect'); this.net.connect(c.client); } return;
            case 'fail': { const x = c && c.client.conn; if (x) { if (op.dir === 'c') x.failC = op.n; else x.failS = op.n; x.clean = false; } return; }
            case 'destroy': if (c && !c.destroyed) { this.w.fault('consumer destroyed'); c.destroyed = true; c.client.conn.clean = false; c.consumer.destroy().catch(() => undefined); } return;
            case 'kick': { const x = c && c.client.conn; if (x && x.srv === 'open') { x.clean = false; this.w.fault('producer disconnects'); this.kicking = true; this.producer.disconnect(x.uuid).catch(() => undefined); this.kicking = false; } return; }
            case 'skip': if (c && !c.destroyed && typeof c.consumer.getSequence === 'function') this.skip(c, op); return;
            case 'bad': if (c && !c.destroyed) this.inject(c, op); return;
            case 'tamper': { this.pendingTamper = this.pendingTamper || new Map(); this.pendingTamper.set(op.c, op); const x = c && c.client.conn; if (x) this.tamper(x, op); return; }
            case 'event': return this.event(op);
            case 'raw': return this.raw(op);
            case 'odd': return this.odd(op, c);
            case 'script': return this.script(op);
            case 'down': if (this.net.listening && !this.net.down) { this.w.fault('transport stops'); this.net.downed = true; this.net.goDown(() => { this.net.toldDown = true; }); } return;
            case 'over': if (this.over === undefined) return this.destroy(); return;
            case 'serr': {
                const e = { uuid: c && c.client.conn && c.client.conn.uuid, error: new Error('transport ' + op.id) };
                this.life.errs.set(e, { op, told: 0, over: this.deaf() });
                this.w.fault('transport reports an error');
                this.net.server.getEvents().error.emit(e);
                return;
            }
        }
    }
    /// The application gives the producer up.
    destroy() {
        this.w.note('over');
        this.w.fault('producer destroyed');
        const was = this.net.shuts || 0;
        this.over = { at: this.w.now, early: !this.net.listening, down: this.net.toldDown };
        for (const c of this.net.conns) { c.clean = false; c.was = c.srv; }
        this.producer.destroy().then(() => { this.over.ok = true; this.over.doneBefore = !this.net.shutDone; }, (e) => { this.over.ok = false; this.over.error = e; });
        if ((this.net.shuts || 0) !== was + 1) this.w.violate(['T12'], 'shutdown', 'the producer is destroyed and asks its transport ' + ((this.net.shuts || 0) - was) + ' times to stop');
    }
    deaf() { return this.over !== undefined || this.net.noListen === true; }
    /// What the application is told of after the producer has been destroyed.
    gone(what) { if (this.over !== undefined) this.w.violate(['T12'], 'after-destroy', what + ' after the producer has been destroyed'); }
    stage(what) {
        this.w.note(what);
        this.life[what]++;
        this.decided('T12', this.net.downed === true);
        this.gone('the handler of ' + what + ' runs');
        if (!(what === 'ready' ? this.net.listening : this.net.down)) this.w.violate(['T12'], 'stage', 'the handler of ' + what + ' runs, the transport is not');
        if (this.life[what] > 1) this.w.violate(['T12'], 'stage', 'the handler of ' + what + ' runs again');
        if (!this.set.stageFail) return Promise.resolve();
        this.w.fault('handler of ' + what + ' fails');
        return Promise.reject(new Error('no ' + what));
    }
    ended() {
        const { w, life, net, over, set } = this;
        if (w.crash !== undefined) return;
        const bad = (cls, msg) => w.violate(['T12'], cls, msg);
        this.decided('T12', over !== undefined || set.listenFail === true);
        if (net.listens !== 1) bad('listen', 'the transport is asked ' + (net.listens || 0) + ' times to listen');
        if (set.listenFail) {
            if (!(life.listen instanceof Error) || !life.listen.message.includes(net.NOLISTEN)) bad('listen', 'the transport cannot listen, the application is told ' + (life.listen instanceof Error ? life.listen.message : life.listen === true ? 'that it does' : 'nothing'));
            if (over === undefined && net.shuts !== 2) bad('listen', 'the transport cannot listen and is asked ' + (net.shuts - 1) + ' times to stop');
            if (life.ready) bad('stage', 'the application is told that the producer listens');
            return;
        }
        if (life.listen !== true) bad('listen', 'the transport listens, the application is not told');
        if (life.ready !== (over !== undefined && over.early ? 0 : 1)) bad('stage', 'the handler of ready has run ' + life.ready + ' times');
        const down = net.toldDown && (over === undefined || over.down);
        if (life.shutdown !== (down ? 1 : 0)) bad('stage', 'the transport has ' + (net.downed ? '' : 'not ') + 'stopped, the handler of this has run ' + life.shutdown + ' times');
        if (over !== undefined) {
            if (over.ok === undefined) bad('destroy', 'the producer is destroyed, which never ends');
            else if (over.ok && over.doneBefore) bad('destroy', 'the end of the producer is reported before its transport has ' + (set.shutFail ? 'failed to stop' : 'stopped'));
            else if (!over.ok && (!set.shutFail || over.error.message !== net.NOSHUT)) bad('destroy', 'the end of the producer fails: ' + (over.error && over.error.message));
        }
        for (const e of life.errs.values()) if (e.told !== (e.over ? 0 : 1)) bad('server-error', 'the transport has reported an error, the application is told of it ' + e.told + ' times');
    }
    /// As if many requests had been made and answered since one that is still in flight.
    skip(me, op) {
        const rec = this.recs.find((x) => x.me === me && !x.settled && x.sent === 'ok' && x.conn === me.client.conn);
        if (rec === undefined) return;
        this.w.fault('many requests made meanwhile');
        const n = op.mod + rec.seq + op.off;
        for (let i = 0, s = 0; i < 140000 && (s = me.consumer.getSequence()) < n - 1; i++) if (s === 0) return;
    }
    tamper(conn, op) { conn.tamper = { hash: op.hash === 0 ? this.cons.Consumer.PROTOCOL_HASH : this.cons.Consumer.WORKFLOW_HASH, at: op.pos }; }
    key(n) {
        const k = this.plainKey(n);
        switch (this.set.keys) {
            case 1: return { name: 'twin', rank: 1, note: undefined, tag: undefined };
            case 2: return [
                { ...k, name: '' }, { ...k, rank: 0xffffffff }, { ...k, tag: 0n }, { ...k, tag: (1n << 64n) - 1n }, { ...k, note: 'é€🦀\u0000' },
                { ...k, name: '🦀'.repeat(100) }, { ...k, name: 'x'.repeat(['bytes', 'any', 'frame'].includes(this.set.cut) ? 300 : 70000) }, { ...k, note: ' ' }, { ...k, rank: 0x80000000 },
            ][(this.set.salt + n) % 9];
            default: return k;
        }
    }
    plainKey(n) { return { name: 'consumer ' + n, rank: n, note: n % 2 ? 'note ' + n : undefined, tag: n % 3 ? BigInt(n) : undefined }; }
    consumer(op) {
        const client = new this.net.Client('c' + op.c);
        const me = { n: op.c, client, ready: false, readies: 0, session: 0, queue: [], objs: new Map(), destroyed: false, rx: [] };
        client.me = me;
        this.consumers.set(op.c, me);
        me.consumer = new this.cons.Consumer(client, this.key(op.c), { global: this.set.global && op.c === 0 });
        me.consumer.ready.subscribe((uuid) => this.became(me, uuid));
        me.consumer.connected.subscribe(() => {
            const conn = client.conn;
            if (me.destroyed) { this.w.violate(['T09'], 'after-destroy', 'a destroyed consumer reports connected'); return; }
            conn.ups = (conn.ups || 0) + 1;
            this.decided('T09', !conn.clean);
            if (conn.ups > 1 || conn.cli !== 'open') this.w.violate(['T09'], 'connected-event', 'consumer ' + op.c + ' reports connected ' + (conn.cli !== 'open' ? 'without a connection' : 'again'));
        });
        me.consumer.disconnected.subscribe(() => {
            const conn = client.conn;
            me.ready = false;
            if (me.destroyed) { this.w.violate(['T09'], 'after-destroy', 'a destroyed consumer reports disconnected'); return; }
            conn.downs = (conn.downs || 0) + 1;
            this.decided('T09', !conn.clean);
            if (conn.downs > 1 || conn.cli !== 'closed') this.w.violate(['T09'], 'disconnected-event', 'consumer ' + op.c + ' reports disconnected ' + (conn.cli !== 'closed' ? 'during a session' : 'again'));
        });
        me.consumer.error.subscribe((e) => {
            if (me.oddErrors === undefined || me.oddErrors.shift() !== e.message) this.w.violate(['T09'], 'error-event', 'consumer ' + op.c + ' reports an error its transport has not had: ' + e.message);
        });
        for (const k of CASTS) me.consumer.broadcast[k.split('.').join('')].subscribe((m) => this.heard(me, k, m));
        this.net.connect(client);
        const t = this.pendingTamper && this.pendingTamper.get(op.c);
        if (t) this.tamper(client.conn, t);
    }
    became(me, uuid) {
        const conn = me.client.conn;
        this.w.note('ready ' + me.n);
        if (me.destroyed) { this.w.violate(['T09'], 'after-destroy', 'a destroyed consumer becomes ready'); return; }
        this.decided('T02', !conn.clean);
        this.decided('T09', !conn.clean);
        if (conn.cli !== 'open') this.w.violate(['T09'], 'ready-closed', 'consumer ' + me.n + ' becomes ready without a connection');
        if (me.consumer !== undefined && !conn.script && me.consumer.uuid !== conn.uuid) this.w.violate(['T09'], 'uuid', 'consumer ' + me.n + ' is ready as ' + conn.uuid + ' and takes itself for ' + me.consumer.uuid);
        if (conn.okHash !== true) this.w.violate(['T02', 'T09'], 'ready-refused', 'consumer ' + me.n + ' becomes ready though the producer ' + (conn.okHash === false ? 'refused it' : 'has not accepted its hashes'));
        if (conn.readies) this.w.violate(['T01', 'T02', 'T09'], 'ready-twice', 'consumer ' + me.n + ' becomes ready twice in a session');
        if (uuid !== conn.uuid && !conn.script) this.w.violate(['T02'], 'ready-uuid', 'consumer ' + me.n + ' is ready as ' + uuid + ' on the connection ' + conn.uuid);
        conn.readies = (conn.readies || 0) + 1;
        me.ready = true;
        const q = me.queue;
        me.queue = [];
        for (const op of q) this.call(me, op);
    }
    call(me, op) {
        const { w } = this;
        let id = opOf(op.id);
        const beacon = BEACONS.includes(op.kind);
        const conn = me.client.conn;
        let obj;
        const prev = me.objs.get(op.kind);
        if (op.reuse && prev !== undefined && !prev.killed) {
            obj = prev.obj;
            if (!prev.settled && prev.answered !== undefined) return; // settled, which the harness is told in a moment
            if (!prev.settled) {
                // busy: refused at once, nothing is sent
                let said;
                w.note('busy ' + op.id);
                obj.send().then(() => { said = 'resolved'; }, () => { said = 'rejected'; });
                // that nothing is written for it is seen by clientSent
                w.at(0, 'busy', () => {
                    this.decided('T01', true);
                    if (said !== 'rejected') w.violate(['T01'], 'busy', 'a request that is still in flight is sent again: ' + (said || 'no verdict'));
                });
                return;
            }
            Object.assign(obj, this.fields(op.kind, id));
        } else {
            const C = this.cons[CLASS[op.kind]];
            obj = make(this.CP, op.kind, this.content(op.kind, id), (p) => (op.implied ? new C(p) : new C(p, me.consumer)));
        }
        const rec = { me, op: id, kind: op.kind, beacon, obj, conn, settled: false, sent: 'no', called: [], killed: false };
        this.recs.push(rec);
        me.objs.set(op.kind, rec);
        if (!beacon) {
            for (const [k, cb] of this.FLOW[op.kind].cases) obj[cb]((v) => rec.called.push([cb, v]));
            obj.err((v) => rec.called.push(['err', v]));
        } else {
            obj.response(() => rec.called.push(['response']));
            obj.err((v) => rec.called.push(['err', v]));
        }
        w.note('call ' + op.id + ' ' + op.kind);
        this.calling = rec;
        let promise;
        try {
            promise = obj.send();
        } catch (e) {
            w.violate(['T01'], 'send-throws', 'send() throws: ' + e.message);
            return;
        }
        promise.then((v) => this.settled(rec, true, v), (e) => this.settled(rec, false, e));
        if (op.kill) w.at(w.rng.below(20), 'kill', () => { if (!rec.settled) { rec.killed = true; w.fault('request destroyed'); obj.destroy(); } });
    }
    fields(kind, id) {
        const f = { ...this.content(kind, id) };
        if (f.blob !== undefined) f.blob = make(this.CP, 'Echo', f).blob;
        return f;
    }
    event(op) {
        const k = op.kind === 'Tick' ? 'tick' : 'deepPulse';
        const id = opOf(op.id);
        this.w.note('event ' + op.id);
        const run = { kind: op.kind, op: id, want: !this.deaf() };
        this.runs.set(id, run);
        this.producer.events[k].emit(make(this.PP, op.kind, this.content(op.kind, id)));
    }
    /// Message that is no valid one (for this receiver).
    bad(what, sub, id, toServer) {
        const P = this.CP;
        const k = toServer ? ['Multi', 'Same', 'Ping', 'Deep.Ask'][sub % 4] : ['Note', 'NoteB', 'Deep.News', 'RespB'][sub % 4];
        const seq = 0xF0000000 + sub;
        const ok = () => Buffer.from(make(P, k, this.content(k, k.startsWith('Note') || k === 'Deep.News' ? wire.BID | BigInt(id) : opOf(id), opOf(id))).pack(seq));
        const base = ok(), h = wire.head(base), under = this.set.middleware;
        const body = under ? ware.open(h.id, h.seq, base.subarray(wire.HEAD)) || base.subarray(wire.HEAD) : base.subarray(wire.HEAD);
        const frame = (id, sig, seq, b) => wire.frame(id, sig, seq, under ? ware.seal(id, seq >>> 0, b) : b);
        switch (what) {
            case 'unknown id': return [frame(0x00ff0000 + sub, 0, seq, Buffer.from([1, 2, 3]).subarray(0, sub % 4)), { bad: what }];
            case 'signature': return [frame(h.id, (h.sig ^ (1 + sub)) & 0xffff, seq, body), { bad: what }];
            case 'empty body': return [frame(h.id, h.sig, seq, Buffer.alloc(0)), { bad: what }];
            case 'missing field': {
                const first = 2 + 1 + 1 + 8; // op or bid
                return [frame(h.id, h.sig, seq, body.subarray(body[2] === 8 ? first : body[2] === 16 ? first + 1 : body[2] === 32 ? first + 3 : first + 7)), { bad: what }];
            }
            case 'no struct': return [frame(h.id, h.sig, seq, Buffer.concat([body, Buffer.from([1, 2, 7, 9, 9])])), { bad: what }];
            case 'sealed': { const x = Buffer.from(base); if (under) x[wire.HEAD + sub % (x.length - wire.HEAD)] ^= 1 + sub % 255; else return [frame(h.id, h.sig, seq, Buffer.alloc(0)), { bad: what }]; return [x, { bad: what }]; }
            case 'enum': { const e = new P.Flag(); e.set({ On: 'x' }); return [Buffer.from(e.pack(seq)), undefined]; }
            case 'service': {
                const S = P.InternalServiceGroup;
                const m = toServer
                    ? [() => new S.SelfKeyResponse({ uuid: 'x' }), () => new S.HashResponse({ error: undefined }), () => new S.BeaconConfirmation({ error: undefined }), () => new P.Keys.Assigned({ uid: 'x', level: 1, admin: true }), () => new P.RespC({ op: opOf(id) }), () => new P.Note({ bid: wire.BID, op: opOf(id), text: 'x' })][sub % 6]()
                    : [() => new S.SelfKeyResponse({ uuid: 'x' }), () => new S.HashResponse({ error: undefined }), () => new S.BeaconConfirmation({ error: 'no' }), () => new P.Keys.Assigned({ uid: 'x', level: 1, admin: true }), () => new P.RespC({ op: opOf(id) }), () => new P.Quick({ op: opOf(id) }), () => new S.ConnectConfirmationBeacon({})][sub % 7]();
                return [Buffer.from(m.pack(seq)), undefined];
            }
            default: {
                // a number of the wrong size
                const f = wire.fields(body);
                const id2 = f[0].id;
                const rest = body.subarray(body.length - f.slice(1).reduce((n, x) => n + x.body.length, 0) - 0);
                const cut = Buffer.alloc(2 + 1 + 1 + 4);
                cut.writeUInt16LE(id2, 0); cut[2] = 8; cut[3] = 4;
                const at = body.indexOf(f[0].body, 0) + 8;
                void rest;
                return [frame(h.id, h.sig, seq, Buffer.concat([cut, body.subarray(at)])), { bad: what }];
            }
        }
    }
    inject(me, op) {
        const conn = me.client.conn;
        if (conn === undefined || conn.closing) return;
        const toServer = op.dir === 'c';
        const pipe = toServer ? conn.c2s : conn.s2c;
        if (pipe.parse.length > 0) return;
        const [b, meta] = this.bad(op.what, op.sub, op.id, toServer);
        this.w.fault('message injected: ' + op.what);
        if (toServer) conn.clean = false;
        conn.injected = true;
        const m = pipe.write(b, meta);
        for (const x of m) x.injected = true;
    }
    raw(op) {
        const { w } = this;
        const me = { raw: true, op, n: 'r' + op.id, steps: op.steps.slice(), seq: 1 + op.seq, conn: undefined };
        me.data = (conn, chunk) => undefined;
        me.gone = (conn) => this.clientClosed(me, conn);
        me.opened = (conn) => { if (!op.wait) me.go(); else w.at(w.rng.below(10), 'raw', me.go); };
        me.go = () => {
            if (me.conn.cli !== 'open') return;
            const out = [];
            while (me.steps.length > 0) {
                out.push(me.steps.shift());
                if (!w.rng.chance(op.glue)) break;
            }
            for (const s of out) this.rawSend(me, s);
            if (me.steps.length > 0) w.at(op.gap === 0 ? 0 : w.rng.below(op.gap), 'raw', me.go);
            else if (op.close) w.at(w.rng.below(30), 'rawclose', () => me.conn.drop(true));
        };
        this.raws.push(me);
        this.net.connect(me);
    }
    rawSend(me, s) {
        const P = this.CP, conn = me.conn, seq = me.seq++;
        const put = (m) => conn.c2s.write(Buffer.from(m.pack(seq)));
        this.w.note('rawsend ' + s.s);
        if (s.s === 'key') { const k = this.key(7 + seq % 5); for (const m of put(new P.Keys.Own(k))) m.key = k; }
        else if (s.s === 'hash') put(new P.InternalServiceGroup.HashRequest({ protocol: this.hashes[0], workflow: this.hashes[1] }));
        else if (s.s === 'badhash') {
            const h = this.hashes.slice();
            const x = h[s.which];
            const flip = (c) => (c === '0' ? '1' : '0');
            h[s.which] = s.form === 0 ? x.slice(0, s.pos) + flip(x[s.pos]) + x.slice(s.pos + 1) : s.form === 1 ? '' : s.form === 2 ? x.slice(0, 63 - (s.pos % 8)) : h[1 - s.which];
            this.w.fault('wrong hash');
            for (const m of put(new P.InternalServiceGroup.HashRequest({ protocol: h[0], workflow: h[1] }))) m.badHash = true;
        } else if (s.s === 'app') {
            put(make(P, s.kind, this.content(s.kind, opOf(s.id))));
        } else {
            const [b, meta] = this.bad(s.what, s.sub, s.id, true);
            this.w.fault('message injected: ' + s.what);
            conn.c2s.write(b, meta);
        }
    }
    /// What a transport should not do, and may.
    odd(op, c) {
        const { w, net } = this, ev = net.server.getEvents(), conn = c && c.client.conn;
        w.fault('transport: ' + op.what);
        switch (op.what) {
            case 'connected again': if (conn !== undefined && conn.srv === 'open') ev.connected.emit(conn.uuid); return;
            case 'disconnected, unknown': ev.disconnected.emit('uuid-unknown'); return;
            case 'disconnected again': if (conn !== undefined && conn.srv === 'closed' && conn.toldEnd) ev.disconnected.emit(conn.uuid); return;
            case 'data, unknown': ev.received.emit({ uuid: 'uuid-unknown', buffer: Buffer.from([1, 2, 3]) }); return;
            case 'server error': ev.error.emit({ uuid: conn === undefined ? undefined : conn.uuid, error: new Error('server error') }); return;
            case 'send to unknown': this.producer.broadcast(['uuid-unknown'], Buffer.from([1])).catch(() => undefined); return;
            case 'client error':
                if (c === undefined || c.destroyed || c.client.getEvents === undefined) return;
                c.oddErrors = c.oddErrors || [];
                c.oddErrors.push('odd ' + op.id);
                c.client.getEvents().error.emit(new Error('odd ' + op.id));
                return;
        }
    }
    /// A consumer in front of a scripted producer that refuses it, or answers strangely.
    script(op) {
        const { w } = this;
        const client = new this.net.Client('s' + op.id);
        const me = { n: op.c, client, ready: false, session: 0, queue: [], objs: new Map(), destroyed: false, rx: [], script: true };
        client.me = me;
        const P = this.PP, S = P.InternalServiceGroup;
        me.consumer = new this.cons.Consumer(client, this.key(op.c), { global: false });
        me.consumer.ready.subscribe((uuid) => this.became(me, uuid));
        this.consumers.set('script' + op.id, me);
        // not known to the producer
        const net = this.net;
        const n = net.conns.length;
        const conn = net.connect(client);
        conn.script = true;
        conn.srv = 'scripted';
        conn.c2s.open = true;
        const reply = (m, seq) => conn.s2c.write(Buffer.from(m.pack(seq)));
        const plain = conn.deliver.bind(conn);
        let ok = false;
        conn.deliver = (dir, chunk, metas, no) => {
            if (dir === 's') {
                for (const m of metas) if (m.grants) conn.okHash = true; else if (m.refuses && conn.okHash !== true) conn.okHash = false;
                return plain(dir, chunk, metas, no);
            }
            for (const m of metas) {
                if (m.name === 'Keys.Own') {
                    if (op.variant === 5) reply(new S.HashResponse({ error: undefined }), m.seq);
                    else if (op.variant === 6) reply(new P.Errors.Fail({ op: 1n, error: 'x', code: 1 }), m.seq);
                    else reply(new S.SelfKeyResponse({ uuid: conn.uuid }), m.seq);
                } else if (m.name === 'InternalServiceGroup.HashRequest') {
                    if (op.variant <= 2) for (const x of reply(new S.HashResponse({ error: ['Invalid hash', '?', 'e'][op.variant] }), m.seq)) x.refuses = true;
                    else if (op.variant === 3) reply(new S.SelfKeyResponse({ uuid: conn.uuid }), m.seq);
                    else if (op.variant === 4) reply(new P.RespC({ op: 1n }), m.seq);
                    else for (const x of reply(new S.HashResponse({ error: undefined }), m.seq)) x.grants = true;
                }
            }
        };
        w.fault('producer that refuses');
        w.at(net.delay(), 'script' + n, () => reply(new S.ConnectConfirmationBeacon({}), 0));
    }

    // ---- handlers of the application ---------------------------------------------------------------
    target(r, filter, self) {
        switch (r.below(6)) {
            case 0: return filter.all();
            case 1: return self === undefined ? filter.all() : filter.except(self);
            case 2: return filter.exclude(filter.all().filter(() => r.chance(0.4)));
            case 3: { const x = new Map(); return filter.filter((i) => { if (!x.has(i.uuid())) x.set(i.uuid(), r.chance(0.5)); return x.get(i.uuid()); }); }
            case 4: return self === undefined ? [] : [self];
            default: return filter.all();
        }
    }
    checkFilter(filter) {
        const all = filter.all();
        for (const c of this.net.conns) {
            const has = all.includes(c.uuid);
            if (c.srv === 'closed' && has) this.w.violate(['T03', 'T05'], 'filter-gone', 'the list of consumers has ' + c.uuid + ', which is disconnected');
            if (c.srv === 'open' && !has) this.w.violate(['T03', 'T05'], 'filter-lacks', 'the list of consumers lacks ' + c.uuid);
        }
        if (new Set(all).size !== all.length) this.w.violate(['T03', 'T05'], 'filter-twice', 'the list of consumers has one twice');
        this.decided('T05', this.net.conns.some((c) => c.srv === 'closed'));
        // the other ways to choose, against the list of all
        const r = this.w.rng, sorted = (x) => x.slice().sort().join();
        const some = all.filter(() => r.chance(0.5)), one = r.pick([...all, ...all, 'nobody', ...this.net.conns.filter((c) => c.srv === 'closed').map((c) => c.uuid).slice(-2)]);
        const bad = (what) => this.w.violate(['T03', 'T05'], 'filter-' + what, 'the selection `' + what + '` is not the one asked for');
        if (sorted(filter.exclude(some.concat(['nobody']))) !== sorted(all.filter((x) => !some.includes(x)))) bad('exclude');
        if (sorted(filter.except(one)) !== sorted(all.filter((x) => x !== one))) bad('except');
        const seen = [];
        const got = filter.filter((i) => { seen.push(i.uuid()); this.identity(i, 'a predicate'); return some.includes(i.uuid()); });
        if (sorted(got) !== sorted(some) || sorted(seen) !== sorted(all)) bad('filter');
    }
    /// What the application sees of a consumer's identity.
    identity(i, where) {
        const conn = this.net.byUuid.get(i.uuid());
        if (conn === undefined || conn.m === undefined) { this.w.violate(['T05'], 'identity-unknown', where + ' sees a consumer nobody knows'); return; }
        this.decided('T05', false);
        const a = i.getAssigned(), is = conn.asg;
        if (conn.changes > 0) this.decided('T10', true);
        const props = conn.changes > 0 ? ['T05', 'T10'] : ['T05'];
        if ((a === undefined) !== (is === undefined) || (a !== undefined && (a.uid !== is.uid || a.level !== is.level || a.admin !== is.admin))) this.w.violate(props, 'identity-assigned', where + ' sees another assigned key of ' + conn.uuid + ' than the one given');
        const s = conn.m, k = i.getKey();
        if (s.exp || s.tol || s.murky || s.bads || conn.kicks) return;
        const w = conn.appKey || s.keyVal;
        // the messages of the chunk being handled may not have been processed yet
        const before = s.keyWas;
        const same = (w) => (w === undefined ? k === undefined : k !== undefined && k.name === w.name && k.rank === w.rank && k.note === w.note && k.tag === w.tag);
        if (!same(w) && !(conn.appKey === undefined && s.keyNo === conn.c2s.chunks && before.some(same))) this.w.violate(props, 'identity-key', where + ' sees another key of ' + conn.uuid + ' than the one it gave');
    }
    /// The application changes what is known of a consumer: wholly, or the fields it gives.
    changes(i, r, P) {
        if (!this.set.identity || !r.chance(0.4)) return;
        const conn = this.net.byUuid.get(i.uuid()), s = conn && conn.m;
        if (s === undefined) return;
        const over = r.chance(0.4), n = r.below(1000);
        const merged = (was, v) => { const x = over ? {} : { ...was }; for (const f of Object.keys(v)) if (over || v[f] !== undefined) x[f] = v[f]; return x; };
        if (r.chance(0.6)) {
            if (conn.asg === undefined) return;
            const v = { uid: r.chance(0.5) ? conn.uuid : r.pick(['u' + n, 'twin', '']), level: r.pick([n, n, 0, 0xffffffff]), admin: r.pick([undefined, true, false]) };
            i.assign(new P.Keys.Assigned({ ...v }), over);
            conn.asg = merged(conn.asg, v);
        } else {
            const was = conn.appKey || s.keyVal, k = i.getKey();
            if (was === undefined || k === undefined || s.exp || s.tol || s.murky || s.bads || conn.kicks) return;
            if (['name', 'rank', 'note', 'tag'].some((f) => k[f] !== was[f])) return;
            const v = { name: r.pick(['n' + n, 'n' + n, 'twin', '']), rank: r.pick([n, n, 0]), note: r.pick([undefined, 'x' + n]), tag: r.pick([undefined, BigInt(n), 0n]) };
            i.key(new P.Keys.Own({ ...v }), over);
            conn.appKey = merged(was, v);
        }
        conn.changes = (conn.changes || 0) + 1;
        this.w.note('changed ' + conn.n);
        this.identity(i, 'the handler that changed it');
    }
    /// Broadcasts of an output: `out.broadcast(uuids).Note(m)`.
    broadcasts(run, out, list, filter, self, P) {
        const r = run.r;
        for (const x of list) {
            const k = x.replace('?', '');
            if (x.endsWith('?') && r.chance(0.5)) continue;
            const uuids = this.target(r, filter, self);
            const bid = wire.BID | BigInt(++this.nbid);
            const cast = { k, bid, op: run.op || bid, uuids: uuids.slice(), run, sent: new Map(), at: this.w.now, open: new Set(this.net.conns.filter((c) => c.srv === 'open').map((c) => c.uuid)) };
            this.casts.set(bid, cast);
            run.casts.push(cast);
            out.broadcast(uuids)[k.split('.').join('')](make(P, k, this.content(k, bid, cast.op)));
        }
        return out;
    }
    hold(r, f) {
        const d = this.set.hold === 0 ? 0 : r.skew(this.set.hold);
        if (d === 0 && r.chance(0.5)) return new Promise((resolve, reject) => { try { resolve(f()); } catch (e) { reject(e); } });
        return new Promise((resolve, reject) => this.w.at(d, 'handled', () => { try { resolve(f()); } catch (e) { reject(e); } }));
    }
    invoked(kind, m, uuid) { return this.invokes(kind, m.op, uuid, () => differs(m, this.content(kind, m.op), this.known)); }
    invokes(kind, op, uuid, differ) {
        const conn = this.net.byUuid.get(uuid);
        this.w.note('handle ' + kind + ' ' + short(op) + ' ' + uuid);
        this.gone('the handler of ' + kind + ' runs');
        const f = conn === undefined ? undefined : conn.frames.find((x) => x.op === op && x.name === kind && x.run === undefined);
        if (conn !== undefined && (conn.told !== 1 || conn.srv !== 'open')) this.w.violate(['T05'], 'unannounced', kind + ' ' + short(op) + ' of ' + uuid + ' is handled ' + (conn.srv !== 'open' ? 'after its end' : 'before it is announced'));
        if (f === undefined) {
            const any = this.net.conns.some((c) => c.frames !== undefined && c.frames.some((x) => x.op === op && x.name === kind));
            const own = conn !== undefined && conn.frames.some((x) => x.op === op && x.name === kind);
            if (own) this.w.violate(['T01', 'T03'], 'handled-twice', 'the handler of ' + kind + ' ' + short(op) + ' runs more often than the message has been delivered');
            else if (any) this.w.violate(['T01', 'T03'], 'handled-as-other', kind + ' ' + short(op) + ' is handled on behalf of ' + uuid + ', which has not sent it');
            else this.w.violate(['T01', 'T03'], 'handled-unsent', 'the handler of ' + kind + ' runs for a message that has not been delivered (' + short(op) + ')');
        } else {
            if (f.expect === 'no') this.w.violate(['T02', 'T07', 'T10'], 'unadmitted', kind + ' ' + short(op) + ' of ' + uuid + ' is handled, ' + f.why);
            const d = differ();
            this.decided('T03', !conn.clean);
            if (d !== undefined) this.w.violate(['T03', 'T01'], 'content', kind + ' ' + short(op) + ' reaches its handler with another value of ' + d);
        }
        const run = { kind, op, uuid, seq: f === undefined ? -1 : f.seq, r: new Rng((BigInt(this.plan.seed) << 20n) ^ (op & 0xfffffffn)), done: false, answers: 0, casts: [], castAt: new Map(), at: this.w.now };
        if (f !== undefined) f.run = run;
        if (!this.runs.has(op)) this.runs.set(op, run);
        return run;
    }
    request(kind, request, scope, Response, P) {
        const uuid = scope.consumer.uuid();
        const run = this.invoked(kind, request, uuid);
        this.checkFilter(scope.filter);
        this.identity(scope.consumer, 'the handler of ' + kind);
        this.changes(scope.consumer, run.r, P);
        this.later(run, scope);
        return this.hold(run.r, () => {
            this.changes(scope.consumer, run.r, P);
            if (run.r.chance(this.set.handlerFail)) { this.failed(run, uuid); this.w.fault('handler of a request fails'); throw new Error('rejected ' + short(run.op)); }
            const flow = this.FLOW[kind];
            const i = run.r.below(flow.cases.length + 1);
            const [k, cb, casts] = i === flow.cases.length ? [flow.err, 'err', []] : flow.cases[i];
            if (casts.some((x) => !x.endsWith('?')) && run.r.chance(this.set.handlerFail)) {
                // the answer of a run without a broadcast that it requires is none
                this.failed(run, uuid);
                this.w.fault('required broadcast left out');
                return new Response(make(P, real(k), this.content(k, run.op)));
            }
            run.done = true; run.doneAt = this.w.now; run.answer = k; run.cb = cb;
            this.w.note('done ' + short(run.op) + ' ' + k);
            const plain = this.content(k, run.op);
            return this.broadcasts(run, new Response(make(P, real(k), plain)), casts, scope.filter, uuid, P);
        });
    }
    /// A handler that ends without a result: the policy for erroneous consumers applies to the sender.
    failed(run, uuid) {
        run.rejected = true;
        const c = this.net.byUuid.get(uuid);
        if (c === undefined || !c.m) return;
        c.m.failing = true; c.fails = (c.fails || 0) + 1;
        if (this.set.err === 1 || this.set.err === 3) c.m.tol = true;
    }
    /// Work put off until the answer and the broadcasts have been sent.
    later(run, scope) {
        if (!this.set.deferred) return;
        run.later = true;
        scope.deferred(() => {
            run.deferred = (run.deferred || 0) + 1;
            this.w.note('deferred ' + short(run.op));
            this.decided('T06', true);
            const what = 'work deferred by the handler of ' + run.kind + ' ' + short(run.op);
            if (run.deferred > 1) this.w.violate(['T06'], 'deferred-twice', what + ' is done twice');
            if (!run.done || !run.tried) this.w.violate(['T06'], 'deferred-early', what + ' is done before its answer is sent');
            else if (run.casts.some((c) => c.sent.size < new Set(c.uuids).size)) this.w.violate(['T06'], 'deferred-early', what + ' is done before its broadcasts are sent');
            else if (run.sending > 0) this.w.violate(['T06'], 'deferred-early', what + ' is done while what it sends is still being sent');
        });
    }
    beacon(kind, beacon, scope) {
        const uuid = scope.consumer.uuid();
        const run = this.invoked(kind, beacon, uuid);
        this.checkFilter(scope.filter);
        this.identity(scope.consumer, 'the handler of ' + kind);
        this.changes(scope.consumer, run.r, this.PP);
        const fail = run.r.chance(this.set.beaconFail);
        this.later(run, scope);
        return this.hold(run.r, () => {
            run.done = true; run.doneAt = this.w.now; run.beacon = true;
            run.fail = fail ? [() => 'no ' + short(run.op), () => ' ', () => '🚫 nó ' + run.op, () => 'x'.repeat(70000)][this.set.failText || 0]() : undefined;
            if (fail) { const was = run.rejected; this.failed(run, uuid); run.rejected = was; throw new Error(run.fail); }
        });
    }
    event_(kind, op) {
        return { kind, op, r: new Rng((BigInt(this.plan.seed) << 20n) ^ (op & 0xfffffffn) ^ 0x8000000n), done: false, casts: [], castAt: new Map(), at: this.w.now };
    }
    session(kind, consumer, filter, Output, P) {
        const uuid = consumer.uuid();
        const conn = this.net.byUuid.get(uuid);
        this.w.note(kind + ' ' + uuid);
        this.gone(uuid + ' is announced as ' + kind);
        if (kind === 'connected') {
            if (this.set.assign === 1 || (this.set.assign > 0 && conn.n % 2 === 0)) {
                consumer.assign(new P.Keys.Assigned({ uid: uuid, level: conn.n, admin: undefined }), true);
                conn.assigned = true; conn.asg = { uid: uuid, level: conn.n, admin: undefined };
            } else if (this.set.identity && this.w.rng.chance(0.5)) {
                this.w.at(this.w.rng.below(40), 'assign', () => {
                    if (conn.srv !== 'open') return;
                    consumer.assign(new P.Keys.Assigned({ uid: uuid, level: 7, admin: true }), this.w.rng.chance(0.5));
                    conn.assigned = true; conn.asg = { uid: uuid, level: 7, admin: true };
                    conn.changes = (conn.changes || 0) + 1;
                });
            }
            conn.told = (conn.told || 0) + 1;
            this.decided('T05', !conn.clean);
            if (conn.told > 1) this.w.violate(['T05'], 'announced-twice', uuid + ' is announced twice');
            if (conn.srv !== 'open') this.w.violate(['T05'], 'announced-closed', uuid + ' is announced, it is not connected');
        } else {
            conn.toldEnd = (conn.toldEnd || 0) + 1;
            this.decided('T05', !conn.clean);
            if (conn.toldEnd > 1 || conn.srv !== 'closed') this.w.violate(['T05'], 'end-announced', 'the end of ' + uuid + ' is announced ' + (conn.srv !== 'closed' ? 'though it goes on' : 'twice'));
        }
        this.identity(consumer, kind);
        const run = this.event_(kind, BigInt(conn.n) * 2n + (kind === 'connected' ? 0n : 1n));
        run.op = undefined;
        this.checkFilter(filter);
        return this.hold(run.r, () => { this.fails(run, kind); run.done = true; return this.broadcasts(run, new Output(), this.EVENTS[kind], filter, uuid, P); });
    }
    fails(run, what) {
        if (!run.r.chance(this.set.handlerFail)) return;
        this.w.fault('handler of ' + what + ' fails');
        throw new Error('handler fails');
    }
    ready() { return this.stage('ready'); }
    error(e, consumer) {
        const type = e.getErrType === undefined ? 'server' : e.getErrType(), conn = consumer === undefined ? undefined : this.net.byUuid.get(consumer.uuid());
        this.w.note('error ' + type + ' ' + (conn === undefined ? '' : conn.n));
        this.errors.push(type);
        const x = this.life.errs.get(e);
        if (x !== undefined) { x.told++; this.decided('T12', true); if (consumer !== undefined) this.w.violate(['T12'], 'server-error', 'an error of the transport is reported as one of ' + consumer.uuid()); }
        if (conn === undefined) this.gone('an error is reported');
        if (conn !== undefined) {
            const of = conn.srv === 'open' ? conn.errs : conn.late;
            of[type] = (of[type] || 0) + 1;
        }
        if (this.w.rng.chance(this.set.handlerFail)) { this.w.fault('handler of errors fails'); return Promise.reject(new Error('handler of errors fails')); }
        return Promise.resolve();
    }
    shutdown() { return this.stage('shutdown'); }

    // ---- what the simulated transports see ---------------------------------------------------------
    connecting(conn, peer) { conn.errs = {}; conn.late = {}; conn.frames = []; conn.m = { bads: 0, unassigned: 0, keyWas: [], key: false, hash: false, exp: false, tol: false, soft: undefined }; conn.rx = []; conn.must = []; if (peer.me) peer.me.session++; }
    serverOpened(conn) { conn.openedAt = this.w.now; if (this.over !== undefined) conn.clean = false; }
    clientOpened(conn, peer) { }
    serverClosed(conn) { conn.closedAt = this.w.now; }
    clientClosed(peer, conn) {
        conn.cliClosedAt = this.w.now;
        if (peer.me !== undefined) { peer.me.ready = false; }
    }
    disconnected(conn) { if (this.kicking) conn.appKick = true; else if (conn.appKick) conn.m.murky = true;
        conn.kicks = (conn.kicks || 0) + 1; conn.clean = false; }
    clientSent(client, conn, metas, how) {
        const me = client.me;
        if (me === undefined) return;
        for (const m of metas) {
            if (m.op === undefined) continue;
            const rec = this.recs.find((x) => x.me === me && x.op === m.op && x.sent === 'no');
            if (rec === undefined) {
                this.w.violate(['T01'], 'sent-twice', 'the consumer writes ' + m.name + ' ' + short(m.op) + ' more often than it has been called');
                continue;
            }
            rec.sent = how; rec.seq = m.seq; rec.conn = conn;
            if (how === 'ok' && this.recs.some((x) => x !== rec && x.conn === conn && x.seq === m.seq && !x.settled && x.sent === 'ok')) {
                this.w.violate(['T01'], 'sequence', 'two requests in flight carry the same number ' + m.seq);
            }
        }
    }
    /// A whole message has reached the producer.
    atServer(conn, m, no) {
        const s = conn.m, set = this.set;
        conn.frames.push(m);
        if (this.over !== undefined) { m.expect = 'no'; m.why = 'after the producer has been destroyed'; return; }
        const disc = set.err === 1 || set.err === 3;
        const may = s.tol || s.soft === no || conn.kicks > 0;
        if (s.soft !== undefined && s.soft < no) { s.exp = true; s.why = 'after unreadable data for which the consumer had to be disconnected'; }
        const refuse = (why, type) => { s.refType = type; s.exp = true; s.why = why; s.refused = why; };
        m.expect = 'none';
        if (s.exp) {
            m.expect = 'no'; m.why = s.why;
            if (APP.includes(m.name)) this.decided('T02', true);
            return;
        }
        const unread = () => { if (may) s.murky = true; else s.unread = true; if (disc) s.soft = no; };
        if (may) s.murky = true;
        if (m.bad !== undefined) { s.bads++; unread(); return; }
        if (m.name === 'Keys.Own' && !s.hash) { if (s.keyNo !== no) { s.keyNo = no; s.keyWas = []; } s.keyWas.push(s.keyVal); s.keyVal = this.keyOf(m); }
        if (may) { m.expect = 'may'; if (m.name === 'Keys.Own') s.key = true; if (m.name === 'InternalServiceGroup.HashRequest' && !m.badHash) s.hash = true; return; }
        if (m.name === 'Keys.Own') {
            if (!s.hash) s.key = true;
            else if (!s.key) { s.key = true; s.tol = true; }
            else if (this.unadmitted(conn, m, refuse)) return;
            else unread();
            return;
        }
        if (m.name === 'InternalServiceGroup.HashRequest') {
            if (m.badHash) refuse('though it presented another hash', 'hash');
            else s.hash = true;
            return;
        }
        if (!s.hash) { m.expect = 'no'; m.why = 'though it has not presented its hashes'; refuse('though it had sent data before its hashes', 'HashError'); return; }
        if (!s.key) { m.expect = 'no'; m.why = 'though it has not given its key'; refuse('though it had sent data before its key', 'KeyError'); return; }
        if (this.unadmitted(conn, m, refuse)) return;
        if (APP.includes(m.name)) { m.expect = 'must'; this.decided('T02', false); return; }
        unread();
    }
    /// A consumer without an assigned key, and the strategy asks for one: Ignore, Log, EmitError, Disconnect, EmitErrorAndDisconnect
    unadmitted(conn, m, refuse) {
        const { set } = this;
        if (conn.assigned || set.ident === 0 || set.ident === 1) return false;
        m.expect = 'no';
        m.why = 'though it has no assigned key and the strategy asks for one';
        conn.m.unassigned++;
        if (set.ident !== 2) refuse(m.why, 'AssignedKeyError');
        return true;
    }
    /// The key a message carries, read independently.
    keyOf(m) {
        if (m.key !== undefined) return m.key;
        const f = wire.fields(m.body) || [], at = (k) => (f[this.trees.flow.own.indexOf(k)] || { body: [] }).body;
        const out = { name: at('name').toString(), rank: at('rank').length > 0 ? at('rank').readUInt32LE(0) : undefined, note: undefined, tag: undefined };
        if (at('note').length > 0) out.note = at('note').toString();
        if (at('tag').length > 0) out.tag = at('tag').readBigUInt64LE(0);
        return out;
    }
    /// The configured policies: errors told to the application and connections ended, for each connection.
    policies(c) {
        const { w, set } = this, s = c.m, e = c.errs, all = (k) => (e[k] || 0);
        const bad = (cls, msg) => w.violate(msg.endsWith('without a reason') ? ['T07', 'T08'] : ['T07'], cls, c.uuid + ' ' + msg);
        const disc = set.err === 1 || set.err === 3, emit = set.err === 2 || set.err === 3;
        const n = all('ProcessingIncomeData'), plain = !s.exp && !s.tol && !s.murky && !s.failing && c.clean && c.closedAt === undefined;
        this.decided('T07', !plain || s.unread === true);
        if (!emit && n > 0) bad('policy-error', 'leads to an error of the application, which the policy does not provide');
        if (s.unread && emit && n === 0) bad('policy-silent', 'sends unreadable data, which is not reported as the policy says');
        if (s.unread && disc && !c.kicks && c.srv === 'open') bad('policy-keep', 'sends unreadable data and is not disconnected as the policy says');
        if (plain && !s.unread && s.bads === 0) {
            if (n > 0) bad('policy-error', 'leads to an error of the application without a reason');
            if (c.kicks) bad('policy-kick', 'is disconnected without a reason');
        }
        if (c.fails && disc && !c.kicks && c.srv === 'open') bad('policy-keep', 'is not disconnected as the policy says though its message could not be handled');
        if (c.fails && !s.exp && !s.tol && !s.murky && c.clean && c.closedAt === undefined && !s.unread && s.bads === 0 && n !== (emit ? c.fails : 0)) bad('policy-failed', 'has sent ' + c.fails + ' messages that could not be handled, and the application is told of ' + n);
        if (c.fails && emit && n + (c.late.ProcessingIncomeData || 0) < c.fails) bad('policy-failed', 'has sent ' + c.fails + ' messages that could not be handled, and the application is told of less');
        if (!disc && !s.refused && !c.appKick && !s.murky && !s.tol && c.kicks) bad('policy-kick', 'is disconnected, which the policy does not provide');
        if (s.murky || s.tol || c.appKick) return;
        const hash = all('ProtocolHash') + all('WorkflowHash');
        if (c.closedAt === undefined || s.refused === undefined) {
            for (const [type, is] of [['hash', hash], ['HashError', all('HashError')], ['KeyError', all('KeyError')]]) {
                const want = s.refType === type ? 1 : 0;
                if (is !== want) bad('refusal', 'is refused with ' + s.refType + ' and the application is told ' + is + ' times of ' + type);
            }
        }
        const want = set.ident === 2 ? s.unassigned : set.ident === 4 ? Math.min(s.unassigned, 1) : 0;
        if (all('AssignedKeyError') !== want) bad('policy-ident', 'has sent ' + s.unassigned + ' messages without an assigned key, and the application is told ' + all('AssignedKeyError') + ' times, the policy provides ' + want);
    }
    afterServer(conn, metas) { }
    /// The producer hands a message over to the transport.
    sent(conn, metas, how, uuid) {
        for (const m of metas) {
            if (m.bid !== undefined && CASTS.includes(m.name)) {
                const cast = this.casts.get(m.bid);
                if (cast === undefined || cast.k !== m.name) { this.w.violate(['T03'], 'cast-unknown', 'the producer sends a ' + m.name + ' nobody asked for'); continue; }
                if (!cast.uuids.includes(uuid)) this.w.violate(['T03'], 'cast-wrong', m.name + ' ' + short(m.bid) + ' is sent to ' + uuid + ', to which it is not addressed');
                const n = (cast.sent.get(uuid) || 0) + 1;
                cast.sent.set(uuid, n);
                const run = cast.run;
                if (run !== undefined) {
                    m.run = run;
                    this.decided('T06', how !== 'ok');
                    const at = run.casts.indexOf(cast), was = run.castAt.get(uuid);
                    if (was !== undefined && was > at) this.w.violate(['T06'], 'cast-order', m.name + ' ' + short(m.bid) + ' is sent to ' + uuid + ' after a broadcast that follows it');
                    run.castAt.set(uuid, at);
                    if (run.answer !== undefined && !run.tried) this.w.violate(['T06'], 'cast-first', m.name + ' ' + short(m.bid) + ' is sent before the answer of the same handler');
                }
                if (n > 1) this.w.violate(['T03'], 'cast-twice', m.name + ' ' + short(m.bid) + ' is sent ' + n + ' times to ' + uuid);
            } else if (m.name === 'InternalServiceGroup.BeaconConfirmation') {
                const f = conn === undefined ? undefined : conn.frames.find((x) => x.seq === m.seq && BEACONS.includes(x.name) && x.run !== undefined && x.run.done && x.run.answers === 0);
                if (f === undefined) this.w.violate(['T01'], 'confirm-unasked', 'a beacon is confirmed to ' + uuid + ' that has not been handled, or again');
                else { f.run.answers++; f.run.tried = true; m.run = f.run; }
            } else if (m.op !== undefined && ANSWERS.has(m.name)) {
                const f = conn === undefined ? undefined : conn.frames.find((x) => x.op === m.op && REQS.includes(x.name));
                const run = f && f.run;
                if (run === undefined || !run.done || real(run.answer) !== m.name || run.uuid !== uuid) { this.w.violate(['T01'], 'answer-wrong', uuid + ' is sent the answer ' + m.name + ' ' + short(m.op) + ', which no handler gave to a request of it'); continue; }
                run.answers++; run.tried = true; m.run = run;
                this.decided('T06', how !== 'ok');
                if (run.seq !== m.seq) this.w.violate(['T01'], 'answer-sequence', 'the answer to ' + short(m.op) + ' has the number ' + m.seq + ', its request has ' + run.seq);
                if (run.answers > 1) this.w.violate(['T01'], 'answer-twice', 'the answer to ' + short(m.op) + ' is sent ' + run.answers + ' times');
            } else if (m.name === 'InternalServiceGroup.HashResponse') {
                m.grants = conn !== undefined && conn.m.hash;
            }
        }
    }
    /// A whole message has reached a client.
    atClient(conn, m) {
        if (m.name === 'InternalServiceGroup.HashResponse' && m.injected === undefined && !conn.script) { if (m.grants) conn.okHash = true; else conn.okHash = false; }
        const me = conn.peer.me;
        if (me === undefined || me.destroyed && !me.rust) return;
        if (m.injected || m.bad) return;
        if (m.bid !== undefined && CASTS.includes(m.name)) { conn.rx.push({ k: m.name, bid: m.bid }); return; }
        if (m.seq !== undefined && (ANSWERS.has(m.name) || m.name === 'InternalServiceGroup.BeaconConfirmation')) {
            const rec = this.recs.find((x) => x.me === me && x.conn === conn && x.seq === m.seq && x.sent === 'ok');
            if (rec !== undefined && rec.answered === undefined) rec.answered = { at: this.w.now, name: m.name };
        }
    }
    heard(me, k, msg) {
        const conn = me.client.conn;
        this.w.note('heard ' + k + ' ' + short(msg.bid) + ' ' + me.n);
        const x = conn.rx.shift();
        this.decided('T03', !conn.clean || conn.injected === true);
        this.decided('T09', !conn.clean || conn.injected === true);
        if (me.destroyed) this.w.violate(['T09'], 'after-destroy', 'a destroyed consumer is told of a ' + k);
        if (x === undefined) { this.w.violate(['T03', 'T09'], 'heard-more', 'consumer ' + me.n + ' is told of a ' + k + ' ' + short(msg.bid) + ' that it has not been sent, or again'); return; }
        if (x.k !== k || x.bid !== msg.bid) { this.w.violate(['T03', 'T09'], 'heard-other', 'consumer ' + me.n + ' is told of ' + k + ' ' + short(msg.bid) + ', the next one sent to it is ' + x.k + ' ' + short(x.bid)); return; }
        const cast = this.casts.get(x.bid);
        const d = cast === undefined ? undefined : differs(msg, this.content(k, x.bid, cast.op), this.known);
        if (d !== undefined) this.w.violate(['T03'], 'heard-content', k + ' ' + short(x.bid) + ' is received with another value of ' + d);
    }
    settled(rec, ok, v) {
        const { w } = this;
        rec.settled = true; rec.settledAt = w.now; rec.ok = ok;
        w.note('settled ' + short(rec.op) + ' ' + ok);
        const f = rec.conn === undefined ? undefined : rec.conn.frames.find((x) => x.op === rec.op && x.name === rec.kind && x.seq === rec.seq);
        const run = f && f.run;
        this.decided('T01', rec.conn !== undefined && !rec.conn.clean || this.recs.some((x) => x !== rec && !x.settled));
        if (ok) {
            if (rec.killed) { w.violate(['T01'], 'killed', 'a destroyed request is answered'); return; }
            if (run === undefined || !run.done) { w.violate(['T01'], 'answer-invented', rec.kind + ' ' + short(rec.op) + ' is answered, its handler has not ' + (run === undefined ? 'run' : 'ended')); return; }
            if (rec.beacon) {
                if (run.fail !== undefined) w.violate(['T01'], 'beacon-failed', 'beacon ' + short(rec.op) + ' is confirmed, its handler failed');
                if (rec.called.length !== 1 || rec.called[0][0] !== 'response') w.violate(['T01'], 'callback', 'beacon ' + short(rec.op) + ' called back ' + rec.called.map((x) => x[0]).join(',') + ' instead of response');
                return;
            }
            const k = real(run.answer);
            const T = type(this.CP, k);
            if (!(v instanceof T)) { w.violate(['T01'], 'answer-kind', rec.kind + ' ' + short(rec.op) + ' gets ' + (v && v.getSignature ? v.getSignature() : typeof v) + ', its handler gave ' + k); return; }
            const d = differs(v, this.content(run.answer, rec.op), this.known);
            if (d !== undefined) w.violate(['T01', 'T03'], 'answer-content', 'the answer to ' + rec.kind + ' ' + short(rec.op) + ' has another value of ' + d);
            if (rec.called.length !== 1 || rec.called[0][0] !== run.cb || rec.called[0][1] !== v) w.violate(['T01'], 'callback', rec.kind + ' ' + short(rec.op) + ' called back [' + rec.called.map((x) => x[0]).join(',') + '] instead of ' + run.cb);
            return;
        }
        if (rec.beacon && !rec.killed && run !== undefined && run.done && run.fail !== undefined && rec.answered !== undefined) {
            if (!(v instanceof Error) || v.message !== run.fail) w.violate(['T01'], 'beacon-error', 'the failure of beacon ' + short(rec.op) + ' is reported as ' + (v && v.message));
            return;
        }
        const why = rec.killed || rec.me.destroyed || rec.sent === 'failed' || (rec.conn !== undefined && rec.conn.cli === 'closed');
        if (!why || (rec.answered !== undefined && !rec.killed)) w.violate(['T01'], 'rejected', rec.kind + ' ' + short(rec.op) + ' is rejected (' + (v && v.message) + ')' + (rec.answered !== undefined ? ', though its answer has been received' : ', though its session goes on'));
    }

    // ---- afterwards -----------------------------------------------------------------------------------
    quiet() {
        const { w } = this;
        if (w.crash !== undefined) return;
        const hard = (c) => !c.clean || c.injected === true;
        for (const c of this.net.conns) {
            if (c.script) continue;
            if (c.openedAt !== undefined) {
                this.decided('T05', hard(c));
                const told = this.over === undefined || c.was === 'open' || c.was === 'closed', toldEnd = this.over === undefined || c.was === 'closed';
                if (told && c.told !== 1) w.violate(['T05'], 'not-announced', c.uuid + ' is connected and announced ' + (c.told || 0) + ' times');
                if (toldEnd && c.closedAt !== undefined && c.toldEnd !== 1) w.violate(['T05'], 'end-not-announced', c.uuid + ' is disconnected, which is announced ' + (c.toldEnd || 0) + ' times');
                this.policies(c);
            }
            const me0 = c.peer.me;
            if (me0 !== undefined && me0.consumer !== undefined && !me0.destroyed && me0.client.conn === c) {
                if (c.cli === 'closed' && c.ups && c.downs !== 1) w.violate(['T09'], 'end-unreported', 'consumer ' + me0.n + ' does not report the end of its session');
                if (me0.oddErrors !== undefined && me0.oddErrors.length > 0) w.violate(['T09'], 'error-unreported', 'consumer ' + me0.n + ' does not report an error of its transport');
            }
            for (const f of c.frames) {
                if (f.expect !== 'must') continue;
                this.decided('T03', hard(c));
                if (f.run === undefined) { w.violate(c.changes > 0 ? ['T01', 'T03', 'T08', 'T10'] : ['T01', 'T03', 'T08'], 'unhandled', f.name + ' ' + short(f.op) + ' of an admitted consumer is never handled'); continue; }
                this.decided('T01', hard(c));
                if (f.run.done && f.run.answers === 0 && c.srv === 'open') w.violate(['T01', 'T08'], 'unanswered', 'the answer to ' + f.name + ' ' + short(f.op) + ' is never sent');
            }
            if (c.m.refused) {
                this.decided('T02', true);
                if (!c.kicks && c.srv === 'open') w.violate(['T02'], 'not-disconnected', c.uuid + ' is not disconnected, ' + c.m.refused);
            }
            if (c.rx.length > 0 && c.cli === 'open' && !c.peer.me.destroyed) w.violate(['T03', 'T09'], 'unheard', c.rx.length + ' broadcasts received by consumer ' + c.peer.me.n + ' are not told to the application, first: ' + c.rx[0].k);
            const me = c.peer.me;
            if (me !== undefined && c.clean && !c.injected && !me.destroyed && c.srv === 'open' && c.cli === 'open' && !c.m.refused && !(c.m.soft !== undefined)) {
                this.decided('T01', false);
                this.decided('T09', false);
                if (c.readies !== 1) w.violate(['T01', 'T02', 'T08', 'T09'], 'handshake', 'consumer ' + me.n + ' does not become ready on a connection without faults');
            }
        }
        for (const cast of this.casts.values()) {
            for (const uuid of new Set(cast.uuids)) {
                const c = this.net.byUuid.get(uuid);
                this.decided('T03', hard(c));
                if (cast.sent.has(uuid)) continue;
                if (c.srv === 'open') w.violate(['T03', 'T08'], 'cast-missing', cast.k + ' ' + short(cast.bid) + ' is not sent to ' + uuid + ', to which it is addressed');
            }
        }
        const trouble = this.net.conns.some((c) => hard(c) || c.m && (c.m.exp || c.m.unread));
        for (const c of this.net.conns) if (trouble && !hard(c) && c.frames !== undefined) for (const f of c.frames) if (f.expect === 'must') this.decided('T08', true);
        for (const run of this.runs.values()) {
            if (run.later && run.done) {
                this.decided('T06', false);
                if (run.deferred !== 1) w.violate(['T06'], 'deferred-never', 'work deferred by the handler of ' + run.kind + ' ' + short(run.op) + ' is not done');
            }
            if (run.want && !run.seen) w.violate(['T03', 'T08'], 'event-lost', run.kind + ' emitted by the application is not handled');
        }
        for (const rec of this.recs) this.pending(rec);
    }
    pending(rec) {
        if (rec.settled || rec.hung) return;
        const c = rec.conn;
        const f = c === undefined ? undefined : c.frames.find((x) => x.op === rec.op && x.seq === rec.seq);
        const bad = rec.sent === 'no' ? 'though nothing of it was sent' : rec.sent === 'failed' ? 'though it could not be sent' : rec.answered !== undefined ? 'though its answer has been received' : c.cli === 'closed' ? 'though its session ended' : rec.me.destroyed ? 'though its consumer is destroyed' : undefined;
        void f;
        if (bad !== undefined) { rec.hung = true; this.w.violate(['T01'], 'hanging', rec.kind + ' ' + short(rec.op) + ' stays pending, ' + bad); }
    }
    end() {
        if (this.w.crash !== undefined) return;
        for (const rec of this.recs) { if (!rec.settled) this.decided('T01', true); this.pending(rec); }
    }
}
// handlers of events reach `event` with four more arguments than the plan does
const step = Sim.prototype.event;
Sim.prototype.event = function (a, event, filter, Output, P) {
    if (event === undefined) return step.call(this, a);
    const run = this.runs.get(event.op);
    this.w.note('on ' + a + ' ' + short(event.op));
    this.gone('the handler of ' + a + ' runs');
    if (run === undefined || run.kind !== a || run.seen) this.w.violate(['T03'], 'event-wrong', 'handler of ' + a + ' runs for an event that has not been emitted, or again');
    const d = differs(event, this.content(a, event.op), this.known);
    if (d !== undefined) this.w.violate(['T03'], 'event-content', a + ' reaches its handler with another value of ' + d);
    const me = run || { casts: [] };
    me.seen = true;
    Object.assign(me, { ...this.event_(a, event.op), want: true, seen: true });
    this.checkFilter(filter);
    return this.hold(me.r, () => { this.fails(me, 'event'); me.done = true; return this.broadcasts(me, new Output(), this.EVENTS[a], filter, undefined, P); });
};

async function execute(plan, trees, log) {
    const s = new Sim(plan, trees);
    if (log) s.w.log = log;
    await s.execute();
    return s;
}

module.exports = { execute, Sim, CASTS, opOf, real, short };
