'use strict';
// A producer and consumers in one program, joined by queues: what is sent arrives, in its order, unless the scenario intervenes.
const clibri = require('clibri');
const prod = require('./prodjs/implementation/index.js'), context = require('./prodjs/context.js'), cons = require('./consjs/index.js');
const PP = require('./prodjs/implementation/protocol/index.js'), CP = cons.Protocol;
const bytes = (b) => (Buffer.isBuffer(b) ? Buffer.from(b) : ArrayBuffer.isView(b) ? Buffer.from(Buffer.from(b.buffer, b.byteOffset, b.byteLength)) : Buffer.from(Buffer.from(b)));
const HEAD = 26;
function frames(b) {
    const out = [];
    for (let p = 0; p + HEAD <= b.length;) {
        const len = Number(b.readBigUInt64LE(p + 18));
        out.push({ id: b.readUInt32LE(p), seq: b.readUInt32LE(p + 6), raw: b.subarray(p, p + HEAD + len) });
        p += HEAD + len;
    }
    return out;
}
class Conn {
    constructor(t, n, client) { this.t = t; this.n = n; this.uuid = 'u' + n; this.client = client; this.open = true; this.c2s = []; this.s2c = []; this.held = false; this.heldBack = false; this.sent = []; this.kicked = 0; client.conn = this; }
    pump() {
        if (!this.open) return;
        if (!this.held && this.c2s.length > 0) { const b = this.c2s.shift(); this.t.busy(); this.t.server.events.received.emit({ uuid: this.uuid, buffer: b }); }
        if (!this.open) return;
        if (!this.heldBack && this.s2c.length > 0) { const b = this.s2c.shift(); this.t.busy(); this.client.events.data.emit(b); }
    }
    /// Everything that waits for the producer arrives at once, cut into the given pieces.
    glue(...cuts) {
        let all = Buffer.concat(this.c2s);
        this.c2s = [];
        for (const c of cuts) { this.c2s.push(all.subarray(0, c)); all = all.subarray(c); }
        if (all.length > 0) this.c2s.push(all);
        this.held = false;
        this.t.busy();
    }
    drop() {
        if (!this.open) return;
        this.open = false;
        this.t.server.events.disconnected.emit(this.uuid);
        this.client.events.disconnected.emit();
        this.t.busy();
    }
}
class T {
    constructor() {
        const t = this, S = clibri.Subject;
        this.conns = []; this.log = []; this.turns = 0;
        this.app = {};           // handlers of the scenario: app.Multi = (request, scope, Response, P) => ...
        this.onSend = undefined; // (frame, conn): 'fail', a promise to wait for, or undefined
        this.server = new (class extends clibri.Server {
            constructor() { super(); this.events = { ready: new S(), shutdown: new S(), error: new S(), connected: new S(), disconnected: new S(), received: new S() }; }
            getEvents() { return this.events; }
            async listen() { this.events.ready.emit(); }
            async shutdown() { this.events.shutdown.emit(); }
            async send(buffer, uuid) {
                const b = bytes(buffer), c = t.conns.find((x) => x.uuid === uuid);
                if (c === undefined || !c.open) throw new Error('no connection ' + uuid);
                t.busy();
                for (const f of frames(b)) {
                    const what = t.onSend === undefined ? undefined : t.onSend(f, c);
                    if (what === 'fail') throw new Error('send failed');
                    c.sent.push(f);
                    if (what !== undefined) await what;
                }
                c.s2c.push(b);
            }
            async disconnect(uuid) {
                const c = t.conns.find((x) => x.uuid === uuid);
                t.log.push('kick ' + uuid);
                if (c === undefined || !c.open) throw new Error('no connection ' + uuid);
                c.kicked++;
                t.busy();
                setImmediate(() => c.drop());
            }
        })();
        globalThis.SIM = {
            request: (k, m, scope, R, P) => t.handle(k, [m, scope, R, P]),
            beacon: (k, m, scope) => t.handle(k, [m, scope]),
            event: (k, m, filter, O, P) => t.handle(k, [m, filter, O, P], O),
            session: (k, consumer, filter, O, P) => t.handle(k, [consumer, filter, O, P], O),
            error: (e, consumer) => { t.log.push('error ' + (e.getErrType === undefined ? 'server' : e.getErrType()) + (consumer === undefined ? '' : ' ' + consumer.uuid())); return Promise.resolve(); },
            ready: () => Promise.resolve(),
            shutdown: () => Promise.resolve(),
        };
    }
    /// By default: consumers are given a key, requests are answered the first way, nothing else is sent.
    async handle(k, args, O) {
        this.busy();
        if (k === 'connected' && this.app.connected === undefined) args[0].assign(new PP.Keys.Assigned({ uid: args[0].uuid(), level: 1, admin: undefined }), true);
        if (this.app[k] !== undefined) return this.app[k](...args);
        if (k === 'disconnected') { const out = new O(); out.broadcast([]).Note(this.note(0n)); return out; }
        if (O !== undefined) return new O();
        if (args.length === 2) return;
        const [m, , R, P] = args;
        switch (k) {
            case 'Multi': return new R(new P.RespC({ op: m.op }));
            case 'Quick': return new R(new P.RespC({ op: m.op }));
            case 'Deep.Ask': return new R(new P.Deep.Answer({ op: m.op, text: m.text }));
            case 'Echo': return new R(new P.Reply({ op: m.op, blob: m.blob }));
        }
        throw new Error('no handler of ' + k);
    }
    note(bid, text) { return new PP.Note({ bid, op: bid, text: text || '' }); }
    start(err, ident) {
        this.producer = new prod.Producer(this.server, new context.Context(), new clibri.Options({ consumerErrorHandelingStrategy: err, producerIndentificationStrategy: ident }));
        this.producer.listen();
    }
    consumer(name) {
        const t = this, S = clibri.Subject;
        const client = new (class extends clibri.Client {
            constructor() { super(); this.events = { data: new S(), connected: new S(), disconnected: new S(), error: new S() }; }
            getEvents() { return this.events; }
            send(buffer) {
                if (this.conn === undefined || !this.conn.open) return new Error('not connected');
                if (this.fail) { this.fail = false; return new Error('send failed'); }
                this.conn.c2s.push(this.alter === undefined ? bytes(buffer) : this.alter(bytes(buffer)));
                t.busy();
            }
            async destroy() { this.conn.drop(); }
        })();
        const me = { client, got: [], readies: [], ups: 0, downs: 0, name };
        me.consumer = new cons.Consumer(client, { name: name || 'somebody', rank: 1, note: undefined, tag: undefined }, { global: false });
        me.consumer.ready.subscribe((u) => me.readies.push(u));
        me.consumer.connected.subscribe(() => me.ups++);
        me.consumer.disconnected.subscribe(() => me.downs++);
        for (const k of ['Note', 'NoteB', 'NoteC', 'DeepNews', 'DeepInnerNews']) me.consumer.broadcast[k].subscribe((m) => me.got.push([k, m]));
        me.call = (kind, fields) => {
            const beacon = ['Ping', 'Deep.Mark'].includes(kind);
            const C = cons[(beacon ? 'Beacon' : '') + kind.replace('.', '')], x = new C(fields, me.consumer), r = { said: undefined };
            x.send().then((v) => { r.said = 'resolved'; r.value = v; }, (e) => { r.said = 'rejected'; r.value = e; });
            r.x = x;
            return r;
        };
        this.connect(me);
        return me;
    }
    connect(me) {
        const c = new Conn(this, this.conns.length, me.client);
        this.conns.push(c);
        me.conn = c;
        this.server.events.connected.emit(c.uuid);
        me.client.events.connected.emit();
        this.busy();
    }
    busy() { this.turns = 0; }
    turn() { return new Promise((r) => setImmediate(r)); }
    /// Until nothing has happened for a while.
    async idle() {
        for (this.turns = 0; this.turns < 30; this.turns++) {
            for (const c of this.conns) c.pump();
            await this.turn();
        }
    }
}
function play(f) {
    let bad = 0;
    const t = new T();
    t.check = (ok, what) => { if (!ok) { bad++; console.log('WRONG: ' + what); } };
    process.on('unhandledRejection', (e) => { console.log('unhandled: ' + (e && e.stack || e)); process.exit(3); });
    f(t).then(() => { console.log(bad ? 'failed' : 'fine'); process.exit(bad ? 1 : 0); }, (e) => { console.log(e && e.stack || e); process.exit(2); });
}
module.exports = { play, PP, CP, cons, prod, clibri, bytes, frames, HEAD };
