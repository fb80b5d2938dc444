'use strict';
// Simulated transports: connections are two byte streams that keep their order, are cut anywhere, and may end at any point.
const wire = require('./wire'), ware = require('./ware');

class Pipe {
    constructor(net, conn, dir) {
        this.net = net; this.conn = conn; this.dir = dir;
        this.bufs = []; this.len = 0;
        this.written = 0; this.read = 0;
        this.metas = [];               // frames on the way: { end, ...meta }
        this.parse = Buffer.alloc(0);  // written bytes that make no whole frame yet
        this.open = false;             // the receiver is ready
        this.dead = false;             // bytes written from now on are lost
        this.pending = false;
        this.then = undefined;
        this.chunks = 0;
    }
    /// Bytes of a peer; meta describes frames the harness wrote itself.
    write(buf, meta) {
        const out = [];
        if (meta !== undefined) {
            out.push(this.meta(buf, meta));
            this.push(buf, out);
            return out;
        }
        this.parse = this.parse.length === 0 ? buf : Buffer.concat([this.parse, buf]);
        let at = this.written - (this.parse.length - buf.length);
        while (this.parse.length >= wire.HEAD) {
            const h = wire.head(this.parse);
            if (h.len > 1 << 28) break;
            if (this.parse.length < wire.HEAD + h.len) break;
            const raw = this.parse.subarray(wire.HEAD, wire.HEAD + h.len), body = this.net.unseal(h, raw);
            at += wire.HEAD + h.len;
            out.push({ end: at, id: h.id, seq: h.seq, sig: h.sig, name: this.net.nameOf(h.id), ...wire.marks(body), body: Buffer.from(body), mark: this.net.mark(h, raw), own: true });
            this.parse = this.parse.subarray(wire.HEAD + h.len);
        }
        this.push(buf, out);
        return out;
    }
    meta(buf, meta) { const h = wire.head(buf); return { end: this.written + buf.length, mark: this.net.mark(h, buf.subarray(wire.HEAD)), ...meta }; }
    push(buf, metas) {
        this.written += buf.length;
        if (this.dead) return;
        this.metas.push(...metas);
        this.bufs.push(buf);
        this.len += buf.length;
        this.kick();
    }
    kick() {
        if (this.pending || !this.open || (this.len === 0 && this.then === undefined)) return;
        this.pending = true;
        this.net.w.at(this.net.delay(), this.dir + this.conn.n, () => { this.pending = false; this.deliver(); });
    }
    take(n) {
        const all = this.bufs.length === 1 ? this.bufs[0] : Buffer.concat(this.bufs);
        const out = Buffer.from(all.subarray(0, n));
        this.bufs = n < all.length ? [all.subarray(n)] : [];
        this.len -= n;
        this.read += n;
        return out;
    }
    deliver() {
        if (this.len > 0) {
            const n = this.net.cut(this);
            const chunk = this.take(n);
            const done = [];
            while (this.metas.length > 0 && this.metas[0].end <= this.read) done.push(this.metas.shift());
            this.chunks++;
            this.conn.deliver(this.dir, chunk, done, this.chunks);
        }
        if (this.len === 0 && this.then !== undefined) {
            const f = this.then;
            this.then = undefined;
            f();
        }
        this.kick();
    }
    /// No byte is accepted from now on, of those on the way `keep` are still delivered, then f is called.
    end(keep, f) {
        if (this.dead) return;
        this.dead = true;
        if (keep < this.len) {
            const all = Buffer.concat(this.bufs).subarray(0, keep);
            this.bufs = keep > 0 ? [all] : [];
            this.len = keep;
            this.metas = this.metas.filter((m) => m.end <= this.read + keep);
        }
        this.then = f;
        this.kick();
    }
}

class Conn {
    constructor(net, n, uuid, peer) {
        this.net = net; this.n = n; this.uuid = uuid; this.peer = peer;
        this.c2s = new Pipe(net, this, 'c');
        this.s2c = new Pipe(net, this, 's');
        this.srv = 'none';  // what the producer has been told: none, open, closed
        this.cli = 'none';  // what the client has been told
        this.clean = true;  // no fault touched it
        this.closing = false;
        this.failC = 0; this.failS = 0; // sends until one fails, 0: none
    }
    deliver(dir, chunk, metas, no) {
        if (dir === 'c') {
            if (this.srv !== 'open') return;
            this.net.gave('producer', metas);
            for (const m of metas) this.net.oracle.atServer(this, m, no);
            this.net.server.received(this, chunk);
            this.net.oracle.afterServer(this, metas);
        } else {
            if (this.cli !== 'open') return;
            this.net.gave('consumer', metas);
            for (const m of metas) this.net.oracle.atClient(this, m);
            this.peer.data(this, chunk);
        }
    }
    /// The connection breaks: each side gets some of what is on the way, then hears of it.
    drop(clean) {
        if (this.closing) return;
        this.closing = true;
        const r = this.net.w.rng;
        const keep = (p) => (clean ? p.len : r.below(3) === 0 ? 0 : r.below(3) === 0 ? p.len : r.below(p.len + 1));
        this.c2s.end(keep(this.c2s), () => this.serverGone());
        this.s2c.end(keep(this.s2c), () => this.clientGone());
    }
    serverGone() {
        if (this.srv !== 'open') { this.srv = 'closed'; return; }
        this.srv = 'closed';
        this.net.oracle.serverClosed(this);
        this.net.server.getEvents().disconnected.emit(this.uuid);
    }
    clientGone() {
        if (this.cli !== 'open') { this.cli = 'closed'; return; }
        this.cli = 'closed';
        this.peer.gone(this);
    }
}

class Net {
    constructor(w, clibri, set, oracle) {
        this.w = w; this.set = set; this.oracle = oracle; this.clibri = clibri;
        this.NOLISTEN = 'the port is taken'; this.NOSHUT = 'the transport does not stop';
        this.conns = []; this.byUuid = new Map(); this.names = new Map();
        const net = this;
        this.Server = class extends clibri.Server {
            constructor() {
                super();
                const S = clibri.Subject;
                this.events = { ready: new S(), shutdown: new S(), error: new S(), connected: new S(), disconnected: new S(), received: new S() };
            }
            getEvents() { return this.events; }
            listen() {
                net.listens = (net.listens || 0) + 1;
                return new Promise((resolve, reject) => w.at(net.delay(), 'listen', () => {
                    if (set.listenFail) { w.fault('transport cannot listen'); net.noListen = true; reject(new Error(net.NOLISTEN)); return; }
                    net.listening = true;
                    this.events.ready.emit();
                    resolve();
                }));
            }
            shutdown() {
                net.shuts = (net.shuts || 0) + 1;
                if (set.shutFail) {
                    w.fault('shutdown of the transport fails');
                    return new Promise((resolve, reject) => w.at(net.delay(), 'no shutdown', () => reject(new Error(net.NOSHUT))));
                }
                return new Promise((resolve) => w.at(net.delay(), 'shutdown', () => net.goDown(() => { net.shutDone = true; resolve(); })));
            }
            send(buffer, uuid) {
                const c = net.byUuid.get(uuid);
                const b = wire.bytes(buffer);
                if (c === undefined || c.srv !== 'open') {
                    const lost = c === undefined ? [] : new Pipe(net, c, 'x').write(b);
                    net.oracle.sent(c, lost, 'gone', uuid);
                    return net.watched(lost, net.promise(() => { throw new Error('no connection ' + uuid); }));
                }
                if (c.failS > 0 && --c.failS === 0) {
                    w.fault('send of the producer fails');
                    c.clean = false;
                    const lost = new Pipe(net, c, 'x').write(b);
                    net.oracle.sent(c, lost, 'failed', uuid);
                    return net.watched(lost, net.promise(() => { throw new Error('send failed'); }));
                }
                const metas = c.s2c.write(b);
                w.note('send ' + c.n + ' ' + metas.map((m) => m.id + ':' + m.seq + ':' + m.body.length).join(','));
                net.oracle.sent(c, metas, c.s2c.dead ? 'lost' : 'ok', uuid);
                return net.watched(metas, net.promise(() => undefined));
            }
            disconnect(uuid) {
                const c = net.byUuid.get(uuid);
                w.note('disconnect ' + (c === undefined ? uuid : c.n));
                if (c === undefined || c.srv !== 'open') return net.promise(() => { throw new Error('no connection ' + uuid); });
                net.oracle.disconnected(c);
                if (w.rng.chance(set.failDisconnect)) {
                    w.fault('disconnect of the producer fails');
                    return net.promise(() => { throw new Error('disconnect failed'); });
                }
                return new Promise((resolve) => w.at(net.delay(), 'closing' + c.n, () => {
                    // what the client sent before still arrives for a while
                    const r = w.rng;
                    if (!c.closing) {
                        c.closing = true;
                        c.s2c.end(r.chance(0.8) ? c.s2c.len : r.below(c.s2c.len + 1), () => c.clientGone());
                        w.at(r.chance(0.5) ? 0 : net.delay() + r.below(20), 'closed' + c.n, () => c.c2s.end(r.chance(0.5) ? c.c2s.len : 0, () => c.serverGone()));
                    }
                    resolve();
                }));
            }
            received(conn, chunk) { this.events.received.emit({ uuid: conn.uuid, buffer: chunk }); }
        };
        this.Client = class extends clibri.Client {
            constructor(label) {
                super();
                const S = clibri.Subject;
                this.label = label;
                this.events = { data: new S(), connected: new S(), disconnected: new S(), error: new S() };
                this.conn = undefined;
            }
            getEvents() { return this.events; }
            send(buffer) {
                const c = this.conn;
                const b = wire.bytes(buffer);
                if (c === undefined || c.cli !== 'open') {
                    net.oracle.clientSent(this, c, new Pipe(net, c, 'x').write(b), 'failed');
                    return new Error('not connected');
                }
                if (c.failC > 0 && --c.failC === 0) {
                    w.fault('send of the consumer fails');
                    c.clean = false;
                    net.oracle.clientSent(this, c, new Pipe(net, c, 'x').write(b), 'failed');
                    return new Error('send failed');
                }
                const metas = net.tamper(c, b);
                w.note('csend ' + c.n + ' ' + metas.map((m) => m.id + ':' + m.seq + ':' + m.body.length).join(','));
                net.oracle.clientSent(this, c, metas, c.c2s.dead ? 'lost' : 'ok');
                return undefined;
            }
            destroy() {
                const c = this.conn;
                return new Promise((resolve) => w.at(net.delay(), 'destroyed', () => { c !== undefined && c.cli === 'open' && c.drop(true); resolve(); }));
            }
            data(conn, chunk) {
                // as the transport of a browser or of Node hands it over
                const b = set.plainBuffers ? chunk.buffer.slice(chunk.byteOffset, chunk.byteOffset + chunk.byteLength) : chunk;
                this.events.data.emit(b);
            }
            gone(conn) { net.oracle.clientClosed(this, conn); this.events.disconnected.emit(); }
            isConnected() { return this.conn !== undefined && this.conn.cli === 'open'; }
        };
        this.server = new this.Server();
    }
    /// What a middleware has made of a message's body, undone.
    unseal(h, raw) {
        if (!this.set.middleware) return raw;
        const body = ware.open(h.id, h.seq, raw);
        if (body === undefined || !this.oracle.sealed.has(this.mark(h, raw))) this.w.violate(['T11'], 'ware-around', 'a message ' + (this.nameOf(h.id) || h.id) + ' is written that has not been encoded by the middleware');
        return body === undefined ? raw : body;
    }
    /// The transport of the producer stops: no connection remains, then it says so.
    goDown(then) {
        const emit = () => { this.server.getEvents().shutdown.emit(); then(); };
        if (this.down) return emit();
        this.down = true;
        for (const c of this.conns) { c.clean = false; c.drop(this.w.rng.chance(0.5)); }
        const wait = () => (this.conns.some((c) => c.srv === 'open' && !c.script) ? this.w.at(5, 'stopping', wait) : this.w.at(this.delay(), 'stopped', emit));
        wait();
    }
    mark(h, raw) { return this.set.middleware ? h.id + ':' + h.seq + ':' + ware.sum(h.id, h.seq, raw) : undefined; }
    gave(side, metas) {
        if (!this.set.middleware) return;
        const given = this.oracle.given[side];
        for (const m of metas) if (m.mark !== undefined) given.set(m.mark, (given.get(m.mark) || 0) + 1);
    }
    nameOf(id) { return this.names.get(id); }
    delay() { return this.set.delay === 0 ? 0 : this.w.rng.skew(this.set.delay); }
    /// The oracle hears of the end of a send before the one who called does.
    watched(metas, p) {
        const runs = metas.map((m) => m.run).filter((x) => x !== undefined);
        if (runs.length === 0) return p;
        for (const r of runs) r.sending = (r.sending || 0) + 1;
        const done = () => { for (const r of runs) r.sending--; };
        p.then(done, done);
        return p;
    }
    promise(f) {
        const d = this.set.latency === 0 ? 0 : this.w.rng.skew(this.set.latency);
        if (d === 0) { try { return Promise.resolve(f()); } catch (e) { return Promise.reject(e); } }
        return new Promise((resolve, reject) => this.w.at(d, 'sent', () => { try { resolve(f()); } catch (e) { reject(e); } }));
    }
    cut(p) {
        const r = this.w.rng;
        switch (this.set.cut) {
            case 'whole': return p.len;
            case 'frame': { const k = r.below(p.metas.length) + 1; const m = p.metas[k - 1]; return m === undefined ? p.len : Math.max(1, Math.min(p.len, m.end - p.read)); }
            case 'bytes': return 1 + r.below(Math.min(p.len, p.len > 400 ? 200 : 8));
            case 'edge': {
                // around the ends of headers and messages
                const ends = [];
                let from = p.read;
                for (const m of p.metas) { ends.push(from + 1, from + wire.HEAD - 1, from + wire.HEAD, from + wire.HEAD + 1, m.end - 1, m.end, m.end + 1); from = m.end; if (ends.length > 40) break; }
                const ok = ends.map((e) => e - p.read).filter((n) => n >= 1 && n <= p.len);
                return ok.length === 0 ? p.len : r.pick(ok);
            }
            default: return r.chance(0.3) ? p.len : 1 + r.below(p.len);
        }
    }
    /// What a man in the middle does with what a consumer sends.
    tamper(c, b) {
        if (c.tamper !== undefined) {
            const h = b.length >= wire.HEAD && !this.set.middleware ? wire.head(b) : undefined;
            if (h !== undefined && this.nameOf(h.id) === 'InternalServiceGroup.HashRequest') {
                const at = b.indexOf(c.tamper.hash, wire.HEAD, 'latin1');
                if (at >= 0) {
                    const i = at + c.tamper.at % c.tamper.hash.length;
                    b[i] = b[i] === 0x30 ? 0x31 : 0x30;
                    c.clean = false;
                    c.tampered = true;
                    this.w.fault('hash changed on its way');
                    const m = c.c2s.write(b);
                    for (const x of m) if (x.name === 'InternalServiceGroup.HashRequest') x.badHash = true;
                    return m;
                }
            }
        }
        return c.c2s.write(b);
    }
    connect(peer) {
        const n = this.conns.length;
        const c = new Conn(this, n, this.oracle.uuid(n), peer);
        this.conns.push(c);
        this.byUuid.set(c.uuid, c);
        peer.conn = c;
        this.oracle.connecting(c, peer);
        if (this.down || this.set.listenFail) return c;
        this.w.at(this.delay(), 'accept' + n, () => {
            if (c.srv !== 'none' || this.down) return;
            c.srv = 'open';
            this.oracle.serverOpened(c);
            this.server.getEvents().connected.emit(c.uuid);
            c.c2s.open = true;
            c.c2s.kick();
        });
        this.w.at(this.delay(), 'connect' + n, () => {
            if (c.cli !== 'none' || this.down) return;
            c.cli = 'open';
            this.oracle.clientOpened(c, peer);
            peer.events !== undefined && peer.events.connected.emit();
            peer.opened !== undefined && peer.opened(c);
            c.s2c.open = true;
            c.s2c.kick();
        });
        return c;
    }
}

module.exports = { Net, Pipe };
