'use strict';
// Generated Rust peers in lockstep: a process that does nothing but what it is told to, up to the moment it is given.
const fs = require('fs'), os = require('os'), path = require('path');
const { spawn, execFileSync } = require('child_process');

let dir;
const PAIRS = 24; // a process that is being ended must not meet its successor
let turn = 0;
function fifos() {
    const name = (w, n) => path.join(dir, w + n);
    if (dir === undefined) {
        dir = fs.mkdtempSync(path.join(os.tmpdir(), 'clibri-peer-'));
        const all = [];
        for (let n = 0; n < PAIRS; n++) all.push(name('in', n), name('out', n));
        execFileSync('mkfifo', all);
        process.on('exit', () => fs.rmSync(dir, { recursive: true, force: true }));
    }
    turn = (turn + 1) % PAIRS;
    return [name('in', turn), name('out', turn)];
}
class Peer {
    constructor(w, binary, args, said) {
        this.w = w; this.said = said;
        this.out = []; this.flushing = false; this.timer = undefined; this.dead = false;
        this.rest = ''; this.buf = Buffer.alloc(1 << 20);
        const [i, o] = fifos();
        const open = (f) => { const both = fs.openSync(f, 'r+'), r = fs.openSync(f, 'r'), wr = fs.openSync(f, 'w'); fs.closeSync(both); return [r, wr]; };
        const [ir, iw] = open(i), [or, ow] = open(o);
        this.child = spawn(binary, args.map(String), { stdio: [ir, ow, 'inherit'] });
        this.child.on('error', () => undefined);
        fs.closeSync(ir); fs.closeSync(ow);
        this.write = iw; this.read = or;
        this.reply();
    }
    cmd(line) {
        if (this.dead) return;
        this.out.push(line);
        if (this.flushing) return;
        this.flushing = true;
        this.w.at(0, 'peer', () => { this.flushing = false; this.flush(); });
    }
    flush() {
        if (this.dead) return;
        const b = Buffer.from(this.w.now + '\n' + this.out.map((x) => x + '\n').join('') + '.\n', 'latin1');
        this.out = [];
        for (let at = 0; at < b.length;) at += fs.writeSync(this.write, b, at);
        this.reply();
    }
    reply() {
        const lines = [];
        for (;;) {
            const n = fs.readSync(this.read, this.buf);
            if (n === 0) {
                this.dead = true;
                if (!this.alive) throw new Error('the process of the Rust peers does not start');
                this.said(['died']);
                return;
            }
            this.alive = true;
            const text = this.rest + this.buf.latin1Slice(0, n);
            const parts = text.split('\n');
            this.rest = parts.pop();
            lines.push(...parts);
            if (parts.length > 0 && parts[parts.length - 1].startsWith('. ')) break;
        }
        const next = lines.pop().slice(2);
        if (this.timer !== undefined) { this.timer.off = true; this.timer = undefined; }
        if (next !== '-') {
            const ms = Number(BigInt(next) / 1000000n);
            this.timer = this.w.at(Math.max(0, ms - this.w.now), 'rust', () => { this.timer = undefined; this.flush(); });
        }
        for (const l of lines) this.said(l.split(' '));
    }
    close() {
        if (this.write !== undefined) { fs.closeSync(this.write); fs.closeSync(this.read); this.write = undefined; }
        this.dead = true;
        this.child.kill('SIGKILL');
    }
}
module.exports = { Peer };
