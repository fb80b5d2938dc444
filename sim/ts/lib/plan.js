'use strict';
// What happens in an execution, drawn from its seed. Every item of `ops` can be dropped without changing the others.
const { Rng } = require('./world');

const REQS = ['Echo', 'Multi', 'Same', 'Quick', 'Deep.Ask'];
const BEACONS = ['Ping', 'Deep.Mark'];
const PROFILES = ['calm', 'busy', 'hand', 'mitm', 'loss', 'mix', 'refuse', 'values', 'fail', 'ident', 'ware', 'life'];
const ODD = ['connected again', 'disconnected, unknown', 'disconnected again', 'data, unknown', 'server error', 'send to unknown', 'client error'];
const BAD = ['unknown id', 'signature', 'empty body', 'missing field', 'wrong size', 'no struct', 'enum', 'service', 'sealed'];

function generate(seed, profile) {
    const r = new Rng(BigInt(seed) * 3n + 1n);
    const is = (...x) => x.includes(profile) || (profile === 'mix' && r.chance(0.6)) || (profile === 'fail' && r.chance(0.5)) || (['ident', 'ware'].includes(profile) && r.chance(0.3));
    const set = {
        delay: r.pick([0, 1, 5, 30]), latency: r.pick([0, 0, 3, 20]), cut: r.pick(['whole', 'frame', 'any', 'any', 'edge', 'bytes']),
        hold: r.pick([0, 1, 20, 80]), plainBuffers: r.chance(0.5), big: r.pick([0, 0, 1]), salt: r.u32(),
        err: r.below(4), ident: r.chance(0.6) ? 1 : r.below(5), assign: r.pick([0, 0.5, 1]), failDisconnect: is('hand', 'mitm') && r.chance(0.3) ? 0.5 : 0,
        beaconFail: r.pick([0, 0.2]), global: r.chance(0.3), horizon: r.pick([20, 100, 300]),
        session: r.chance(0.7), deferred: r.chance(0.5), handlerFail: profile === 'fail' ? r.pick([0.05, 0.2, 0.5]) : 0, failText: r.below(4), identity: profile === 'ident' || r.chance(0.4),
        middleware: profile === 'ware' || r.chance(0.15), plainWare: r.chance(0.5), keys: r.pick([0, 0, 0, 1, 2]),
    };
    if (profile === 'ident') { set.ident = r.below(5); set.assign = r.pick([0, 0.5]); }
    if (profile === 'values') { set.big = r.pick([1, 2, 2]); set.cut = r.pick(['whole', 'any', 'edge']); }
    if (profile === 'life') {
        // life of the producer and of its transport
        set.listenFail = r.chance(0.2); set.shutFail = r.chance(0.3); set.stageFail = r.chance(0.3); set.handlerFail = r.pick([0, 0, 0.2]);
    }
    if (set.big === 2) set.delay = Math.min(set.delay, 1);
    const ops = [];
    const when = () => r.below(set.horizon);
    const n = profile === 'busy' ? 2 + r.below(4) : 1 + r.below(3);
    let uid = 1;
    for (let c = 0; c < n; c++) {
        const start = r.chance(0.6) ? 0 : when();
        ops.push({ k: 'consumer', c, at: start });
        const calls = profile === 'busy' ? 4 + r.below(25) : profile === 'values' ? 2 + r.below(5) : r.below(10);
        const burst = r.chance(0.4) ? when() : undefined;
        if (r.chance(profile === 'busy' ? 0.5 : 0.1)) {
            for (let i = 1 + r.below(2); i > 0; i--) {
                const at = when();
                ops.push({ k: 'skip', c, at, mod: r.pick([127, 128, 255, 255, 256, 256, 1000, 1024, 32768, 65535, 65536]), off: r.below(5) - 2 });
                for (let j = 1 + r.below(4); j > 0; j--) ops.push({ k: 'call', c, id: uid++, kind: r.pick([...REQS, ...BEACONS]), at: at + r.below(3), ready: true, reuse: false, kill: false, implied: set.global && c === 0 });
            }
        }
        for (let i = 0; i < calls; i++) {
            const kind = r.pick(profile === 'values' ? ['Echo', 'Echo', 'Quick', 'Multi', 'Deep.Ask'] : [...REQS, ...REQS, ...BEACONS]);
            ops.push({ k: 'call', c, id: uid++, kind, at: burst !== undefined && r.chance(0.7) ? burst : when(), ready: !is('hand') || r.chance(0.9), reuse: r.chance(0.15), kill: r.chance(0.04), implied: set.global && c === 0 });
        }
        if (is('loss')) {
            for (let i = r.below(3); i > 0; i--) ops.push({ k: 'drop', c, at: when(), clean: r.chance(0.3) });
            for (let i = r.below(3); i > 0; i--) ops.push({ k: 'again', c, at: when() + r.below(60) });
            for (let i = r.below(3); i > 0; i--) ops.push({ k: 'fail', c, at: when(), dir: r.pick(['c', 's']), n: 1 + r.below(4) });
            if (r.chance(0.15)) ops.push({ k: 'destroy', c, at: when() });
            if (r.chance(0.2)) ops.push({ k: 'kick', c, at: when() });
        }
        if (is('mitm')) {
            for (let i = r.below(6); i > 0; i--) ops.push({ k: 'bad', c, at: when(), dir: r.pick(['c', 's', 's']), what: r.pick(BAD), sub: r.below(1000), id: uid++ });
        }
        if (is('refuse') && r.chance(0.5)) ops.push({ k: 'tamper', c, at: 0, hash: r.below(2), pos: r.below(64) });
    }
    for (let i = r.below(profile === 'busy' ? 8 : 3); i > 0; i--) ops.push({ k: 'event', kind: r.pick(['Tick', 'Deep.Pulse']), at: when(), id: uid++ });
    if (profile === 'fail') for (let i = r.below(6); i > 0; i--) ops.push({ k: 'odd', c: r.below(n), at: when(), what: r.pick(ODD), id: uid++ });
    if (profile === 'hand' || is('hand') || is('mitm') || r.chance(0.2)) {
        for (let i = 1 + r.below(3); i > 0; i--) {
            const at = when();
            ops.push({ k: 'raw', at, id: uid, seq: r.pick([r.below(1000), r.below(1000), 0, 250, 65530, 2 ** 31 - 3, 2 ** 32 - 40]), steps: script(r, () => uid++), glue: r.pick([0, 0.5, 1]), gap: r.pick([0, 1, 10]), wait: r.chance(0.5), close: r.chance(0.3) });
        }
    }
    if (profile === 'life') {
        for (let i = r.below(4); i > 0; i--) ops.push({ k: 'serr', at: when(), c: r.below(n), id: uid++ });
        for (let i = r.below(3); i > 0; i--) ops.push({ k: 'drop', c: r.below(n), at: when(), clean: r.chance(0.3) });
        for (let i = r.below(4); i > 0; i--) ops.push({ k: 'event', kind: r.pick(['Tick', 'Deep.Pulse']), at: when() + r.below(100), id: uid++ });
        const end = when();
        if (r.chance(0.8)) ops.push({ k: r.pick(['over', 'over', 'down']), at: end });
        if (r.chance(0.3)) ops.push({ k: r.pick(['over', 'down', 'serr']), at: end + r.below(60), c: r.below(n), id: uid++ });
    }
    if (is('refuse') && r.chance(0.6)) {
        ops.push({ k: 'script', c: n, at: when(), variant: r.below(8), id: uid++ });
    }
    return { seed, profile, set, ops };
}
/// Messages of a raw client: mostly a proper handshake with something out of order.
function script(r, uid) {
    const app = () => ({ s: 'app', kind: r.pick([...REQS, ...BEACONS]), id: uid() });
    let steps = [{ s: 'key' }, { s: 'hash' }];
    switch (r.below(10)) {
        case 0: steps = [{ s: 'hash' }, { s: 'key' }]; break;
        case 1: steps = [{ s: 'hash' }]; break;
        case 2: steps = [{ s: 'key' }]; break;
        case 3: steps = [{ s: 'key' }, { s: 'badhash', which: r.below(2), pos: r.below(64), form: r.below(4) }]; break;
        case 4: steps = [{ s: 'key' }, { s: 'hash' }, app(), { s: 'badhash', which: r.below(2), pos: r.below(64), form: r.below(4) }]; break;
        case 5: steps = []; break;
        case 6: steps = [{ s: 'badhash', which: r.below(2), pos: r.below(64), form: r.below(4) }, { s: 'key' }, { s: 'hash' }]; break;
        case 7: steps = [{ s: 'key' }, app(), { s: 'hash' }]; break;
        default: break;
    }
    for (let i = r.below(6); i > 0; i--) {
        const what = r.below(10);
        const x = what < 6 ? app() : what === 6 ? { s: 'bad', what: r.pick(BAD), sub: r.below(1000), id: uid() } : what === 7 ? { s: 'key' } : what === 8 ? { s: 'hash' } : { s: 'badhash', which: r.below(2), pos: r.below(64), form: r.below(4) };
        if (r.chance(0.7)) steps.push(x);
        else steps.splice(r.below(steps.length + 1), 0, x);
    }
    steps.push(app());
    return steps;
}

module.exports = { generate, REQS, BEACONS, PROFILES, BAD };
