'use strict';
// node main.js work TREE PROP BASE WORKER WORKERS SECONDS OUT REPLAY | replay TREE FILE [-q] | look TREE PROFILE SEED COUNT
const fs = require('fs'), path = require('path');
const { Tree } = require('./lib/world');
const plain = require('./lib/plan'), mix = require('./lib/mix');
const generate = (seed, profile) => (mix.PROFILES.includes(profile) ? mix : plain).generate(seed, profile);
const execute = (plan, trees, log) => (plan.set.mixed ? mix.execute(plan, trees.mixed(), log) : require('./lib/sim').execute(plan, trees.own(), log));
const performance = require('perf_hooks').performance;
const RealDate = Date;

const MASK = (1n << 64n) - 1n;
function splitmix(base, n) {
    let z = (BigInt(base) * 0x9E3779B97F4A7C15n + BigInt(n) * 0xD1342543DE82EF95n) & MASK;
    z = ((z ^ (z >> 30n)) * 0xBF58476D1CE4E5B9n) & MASK;
    z = ((z ^ (z >> 27n)) * 0x94D049BB133111EBn) & MASK;
    return z ^ (z >> 31n);
}
const WEIGHT = {
    T01: ['busy', 'busy', 'loss', 'loss', 'mix', 'calm', 'values', 'hand'],
    T02: ['hand', 'hand', 'hand', 'refuse', 'refuse', 'mix', 'mitm', 'busy'],
    T04: mix.PROFILES,
    T05: ['loss', 'hand', 'fail', 'mix', 'busy', 'loss'],
    T06: ['busy', 'busy', 'loss', 'calm', 'mix', 'fail', 'values'],
    T07: ['hand', 'mitm', 'fail', 'refuse', 'mix', 'mitm'],
    T08: ['fail', 'fail', 'mix', 'mitm', 'loss', 'hand'],
    T10: ['ident', 'ident', 'busy', 'hand', 'ident', 'mix'],
    T11: ['ware'],
    T12: ['life'],
    T09: ['loss', 'hand', 'fail', 'mix', 'mitm', 'busy'],
    T03: ['busy', 'mitm', 'mitm', 'values', 'mix', 'loss', 'calm', 'hand'],
};
function trees(root) {
    const at = (root) => { root = path.resolve(root); return { clibri: new Tree(root), prod: new Tree(path.join(root, 'prod')), cons: new Tree(path.join(root, 'cons')), flow: JSON.parse(fs.readFileSync(path.join(root, 'flow.json'))) }; };
    const variant = fs.existsSync(path.join(root, 'variant')) ? fs.readFileSync(path.join(root, 'variant'), 'utf8') : '0', v = path.basename(path.dirname(path.resolve(root))).slice(2);
    let own, mixed;
    // trees of the peers in TypeScript only, and of those with counterparts in Rust
    return {
        variant,
        own: () => own || (own = at(root)),
        mixed: () => mixed || (mixed = { ...at(path.join(root, '..', '..', 'x' + v, 'js')), peer: path.resolve(root, '..', '..', 'sim' + v, 'debug', 'peer') }),
    };
}
const strip = (plan, removed) => ({ ...plan, ops: plan.ops.filter((_, i) => !removed.has(i)) });
const found = (s, prop, cls) => s.w.violations.find((v) => v.props.includes(prop) && (cls === undefined || v.cls === cls));

async function minimise(plan, prop, v, t, deadline) {
    const removed = new Set();
    let tries = 0, last = v;
    const attempt = async (extra) => {
        const r = new Set([...removed, ...extra]);
        tries++;
        const s = await execute(strip(plan, r), t);
        const x = found(s, prop, v.cls);
        if (x === undefined) return false;
        for (const i of extra) removed.add(i);
        last = x; last.hash = s.w.hash;
        return true;
    };
    for (let size = Math.ceil(plan.ops.length / 2); size >= 1 && performance.now() < deadline; size = Math.floor(size / 2)) {
        for (let at = 0; at < plan.ops.length && performance.now() < deadline; at += size) {
            const extra = [];
            for (let i = at; i < Math.min(plan.ops.length, at + size); i++) if (!removed.has(i)) extra.push(i);
            if (extra.length > 0 && tries < 400) await attempt(extra);
        }
    }
    // a second pass of single items
    for (let i = 0; i < plan.ops.length && tries < 500 && performance.now() < deadline; i++) if (!removed.has(i)) await attempt([i]);
    return { removed, tries, last };
}

async function work(root, prop, base, worker, workers, seconds, out, replay) {
    const t = trees(root), t0 = performance.now();
    const d = { runs: 0, evals: 0, nontrivial: 0, distinct: 0, hard: 0, steps: 0, events: 0, time: 0, known_empty: 0, faults: {}, profiles: {}, samples: [], errors: [], violation: null };
    const seen = new Set(), progress = fs.openSync(out + '.progress', 'w');
    for (let n = BigInt(worker); performance.now() - t0 < seconds * 1000; n += BigInt(workers)) {
        const seed = splitmix(base, n).toString();
        const profile = WEIGHT[prop][Number((n / BigInt(workers)) % BigInt(WEIGHT[prop].length))];
        fs.writeSync(progress, profile + ' ' + seed + '\n');
        const plan = generate(seed, profile);
        let s;
        try {
            s = await execute(plan, t);
        } catch (e) {
            d.errors.push('harness, ' + profile + ' ' + seed + ': ' + (e.stack || e));
            if (d.errors.length > 3) break;
            continue;
        }
        d.runs++;
        d.evals += s.counts[prop];
        d.hard += s.hard[prop];
        d.steps += s.w.steps; d.events += s.w.events; d.time += s.w.now * 1e6;
        d.known_empty += s.known.empty || 0;
        d.profiles[profile] = (d.profiles[profile] || 0) + 1;
        for (const k of Object.keys(s.w.faults)) d.faults[k] = (d.faults[k] || 0) + s.w.faults[k];
        if (!seen.has(s.w.hash)) { seen.add(s.w.hash); d.distinct++; if (s.counts[prop] > 0) d.nontrivial++; }
        if (d.samples.length < 3 && s.counts[prop] > 3) d.samples.push(profile + ' ' + seed + ': ' + plan.ops.length + ' items, ' + s.w.steps + ' steps, ' + s.counts[prop] + ' decided');
        const v = found(s, prop);
        if (v !== undefined) {
            const m = await minimise(plan, prop, v, t, performance.now() + 12000);
            const again = await execute(strip(plan, m.removed), t);
            fs.writeFileSync(replay, 'property: ' + prop + '\nvariant: ' + t.variant + '\nprofile: ' + profile + '\nseed: ' + seed + '\nremoved: ' + [...m.removed].sort((a, b) => a - b).join(',') + '\nhash: ' + again.w.hash + '\nclass: ' + v.cls + '\nviolation: ' + m.last.message.replace(/\n/g, ' ') + '\nrepeat with: python3 /verif/tools/ts.py replay THIS-FILE\n');
            d.violation = { profile, seed, message: m.last.message, left: plan.ops.length - m.removed.size, items: plan.ops.length, tries: m.tries };
            break;
        }
    }
    fs.writeFileSync(out, JSON.stringify(d));
}

async function replay(root, file, quiet) {
    const f = Object.fromEntries(fs.readFileSync(file, 'utf8').trim().split('\n').map((l) => [l.slice(0, l.indexOf(':')), l.slice(l.indexOf(':') + 1).trim()]));
    const plan = strip(generate(f.seed, f.profile), new Set(f.removed === '' ? [] : f.removed.split(',').map(Number)));
    const log = quiet ? undefined : [];
    const s = await execute(plan, trees(root), log);
    if (!quiet) {
        console.log('settings: ' + JSON.stringify(plan.set));
        for (const op of plan.ops) console.log('plan: ' + JSON.stringify(op));
        console.log(log.join('\n'));
    }
    const v = found(s, f.property, f.class);
    console.log(v === undefined ? 'no violation' : f.property + ': ' + v.message);
    console.log('trace ' + s.w.hash + (String(s.w.hash) === f.hash ? ', as recorded' : ', recorded: ' + f.hash));
    return v === undefined ? 0 : 1;
}

async function look(root, profile, seed, count, what) {
    const t = trees(root), t0 = performance.now();
    const all = {}, counts = {}, faults = {};
    let bad = 0, n = 0;
    for (let i = 0; i < count; i++) {
        const p = profile === 'all' ? plain.PROFILES[i % plain.PROFILES.length] : profile === 'x' ? mix.PROFILES[i % mix.PROFILES.length] : profile;
        const sd = (BigInt(seed) + BigInt(i)).toString();
        const s = await execute(generate(sd, p), t);
        n++;
        for (const k of Object.keys(s.counts)) counts[k] = (counts[k] || 0) + s.counts[k];
        for (const k of Object.keys(s.w.faults)) faults[k] = (faults[k] || 0) + s.w.faults[k];
        if (what === 'hashes') console.log(sd, s.w.hash);
        for (const v of s.w.violations) {
            const k = v.cls;
            if (all[k] === undefined) { all[k] = { n: 0, first: p + ' ' + sd, message: v.message, props: v.props.join(',') }; }
            all[k].n++;
            bad++;
        }
    }
    if (what !== 'hashes') console.log(JSON.stringify({ runs: n, ms: Math.round(performance.now() - t0), counts, faults, all }, null, 1));
}

const a = process.argv.slice(2);
(async () => {
    if (a[0] === 'work') return work(a[1], a[2], a[3], Number(a[4]), Number(a[5]), Number(a[6]), a[7], a[8]);
    if (a[0] === 'replay') { process.exitCode = await replay(a[1], a[2], a[3] === '-q'); return; }
    if (a[0] === 'look') return look(a[1], a[2], a[3], Number(a[4]), a[5]);
    console.error('usage');
    process.exitCode = 2;
})().catch((e) => { console.error(e); process.exitCode = 2; });
