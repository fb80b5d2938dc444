'use strict';
// node transpile.js SRC DST: TypeScript to CommonJS, file by file; reports what is no TypeScript at all.
const fs = require('fs'), path = require('path');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const [src, dst] = process.argv.slice(2);
let bad = 0;
(function walk(rel) {
    for (const e of fs.readdirSync(path.join(src, rel), { withFileTypes: true })) {
        const r = path.join(rel, e.name);
        if (e.isDirectory()) { walk(r); continue; }
        if (!e.name.endsWith('.ts')) continue;
        const out = ts.transpileModule(fs.readFileSync(path.join(src, r), 'utf8'), { reportDiagnostics: true, fileName: r, compilerOptions: { module: 'commonjs', target: 'es2020', strict: true } });
        for (const d of out.diagnostics || []) { bad++; console.log(r + ': ' + ts.flattenDiagnosticMessageText(d.messageText, ' ')); }
        const to = path.join(dst, r.replace(/\.ts$/, '.js'));
        fs.mkdirSync(path.dirname(to), { recursive: true });
        fs.writeFileSync(to, out.outputText);
    }
})('');
process.exitCode = bad ? 1 : 0;
