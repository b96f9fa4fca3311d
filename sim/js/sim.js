// Simulator for src/jswrapper/getRandomSeed.js (C14): the file is loaded as it is appended to the
// bundles, into a fresh realm whose global objects and WebCrypto device are simulated. A plan is a
// history of calls against a device that works, breaks, lies and recovers. Same command line, plan
// format and determinism rules as sim/core.
'use strict';
const fs = require('fs'), vm = require('vm'), crypto = require('crypto');
const args = process.argv.slice(2); let repo = '/repo';
if (args[0] === '--repo') { repo = args[1]; args.splice(0, 2); }
const SRC = new vm.Script(fs.readFileSync(repo + '/src/jswrapper/getRandomSeed.js', 'latin1').replace(/^/, '(function (Module, globalThis, self, window, __g) { ') + '\n})', { filename: 'getRandomSeed.js' });
const SRC_PLAIN = new vm.Script('(function (Module) { ' + fs.readFileSync(repo + '/src/jswrapper/getRandomSeed.js', 'latin1') + '\n})', { filename: 'getRandomSeed.js' });

// ---- deterministic numbers (64-bit seeds as decimal strings) ----
const M = (1n << 64n) - 1n;
function mix64(x) { x = (x + 0x9e3779b97f4a7c15n) & M; x = ((x ^ (x >> 30n)) * 0xbf58476d1ce4e5b9n) & M; x = ((x ^ (x >> 27n)) * 0x94d049bb133111ebn) & M; return x ^ (x >> 31n); }
function Rng(seed) { let z = mix64(BigInt(seed)); let a = Number(z & 0xffffffffn) | 0, b = Number((z >> 32n) & 0xffffffffn) | 0, c = 1; function next() { const t = (((a + b) | 0) + c) | 0; c = (c + 1) | 0; a = b ^ (b >>> 9); b = (c + (b << 3)) | 0; b = ((b << 21) | (b >>> 11)) ^ t; return t >>> 0; } for (let i = 0; i < 12; i++) next(); return { next, below: n => n ? next() % n : 0, chance: (n, d) => next() % d < n, pick(a) { return a[next() % a.length]; } }; }

// ---- plans ----
const HOME = ['global', 'self', 'window', 'self+window', 'global+self', 'none', 'noglobal-self', 'noglobal-window'];
const DEV = ['ok', 'ok', 'ok', 'ok', 'zero', 'throw', 'nofn', 'gone', 'onebyte', 'lastbyte', 'notfn', 'getterthrows', 'late', 'ok', 'badthis'];
function gen(prop, tier, seed) {
    const r = Rng(seed); let t = `plan 1\nprop ${prop}\nscenario jsseed\ntier ${tier}\nseed ${seed}\n`;
    const home = r.chance(1, 2) ? HOME[r.below(3)] : r.pick(HOME); t += `cfg devseed ${r.next()}\ncfg home ${home}\ncfg plain ${home === 'global' && r.chance(1, 3) ? 1 : 0}\ncfg decoys ${r.chance(1, 5) ? 0 : 1}\n`;
    const n = 1 + r.below(tier === 'thorough' ? 12 : 7), sizes = ['1', '2', '3', '8', '15', '16', '16', '17', '31', '32', '33', '47', '48', '48', '49', '51', '64', '100', '255', '256', '257', '1000', '65535', '65536', '65537', '70000', 'undefined', 'undefined', 'none'];
    const bad = ['0', '-1', '-48', '1.5', '48.000001', '0.5', '-0.5', 'NaN', 'Infinity', '-Infinity', 'null', 'true', 'false', "'48'", "''", "'abc'", '[]', '[48]', '{}', '({valueOf:function(){return 48}})', 'function(){}', '48n', "Symbol('x')", '1e300', '9007199254740993', '0x20000000000000'];
    for (let i = 0; i < n; i++) {
        if (r.chance(1, 5)) t += 'call ' + Buffer.from(r.pick(bad)).toString('hex') + '\n';
        else { const big = r.chance(1, 30); let s = r.pick(sizes); if (s.length >= 5 && s !== 'undefined' && !big) s = String(1 + r.below(120)); t += 'call ' + Buffer.from(s).toString('hex') + '\n'; }
        if (r.chance(2, 5)) t += `device ${r.pick(DEV)} ${r.chance(1, 3) ? 'once' : 'stay'}\n`;
        if (r.chance(1, 9)) t += `memory ${r.below(60)}\n`;
        if (r.chance(1, 12)) t += `home ${r.pick(HOME.slice(0, 6))}\n`;
    }
    return t;
}
function parse(text) {
    const p = { cfg: {}, ops: [] }; let any = false;
    for (const line of text.split('\n')) { if (!line || line[0] === '#') continue; const w = line.split(' '); any = true; if (w[0] === 'plan') continue; if (['prop', 'scenario', 'tier', 'seed'].includes(w[0])) p[w[0]] = w[1]; else if (w[0] === 'cfg') p.cfg[w[1]] = w[2]; else p.ops.push(w); }
    return any ? p : null;
}

// ---- one run ----
function exec(p, verbose) {
    const c = { h: crypto.createHash('sha1'), n: 0, viol: [], cnt: {}, shape: crypto.createHash('sha1'), nontrivial: false, states: new Set() };
    const ev = s => { c.n++; c.h.update(s + '\n'); if (verbose) console.log('ev', c.n, s); }, count = k => { c.cnt[k] = (c.cnt[k] || 0) + 1; };
    const fail = (cls, msg) => { c.viol.push(['C14', cls, msg]); ev('VIOL ' + cls); };
    const dev = Rng(p.cfg.devseed || 1);
    let mode = 'ok', once = false, home = p.cfg.home || 'global', memory = -1, delivered = [], devErrors = 0, answered = 0;
    class Vec { constructor() { this.v = []; if (memory === 0) { memory = -1; count('fault_vector_allocation'); throw new Error('simulated: out of memory'); } } push_back(x) { if (memory > 0 && this.v.length >= memory) { memory = -1; count('fault_vector_allocation'); throw new Error('simulated: out of memory'); } if (typeof x !== 'number' || !(x >= 0 && x <= 255) || Math.floor(x) !== x) throw new TypeError('simulated: cannot convert ' + String(x)); this.v.push(x); } size() { return this.v.length; } get(i) { return this.v[i]; } set(i, x) { this.v[i] = x & 255; return true; } resize(n, x) { while (this.v.length > n) this.v.pop(); while (this.v.length < n) this.v.push(x & 255); } delete() { this.v = []; } }
    const Module = { Uint8Vector: Vec };
    const ctx = vm.createContext({}, { codeGeneration: { strings: false, wasm: false } });
    function grv(view) {
        if (this !== dev_crypto && mode !== 'badthis') { devErrors++; throw new TypeError('simulated: Illegal invocation'); }
        if (!ArrayBuffer.isView(view) || !/^(Ui|I)nt(8|16|32)(Clamped)?Array$|^Uint8ClampedArray$|^Big(Ui|I)nt64Array$/.test(Object.getPrototypeOf(view).constructor.name)) { devErrors++; throw new TypeError('simulated: not an integer typed array'); }
        if (view.byteLength > 65536) { devErrors++; count('fault_quota'); throw new Error('simulated: QuotaExceededError'); }
        if (mode === 'throw') { devErrors++; count('fault_device_throws'); throw new Error('simulated: OperationError'); }
        const b = Buffer.from(view.buffer, view.byteOffset, view.byteLength);
        if (mode === 'late') { for (let i = 0; i < b.length / 2; i++) b[i] = dev.next() & 255; devErrors++; count('fault_device_throws_after_half'); throw new Error('simulated: OperationError'); }
        for (let i = 0; i < b.length; i++) b[i] = dev.next() & 255;
        if (mode === 'zero') { b.fill(0); count('fault_device_zero'); }
        if (mode === 'onebyte') { b.fill(0); b[0] = 1 + dev.next() % 255; count('fault_device_nearly_zero'); }
        if (mode === 'lastbyte') { b.fill(0); if (b.length) b[b.length - 1] = 1 + dev.next() % 255; count('fault_device_nearly_zero'); }
        delivered.push(Buffer.from(b)); answered++; return view;
    }
    const dev_crypto = {};
    Object.defineProperty(dev_crypto, 'getRandomValues', { get() { if (mode === 'nofn') { count('fault_no_function'); return undefined; } if (mode === 'notfn') { count('fault_no_function'); return 'function'; } return grv; } });
    const where = k => { const g = { configurable: true, get() { if (mode === 'gone') { count('fault_no_crypto'); return undefined; } if (mode === 'getterthrows') { count('fault_getter_throws'); throw new Error('simulated: access denied'); } return (k === '' ? home !== 'none' : home.includes(k)) ? dev_crypto : undefined; } }; return g; };
    const gobj = vm.runInContext('globalThis', ctx), mk = k => { const o = vm.runInContext('({})', ctx); Object.defineProperty(o, 'crypto', where(k)); return o; };
    const noglobal = home.startsWith('noglobal'); let f;
    gobj.Math.random = () => { count('other_source_consulted'); return (dev.next() & 0xffff) / 65536; }; gobj.console = { log() {}, warn() {}, error() {} };
    // sources that are not the platform's WebCrypto: whoever falls back to one of these is caught
    const fillDecoy = b => { count('other_source_consulted'); const v = Buffer.from(b.buffer, b.byteOffset, b.byteLength); for (let i = 0; i < v.length; i++) v[i] = dev.next() & 255; return b; };
    const decoy = { getRandomValues: fillDecoy, randomFillSync: fillDecoy, randomBytes: n => { const b = Buffer.alloc(Number(n)); return fillDecoy(b); }, randomUUID: () => { count('other_source_consulted'); return '00000000-0000-4000-8000-000000000001'; } }; decoy.webcrypto = decoy; decoy.default = decoy;
    if (p.cfg.decoys !== '0') {
        gobj.require = () => decoy; gobj.process = { versions: { node: '22.0.0' }, type: 'worker', env: {}, hrtime: () => [1, 2], binding: () => decoy, getBuiltinModule: () => decoy, mainModule: { require: () => decoy } };
        gobj.msCrypto = decoy; gobj.navigator = { userAgent: 'simulated' }; gobj.performance = { now: () => { count('other_source_consulted'); return dev.next(); } };
    }
    const mk0 = mk; function decoyed(k) { const o = mk0(k); if (p.cfg.decoys !== '0') { o.msCrypto = decoy; o.mozCrypto = decoy; o.require = gobj.require; o.process = gobj.process; } return o; }
    try {
        if (p.cfg.plain === '1') { Object.defineProperty(gobj, 'crypto', where('global')); SRC_PLAIN.runInContext(ctx)(Module); }
        else { Object.defineProperty(gobj, 'crypto', where('')); const g = noglobal ? undefined : decoyed('global'); SRC.runInContext(ctx)(Module, g, decoyed('self'), decoyed('window')); }
    } catch (e) { fail('load-failed', 'loading the file into a bundle failed: ' + String(e && e.message).slice(0, 80)); return done(); }
    f = Module.getRandomSeed;
    if (typeof f !== 'function') { fail('load-failed', 'getRandomSeed is not defined'); return done(); }
    const issued = [];
    for (const w of p.ops) {
        if (w[0] === 'device') { mode = w[1]; once = w[2] === 'once'; ev('device ' + mode); continue; }
        if (w[0] === 'memory') { memory = Number(w[1]); continue; }
        if (w[0] === 'home') { if (!noglobal && w[1] && !w[1].startsWith('noglobal')) home = w[1]; if (p.cfg.plain === '1') home = w[1] === 'none' ? 'none' : 'global'; ev('home ' + home); continue; }
        if (w[0] !== 'call') continue;
        const expr = Buffer.from(w[1] || '', 'hex').toString('latin1'); let arg, res, threw = null; delivered = []; devErrors = 0; answered = 0; const m0 = memory;
        try { arg = expr === 'none' ? undefined : vm.runInContext('(' + expr + ')', ctx); } catch (e) { continue; }
        try { res = expr === 'none' ? Module.getRandomSeed() : Module.getRandomSeed(arg); } catch (e) { threw = e || new Error('?'); }
        const size = arg === undefined ? 48 : arg, good = typeof size === 'number' && size > 0 && Math.floor(size) === size && size <= 1e9;
        const label = `getRandomSeed(${expr === 'none' ? '' : expr}) with crypto on ${home} and device ${mode}`;
        const oom = m0 >= 0 && memory < 0, present = (home !== 'none') && !['gone', 'nofn', 'notfn', 'getterthrows'].includes(mode);
        ev(`call ${expr} ${threw ? 'threw' : 'returned'} ${delivered.length}`); count('requests'); c.shape.update(`${expr}/${mode}/${home}/${!!threw};`); c.states.add(`${home}/${mode}/${good}/${!!threw}`);
        if (!threw) {
            const all = Buffer.concat(delivered);
            if (!good) fail('bad-size-accepted', label + ' returned although the size is not a positive whole number');
            else if (!present) fail('no-source', label + ' returned a value although no secure randomness is available');
            else if (oom) fail('partial-result', label + ' returned although the vector could not be filled');
            else if (!(res instanceof Vec)) fail('not-a-vector', label + ' did not return a byte vector');
            else if (devErrors && all.length < size) fail('device-error-ignored', label + ' returned although the device failed');
            else if (res.size() !== size) fail('wrong-length', label + ` returned ${res.size()} bytes`);
            else if (all.length < size) fail('not-delivered', label + ` returned ${size} bytes but only ${all.length} were delivered in this call`);
            else {
                const cand = delivered.length === 1 ? [all] : [all, delivered[delivered.length - 1]]; let ok = false;   // a repeated request may replace the first answer
                for (const d of cand) if (d.length >= size && res.v.every((x, i) => x === d[i])) ok = true;
                if (!ok) fail('other-bytes', label + ' returned bytes other than those the device delivered in this call');
                if (size >= 16 && res.v.every(x => x === 0)) fail('dead-device', label + ' returned only zero bytes');
                if (ok) { for (const o of issued) if (o === res) fail('shared-vector', label + ' returned a vector it had returned before'); issued.push(res); count('seeds'); }
            }
        } else {
            count('refused');
            if (good && present && !oom && !devErrors && size <= 65536 && ['ok', 'onebyte', 'lastbyte', 'zero', 'badthis'].includes(mode) && !(size >= 16 && mode === 'zero')) fail('refused', label + ' threw (' + String(threw.message).slice(0, 60) + ') although the device works');
            if (good && present && !oom && devErrors && mode === 'ok' && size <= 65536) fail('refused', label + ' asked the device wrongly (' + String(threw.message).slice(0, 60) + ')');
        }
        if (mode !== 'ok' || !good) c.nontrivial = true;
        if (once) { mode = 'ok'; once = false; }
    }
    for (const v of issued) if (v.v.length === 0) fail('vector-destroyed', 'a vector was emptied after it had been returned');
    return done();
    function done() { c.hash = c.h.digest('hex').slice(0, 16); c.shapeh = c.shape.digest().subarray(0, 8); return c; }
}

// ---- command line ----
const opt = {}, pos = []; const cmd = args[0];
for (let i = 1; i < args.length; i++) if (args[i].startsWith('--')) { if (i + 1 < args.length && !args[i + 1].startsWith('--')) { opt[args[i].slice(2)] = args[i + 1]; i++; } else opt[args[i].slice(2)] = '1'; } else pos.push(args[i]);
const seedOf = (s0, i) => (mix64((BigInt(s0) * 1000003n + BigInt(i)) & M) >> 1n).toString();
if (cmd === 'gen') process.stdout.write(gen(pos[0], pos[1], pos[2]));
else if (cmd === 'genrange') { let o = ''; for (let i = 0; i < Number(pos[4]); i++) o += gen(pos[0], pos[1], seedOf(pos[2], BigInt(pos[3]) + BigInt(i))) + '====\n'; process.stdout.write(o); }
else if (cmd === 'exec') {
    const parts = fs.readFileSync(pos[0] === '-' ? 0 : pos[0], 'latin1').split('====\n').filter(x => x.includes('plan')); let rc = 0;
    parts.forEach((t, k) => { const p = parse(t), c = exec(p, opt.verbose && k === parts.length - 1); if (k < parts.length - 1) { console.log('EARLIER ' + c.hash); return; } console.log(`HASH ${c.hash} events=${c.n}`); for (const v of c.viol) { rc = 1; console.log('VIOL ' + v.join(' ')); } });
    process.exitCode = parts.length ? rc : 2;
} else if (cmd === 'batch') {
    const t0 = process.hrtime.bigint(), el = () => Number(process.hrtime.bigint() - t0) / 1e9; let cur = -1, ticks = 0n; const CUR = 1 << 16;
    if (opt.cur) { cur = fs.openSync(opt.cur, 'w+'); fs.ftruncateSync(cur, CUR); }
    const set = t => { if (cur < 0) return; const b = Buffer.alloc(8 + t.length); b.writeBigUInt64LE(BigInt(t.length)); b.write(t, 8, 'latin1'); fs.writeSync(cur, b, 0, b.length, 0); const k = Buffer.alloc(8); k.writeBigUInt64LE(++ticks); fs.writeSync(cur, k, 0, 8, CUR - 8); };
    const R = { runs: 0, nontrivial: 0, events: 0, simtime_ns: 0, doublechecks: 0, nondet_runs: 0, scenarios: { jsseed: 0 }, counts: {}, samples: [], violations: [], nondet: '' }, shapes = new Set(), states = new Set(), seen = new Set();
    for (let i = 0; i < Number(opt.count); i++) {
        if (Number(opt.wall) > 0 && el() > Number(opt.wall)) break;
        const t = gen(opt.prop, opt.tier, seedOf(opt.seed0, BigInt(opt.first || 0) + BigInt(i))); set(t); const c = exec(parse(t), false);
        R.runs++; R.scenarios.jsseed++; R.events += c.n; if (c.nontrivial) { R.nontrivial++; shapes.add(c.shapeh.toString('hex')); } for (const s of c.states) states.add(s);
        for (const k in c.cnt) R.counts[k] = (R.counts[k] || 0) + c.cnt[k];
        if (R.samples.length < 2 && c.nontrivial && i % 7 === 3) R.samples.push(t);
        if (i % 64 === 0 || c.viol.length) { const d = exec(parse(t), false); R.doublechecks++; if (d.hash !== c.hash) { R.nondet_runs++; R.nondet = t; } }
        for (const v of c.viol) if (!seen.has(v[1])) { seen.add(v[1]); R.violations.push({ at: i, prop: v[0], class: v[1], msg: v[2], plan: t }); }
        if (R.violations.length >= 2) break;
    }
    R.distinct_shapes = shapes.size; R.distinct_states = states.size; R.wall = el(); R.other_violations = 0; set('');
    fs.writeFileSync(opt.out, JSON.stringify(R));
    if (opt.shapes) { fs.writeFileSync(opt.shapes, Buffer.concat([...shapes].map(s => Buffer.from(s, 'hex')))); fs.writeFileSync(opt.shapes + '.st', Buffer.concat([...states].map(s => crypto.createHash('sha1').update(s).digest().subarray(0, 8)))); }
    process.exitCode = R.violations.length ? 1 : 0;
} else if (cmd === 'info') console.log('node ' + process.version);
else { console.error('usage: gen|genrange|exec|batch'); process.exitCode = 2; }
