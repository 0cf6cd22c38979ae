// nav.js DIR SCENE STORAGE DEPTH ALPHABET FIRST: every sequence of user actions up to DEPTH that starts with action FIRST
// (FIRST = -1: the empty one). DIR has the page view.html and its scripts; the page is compared with the model after each.
'use strict';
const { Page } = require('./page.js'), { Model, invt3 } = require('./model.js'), { A, G } = require('./actions.js'), { S, model } = require('./scenes.js');
const [dir, scn, storage, depthS, alpha, firstS] = process.argv.slice(2), depth = Number(depthS), first = Number(firstS);
const fs = require('fs'), file = dir + '/view.html';
const SC = model(S[scn]);
// actions on groups and named views of this scene
const dyn = (p, pred) => p.elements.filter(e => !p.static.has(e) && pred(e));
const keys = Object.keys(SC.group).sort((a, b) => a - b), opt = keys.filter(k => SC.group[k].optional), mov = keys.filter(k => SC.group[k].move && !SC.group[k].move.get);
const extra = [];
opt.forEach((k, i) => extra.push({ name: 'switch group ' + k, core: true, do: p => p.click(dyn(p, e => e.tag === 'input' && e.type === 'checkbox')[i]), is: m => { m.g[k].off = !m.g[k].off; m.focus = false; } }));
mov.forEach((k, i) => {
    for (const v of ['25', '-12.5', '150']) extra.push({ name: 'move group ' + k + ' to ' + v, core: v === '25', do: p => p.type(dyn(p, e => e.tag === 'input' && e.type === 'text')[i], v), is: m => { m.g[k].mm = Number(v); m.focus = false; } });
    for (const [l, r] of [['-', -1], ['0', 0], ['+', 1]]) extra.push({ name: 'move group ' + k + ' ' + l, core: l === '+', do: p => p.click(dyn(p, e => e.tag === 'button' && e.label === l)[i]), is: m => { m.g[k].mm = r * SC.group[k].move.amount * 1000; m.focus = false; } });
});
SC.worldPos.forEach(w => { if (w.name) extra.push({ name: 'view ' + w.name, core: true, do: p => p.click(p.button(null, w.name)), is: m => { m.goWorld(w); m.focus = false; } }); });
const acts = alpha === 'list' ? [] : alpha === 'all' ? A.concat(extra) : alpha === 'core' ? A.filter(a => a.core).concat(extra) : extra.concat(A.filter(a => /^(reset F|set a|load a|reload|perspective|rotate \u2190)$/.test(a.name)));
if (first === -2) { console.log(JSON.stringify({ n: acts.length })); process.exit(0); }
if (dir === '-') process.exit(0);
const html = fs.readFileSync(file, 'utf8');
const boot = (store, size) => { const p = new Page(file, { html, store, size }); return p; };
let steps = 0, runs = 0; const states = new Set(); let bad = null;
const near = (a, b, t) => a.length === b.length && a.every((v, i) => Math.abs(v - b[i]) <= t * (1 + Math.abs(b[i])));
function compare(p, m) {
    const f = m.frame();
    if (p.draws.length !== f.length) return ['parts', `${p.draws.length} parts drawn, not ${f.length}`];
    for (let j = 0; j < f.length; j++) {
        const d = p.draws[j], s = SC.scene[f[j][0]];
        if (d.mode !== 'TRIANGLES' || d.ty !== 'UNSIGNED_SHORT' || d.off !== 0 || d.cnt !== s.I.length) return ['draw', 'wrong kind or number of triangles'];
        if (!d.vertex || !d.normal || !d.color || d.vertex.k !== 3 || d.normal.k !== 3 || d.color.k !== 4 || !d.alpha || d.alpha.v !== 1) return ['draw', 'attributes not set up'];
        if (!near(Array.from(d.index), s.I, 0) || !near(Array.from(d.vertex.b.data), s.V, 1e-6) || !near(Array.from(d.normal.b.data), s.N, 1e-6) || !near(Array.from(d.color.b.data), s.C, 1e-6)) return ['data', 'part ' + f[j][0] + ' is drawn with other data'];
        if (!near(d.mv, f[j][1], 3e-4)) return ['view', `part ${f[j][0]} is drawn with matrix [${d.mv.map(x => +x.toFixed(4))}], not [${f[j][1].map(x => +x.toFixed(4))}]`];
        const n = invt3(f[j][1]); if (!near([d.nm[0], d.nm[1], d.nm[2], d.nm[4], d.nm[5], d.nm[6], d.nm[8], d.nm[9], d.nm[10]], n, 2e-3)) return ['normals', 'matrix of normals'];
        const asp = m.sizeNow[0] / m.sizeNow[1], q = d.pm;
        if (Math.abs(q[5] / q[0] - asp) > 1e-4 * asp || [1,2,3,4,6,7,8,9,12,13].some(i => Math.abs(q[i]) > 1e-6)) return ['aspect', 'projection distorts'];
        if (m.persp) { const c = 1 / Math.tan(Math.PI / 8); if (Math.abs(q[5] - c) > 1e-4 || Math.abs(q[11] + 1) > 1e-5 || q[15] !== 0 || Math.abs(q[10] + 100.01 / 99.99) > 1e-5 || Math.abs(q[14] + 2 / 99.99) > 1e-5) return ['projection', 'not a perspective of 45 degrees from 0.01 to 100']; }
        else if (q[11] !== 0 || q[15] !== 1 || !(q[10] < 0)) return ['projection', 'not a parallel projection'];
    }
    if (p.view.join() !== '0,0,' + m.sizeNow.join() || p.canvas.width !== m.sizeNow[0] || p.canvas.height !== m.sizeNow[1]) return ['size', 'canvas does not fill the window'];
    if (Number(p.input('\u00b0').value) !== m.turn) return ['input', 'angle shows ' + p.input('\u00b0').value];
    if (Math.abs(Number(p.input('mm').value) - m.step * 1000) > 1e-6) return ['input', 'step shows ' + p.input('mm').value];
    const c = p.row('Anim').parts.filter(x => x.tag === 'input').map(x => !!x.checked); if (c[1] !== m.persp || c[2] !== m.ctrl || c[0]) return ['input', 'check boxes show ' + c];
    for (const r of p.rows) { const hidden = r.e.style.display === 'none', may = /^ctrl[0-9]+$/.test(r.e.id || ''); if (hidden !== (may && !m.ctrl)) return ['controls', 'row "' + r.label + '" is ' + (hidden ? 'hidden' : 'shown')]; }
    if (p.input('Cookie').value !== m.name) return ['input', 'name shows ' + p.input('Cookie').value];
    const names = p.loads().sort().join(' '), want = [...m.saved.keys()].sort().join(' '); if (names !== want) return ['saved', `saved views offered: ${names}, not ${want}`];
    dyn(p, e => e.tag === 'input' && e.type === 'checkbox').forEach((e, i) => { if (!!e.checked === m.g[opt[i]].off) bad = bad || ['input', 'check box of group ' + opt[i]]; });
    dyn(p, e => e.tag === 'input' && e.type === 'text').forEach((e, i) => { if (Math.abs(Number(e.value) - m.g[mov[i]].mm) > .05) bad = bad || ['input', 'position of group ' + mov[i] + ' shows ' + e.value]; });
    if (bad) return bad;
    if (p.alerts.length) return ['alert', p.alerts[0]];
    return null;
}
const known = new Set(SC.worldPos.map(w => w.name));
function prep(p) { p.static = p.static || new Set(p.elements.filter(e => !p.elements.some(x => (x.sub || []).includes(e)))); p.loads = () => p.elements.filter(c => (c.sub || []).length && !c.sub.some(e => e.tag === 'input')).flatMap(c => c.sub.filter(e => e.tag === 'button' && !known.has(e.label)).map(e => e.label)); return p; }
function replay(seq) {
    const store = { cookies: storage.includes('c') ? new Map() : null, local: storage.includes('l') ? {} : null };
    let p = prep(boot(store)), m = new Model(SC); m.size = [1000, 600]; m.keep = storage !== '-';
    p.tick(); let r = compare(p, m); steps++;
    if (r) return [[], r];
    for (let i = 0; i < seq.length; i++) {
        const a = acts[seq[i]], saved = m.saved;
        p.alerts = [];
        if (a.do) a.do(p);
        else { p = prep(boot(store, m.size)); }
        a.is(m); if (!a.do && !m.keep) m.saved = new Map();
        p.tick(); steps++; states.add(m.key());
        r = compare(p, m);
        if (r) return [seq.slice(0, i + 1), r];
    }
    return null;
}
const fails = [];
function visit(seq) {
    runs++; let r; bad = null;
    try { r = replay(seq); } catch (e) { r = [seq, ['error', String(e && e.stack || e).split('\n').slice(0, 3).join(' | ')]]; }
    if (r) { fails.push({ key: r[1][0], msg: r[1][1], seq: r[0].map(i => acts[i].name) }); return; }
    if (seq.length < depth) for (let i = 0; i < acts.length && fails.length < 3; i++) visit(seq.concat(i));
}
if (first === -1) { const d = depth; runs++; const r = (() => { try { return replay([]); } catch (e) { return [[], ['error', String(e && e.stack || e).split('\n').slice(0, 3).join(' | ')]]; } })(); if (r) fails.push({ key: r[1][0], msg: r[1][1], seq: [] }); }
else visit([first]);
console.log(JSON.stringify({ runs, steps, hashes: [...states].map(k => parseInt(require('crypto').createHash('md5').update(k).digest('hex').slice(0, 13), 16)), fails, names: acts.map(a => a.name).slice(0, 0) }));
