// The user's actions: how the page is operated (do) and what that is to mean (is).
'use strict';
const { LOOK, rot, xlat } = require('./model.js');
const A = [];
const add = (name, core, doit, is) => A.push({ name, core, do: doit, is });
for (const k of Object.keys(LOOK)) add('reset ' + k, 'L\u22a5F'.includes(k), p => p.click(p.button('Reset', k)), m => { m.cam = m.cam0.slice(); m.view = LOOK[k].slice(); m.focus = false; });
const turn = { '\u2190': m => m.rotZ(-m.turn), '\u2192': m => m.rotZ(m.turn), '\u2191': m => m.pre(rot(-m.turn, [1,0,0])), '\u2193': m => m.pre(rot(m.turn, [1,0,0])), '\u21b7': m => m.pre(rot(-m.turn, [0,0,1])), '\u21b6': m => m.pre(rot(m.turn, [0,0,1])) };
for (const k in turn) add('rotate ' + k, '\u2190\u2191\u21b6'.includes(k), p => p.click(p.button('Rotate', k)), m => { turn[k](m); m.focus = false; });
for (const [l, d] of [['0.5\u00b0', .5], ['2\u00b0', 2], ['10\u00b0', 10], ['45\u00b0', 45]]) add('angle ' + l, d === 45, p => p.click(p.button('\u00b0', l)), m => { m.turn = d; m.focus = false; });
for (const d of ['30', '-7.5', '10.01']) add('type angle ' + d, d === '30', p => p.type(p.input('\u00b0'), d), m => { m.turn = Number(d); m.focus = false; });
const mid = { '\u2190': [-1,0,0], '\u2192': [1,0,0], '\u2191': [0,1,0], '\u2193': [0,-1,0], F: [0,0,1], B: [0,0,-1] };
for (const k in mid) add('center ' + k, '\u2190\u2193F'.includes(k), p => p.click(p.button('Center', k)), m => { m.shift(...mid[k].map(v => v * m.step)); m.focus = false; });
for (const [l, d] of [['mm', .001], ['cm', .01], ['dm', .1]]) add('step ' + l, l === 'cm', p => p.click(p.button('mm', l)), m => { m.step = d; m.focus = false; });
for (const d of ['5', '250', '140', '99.99']) add('type step ' + d, d === '250', p => p.type(p.input('mm'), d), m => { m.step = Number(d) / 1000; m.focus = false; });
const hover = p => p.fire(p.canvas, 'mouseover', {});
const keys = { ArrowLeft: [-1,0,0], Left: [-1,0,0], ArrowRight: [1,0,0], Right: [1,0,0], ArrowUp: [0,1,0], Up: [0,1,0], ArrowDown: [0,-1,0], Down: [0,-1,0] };
for (const k in keys) add('key ' + k, k === 'ArrowUp', p => { hover(p); p.fire('document', 'keydown', { key: k }); }, m => { m.shift(...keys[k].map(v => v * m.step)); m.focus = true; });
for (const [k, s] of [['+', -1], ['-', 1]]) add('key ' + k, k === '+', p => { hover(p); p.fire('document', 'keypress', { charCode: k.charCodeAt(0), key: k }); }, m => { m.cam[2] += s * m.step * m.cam[2]; m.focus = true; });
add('keys wherever the focus is', true, p => { p.fire('document', 'keydown', { key: 'ArrowLeft' }); p.fire('document', 'keypress', { charCode: 43, key: '+' }); }, m => { if (m.focus) { m.shift(-m.step, 0, 0); m.cam[2] -= m.step * m.cam[2]; } });
const drag = (p, buttons, shift, steps) => {
    const c = p.canvas; let x = 300, y = 200; hover(p); p.fire(c, 'mousedown', { buttons, shiftKey: shift, clientX: x, clientY: y });
    for (const [dx, dy] of steps) { x += dx; y += dy; p.fire(c, 'mousemove', { buttons, shiftKey: shift, clientX: x, clientY: y }); }
    p.fire(c, 'mouseup', { buttons: 0, clientX: x, clientY: y }); p.fire(c, 'mousemove', { buttons: 0, clientX: 10, clientY: 20 }); // does nothing
};
const moves = { left: (m, dx, dy) => { m.rotZ(360 * dx); m.pre(rot(360 * dy, [1,0,0])); }, right: (m, dx, dy) => { const s = 1.5 * m.cam[2]; m.shift(s * dx, -s * dy, 0); }, middle: (m, dx, dy) => { m.cam[2] += 1.5 * m.cam[2] * dy; }, shift: (m, dx, dy) => { m.shift(0, 0, -1.5 * m.cam[2] * dy); } };
const path = [[37, -20], [-101, 64]];
for (const [n, b, s, f] of [['left', 1, false, 'left'], ['right', 2, false, 'right'], ['left and middle', 5, false, 'right'], ['middle', 4, false, 'middle'], ['left and right', 3, false, 'middle'], ['left with shift', 1, true, 'shift'], ['right with shift', 2, true, null]])
    add('drag ' + n, n === 'left' || n === 'left with shift' || n === 'middle', p => drag(p, b, s, path), m => { if (f) for (const [dx, dy] of path) moves[f](m, dx / m.sizeNow[0], dy / m.sizeNow[1]); m.focus = true; });
// one of two buttons is released: the other one goes on
for (const [n, s, f] of [['', false, 'left'], [' with shift', true, 'shift']])
    add('drag left, right released' + n, s, p => { const c = p.canvas; hover(p); p.fire(c, 'mousedown', { buttons: 3, shiftKey: s, clientX: 100, clientY: 100 }); p.fire(c, 'mouseup', { buttons: 1, shiftKey: s, clientX: 100, clientY: 100 }); p.fire(c, 'mousemove', { buttons: 1, shiftKey: s, clientX: 150, clientY: 60 }); p.fire(c, 'mouseup', { buttons: 0, clientX: 150, clientY: 60 }); },
        m => { moves[f](m, 50 / m.sizeNow[0], -40 / m.sizeNow[1]); m.focus = true; });
const check = (p, i) => { const e = p.row('Anim').parts.filter(x => x.tag === 'input')[i]; p.click(e); };
add('perspective', true, p => check(p, 1), m => { m.persp = !m.persp; m.focus = false; });
add('controls', true, p => check(p, 2), m => { m.ctrl = !m.ctrl; m.focus = false; });
const cookie = p => p.input('Cookie');
for (const n of ['a', 'v.2']) {
    add('set ' + n, n === 'a', p => { p.type(cookie(p), n); p.click(p.button('Cookie', 'Set')); }, m => { m.save(n); m.focus = false; });
    add('load ' + n, n === 'a', p => { if (p.has(n)) p.click(p.button(null, n)); else hover(p); }, m => { if (m.saved.has(n)) { m.load(n); m.focus = false; } else m.focus = true; });
    add('delete ' + n, n === 'a', p => { p.type(cookie(p), n); p.click(p.button('Cookie', 'Del')); }, m => { m.saved.delete(n); m.name = n; m.focus = false; });
}
add('add', true, p => p.click(p.button('Cookie', 'Add')), m => { const x = /^(.*?)([0-9]*)$/.exec(m.name); let i = Number(x[2]) || 1; while (m.saved.has(x[1] + i)) i++; m.save(x[1] + i); m.focus = false; });
for (const [n, w, h] of [['resize', 1, 1], ['resize width', 1, 0], ['resize height', 0, 1]])
    add(n, w && h, p => { if (w) p.g.innerWidth = p.g.innerWidth === 1000 ? 700 : 1000; if (h) p.g.innerHeight = p.g.innerHeight === 600 ? 800 : 600; hover(p); }, m => { m.size = [w ? 1700 - m.size[0] : m.size[0], h ? 1400 - m.size[1] : m.size[1]]; m.sizeNow = [m.size[0] - 316, m.size[1]]; m.focus = true; });
add('reload', true, null, m => m.boot());
// scenes with groups and named views, see scenes.js
const G = [];
const addG = (name, doit, is, when) => G.push({ name, core: true, do: doit, is, when });
const el = (p, s) => p.els.get(s) || null;
module.exports = { A, G, addG, el, hover };
