// What the controls of the viewer page are to do, written from their labels; own matrices (column-major, as WebGL).
'use strict';
const id = () => [1,0,0,0, 0,1,0,0, 0,0,1,0, 0,0,0,1];
const mul = (a, b) => { const r = new Array(16).fill(0); for (let c = 0; c < 4; c++) for (let i = 0; i < 4; i++) for (let k = 0; k < 4; k++) r[c * 4 + i] += a[k * 4 + i] * b[c * 4 + k]; return r; };
const xlat = (x, y, z) => [1,0,0,0, 0,1,0,0, 0,0,1,0, x,y,z,1];
const scal = (x, y, z) => [x,0,0,0, 0,y,0,0, 0,0,z,0, 0,0,0,1];
const rot = (deg, u) => { const l = Math.hypot(...u), [x, y, z] = u.map(v => v / l), a = deg * Math.PI / 180, c = Math.cos(a), s = Math.sin(a), t = 1 - c;
    return [x*x*t+c, y*x*t+z*s, z*x*t-y*s, 0, x*y*t-z*s, y*y*t+c, z*y*t+x*s, 0, x*z*t+y*s, y*z*t-x*s, z*z*t+c, 0, 0,0,0,1]; };
const rows = (x, y, z) => [x[0],y[0],z[0],0, x[1],y[1],z[1],0, x[2],y[2],z[2],0, 0,0,0,1]; // screen right, up, towards the viewer
// inverse of a rigid motion
const rinv = m => { const r = [m[0],m[4],m[8],0, m[1],m[5],m[9],0, m[2],m[6],m[10],0, 0,0,0,1]; return mul(r, xlat(-m[12], -m[13], -m[14])); };
// inverse transpose of any affine map's linear part (3x3, column-major)
const invt3 = m => { const a = (r, c) => m[c * 4 + r], cof = (r, c) => { const p = [0,1,2].filter(i => i !== r), q = [0,1,2].filter(i => i !== c); return ((r + c) & 1 ? -1 : 1) * (a(p[0],q[0]) * a(p[1],q[1]) - a(p[0],q[1]) * a(p[1],q[0])); };
    const d = a(0,0) * cof(0,0) + a(0,1) * cof(0,1) + a(0,2) * cof(0,2), r = []; for (let c = 0; c < 3; c++) for (let k = 0; k < 3; k++) r.push(cof(k, c) / d); return r; };
const LOOK = { L: rows([0,-1,0], [0,0,1], [-1,0,0]), R: rows([0,1,0], [0,0,1], [1,0,0]), '\u22a4': rows([1,0,0], [0,1,0], [0,0,1]), '\u22a5': rows([-1,0,0], [0,1,0], [0,0,-1]), F: rows([1,0,0], [0,0,1], [0,-1,0]), B: rows([-1,0,0], [0,0,1], [0,1,0]) };

class Model {
    constructor(scn) { this.scn = scn; this.saved = new Map(); this.size = [1000, 600]; this.boot(); }
    boot() {
        this.cam = [0, 0, 1.2]; this.view = id(); this.world = id(); this.persp = true; this.turn = 10; this.step = 0.1; this.ctrl = true; this.focus = false; this.name = '';
        const w = (this.scn.worldPos || [])[0]; if (w) this.goWorld(w); this.cam0 = this.cam.slice();
        this.g = {}; for (const k in this.scn.group || {}) { const g = this.scn.group[k]; this.g[k] = { off: !!(g.optional && g.default_off), mm: 0 }; }
        this.sizeNow = [this.size[0] - 316, this.size[1]];
    }
    goWorld(w) { if (w.mat) this.world = w.mat.slice(); if (w.cam) this.cam = w.cam.slice(); if (w.view) this.view = w.view.slice(); }
    pre(m) { this.view = mul(m, this.view); }
    shift(x, y, z) { this.pre(xlat(x, y, z)); }
    // about the vertical axis of the model through the point in the middle of the view
    rotZ(deg) { const i = rinv(this.view); this.view = mul(this.view, mul(xlat(i[12], i[13], 0), mul(rot(deg, [0,0,1]), xlat(-i[12], -i[13], 0)))); }
    copy() { return { cam: this.cam.slice(), view: this.view.slice(), world: this.world.slice(), persp: this.persp, turn: this.turn, step: this.step, ctrl: this.ctrl, g: JSON.parse(JSON.stringify(this.g)) }; }
    save(n) { this.saved.set(n, this.copy()); this.name = n; }
    load(n) { const s = this.saved.get(n); Object.assign(this, JSON.parse(JSON.stringify(s))); this.name = n; }
    // what has to be drawn: [scene index, model-view matrix]
    frame() {
        const r = [], S = this.scn;
        S.scene.forEach((s, i) => {
            let on = -1, off = -1, fixed = false; const mine = Object.keys(S.group || {}).filter(k => s.group[k]);
            for (const k of mine) { const g = S.group[k]; if (this.g[k].off) off = Math.max(off, g.prio); else on = Math.max(on, g.prio); fixed = fixed || g.fixed; }
            if (off > on) return;
            if (fixed && this.persp) return;
            let m = fixed ? id() : mul(xlat(-this.cam[0], -this.cam[1], -this.cam[2]), this.view);
            m = mul(m, this.world);
            for (const k of mine) { const g = S.group[k];
                if (g.move) { const p = g.move.get ? (g.move.get(g) * 2 - 1) * g.move.amount : this.g[k].mm / 1000; m = mul(m, xlat(...g.move.unit.map(u => u * p))); }
                if (g.rot) m = mul(m, mul(xlat(...g.rot.center), mul(rot(g.rot.get(g) * 180 / Math.PI, g.rot.unit), xlat(...g.rot.center.map(v => -v)))));
                if (g.scale) { const f = g.scale.get(g); m = mul(m, mul(xlat(...g.scale.center), mul(scal(...g.scale.unit.map(u => 1 + (f - 1) * u)), xlat(...g.scale.center.map(v => -v))))); }
            }
            if (s.xform) m = mul(m, s.xform);
            r.push([i, m]);
        });
        return r;
    }
    key() { return JSON.stringify([this.cam, this.view, this.world, this.persp, this.turn, this.step, this.ctrl, this.g, [...this.saved], this.name, this.size].map(x => x), (k, v) => typeof v === 'number' ? Math.round(v * 1e5) / 1e5 : v); }
}
module.exports = { Model, LOOK, id, mul, xlat, scal, rot, rows, rinv, invt3 };
