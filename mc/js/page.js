// A page of the viewer, executed in node: HTML, DOM, events, cookies and WebGL as far as the page uses them.
// Everything is observed from outside: what is drawn, what inputs show, what is stored.
'use strict';
const fs = require('fs'), vm = require('vm'), zlib = require('zlib'), path = require('path'), url = require('url');

const ENT = { quot: '"', amp: '&', lt: '<', gt: '>', apos: "'", nbsp: '\u00a0' };
const unesc = s => s.replace(/&(#x[0-9a-fA-F]+|#[0-9]+|[a-z]+);/g, (m, e) => e[0] === '#' ? String.fromCodePoint(e[1] === 'x' ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10)) : (e in ENT ? ENT[e] : m));
// list of {tag, attr, text (of raw text elements)}, {text}, {close}
function tokens(html) {
    const r = []; let i = 0;
    while (i < html.length) {
        if (html.startsWith('<!--', i)) { const e = html.indexOf('-->', i + 4); i = e < 0 ? html.length : e + 3; continue; }
        if (html.startsWith('<!', i)) { i = html.indexOf('>', i) + 1; continue; }
        let m;
        if ((m = /^<\/([a-zA-Z0-9]+)\s*>/.exec(html.slice(i, i + 60)))) { r.push({ close: m[1].toLowerCase() }); i += m[0].length; continue; }
        if (html[i] === '<' && /[a-zA-Z]/.test(html[i + 1] || '')) {
            let j = i + 1; while (/[a-zA-Z0-9]/.test(html[j])) j++;
            const t = { tag: html.slice(i + 1, j).toLowerCase(), attr: {} };
            for (;;) {
                while (/[\s\/]/.test(html[j])) j++;
                if (j >= html.length || html[j] === '>') { j++; break; }
                let k = j; while (k < html.length && !/[\s=>\/]/.test(html[k])) k++;
                const name = html.slice(j, k); j = k; let val = '';
                if (html[j] === '=') {
                    j++;
                    if (html[j] === '"' || html[j] === "'") { const e = html.indexOf(html[j], j + 1); val = html.slice(j + 1, e < 0 ? html.length : e); j = e < 0 ? html.length : e + 1; }
                    else { k = j; while (k < html.length && !/[\s>]/.test(html[k])) k++; val = html.slice(j, k); j = k; }
                }
                t.attr[name] = unesc(val);
            }
            i = j;
            if (t.tag === 'script' || t.tag === 'style') { const e = html.indexOf('</' + t.tag, i); t.text = html.slice(i, e < 0 ? html.length : e); i = e < 0 ? html.length : html.indexOf('>', e) + 1; }
            r.push(t); continue;
        }
        let e = html.indexOf('<', i + 1); if (e < 0) e = html.length;
        r.push({ chars: unesc(html.slice(i, e)) }); i = e;
    }
    return r;
}
const cache = new Map();
function script(text, name) { const k = name + '\0' + text; let s = cache.get(k); if (!s) { s = new vm.Script(text, { filename: name }); if (cache.size < 64) cache.set(k, s); } return s; }

class Page {
    // store: {cookies: Map or null, local: object or null}, kept over reloads
    constructor(file, opt) {
        this.file = file; this.opt = opt || {}; this.store = this.opt.store || { cookies: new Map(), local: {} };
        this.alerts = []; this.timers = []; this.listeners = { document: {}, window: {} }; this.queue = []; this.now = 1000000;
        this.els = new Map(); this.elements = []; this.frames = 0; this.draws = []; this.size = this.opt.size || [1000, 600];
        this.tok = tokens(this.opt.html || fs.readFileSync(file, 'utf8'));
        const self = this;
        const doc = {
            getElementById: id => self.els.get(id) || null,
            addEventListener: (t, f) => { (self.listeners.document[t] = self.listeners.document[t] || []).push(f); },
            get cookie() { return self.store.cookies ? [...self.store.cookies].map(([k, v]) => k + '=' + v).join('; ') : ''; },
            set cookie(s) {
                if (!self.store.cookies) return;
                const p = s.split(';').map(x => x.trim()), e = p[0].indexOf('='), k = p[0].slice(0, e), v = p[0].slice(e + 1); let exp = null;
                for (const a of p.slice(1)) if (/^expires=/i.test(a)) exp = Date.parse(a.slice(8));
                if (exp !== null && !(exp > self.now)) self.store.cookies.delete(k); else self.store.cookies.set(k, v);
            },
        };
        function FakeDate(t) { this.t = t === undefined ? self.now : Number(t); }
        FakeDate.now = () => self.now; FakeDate.parse = Date.parse;
        FakeDate.prototype = { getTime() { return this.t; }, setTime(t) { this.t = t; }, toUTCString() { return new Date(this.t).toUTCString(); }, valueOf() { return this.t; } };
        const g = { document: doc, console: { log() {} }, alert: s => self.alerts.push(String(s)), setInterval: (f, ms) => { self.timers.push({ f, ms }); return self.timers.length; }, setTimeout: f => { (self.once = self.once || []).push(f); return 0; }, requestAnimationFrame: f => { (self.once = self.once || []).push(() => f(self.now)); return 0; }, addEventListener: (t, f) => { (self.listeners.window[t] = self.listeners.window[t] || []).push(f); }, Date: FakeDate, innerWidth: this.size[0], innerHeight: this.size[1] };
        if (this.store.local) g.localStorage = { getItem: k => k in self.store.local ? self.store.local[k] : null, setItem: (k, v) => { self.store.local[k] = String(v); }, removeItem: k => { delete self.store.local[k]; } };
        g.window = g; this.g = g; this.ctx = vm.createContext(g);
        this.build(this.tok, true);
        for (const s of this.scripts) this.runScript(s);
        const b = this.elements.find(e => e.tag === 'body');
        if (b && b.attr.onload) this.run(b.attr.onload);
        for (const f of (this.listeners.window.load || []).concat(this.listeners.document.DOMContentLoaded || [])) f({});
        this.flush();
    }
    runScript(s) {
        const type = s.attr.type; if (type && !/javascript/.test(type)) return;
        if (s.attr.src === undefined) { script(s.text, 'page').runInContext(this.ctx); return; }
        const u = new URL(s.attr.src, url.pathToFileURL(path.resolve(this.file)));
        if (u.protocol !== 'file:') throw new Error('script from elsewhere: ' + s.attr.src);
        u.search = ''; u.hash = ''; // a server looks up the path only
        const f = url.fileURLToPath(u); let d = fs.readFileSync(f);
        (this.loaded = this.loaded || []).push(f);
        if (/\.gz$/.test(f)) d = zlib.gunzipSync(d);
        script(d.toString('utf8'), f).runInContext(this.ctx);
    }
    element(t) {
        const self = this, e = { tag: t.tag, attr: t.attr, style: {}, id: t.attr.id, l: {} };
        const style = t.attr.style || '';
        e.value = t.attr.value === undefined ? '' : t.attr.value; e.checked = t.attr.checked !== undefined; e.type = t.attr.type;
        let inner = ''; Object.defineProperty(e, 'innerHTML', { get: () => inner, set: v => { inner = String(v); self.drop(e); e.sub = self.build(tokens(inner), false, e); } });
        let left = 0; e.scrollWidth = 3200; e.clientWidth = 270;
        Object.defineProperty(e, 'scrollLeft', { get: () => left, set: v => { v = Math.round(Math.max(0, Math.min(e.scrollWidth - e.clientWidth, Number(v) || 0))); if (v !== left) { left = v; if (e.attr.onscroll) self.queue.push(e.attr.onscroll); } } });
        e.getBoundingClientRect = () => ({ width: 300, height: 500 });
        Object.defineProperty(e, 'textContent', { get: () => inner, set: v => { e.innerHTML = String(v).replace(/&/g, '&amp;').replace(/</g, '&lt;'); }, configurable: true });
        e.getAttribute = k => k in t.attr ? t.attr[k] : null; e.setAttribute = (k, v) => { t.attr[k] = String(v); }; e.focus = e.blur = () => {};
        e.addEventListener = (n, f) => { (e.l[n] = e.l[n] || []).push(f); };
        if (t.tag === 'script') { e.firstChild = { nodeType: 3, TEXT_NODE: 3, textContent: t.text, nextSibling: null }; }
        if (t.tag === 'canvas') { e.width = Number(t.attr.width); e.height = Number(t.attr.height); e.getContext = w => /webgl/.test(w) ? self.gl() : null; this.canvas = e; }
        e.style.css = style;
        return e;
    }
    drop(e) { for (const x of e.sub || []) { this.drop(x); if (x.id && this.els.get(x.id) === x) this.els.delete(x.id); const i = this.elements.indexOf(x); if (i >= 0) this.elements.splice(i, 1); } e.sub = []; }
    // creates elements; remembers rows of the control table and labels of buttons
    build(tok, top, parent) {
        const made = []; let row = null, but = null; this.scripts = top ? [] : this.scripts; if (top) this.rows = [];
        for (const t of tok) {
            if (t.tag) {
                if (t.tag === 'script' && top) this.scripts.push(t);
                const e = this.element(t); this.elements.push(e); made.push(e);
                if (t.attr.id !== undefined && !this.els.has(t.attr.id)) this.els.set(t.attr.id, e);
                if (t.tag === 'tr') { row = { label: '', parts: [], e }; if (this.rows) this.rows.push(row); }
                if (row) row.parts.push(e);
                if (t.tag === 'button') { but = e; e.label = ''; }
            }
            else if (t.chars !== undefined) { if (but) but.label += t.chars.trim(); else if (row && t.chars.trim() && !row.label) row.label = t.chars.trim(); }
            else if (t.close === 'button') but = null;
            else if (t.close === 'tr') row = null;
        }
        return made;
    }
    run(code) { script(code, 'handler').runInContext(this.ctx); }
    flush() { for (let n = 0; this.queue.length; n++) { if (n > 100) throw new Error('events never end'); this.run(this.queue.shift()); } }
    gl() {
        const self = this; let n = 0; const bound = {}, attrs = {}, enabled = {}; let prog = null; const cst = {};
        const gl = {
            createShader: t => ({ t, src: '' }), shaderSource: (s, t) => { s.src = t; }, compileShader: s => { s.ok = /void\s+main/.test(s.src); }, getShaderParameter: s => s.ok, getShaderInfoLog: () => '',
            createProgram: () => ({ sh: [] }), attachShader: (p, s) => p.sh.push(s), linkProgram: () => {}, getProgramParameter: p => p.sh.length === 2, useProgram: p => { prog = p; },
            getAttribLocation: (p, name) => { const s = p.sh.map(x => x.src).join('\n'); return new RegExp('attribute\\s[^;]*\\b' + name + '\\s*;').test(s) ? (p.a = p.a || {}, name in p.a ? p.a[name] : (p.a[name] = Object.keys(p.a).length)) : -1; },
            getUniformLocation: (p, name) => { const s = p.sh.map(x => x.src).join('\n'); return new RegExp('uniform\\s[^;]*\\b' + name + '\\s*;').test(s) ? { name } : null; },
            enableVertexAttribArray: a => { enabled[a] = true; }, createBuffer: () => ({ id: n++ }), bindBuffer: (t, b) => { bound[t] = b; },
            bufferData: (t, d) => { bound[t].data = d.slice(); },
            vertexAttribPointer: (a, k, ty, norm, stride, off) => { attrs[a] = { b: bound['ARRAY_BUFFER'], k, ty, stride, off }; }, vertexAttrib1f: (a, v) => { attrs[a] = { v }; },
            uniformMatrix4fv: (u, tr, m) => { if (u) (prog.u = prog.u || {})[u.name] = Array.from(m); },
            clear: m => { self.draws = []; self.frames++; }, clearColor() {}, depthFunc() {}, enable() {}, disable() {}, blendFunc() {}, viewport: (x, y, w, h) => { self.view = [x, y, w, h]; },
            drawElements: (mode, cnt, ty, off) => {
                const at = name => { const a = attrs[prog.a[name]]; return a && a.b ? (enabled[prog.a[name]] ? a : null) : a; };
                self.draws.push({ mode, cnt, ty, off, index: bound['ELEMENT_ARRAY_BUFFER'].data, vertex: at('aVertexPosition'), normal: at('aVertexNormal'), color: at('aVertexColor'), alpha: at('aScaleAlpha'), mv: prog.u.uMVMatrix, pm: prog.u.uPMatrix, nm: prog.u.uNormalMatrix });
            },
        };
        let bit = 1;
        return new Proxy(gl, { get: (t, k) => k in t ? t[k] : typeof k === 'string' && /^[A-Z_0-9]+$/.test(k) ? (/_BIT$/.test(k) ? (cst[k] = cst[k] || (bit *= 2)) : k) : undefined });
    }
    // user actions
    tick(ms) { this.now += ms === undefined ? 50 : ms; for (const t of this.timers) t.f(); const o = this.once || []; this.once = []; for (const f of o) f(); this.flush(); }
    fire(where, type, ev) { ev = Object.assign({ preventDefault() {}, stopPropagation() {}, type, target: where === 'document' ? null : where }, ev); if (where !== 'document') for (const f of where.l[type] || []) f(ev); for (const f of this.listeners.document[type] || []) f(ev); this.flush(); }
    click(e) {
        this.fire(e, 'mouseover', {}); this.fire(e, 'mousedown', { buttons: 1, clientX: 900, clientY: 20 });
        if (e.tag === 'input' && e.type === 'checkbox') { e.checked = !e.checked; if (e.attr.onchange) this.run(e.attr.onchange); }
        else if (e.attr.onclick) this.run(e.attr.onclick);
        this.fire(e, 'mouseup', {}); this.flush();
    }
    type(e, text) { this.fire(e, 'mouseover', {}); this.fire(e, 'mousedown', { buttons: 1 }); e.value = text; if (e.attr.onchange) this.run(e.attr.onchange); this.flush(); }
    row(label) { const r = this.rows.find(x => x.label.startsWith(label)); if (!r) throw new Error('no row ' + label); return r; }
    button(label, name) { const b = (label === null ? this.elements : this.row(label).parts).find(e => e.tag === 'button' && e.label === name); if (!b) throw new Error('no button ' + label + ' ' + name); return b; }
    has(name) { return this.elements.some(e => e.tag === 'button' && e.label === name); }
    input(label) { const b = this.row(label).parts.find(e => e.tag === 'input'); if (!b) throw new Error('no input ' + label); return b; }
}
module.exports = { Page, tokens };
