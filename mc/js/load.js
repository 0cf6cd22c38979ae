// load.js PAGE...: opens pages, prints which scripts they loaded and what they draw: triangles in mm with normals and colours
'use strict';
const { Page } = require('./page.js');
for (const f of process.argv.slice(2)) {
    let o = {};
    try {
        const p = new Page(f); p.tick();
        o = { loaded: p.loaded, alerts: p.alerts, parts: p.draws.map(d => ({ mode: d.mode, ty: d.ty, off: d.off, cnt: d.cnt, bad: !(d.vertex && d.normal && d.color && d.vertex.k === 3 && d.normal.k === 3 && d.color.k === 4), index: Array.from(d.index), v: Array.from(d.vertex.b.data), n: Array.from(d.normal.b.data), c: Array.from(d.color.b.data), ints: d.index.constructor.name })) };
    } catch (e) { o = { error: String(e && e.message || e).split('\n')[0] }; }
    console.log(JSON.stringify(o));
}
