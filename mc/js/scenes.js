// Scenes written by the description of the format (doc/jsformat.md), as JavaScript text and for the model.
'use strict';
const { Model, xlat, mul, rot } = require('./model.js');
const tri = (z, k) => `'vertex':[0,0,${z},${k},0,${z},0,${k},${z}],'normal':[0,0,1000,0,0,1000,0,0,1000],'color':[255,0,0,255,0,255,0,255,0,0,255,255],`;
const part = (g, z, k, extra) => `scene.push({ 'group':{${g.map(x => x + ':1').join(',')}}, 'scaleV':1000, 'scaleC':255, 'shiftI':0, ${tri(z, k)} 'index':[0,1,1], ${extra || ''} });\n`;
const S = {};
S.plain = 'anim = false;\n' + part([], 10, 50) + part([], 20, 30, `'xform':[1,0,0,0, 0,0,1,0, 0,-1,0,0, 0.1,0.2,0.3,1]`);
S.worlds = 'anim = false;\nworldPos = [{name:"first",mat:[' + mul(rot(90, [0,0,1]), xlat(.1, .2, 0)) + '],cam:[0.1,-0.2,2]},{name:"second",view:[' + rot(30, [1,1,0]) + ']},{name:false,cam:[9,9,9]},{name:"third",cam:[0,0,3],mat:[' + xlat(0, 0, .5) + ']}];\n' + part([], 10, 50);
// the drawn parts belong to every subset of the groups
S.groups = `anim = false;
group[1] = { tag:'one', name:'One', optional:true, default_off:false, fixed:false, prio:1 };
group[2] = { tag:'two', name:'Two', optional:true, default_off:true, fixed:false, prio:2 };
group[3] = { tag:'mv', name:'Mv', optional:false, default_off:false, fixed:false, prio:0, move:{ unit:[1,0,0.5], name:'mm', amount:0.1 } };
group[7] = { tag:'seven', name:'Seven', optional:true, default_off:false, fixed:false, prio:1.5 };
group[10] = { tag:'ten', name:'Ten', optional:true, default_off:false, fixed:false, prio:1 };
` + [[], [1], [2], [3], [10], [1, 2], [1, 3], [1, 10], [2, 10], [7, 10], [2, 7], [2, 7, 10], [1, 2, 3, 7, 10]].map((g, i) => part(g, 10 + i, 50 + i)).join('');
S.motion = `anim = false;
group[1] = { tag:'r', name:'R', optional:false, default_off:false, fixed:false, prio:0, rot:{ center:[0.01,0.02,0], unit:[0,0,1], get:function(){ return 0.5; } } };
group[2] = { tag:'s', name:'S', optional:false, default_off:false, fixed:false, prio:0, scale:{ center:[0,0.1,0], unit:[1,0,0.5], get:function(){ return 3; } } };
group[3] = { tag:'m', name:'M', optional:false, default_off:false, fixed:false, prio:0, move:{ unit:[0,1,0], name:'m', amount:0.2, get:function(){ return 0.75; } } };
group[4] = { tag:'f', name:'F', optional:true, default_off:false, fixed:true, prio:0 };
` + [[], [1], [2], [3], [4], [1, 2], [2, 3], [1, 2, 3]].map((g, i) => part(g, 10 + i, 50 + i)).join('') + part([1], 5, 7, `'xform':[1,0,0,0, 0,0,1,0, 0,-1,0,0, 0.1,0.2,0.3,1]`);
// the format's defaults: scales of the whole scene, differences of indices with a shift, no entries in the parts
S.defaults = `anim = false;\nsceneScaleV = 500; sceneScaleC = 100; sceneShiftI = 3;\nscene = [{ 'group':{}, 'vertex':[0,0,5,50,0,5,0,50,5,50,50,5], 'normal':[0,0,500,0,0,500,0,0,500,0,0,500], 'color':[100,0,0,100,0,100,0,100,0,0,100,50,100,100,100,100], 'index':[3,4,4,4,1,2] }];\n`;
function model(text) {
    const vm = require('vm'), c = vm.createContext({}); // the same variables a page declares
    new vm.Script('var worldPos=[],scene=[],group={},sceneScaleV=1,sceneScaleC=1,sceneShiftI=0,anim=true;').runInContext(c); new vm.Script(text).runInContext(c);
    const S = { scene: c.scene, group: c.group, worldPos: c.worldPos, anim: c.anim };
    S.scene.forEach(s => {
        s.V = s.vertex.map(v => v / (s.scaleV || c.sceneScaleV)); s.N = s.normal.map(v => v / (s.scaleV || c.sceneScaleV)); s.C = s.color.map(v => v / (s.scaleC || c.sceneScaleC));
        let last = 0; s.I = s.index.map(v => (last = v - (s.shiftI || c.sceneShiftI) + last));
    });
    return S;
}
module.exports = { S, model };
