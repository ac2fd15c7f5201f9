'use strict';
// The [In] parameter: `in` at any depth of an expression in the first part of a for. Frames that pass the restriction on (open) or lift it (closed).
const HEADS = ['for(¦;;);', 'for(var x=¦;;);', 'for(let x=¦;;);', 'for(const x=¦;;);', 'for(var y,x=¦;;);', 'for(var x=¦,y=1;;);', 'for(var[x]=¦;;);', 'for(let{x}=¦;;);', 'for(x=¦;;);', 'for(x,¦;;);', 'for(¦,x;;);', 'for(;¦;);', 'for(;;¦);', 'for(x of ¦);', 'for(x in ¦);', 'for(var x of ¦);', 'for(let x in ¦);', 'for(x.y=¦;;);', 'for([x]=¦;;);', 'for(var x=¦ in y);', 'for(let x=¦ of y);', 'if(¦);', '¦;', 'var x=¦;'];
const OPEN = ['p=>¦', '(p,q)=>¦', 'async p=>¦', 'async(p)=>¦', '()=>¦', 'p=¦', 'p+=¦', 'p.q=¦', 'p[q]**=¦', '[p]=¦', '({p}=¦)', 'p?q:¦', 'yield ¦', 'yield*¦', 'yield p?q:¦', 'await ¦', '-¦', 'typeof ¦', '!¦', 'p+¦', 'p&&¦', 'p||¦', 'p<¦', 'p**¦', 'p instanceof ¦', '¦+p', '¦?p:q', '¦&&p', '¦,p', 'p,¦', '¦|p', '¦<p', '¦==p', 'p in ¦', '¦ in p', 'p=>q=>¦', 'yield p=¦', 'p=yield ¦', 'p=yield*¦', 'p=await ¦', 'new ¦', '++¦', '¦++', 'p=async()=>¦', 'delete ¦', 'void ¦'];
const CLOSED = ['(¦)', '[¦]', 'p(¦)', 'p[¦]', 'p?¦:q', '{p:¦}', '({p:¦})', '({[¦]:p})', '`${¦}`', 'p`${¦}`', 'new p(¦)', 'function(){¦}', 'function(p=¦){}', 'p=>{¦}', '(p=¦)=>q', 'async(p=¦)=>q', 'class extends (¦){}', 'class{[¦](){}}', 'class{m(){¦}}', '[...¦]', 'p(...¦)', 'async(¦)', '({m(p=¦){}})', '([p=¦])=>q', '({p=¦})=>q', '[p=¦]=q', '({p=¦}=q)', 'async(p,[q=¦])=>{}', 'function*(){yield ¦}', 'async function(){await ¦}', '{p=¦}'];
const CORE = ['a in b', 'a in b', 'a in b', 'a in b in c', '(a in b)', '[a in b]', 'a+b in c', 'a in b?c:d', 'a?b in c:d', 'a?b:c in d', 'a=b in c', 'a=>b in c', 'a=>{}in b', 'a of b', 'yield in a', 'a instanceof b', 'a<b', 'a.in', '{in:a}.in', '"in"in a', '/a/ in b', '`a`in b', '1 in b', 'a++in b', '!a in b', '(a)in(b)', 'a()in b', 'function(){}in b', 'class{}in b', 'await a in b', 'yield a in b', 'yield*a in b', 'async a=>b in c', 'async()=>{}in c', 'let in b', 'of in b', 'async in b', 'this in b', 'a\nin\nb', 'in', 'a in', 'in b'];
const WRAP = [x => x, x => `function*g(){${x}}`, x => `async function g(){${x}}`, x => `async function*g(){${x}}`, x => `()=>{${x}}`, x => `{${x}}`, x => `l:${x}`, x => `if(z)${x}`, x => `for(;;)${x}`, x => `"use strict";${x}`, x => `class A{*m(){${x}}}`, x => `for(var w=function*(){${x}};;);`, x => `for(;;){function*g(){${x}}}`];
const ALL = OPEN.concat(CLOSED);
const build = (h, fs, c, w) => { let e = '¦'; for (const f of fs) e = e.replace('¦', () => f); return WRAP[w](HEADS[h].replace('¦', () => e.replace('¦', () => c))); };
module.exports = {
  phases(tier, k = 1) {
    const th = tier === 'thorough', H = HEADS.length, F = ALL.length, W = 4;
    // every head with every frame, in every kind of function; then deeper chains
    const one = H * (F + 1) * W;
    return [
      { name: 'in at the head of a for, one frame', cases: one * (th ? 4 : 1), gen(d, ctx, i) { const h = i % H; let k = Math.floor(i / H); const w = k % W; k = Math.floor(k / W); const f = k % (F + 1); k = Math.floor(k / (F + 1)); return { src: build(h, f ? [ALL[f - 1]] : [], k ? d.pick(CORE) : 'a in b', w), goal: 'script' }; } },
      { name: 'in at the head of a for', cases: 40000 * k * (th ? 12 : 1), gen(d) { const n = d.weigh([[2, 0], [3, 1], [5, 2], [4, 3], [2, 4]]); const fs = d.list(n, n, () => d.int(5) ? d.pick(OPEN) : d.pick(CLOSED)); return { src: build(d.int(3) ? d.int(11) : d.int(H), fs, d.pick(CORE), d.int(WRAP.length)), goal: d.int(6) ? 'script' : 'module' }; } },
    ];
  },
};
