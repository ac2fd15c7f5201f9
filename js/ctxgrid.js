'use strict';
// Words whose meaning depends on the context (yield, await, return, break, super, ...) in every place of every kind of function, and after every place.
const forms = require('./forms.js');
const CORE = ['yield b', 'await b', 'yield', 'await', 'yield*b', 'return', 'return b', 'break', 'continue', 'break l', 'super.b', 'super(b)', 'new.target', 'arguments=b', 'let', 'static', 'with(b)c', '010', 'delete b', 'import.meta', 'yield=>b', 'await=>b', 'async(await)=>b', '(yield)=>b', 'function yield(){}', 'function await(){}', 'class yield{}', 'class await{}', 'yield:b', 'await:b', 'var yield', 'var await', 'for await(b of c);', 'function*b(){yield c}', 'async()=>await b', 'async function b(){await c}'];
const HARD = ['yield b', 'await b', 'yield', 'await', 'return', 'break', 'super.b', 'new.target', '010'];
const MORE = ['"a"[¦]', '"a"+¦', '"a"(¦)', '"a"?¦:b', '"a"in ¦', '"a".b=¦', '"a";¦', '"a",¦', '"use strict"[¦]', '"use strict";"a"[¦]', 'export default class{[¦](){}}', 'export default class A{[¦](){}}', 'export default class A extends(¦){}', 'export default class extends(¦){}', 'export class A extends(¦){}', 'export class A{m(a=¦){}}', 'export default class{m(){¦}}', 'export let{a=¦}=b', 'export let[a]=¦', 'export var{[¦]:a}=b', 'export const a=b=>¦', 'export const a=()=>{¦}', 'export default(¦)', 'export default a=>¦', 'export default()=>{¦}', 'export default async function(a=¦){}', 'export default function*(a=¦){}', 'export default function*(){¦}', 'export default function A(){¦}', 'export function A(a=¦){}', 'export function*A(){¦}', 'export async function A(){¦}', 'export async function*A(a=¦){}', 'export default async a=>¦', 'export default`${¦}`', 'export default a,¦', 'export default{m(){¦}}', 'export default[¦]\n', 'export default new ¦',
  'l:function(){¦}', 'l:function f(){¦}', 'l:function ¦(){}', 'l:function*f(){¦}', 'l:class{[¦](){}}', 'if(a)function f(){¦}', 'if(a)function(){¦}', 'export default()=>{function(){¦}}', 'export default()=>{class{}¦}', 'export default{m(){function(){}¦}}', 'export default function(){function(){¦}}', 'export default function(){class{}¦}', 'export default class{m(){function(){}¦}}', 'export default class{m(){class{}¦}}', 'export default class extends class{}{m(){¦}}', 'export default(function(){function(){¦}})', 'export default function(a=()=>{class{}}){¦}', 'export default function(){}function(){¦}', 'export default class{}class{[¦](){}}', 'export default a;function(){¦}', 'export default async()=>{async function(){¦}}', 'export default function(){if(a)function(){¦}}', 'export default function(){l:function(){¦}}', 'export default function(){export default ¦}', 'export default(()=>{function*(){¦}})()',
  'class A extends B{m(){super[¦]}}', 'class A{static m(a=¦){}}', 'class A{get[¦](){}}', 'class A extends(¦){constructor(){super()}}', 'class A{m(){class B extends ¦{}}}', 'class A{[¦]=1}', 'for(let a=function(){¦};;);', 'for(var[a=¦]of b);', 'for(let{[¦]:a}of b);', 'for(let{a=¦}in b);', 'for(const[a]of ¦)b', 'for(a of b){¦}', 'for([a=¦]of b);', 'for({[¦]:a}of b);', 'for(a.b[¦]in c);', 'do{¦}while(a)', 'while(a){¦}', 'for(;;){¦}', 'l:for(;;){¦}', 'l:{¦}', 'l:for(;;){()=>{¦}}', 'for(;;){function f(){¦}}', 'for(;;){({m(){¦}})}', 'for(;;){class A{m(){¦}}}', 'switch(a){case b:()=>{¦}}', 'l:{async()=>{¦}}', 'for(a of function(){¦})b', 'while(function(){¦})a', 'switch(function(){¦}){}', 'for(;;){if(a){¦}else b}', 'for(;;)try{¦}finally{}', 'for(;;)switch(a){default:¦}', 'for(;;);¦', 'l:for(;;);¦', 'switch(a){};¦', 'l:a;¦', 'l:{};¦',
  '({*m(a=¦){}})', '({async*m(a=¦){}})', '({async*m(){¦}})', '({async m(a=¦){}})', '({*[¦](){}})', '({async*[¦](){}})', '({get a(){return ¦}})', '({set[¦](a){}})', '({a:function(){¦}})', '({a:function*(){¦}})', '({a:()=>¦})', '({a:async()=>¦})', '({m(){()=>{¦}}})', '({m(){function f(){¦}}})', '({m(){(a=¦)=>b}})', '({m(a=()=>¦){}})', 'async(a=b=>¦)=>c', '(a=async()=>¦)=>c', '(a=function*(){¦})=>b', 'async(a=function(){¦})=>b', 'async({a:{b=¦}})=>c', '({a:[b=¦]})=>c', '[a=function(){¦}]=b', '({a=async()=>{¦}}=b)', 'async(a,...[b=¦])=>c', '(a,...{b=¦})=>c', 'async(¦)\n', 'async(a)=>{}\n¦', 'async a=>{}\n¦', '()=>{}\n¦', '(a=b)=>{}\n¦', 'function f(a=function*(){¦}){}', 'function*f(a=function(){¦}){}', 'function*f(){function g(a=¦){}}', 'function*f(){(a=¦)=>b}', 'function*f(){a=>{¦}}', 'function*f(){async a=>{¦}}', 'function*f(){({m(a=¦){}})}', 'function*f(){class A extends(¦){}}', 'function*f(){class A{[¦](){}}}', 'function*f(){function ¦(){}}', 'function*f(){(function ¦(){})}', 'async function f(){a=>{¦}}', 'async function f(){(a=¦)=>b}', 'async function f(){function g(a=¦){}}', 'async function f(){({[¦](){}})}', 'async function f(){(function*(a=¦){})}', 'async function f(){async(a=¦)=>b}'];
const PLACES = [...new Set(forms.PLACES.concat(MORE))];
const WRAP = [x => x, x => `function F(){${x}}`, x => `function*F(){${x}}`, x => `async function F(){${x}}`, x => `async function*F(){${x}}`, x => `F=()=>{${x}}`, x => `F=async()=>{${x}}`, x => `F={M(){${x}}}`, x => `class K extends J{constructor(){${x}}}`, x => `class K{static async*M(){${x}}}`, x => `"use strict";${x}`];
// the four ways: in place; in place and followed by a context word; the place filled with `a`, then the word; in parentheses
const WAYS = [(p, c) => p.replace('¦', () => c), (p, c) => p.replace('¦', () => 'a') + '\n;' + c, (p, c) => p.replace('¦', () => `(${c})`), (p, c) => p.replace('¦', () => c + '\n;' + c)];
const isMod = p => /^\s*(import|export)\b(?!\(|\.)/.test(p);
module.exports = {
  phases(tier, filter, k = 1) {
    const th = tier === 'thorough', P = PLACES.filter(p => !filter || filter.test(p));
    const top = PLACES.filter(p => /^["']/.test(p) || isMod(p) && (!filter || filter.test(p))), any = P.filter(p => !isMod(p));
    const H = HARD.length, C = CORE.length, n1 = top.length * C * 4, n2 = any.length * H * WRAP.length * 3;
    const ph = [];
    if (top.length) ph.push({ name: 'context words in module items', cases: n1, gen(d, ctx, i) { const p = top[i % top.length]; i = Math.floor(i / top.length); const c = CORE[i % C]; i = Math.floor(i / C); return { src: WAYS[i](p, c), goal: 'module' }; } });
    if (any.length) {
      ph.push({ name: 'context words in places', cases: k ? n2 : 0, gen(d, ctx, i) { const p = any[i % any.length]; i = Math.floor(i / any.length); const c = HARD[i % H]; i = Math.floor(i / H); const w = i % WRAP.length; return { src: WRAP[w](WAYS[Math.floor(i / WRAP.length)](p, c)), goal: d.int(3) ? 'script' : 'module' }; } });
      ph.push({ name: 'context words in nested places', cases: 50000 * k * (th ? 14 : 1), gen(d) { let s = d.pick(CORE); const n = d.weigh([[2, 1], [4, 2], [2, 3]]); for (let j = 0; j < n; j++) s = (d.int(3) ? d.pick(WAYS) : WAYS[0])(d.pick(any), s); const w = d.pick(WRAP); s = w(s); if (d.int(3) === 0) s = d.pick(WRAP)(s); return { src: s, goal: d.int(3) ? 'script' : 'module' }; } });
    }
    return ph.filter(p => p.cases);
  },
};
