'use strict';
// Forms that no ES2019 text may contain where a statement is expected (the reference has the last word).
// Holes: E an assignment expression, S a statement list, S1 a statement, B a fresh name, P a binding pattern; n m k l f x are names.
module.exports = [
  "switch(E){default:S default:S}", "switch(E){case E:S default:S case E:default:}", "switch(E){S}", "switch(E){case E}", "switch(E){case:S}", "switch E{}", "switch(E)S", "switch(){}", "switch(E){default E:}", "switch(E){case E:S}}", "try{S}", "try S catch(B){}", "try{S}catch{S}catch{S}", "try{S}finally{S}catch(B){S}",
  "try{S}finally{S}finally{S}", "try{S}catch(){S}", "try{S}catch(B=E){S}", "try{S}catch(B,B){S}", "try{S}catch(...B){S}", "try{S}catch(P=E){}", "try{S}catch B{S}", "catch(B){S}", "finally{S}", "try{S}catch(B)S1", "try{S}finally S1", "try{S}catch(n.m){S}", "if E;", "if(E)",
  "if()S1", "if(E)else S1", "if(E){S}else", "if(E);;else S1", "else S1", "if(E)S1 else S1 else S1", "if(E)class B{}", "if(E)let[B]=E", "if(E)const B=E", "if(E)function*B(){}", "if(E)async function B(){}", "if(E);else class B{}", "if(E){S}else const B=E", "while E;",
  "while()S1", "while(E)", "do S1", "do{S}while", "do{S}while E", "do{S}while()", "do;S1 while(E)", "do while(E)", "while(E)class B{}", "while(E)function B(){}", "do function B(){}while(E)", "do let[B]=E;while(E)", "while(E)const B=E", "for(;)S1",
  "for(E)S1", "for(;;;)S1", "for()S1", "for(;;)", "for(;;E;)S1", "for(var B of E,E)S1", "for(var B,v9 of E)S1", "for(let B,v9 in E)S1", "for(var B;E)S1", "for(E;E)S1", "for(B of)S1", "for(of E)S1", "for(var of of)S1", "for(let of E)S1",
  "for(E of E of E)S1", "for(n+m of E)S1", "for(n+m in E)S1", "for(n() of E)S1", "for(n=E of E)S1", "for(P=E of E)S1", "for(let B=E of E)S1", "for(var B=E of E)S1", "for(const B=E in E)S1", "for(let P=E in E)S1", "for(var P=E in E)S1", "for(var P;;)S1", "for(let P;;)S1", "for(const P;;)S1",
  "for each(B in E)S1", "for await(;;)S1", "for await(B of E)S1", "async function B(){for await(B in E)S1}", "async function B(){for await(;;)S1}", "for(;;)class B{}", "for(;;)function B(){}", "for(;;)const B=E", "for(;;)let[B]=E", "for(B in E)function B(){}", "for(B of E)class B{}", "for((P) of E)S1", "for((P) in E)S1", "for({m(){}}of E)S1",
  "for([n()]of E)S1", "for({n:m()}in E)S1", "for([n+m] in E)S1", "for(...B of E)S1", "for(n in E;E)S1", "for(var n in m;;)S1", "for(let;E)S1", "for(;E)S1", "for(n;m of E;)S1", "for(var n=1 in m of k)S1", "with E;", "with()S1", "with(E)", "with(E)class B{}",
  "with(E)function B(){}", "with(E)let[B]=E", "var", "var;", "var B,", "var ,B", "var B B", "var P", "var P,B", "var 1", "var n.m", "var n()", "var(B)", "var B=",
  "var B+=E", "var B:E", "let B B", "let B,", "const", "const B,", "const P", "let P", "let", "const n.m=E", "let(B)B", "var[n.m]=E", "var{n:m.k}=E", "var[n()]=E",
  "var{n()}=E", "var{n:1}=E", "var{\"a\"}=E", "var{1}=E", "var{[n]}=E", "var[(B)]=E", "var{n:(B)}=E", "var[...B,]=E", "var[...B,B]=E", "var[...B=E]=E", "var{...B,}=E", "var{...B,n}=E", "var{...P}=E", "var{...n.m}=E",
  "var{get n(){}}=E", "var{n=E:m}=E", "var{if}=E", "var[if]=E", "var{n:if}=E", "var{...if}=E", "var[this]=E", "let{this}=E", "const[null]=E", "var{n:true}=E", "function B{}", "function(){S}", "function B(){", "function B()S1",
  "function B(,){}", "function B(n,,m){}", "function B(...n,m){}", "function B(...n,){}", "function B(...n=E){}", "function B(n.m){}", "function B(1){}", "function B((n)){}", "function B(n+m){}", "function B(n m){}", "function B([n.m]){}", "function B({n:m()}){}", "function B(n=){}", "function B(=E){}",
  "function 1(){}", "function if(){}", "function n.m(){}", "function*(){}", "async function(){}", "async function*(){}", "function B(...){}", "function B(if){}", "function B({if}){}", "function B(){S}}", "function*B(n=yield){}", "function*B(yield){}", "async function B(n=await E){}", "async function B(await){}",
  "function*B({n=yield}){}", "async function B([n=await E]){}", "function B(this){}", "function B(n){\"use strict\";with(n);}", "function B(n=1){\"use strict\"}", "function B(...n){\"use strict\"}", "function B({n}){\"use strict\"}", "(n=1)=>{\"use strict\"}", "({m(...n){\"use strict\"}})", "async({n})=>{\"use strict\"}", "return", "return E;", "break", "continue",
  "break n9", "continue n9", "l:{continue l}", "l:continue l", "l:{S continue}", "l:{break k}", "while(E){function B(){break}}", "while(E){()=>{continue}}", "l:while(E){function B(){break l}}", "l:{()=>{break l}}", "switch(E){case E:continue}", "l:switch(E){case E:continue l}", "{break}", "if(E)continue",
  "l:if(E){continue l}", "l:l2:{continue l2}", "class B{m(){break}}", "x={m(){return break}}", "l:class B{}", "l:let[B]=E", "l:const B=E", "l:function*B(){}", "l:async function B(){}", "l:l2:class B{}", "while(E)l:function B(){}", "1:S1", "\"a\":S1", "n.m:S1",
  "(l):S1", "if:S1", "l::S1", "this:S1", "throw", "throw;", "debugger E", "debugger.n", ";;}", "{", "{S", "}", "{S}}", "n m",
  "n 1", "1 n", "\"a\" \"b\"", "\"a\" 1", "n \"a\"", ")", "]", "(E", "[E", "n(E", "n[E", "n[]", "n.", "n.1",
  "n.[m]", "n..m", "n.(m)", "n.#m", ".n", "n?.m", "n??m", "#n", "@n", "(E,)", "(,E)", "()", "(E)(", "(...n)",
  "(n,...m)", "(...n,m)=>E", "(...n,)=>E", "(n,...m,k)=>E", "(n,...m,)=>E", "(n,,m)=>E", "(,)=>E", "(,n)=>E", "((n))=>E", "((n),m)=>E", "(n.m)=>E", "(n())=>E", "(1)=>E", "(\"a\")=>E",
  "(n+m)=>E", "(n,m.k)=>E", "([n.m])=>E", "([(n)])=>E", "({n:m.k})=>E", "({n:(m)})=>E", "({n:m()})=>E", "({n(){}})=>E", "({get n(){}})=>E", "({\"a\"})=>E", "([...n,])=>E", "([...n,m])=>E", "({...n,})=>E", "({...n,m})=>E",
  "({...[n]})=>E", "({...{n}})=>E", "([n=E].m)=>E", "(n=E)+m", "({n=E})", "[{n=E}]", "({n=E}).m", "f({n=E})", "({n=E},m)", "(m,{n=E})", "n={m=E}", "({n:{m=E}})", "(n)=>", "n=>",
  "=>E", "=>{}", "n m=>E", "n.m=>E", "n()=>E", "1=>E", "(n)\n=>E", "n\n=>E", "()\n=>E", "()=>{}()", "()=>{}.n", "()=>{}[n]", "()=>{}`n`", "()=>{}+n",
  "()=>{}?n:m", "n=>{}&&m", "n&&m=>E", "-n=>E", "-()=>E", "typeof()=>E", "n+m=>E", "n?m=>E", "new n=>E", "new()=>E", "n,m=>", "(n=>{})=>E", "(n=>E)=>E", "()=>{}=E",
  "n=>m=E=>k", "()=>{}++", "++()=>E", "()=>({}", "()=>{S", "(this)=>E", "this=>E", "(if)=>E", "if=>E", "([if])=>E", "({if})=>E", "(null)=>E", "(function(){})=>E", "(class{})=>E",
  "(`a`)=>E", "(/a/)=>E", "([]+1)=>E", "(n)(m)=>E", "(n)[m]=>E", "(n).m=>E", "((n)=>E)=>E", "((n,m))=>E", "((n,m),k)=>E", "([n,m.k])=>E", "(n,{m:k.l})=>E", "async n m=>E", "async()=>", "async n=>",
  "async\nn=>E", "async n\n=>E", "async()\n=>E", "async\n()=>E", "async(n.m)=>E", "async(...n,m)=>E", "async(1)=>E", "async((n))=>E", "async(n,,m)=>E", "async(await)=>E", "async await=>E", "async(n=await E)=>E", "async()=>{}()", "async n=>{}+m",
  "async function", "async n", "async 1", "async if=>E", "async({n=E})", "async(n,{m=E})", "new async n=>E", "new async()=>E", "async(n)(m)=>E", "async.n=>E", "async[n]=>E", "async({n(){}})=>E", "async([n.m])=>E", "async(...n,)=>E",
  "async()+n=>E", "async n=>m:", "async async=>", "async async n", "async\nfunction B(){}1", "new", "new.n", "new.target", "new new", "new new.target", "new()", "new 1 2", "new n m", "new ++n",
  "new -n", "new n++ m", "new n=E", "new super", "new super()", "new async function", "new import", "new n=>E", "new.target=E", "function B(){new.target=E}", "function B(){new.target++}", "function B(){new.n}", "function B(){[new.target]=E}", "function B(){for(new.target of E);}",
  "new.", "function B(){new.target.}", "function B(){new .\ntarge}", "super", "super.n", "super[n]", "super()", "function B(){super()}", "function B(){super.n}", "class B{m(){super}}", "class B{m(){super()}}", "class B{constructor(){super()}}", "class B extends n{m(){super()}}", "x={m(){super()}}",
  "x={m(){super}}", "x={m:function(){super.n}}", "x={n:super.m}", "class B extends n{constructor(){function f(){super()}}}", "class B{m(){function f(){super.n}}}", "class B extends n{constructor(){super}}", "class B extends n{constructor(){super`a`}}", "class B{m(){super?1:2}}", "class B{m(){new super()}}", "class B extends n{constructor(){new super()}}", "class B extends super.n{}", "class B{[super.n](){}}", "class B extends n{get constructor2(){super()}}", "class B extends n{static m(){super()}}",
  "(()=>super.n)", "class B{m(){super=E}}", "class B{m(){super++}}", "class{}", "class B", "class B{", "class B}", "class B(){}", "class B{m}", "class B{m;}", "class B{m=E}", "class B{m:E}", "class B{m(){},k(){}}", "class B{\"a\"}",
  "class B{get}", "class B{get m}", "class B{get m(n){}}", "class B{set m(){}}", "class B{set m(n,k){}}", "class B{set m(...n){}}", "class B{set m(n,){}}", "class B{get m(){}get}", "class B{get*m(){}}", "class B{set*m(n){}}", "class B{async get m(){}}", "class B{get async m(){}}", "class B{async*}", "class B{*}",
  "class B{**m(){}}", "class B{*async m(){}}", "class B{async async m(){}}", "class B{static static static m(){}}", "class B{static{S}}", "class B{...n}", "class B{n,m}", "class B{[n]}", "class B{[](){}}", "class B{[n,m](){}}", "class B{m(){S}", "class B extends{}", "class B extends n,m{}", "class B extends n extends m{}",
  "class B extends n=E{}", "class B extends n=>m{}", "class B extends n+m{}", "class B extends-n{}", "class B extends n++{}", "class B extends n?m:k{}", "class B extends async n=>m{}", "class B{function m(){}}", "class B{var n}", "class B{S1}", "class B{async\nm(){}}", "class B{m()=>E}", "class B{m()}", "class B{m{}}",
  "class B{(){}}", "class B{static}", "class B{static m}", "class B{static=1}", "class B{if}", "class if{}", "class 1{}", "class n.m{}", "class B{#m(){}}", "class B{get [n]}", "class B{constructor:E}", "class B{m(n){},}", "class yield{}", "class static{}",
  "class B{m(static){}}", "class B{m(){with(n);}}", "class B{m(){var yield}}", "class B extends(with(n);){}", "(class B{})=>E", "(class{m})", "x=class{m:E}", "class B{m(n=1){\"use strict\"}}", "class B{m(){010}}", "class B{m(){\"\\\u00001\"}}", "({n:})", "({:E})", "({n:E m:E})", "({n:E;})",
  "({,})", "({n,,m})", "({n m})", "({1})", "({\"a\"})", "({[n]})", "({if})", "({this})", "({null})", "({1:})", "({n.m})", "({n.m:E})", "({n=})", "({...})",
  "({...,n})", "({get})=E", "({get n})", "({get n:E})", "({get n(m){}})", "({set n(){}})", "({set n(m,k){}})", "({set n(...m){}})", "({get*n(){}})", "({*n})", "({*n:E})", "({*})", "({async n})", "({async n:E})",
  "({async*n})", "({async*n:E})", "({async get n(){}})", "({get async n(){}})", "({async*get n(){}})", "({**n(){}})", "({*async n(){}})", "({async async n(){}})", "({n()})", "({n(){S})", "({n{}})", "({n()=>E})", "({(){}})", "({function n(){}})",
  "({n(){}m(){}})", "({[]:E})", "({[n,m]:E})", "({[n:E})", "({static n(){}})", "({async\nn(){}})", "({+n:E})", "({`a`:E})", "({/a/:E})", "({n:E=})", "({n=E}+1)", "({`a`})", "({...n=})", "({n(if){}})",
  "({set n(if){}})", "({get if})", "({async if})", "({n(m=1){\"use strict\"}})", "[E", "[E E]", "[E;]", "[...]", "[...,n]", "[... ...n]", "[E,...]", "[for]", "[,]=", "[n+m]=E",
  "[n()]=E", "[1]=E", "[\"a\"]=E", "[this]=E", "[n=>m]=E", "[-n]=E", "[n++]=E", "[n?m:k]=E", "[...n,]=E", "[...n,m]=E", "[...n=E]=E", "[...n+m]=E", "[(n=E)]=E", "[([n])]=E",
  "[({n})]=E", "([n])=E", "({n})=E", "(({n}))=E", "([n]=E)=E", "[[n]+1]=E", "[[n](m)]=E", "[[n=E].m]=E&&", "({n:m+k}=E)", "({n:m()}=E)", "({n:1}=E)", "({n:(m=E)}=E)", "({n:({m})}=E)", "({n:[m]+k}=E)",
  "({n(){}}=E)", "({get n(){}}=E)", "({\"a\"}=E)", "({...n,}=E)", "({...n,m}=E)", "({...[n]}=E)", "({...{n}}=E)", "({...n=E}=E)", "({...(n,m)}=E)", "({n}+1)=E", "({n})+=E", "[n]+=E", "({n}=E)=E", "({n:m=E}).k={l=E}",
  "{n}=E", "[n]++", "++[n]", "({n})++", "--{n}", "({n}=E)=>E=", "[n]=>E", "{n}=>E", "({if}=E)", "({n:if}=E)", "[if]=E", "[this.n,this]=E", "({this}=E)", "[new.target]=E",
  "[`a`]=E", "[async n=>m]=E", "[yield n]=E=", "[...{n}=E]=E", "[...[n]=E]=E", "[{n=E}]", "[{n=E}].m", "f([{n=E}])", "[[{n=E}]]", "({n:[{m=E}]})", "n=", "=E", "n==", "n=E=",
  "n+", "n+=", "+", "n*", "*n", "n**", "**n", "-n**m", "+n**m", "!n**m", "~n**m", "typeof n**m", "void n**m", "delete n.m**k",
  "(-n)**-m**-k", "await n**m", "n++++", "++n++", "++ ++n", "n++ ++", "--n--", "n--=E", "n++=E", "-n=E", "!n=E", "n+m=E", "n&&m=E", "n?m:k=E=",
  "n()=E", "n()++", "++n()", "1=E", "1++", "++1", "\"a\"=E", "this=E", "this++", "null=E", "true=E", "/a/=E", "`a`=E", "(n+m)=E",
  "(n,m)=E", "(n=E)=E", "(n())=E", "(1)=E", "(this)++", "new n=E", "new n()=E", "new n()++", "typeof n=E", "typeof n++ ++", "delete n=E", "n?m", "n?m:", "n?:m",
  "n?m,k:l", "?m:k", "n?m:k:l", "n:m:", "n ? m : k ? l", "n,", ",n", "n,,m", "n in", "in n", "n instanceof", "instanceof n", "n of m", "n is m",
  "typeof", "void", "delete", "!", "~", "-", "++", "--", "++\n", "n ! m", "n ~ m", "n not in m", "n <> m", "n === = m",
  "n ! == m", "n =+= m", "n === == m", "n & && m", "n >>>> m", "n >>>= = m", "n <<< m", "n ** * m", "n => => m", "n = > m", "n . . m", "n + * m", "n / / m", "n & & m",
  "yield E;\"use strict\"", "function*B(){yield\n*n}", "function*B(){n+yield}", "function*B(){-yield}", "function*B(){typeof yield n}", "function*B(){yield=E}", "function*B(){yield++}", "function*B(){var yield}", "function*B(){yield:n}", "function*B(){yield*}", "function*B(){yield* ;}", "function*B(){(yield)=>n}", "function*B(){(n=yield)=>m}", "function*B(){yield=>n}",
  "function*B(){function yield(){}yield n m}", "function*B(){[yield]=E}", "function*B(){({yield}=E)}", "function*B(){({yield})}", "function*B(){class yield{}}", "function*B(){new yield}", "function*B(){n?yield}", "function*B(){yield n m}", "function*B(){yield*yield*}", "function*B(){n**yield m}", "function*B(){yield n=>}", "function*B(){async yield=>n}", "function*B(){try{}catch(yield){}}", "function*B(){for(yield of n);}",
  "function*B(){for(var yield of n);}", "function*B(){n.m+yield k}", "function*B(){yield?m:k?}", "function*B(){`${yield `}", "async function B(){await}", "async function B(){await;}", "async function B(){var await}", "async function B(){await=E}", "async function B(){await:n}", "async function B(){({await})}", "async function B(){(await)=>n}", "async function B(){await=>n}", "async function B(){function await(){}await}", "async function B(){class await{}}",
  "async function B(){new await n}", "async function B(){await n**m}", "async function B(){-await n**m}", "async function B(){(n=await m)=>k}", "async function B(){async(n=await m)=>k}", "async function B(){async await=>n}", "async function B(){await n=E}", "async function B(){await n++ ++}", "async function B(){++await n}", "async function B(){for(await of n);}", "async function B(){for await(n in m);}", "async function B(){try{}catch(await){}}", "async function B(){await\n}", "async function B(){n await m}",
  "async function B(){await n m}", "async function B(){({n:await}=m)}", "async function B(){[await]=n}", "()=>await n", "function B(){await n}", "await n", "await n.m;n m", "class B{async m(){await}}", "({async m(){await}})", "({async m(n=await m){}})", "async()=>await", "async n=>await", "async()=>{await}", "async()=>(await)",
  "async(n=await m)=>k", "async({n=await m})=>k", "async function*B(){yield await}", "async function*B(){await yield n}", "async function*B(n=yield){}", "\"use strict\";with(n)m", "\"use strict\";var static", "\"use strict\";let=1", "\"use strict\";yield=1", "\"use strict\";yield n", "\"use strict\";var{yield}=n", "\"use strict\";interface:n", "\"use strict\";(private)=>n", "\"use strict\";package=>n",
  "\"use strict\";function f(public){}", "\"use strict\";if(n)function f(){}", "\"use strict\";l:function f(){}", "\"use strict\";for(var n=1 in m);", "\"use strict\";x={implements}", "\"use strict\";[protected]=n", "\"use strict\";function static(){}", "\"use strict\";class let{}", "\"use strict\";eval=1", "\"use strict\";n=010", "\"use strict\";\"\\01\"", "\"use strict\";try{}catch(static){}", "\"use strict\";static n", "function f(){\"use strict\";with(n);}",
  "function f(){\"use strict\";let}", "function static(){\"use strict\"}", "function f(static){\"use strict\"}", "static=>{\"use strict\"}", "(static)=>{\"use strict\"}", "({m(static){\"use strict\"}})", "(function let(){\"use strict\"})", "function f(){\"use strict\";yield}", "()=>{\"use strict\";with(n);}", "import n", "import n from", "import{n}", "import{n}from n", "import{n m}from\"a\"",
  "import{n as}from\"a\"", "import{as n}from\"a\"", "import{if}from\"a\"", "import{n as if}from\"a\"", "import{n as 1}from\"a\"", "import{\"a\" as n}from\"a\"", "import*from\"a\"", "import*as from\"a\"", "import*as n", "import*as n,m from\"a\"", "import{n},m from\"a\"", "import n,m from\"a\"", "import n{m}from\"a\"", "import*as n,{m}from\"a\"",
  "import{n},*as m from\"a\"", "import n,from\"a\"", "import,n from\"a\"", "import{,}from\"a\"", "import{n,,m}from\"a\"", "import{*}from\"a\"", "import{n.m}from\"a\"", "import{n:m}from\"a\"", "import{...n}from\"a\"", "import(n)", "import.meta", "import\"a\"from\"b\"", "import n from\"a\"m", "import n from`a`",
  "import n from 1", "import var n from\"a\"", "import if from\"a\"", "import if,{n}from\"a\"", "import*as if from\"a\"", "import{n}of\"a\"", "import\n", "{import\"a\"}", "if(n)import\"a\"", "function f(){import\"a\"}", "()=>{import\"a\"}", "import{n}\"a\"", "import n\"a\"", "import\"a\",\"b\"",
  "import{yield}from\"a\"", "import await from\"a\"", "import{n as await}from\"a\"", "import{static}from\"a\"", "export", "export n", "export n=1", "export{", "export{n", "export{n m}", "export{n as}", "export{if}", "export{if as n}", "export{n as m as k}",
  "export{1}", "export{n as 1}", "export{\"a\"}", "export{n.m}", "export{n:m}", "export{...n}", "export{,}", "export{n,,m}", "export{n}from", "export{n}from n", "export{n}from`a`", "export*", "export*from", "export*from n",
  "export*n from\"a\"", "export*,{n}from\"a\"", "export*as n", "export n from\"a\"", "export n,{m}from\"a\"", "export default", "export default;", "export default var n", "export default let n", "export default const n=1", "export default n,m", "export default n m", "export default{n m}", "export default function f(){}()m",
  "export default class{m}", "export default async n", "export default async function", "export default export default n", "export var", "export let", "export const n", "export let n m", "export function(){}", "export class{}", "export async function(){}", "export async n=>m", "export async()=>n", "export if(n);",
  "export{n}=m", "export[n]=m", "export(n)", "export 1", "export \"a\"", "export ;", "export import\"a\"", "export function*(){}", "{export{n}}", "if(n)export{n}", "function f(){export default n}", "()=>{export{n}}", "export class", "export return",
  "export default return", "export default throw n", "export default{get n}", "export{default}", "export{default as n}", "export{static}", "export{yield}", "`${}`", "`${n m}`", "`${n`", "`${n;}`", "`${`${}`}`", "n`${}`", "`${n,}`",
  "`${...n}`", "`${if}`", "`${n}${}`", "`${S1;}`", "`${{n m}}`", "`${n}}${m`", "`\\u{110000}`", "`\\x4`", "`\\u00g0`", "`\\01`", "`\\1`", "`a${n}\\u{}`", "\"\\u{110000}\"", "\"\\x4\"",
  "\"\\u{}\"", "\"\\u00\"", "\"a\nb\"", "'a", "\"a", "\"\\\"", "/a", "/[/", "/a/gg1\\u0030@", "/\n/", "`a", "\\u0", "\\u{61", "\\x61",
  "n\\", "n\\u002b", "\\u{2b}n", "\\u0031", "1n", "1a", "1_0", "0b2", "0b", "0o8", "0o", "0xg", "0x", "1e",
  "1e+", "1.e", ".e1", "1..n.", "08.", "00.5", "01.5", "0_1", "0B12", "0b1a", "3in[]", "1.a", ".1a", "0x1g",
  "1$", "1\\u0061", "1\u00e9", "n\u0300@", "\u2460", "n\u2460", "\u180e", "/*", "/**", "<!", "n#m", "n@m", "\u0000", "n\u200b"];
