// The projection between the implementation's values and those of the specification.
import {user,Value} from '../emu/nft.mjs';import {ANON,sha256,pToText,pFromText} from '../emu/candid.mjs';
export const FAR=2000000000,T0=1000000;const U64=(1n<<64n)-1n;
// Numbers of the specification that stand for numbers beyond 32 and 64 bits, and durations beyond 64 bits.
const HUGE=[[2000000000,(1n<<64n)+1n],[1900000000,1n<<32n]],LONG=[[1000000000,(1n<<64n)-1n],[900000000,1n<<70n]];
export const numIn=v=>HUGE.find(h=>h[0]===v)?.[1]??BigInt(v);
export const numOut=v=>HUGE.find(h=>h[1]===v)?.[0]??Number(v);
export const longIn=v=>LONG.find(h=>h[0]===v)?.[1]??(v<0?BigInt(-v):BigInt(v)*1000000n);
export const longOut=v=>LONG.find(h=>h[1]===v)?.[0]??(v%1000000n===0n?Number(v/1000000n):-Number(v));
export const PRIN={};for(const p of ['a','b','c','d','e','admin','x','y'])PRIN[p]=user(p==='admin'?'admin':'p-'+p);PRIN.anon=ANON;
// not all principals are 29 bytes long: b and d are canisters, c differs from a in a single byte
{const id=(h)=>pToText(Uint8Array.from(Buffer.from(h,'hex')));PRIN.b=id('00000000002000010101');PRIN.d=id('00000000002000020101');const a=Buffer.from(pFromText(PRIN.a));a[13]^=1;PRIN.c=pToText(new Uint8Array(a));}
// subaccounts that differ in different places; their order is that of the numbers
export const SUBS=[null,'00'.repeat(31)+'01','00'.repeat(15)+'02'+'00'.repeat(16),'03'+'ff'.repeat(31)].map(h=>h&&new Uint8Array(Buffer.from(h,'hex')));const sub=n=>SUBS[n]??Uint8Array.from({length:32},(_,i)=>i===0?n:0);const SUBHEX=SUBS.map(b=>b&&Buffer.from(b).toString('hex'));
const NAME=new Map(Object.entries(PRIN).map(([k,v])=>[v,k]));
export const pname=t=>NAME.get(t)||t;
export const RANK=Object.fromEntries(Object.keys(PRIN).map(k=>[k,Buffer.from(pFromText(PRIN[k]))]).sort((x,y)=>x[1].length-y[1].length||Buffer.compare(x[1],y[1])).map((e,i)=>[e[0],i+1]));
export const subIn=s=>s===0?[]:s===-1?[new Uint8Array(32)]:[sub(s)];
export const subOut=o=>{if(!o||!o.length||o[0]===null)return 0;const b=Buffer.from(o[0]);if(b.every(x=>x===0))return 0;const h=b.toString('hex'),i=SUBHEX.indexOf(h);return i>0?i:'hex:'+h;};
export const accIn=a=>({owner:PRIN[a.p],subaccount:subIn(a.s)});
export const accOut=a=>({p:pname(a.owner),s:subOut(a.subaccount)});
export const akey=a=>a.p+(a.s?'.'+a.s:'');
export class Clock{constructor(base){this.base=base;}
  ns(t){return t===0?0n:t>=FAR?U64:this.base+BigInt(t-T0)*1000000n;}
  ms(n){n=BigInt(n);if(n===0n)return 0;if(n===U64)return FAR;const d=n-this.base;return d%1000000n===0n?Number(d/1000000n)+T0:T0+Number(d)/1e6;}
  // stated times: ["r",d] relative, ["a",t] absolute
  at(now,t){return t.length===0?[]:t[0]==='r'?[this.ns(now+t[1])]:[this.ns(t[1])];}}
export const memoIn=m=>m.length?[Buffer.alloc(m[0],(m[0]*7+1)&255)]:[];
export const memoOut=o=>{if(!o||!o.length)return[];const b=Buffer.from(o[0]);return b.every(x=>x===((b.length*7+1)&255))?[b.length]:['hex:'+b.toString('hex')];};
// metadata tokens -> concrete maps, covering every kind of value
const t=s=>({Text:s});
export const META={
  m0:[],
  m1:[['name',t('first')]],
  m2:[['name',t('second')],['count',{Nat:12345678901234567890n}]],
  m3:[['z',{Int:-7n}],['a',{Blob:Buffer.from([0,1,255])}],['list',{Array:[{Nat:1n},t('x'),{Array:[]},{Map:[]}]}]],
  m4:[['nested',{Map:[['inner',{Map:[['deep',t('d')],['n',{Nat:0n}]]}],['b',{Blob:Buffer.alloc(40,3)}]]}]],
  m5:[['name',t('')],['',t('empty key')],['ünï',t('çødé')]],
  m6:[['icrc97:metadata',{Map:[['attributes',{Array:[{Map:[['k',t('rarity')],['v',{Int:3n}]]}]}]]}],['count',{Nat:0n}]],
  m9:[['nats',{Array:[0n,1n,23n,24n,255n,256n,65535n,65536n,4294967295n,4294967296n,9223372036854775807n,9223372036854775808n,18446744073709551615n].map(Nat=>({Nat}))}],['ints',{Array:[0n,1n,-1n,-24n,-25n,-128n,-129n,-256n,-257n,-65536n,-65537n,-2147483649n,-4294967297n,-9223372036854775808n,9223372036854775807n,63n,64n,-64n,-65n].map(Int=>({Int}))}]],
  m10:[['blobs',{Array:[0,1,23,24,255,256,300,3000].map(n=>({Blob:Buffer.alloc(n,n&255)}))}],['texts',{Array:['','a','x'.repeat(23),'y'.repeat(24),'ü'.repeat(200),'q'.repeat(300),'\n\u0000"',' a '].map(Text=>({Text}))}],['k'.repeat(300),t('long key')]],
  m11:[...Array.from({length:30},(_,i)=>['k'+(29-i),{Nat:BigInt(i)}]),['wide',{Map:Array.from({length:26},(_,i)=>[String.fromCharCode(122-i),{Int:BigInt(-i)}])}],['long',{Array:Array.from({length:260},(_,i)=>i%2?{Nat:BigInt(i)}:t('e'+i))}],['deep',[1,2,3,4,5,6,7].reduce((v,i)=>i%2?{Array:[v,{Int:BigInt(-i)}]}:{Map:[['d'+i,v],['',{Blob:Buffer.from([i])}]]},t('bottom'))]],
  m8:[['huge',{Nat:1n<<70n}]], // not representable in the canister's storage
  m7:[['dup',t('x')],['name',t('first')],['dup',t('y')]],
};
export const canonV=v=>{const k=Object.keys(v)[0],x=v[k];switch(k){case'Nat':case'Int':return k+':'+x;case'Text':return 'T'+JSON.stringify(x);case'Blob':return 'B'+Buffer.from(x).toString('hex');
  case'Array':return '['+x.map(canonV).join(',')+']';case'Map':return canonM(x);case'Nat64':return'Nat:'+x;default:return k+'?';}};
export const kv=e=>Array.isArray(e)?e:[e._0,e._1];
export const canonM=m=>{const o=new Map();for(const e of m){const[k,v]=kv(e);o.set(k,canonV(v));}return '{'+[...o].sort((a,b)=>a[0]<b[0]?-1:1).map(([k,v])=>JSON.stringify(k)+'='+v).join(',')+'}';};
const MNAME=new Map(Object.entries(META).map(([k,v])=>[canonM(v),k]));
const vIn=v=>v.Map?{Map:v.Map.map(([k,x])=>({_0:k,_1:vIn(x)}))}:v.Array?{Array:v.Array.map(vIn)}:v;
export const metaIn=n=>META[n].map(([k,v])=>({_0:k,_1:vIn(v)}));
export const metaOut=m=>{const c=canonM(m);return MNAME.get(c)||c;};
// paths of uploads; the key is the path under which the file is published
export const PATHS=['/a','/a2','/b','a','b','/b c','b c','/b-c','b-c','/dir/x.png','/dir/y z.txt','rel.txt','/rel.txt','/ü','/logs','/c','c','/d','/d/e','/0','/zz','/e','/a%20b','/a?b','/x//y','/a#b','/m/','/traces','/metrics','/f1','/f2','/f3','/f4','/f5','f6','logs','traces','metrics','','/','/x/y'];
export const keyOf=p=>p.startsWith('/')?p:'/'+p;
export const PRANK=Object.fromEntries([...PATHS].sort((x,y)=>Buffer.compare(Buffer.from(x),Buffer.from(y))).map((p,i)=>[p,i+1]));
export {ANON,sha256};
// a request names a file by its decoded path; these cannot be named, or name a page of the canister
export const badPath=p=>/[ ?#]|%[0-9a-fA-F]{2}/.test(p)||['/logs','/traces','/metrics'].includes(keyOf(p))?1:0;
