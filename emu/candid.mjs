// Candid: typed encoder and self-describing decoder (no expected type: the table in the message is used).
// JS shapes: nat/int/nat64.. -> BigInt ; nat8..nat32,int8..int32 -> Number ; opt -> [] | [v] ; blob -> Uint8Array ;
// record -> {name: v} (unknown hashes "_h123") ; variant -> {tag: v} ; principal -> text.
import { createHash } from 'node:crypto';
const te=new TextEncoder(), td=new TextDecoder();
// ---------- principals
const B32='abcdefghijklmnopqrstuvwxyz234567';
function crc32(b){let c=~0;for(const x of b){c^=x;for(let k=0;k<8;k++)c=(c>>>1)^(0xEDB88320&-(c&1));}return (~c)>>>0;}
const p2tC=new Map(), t2pC=new Map();
export function pToText(b){const key=Buffer.from(b).toString('hex');let r=p2tC.get(key);if(r!==undefined)return r;
  const c=crc32(b);const all=[c>>>24,(c>>>16)&255,(c>>>8)&255,c&255,...b];let bits=0,acc=0,s='';
  for(const x of all){acc=(acc<<8)|x;bits+=8;while(bits>=5){s+=B32[(acc>>>(bits-5))&31];bits-=5;acc&=(1<<bits)-1;}}
  if(bits)s+=B32[(acc<<(5-bits))&31];
  r=s.match(/.{1,5}/g).join('-');p2tC.set(key,r);return r;}
export function pFromText(t){let r=t2pC.get(t);if(r)return r;let acc=0,bits=0;const out=[];
  for(const ch of t.toLowerCase()){if(ch==='-')continue;acc=(acc<<5)|B32.indexOf(ch);bits+=5;if(bits>=8){out.push((acc>>>(bits-8))&255);bits-=8;acc&=(1<<bits)-1;}}
  r=Uint8Array.from(out.slice(4));t2pC.set(t,r);return r;}
export const ANON='2vxsx-fae';
// ---------- field hash
const names=new Map();
export function fhash(n){if(/^_\d+$/.test(n)){const v=+n.slice(1);return v;}let h=0;for(const x of te.encode(n))h=(Math.imul(h,223)+x)>>>0;if(!names.has(h))names.set(h,n);return h;}
export function learn(...ns){for(const n of ns)fhash(n);}
// ---------- types
const prim={null:-1,bool:-2,nat:-3,int:-4,nat8:-5,nat16:-6,nat32:-7,nat64:-8,int8:-9,int16:-10,int32:-11,int64:-12,float32:-13,float64:-14,text:-15,reserved:-16,empty:-17,principal:-24};
export const T={};for(const k of Object.keys(prim))T[k]={k};
T.opt=t=>({k:'opt',t});T.vec=t=>({k:'vec',t});T.blob={k:'vec',t:T.nat8};
const flds=o=>Object.entries(o).map(([n,t])=>({n,h:fhash(n),t})).sort((a,b)=>a.h-b.h);
T.record=o=>({k:'record',f:flds(o)});T.variant=o=>({k:'variant',f:flds(o)});
T.tuple=(...ts)=>T.record(Object.fromEntries(ts.map((t,i)=>['_'+i,t])));
T.rec=fn=>{const r={k:'rec'};r.get=()=>r.v||(r.v=fn(r));return r;};
function leb(n){n=BigInt(n);const o=[];do{let b=Number(n&127n);n>>=7n;if(n)b|=128;o.push(b);}while(n);return o;}
function sleb(n){n=BigInt(n);const o=[];for(;;){const b=Number(n&127n);n>>=7n;if((n===0n&&!(b&64))||(n===-1n&&(b&64))){o.push(b);return o;}o.push(b|128);}}
class W{constructor(){this.b=new Uint8Array(256);this.n=0;}
  need(k){if(this.n+k>this.b.length){const c=new Uint8Array(Math.max(this.b.length*2,this.n+k));c.set(this.b.subarray(0,this.n));this.b=c;}}
  put(a){this.need(a.length);this.b.set(a,this.n);this.n+=a.length;}
  le(v,k){v=BigInt.asUintN(64,BigInt(v));const a=[];for(let i=0;i<k;i++){a.push(Number(v&255n));v>>=8n;}this.put(a);}
  done(){return this.b.slice(0,this.n);}}
export function encode(types,vals){
  const table=[],idx=new Map();
  const ref=t=>{if(t.k==='rec'){return ref2(t,t.get());}if(t.k in prim)return prim[t.k];return ref2(t,t);};
  const ref2=(key,t)=>{if(idx.has(key))return idx.get(key);if(t.k in prim)return prim[t.k];if(t!==key&&idx.has(t)){return idx.get(t);}
    const i=table.length;table.push(null);idx.set(key,i);idx.set(t,i);let e;
    if(t.k==='opt')e=[...sleb(-18),...sleb(ref(t.t))];else if(t.k==='vec')e=[...sleb(-19),...sleb(ref(t.t))];
    else{e=[...sleb(t.k==='record'?-20:-21),...leb(t.f.length)];for(const f of t.f)e.push(...leb(f.h),...sleb(ref(f.t)));}
    table[i]=e;return i;};
  const refs=types.map(ref);const w=new W();w.put(te.encode('DIDL'));w.put(leb(table.length));for(const e of table)w.put(e);
  w.put(leb(types.length));for(const r of refs)w.put(sleb(r));types.forEach((t,i)=>val(w,t,vals[i]));return w.done();}
function val(w,t,v){switch(t.k){
  case'rec':return val(w,t.get(),v);case'null':case'reserved':return;case'bool':w.put([v?1:0]);return;
  case'nat':w.put(leb(v));return;case'int':w.put(sleb(v));return;
  case'nat8':case'int8':w.le(v,1);return;case'nat16':case'int16':w.le(v,2);return;case'nat32':case'int32':w.le(v,4);return;case'nat64':case'int64':w.le(v,8);return;
  case'float64':{const b=new Uint8Array(8);new DataView(b.buffer).setFloat64(0,v,true);w.put(b);return;}
  case'text':{const b=te.encode(v);w.put(leb(b.length));w.put(b);return;}
  case'principal':{const b=typeof v==='string'?pFromText(v):v;w.put([1]);w.put(leb(b.length));w.put(b);return;}
  case'opt':{if(v===undefined||v===null||(Array.isArray(v)&&v.length===0)){w.put([0]);return;}w.put([1]);val(w,t.t,Array.isArray(v)?v[0]:v);return;}
  case'vec':{if(t.t.k==='nat8'){w.put(leb(v.length));w.put(v);return;}w.put(leb(v.length));for(const x of v)val(w,t.t,x);return;}
  case'record':for(const f of t.f)val(w,f.t,v[f.n]);return;
  case'variant':{const tag=Object.keys(v)[0];const i=t.f.findIndex(f=>f.n===tag);if(i<0)throw new Error('no variant '+tag);w.put(leb(i));val(w,t.f[i].t,v[tag]);return;}
  default:throw new Error('enc '+t.k);}}
export function decode(buf){
  let p=0;const rb=()=>{if(p>=buf.length)throw new Error('candid eof');return buf[p++];};
  const rleb=()=>{let s=0n,r=0n;for(;;){const b=rb();r|=BigInt(b&127)<<s;s+=7n;if(!(b&128))return r;}};
  const rlebN=()=>{let s=1,r=0;for(;;){const b=rb();r+=(b&127)*s;s*=128;if(!(b&128))return r;}};
  const rsleb=()=>{let s=0n,r=0n,b;do{b=rb();r|=BigInt(b&127)<<s;s+=7n;}while(b&128);if(b&64)r-=1n<<s;return r;};
  if(td.decode(buf.subarray(0,4))!=='DIDL')throw new Error('not candid');p=4;
  const n=rlebN();const tab=[];
  for(let i=0;i<n;i++){const op=Number(rsleb());
    if(op===-18||op===-19)tab.push({op,t:Number(rsleb())});
    else if(op===-20||op===-21){const k=rlebN();const f=[];for(let j=0;j<k;j++){const h=rlebN();const t=Number(rsleb());f.push({n:names.get(h)??('_'+h),t});}tab.push({op,f});}
    else if(op===-22){/*func*/let a=rlebN();for(let j=0;j<a;j++)rsleb();a=rlebN();for(let j=0;j<a;j++)rsleb();a=rlebN();p+=a;tab.push({op});}
    else throw new Error('candid type op '+op);}
  const k=rlebN();const ts=[];for(let i=0;i<k;i++)ts.push(Number(rsleb()));
  const dv=new DataView(buf.buffer,buf.byteOffset,buf.byteLength);
  const rd=t=>{if(t<0)switch(t){case -1:return null;case -2:return rb()===1;case -3:return rleb();case -4:return rsleb();case -5:return rb();
      case -6:p+=2;return dv.getUint16(p-2,true);case -7:p+=4;return dv.getUint32(p-4,true);case -8:p+=8;return dv.getBigUint64(p-8,true);
      case -9:p+=1;return dv.getInt8(p-1);case -10:p+=2;return dv.getInt16(p-2,true);case -11:p+=4;return dv.getInt32(p-4,true);case -12:p+=8;return dv.getBigInt64(p-8,true);
      case -13:p+=4;return dv.getFloat32(p-4,true);case -14:p+=8;return dv.getFloat64(p-8,true);
      case -15:{const l=rlebN();p+=l;return td.decode(buf.subarray(p-l,p));}case -16:return null;
      case -24:{rb();const l=rlebN();p+=l;return pToText(buf.subarray(p-l,p));}default:throw new Error('candid prim '+t);}
    const e=tab[t];switch(e.op){case -18:return rb()?[rd(e.t)]:[];
      case -19:{const l=rlebN();if(e.t===-5){p+=l;return buf.slice(p-l,p);}const a=[];for(let i=0;i<l;i++)a.push(rd(e.t));return a;}
      case -20:{const o={};for(const f of e.f)o[f.n]=rd(f.t);return o;}
      case -21:{const f=e.f[rlebN()];return {[f.n]:rd(f.t)};}
      case -22:{rb();rb();let l=rlebN();p+=l;const pr=pToText(buf.subarray(p-l,p));l=rlebN();p+=l;return {principal:pr,method:td.decode(buf.subarray(p-l,p))};}}};
  return ts.map(rd);}
export const sha256=b=>new Uint8Array(createHash('sha256').update(b).digest());
