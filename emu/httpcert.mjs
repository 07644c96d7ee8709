// Checks a response the way an HTTP gateway does (response verification v2): the witness must lead to the
// certified data of the canister and must certify this path, and this response unless certification is skipped.
import {sha256} from './candid.mjs';
const H=(...p)=>Buffer.from(sha256(Buffer.concat(p.map(x=>Buffer.from(x)))));
const dom=s=>Buffer.concat([Buffer.from([s.length]),Buffer.from(s)]);
function cbor(b){let p=0;const len=a=>{if(a<24)return a;const n=1<<(a-24);let v=0;for(let i=0;i<n;i++)v=v*256+b[p++];return v;};
  const go=()=>{const x=b[p++],t=x>>5,a=x&31;if(t===0)return len(a);if(t===2){const n=len(a);p+=n;return Buffer.from(b.subarray(p-n,p));}if(t===3){const n=len(a);p+=n;return Buffer.from(b.subarray(p-n,p)).toString();}
    if(t===4){const n=len(a);return Array.from({length:n},go);}if(t===6){len(a);return go();}throw new Error('cbor '+t);};return go();}
export const digest=t=>{switch(t[0]){case 0:return H(dom('ic-hashtree-empty'));case 1:return H(dom('ic-hashtree-fork'),digest(t[1]),digest(t[2]));case 2:return H(dom('ic-hashtree-labeled'),t[1],digest(t[2]));case 3:return H(dom('ic-hashtree-leaf'),t[1]);case 4:return t[1];}throw new Error('tree');};
const kids=t=>t[0]===1?[...kids(t[1]),...kids(t[2])]:t[0]===2?[[Buffer.from(t[1]),t[2]]]:t[0]===4?[['pruned']]:[];
const sub=(t,l)=>{for(const[k,s]of kids(t))if(k!=='pruned'&&Buffer.compare(k,Buffer.from(l))===0)return s;return null;};
const leb=n=>{const o=[];n=BigInt(n);do{let x=Number(n&127n);n>>=7n;if(n)x|=128;o.push(x);}while(n);return Buffer.from(o);};
const respHash=(headers,status,body)=>{const kv=[...headers.map(([k,v])=>[H(Buffer.from(k.toLowerCase())),H(Buffer.from(v))]),[H(Buffer.from(':ic-cert-status')),H(leb(status))]].map(([k,v])=>Buffer.concat([k,v]));kv.sort(Buffer.compare);return H(H(...kv),H(body));};
// returns '' or what is wrong
export function certOk(r,root,path){
  const h=r.headers.map(x=>Array.isArray(x)?x:[x._0,x._1]);const get=k=>{const e=h.filter(x=>x[0].toLowerCase()===k);return e.length===1?e[0][1]:e.length?'many':null;};
  const c=get('ic-certificate'),ex=get('ic-certificateexpression');if(!c)return'no certificate';if(!ex)return'no expression';
  const f=Object.fromEntries([...c.matchAll(/(\w+)=(?::([^:]*):|(\d+))/g)].map(m=>[m[1],m[2]??m[3]]));if(f.version!=='2'||!f.tree||!f.expr_path)return'malformed certificate header';
  let t,ep;try{t=cbor(Buffer.from(f.tree,'base64'));ep=cbor(Buffer.from(f.expr_path,'base64'));}catch(e){return'malformed tree';}
  if(!root||Buffer.compare(digest(t),Buffer.from(root)))return'tree is not the certified one';
  const dp=decodeURIComponent(path);const want=['http_expr',...dp.split('/').filter(Boolean),...(dp.endsWith('/')?['']:[]),'<$>'];
  if(JSON.stringify(ep)!==JSON.stringify(want))return'expression path '+JSON.stringify(ep);
  let n=t;for(const l of ep){n=sub(n,l);if(!n)return'path not certified at '+l;}
  n=sub(n,H(Buffer.from(ex)));if(!n)return'expression not certified';
  if(/no_certification/.test(ex))return n[0]===3?'':'not certified as uncertified';
  const m=/(certified_response_headers|response_header_exclusions)\s*:\s*ResponseHeaderList\s*\{\s*headers\s*:\s*\[([^\]]*)\]/.exec(ex);if(!m)return'expression not understood';
  const names=m[2].split(',').map(s=>s.trim().replace(/"/g,'').toLowerCase()).filter(Boolean);
  const used=h.filter(([k])=>{k=k.toLowerCase();if(k==='ic-certificate')return false;if(k==='ic-certificateexpression')return true;return m[1]==='certified_response_headers'?names.includes(k):!names.includes(k);});
  // the request of an ordinary GET: no headers, no body
  const rq=/no_request_certification/.test(ex)?Buffer.alloc(0):H(H(H(':ic-cert-method'),H('GET')),H(''));
  n=sub(n,rq);if(!n)return'request not certified';
  n=sub(n,respHash(used,r.status_code,Buffer.from(r.body)));return n?'':'response not certified';}
