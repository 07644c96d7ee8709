// Which properties does a disagreement between the specification and the implementation break?
const OPTAG={mint:['L07'],burn:['L08'],xfer:['L02'],xfrom:['L02'],appr:['L03'],apprc:['L04'],rev:['L03','L06'],revc:['L04','L06'],umeta:['M22'],ucfg:['C23'],grant:['G16'],revoke:['G16'],
  q_tokens:['Q24','L01'],q_tokens_of:['Q24','L01'],q_owner:['L01'],q_balance:['L01'],q_meta:['M22'],q_approved:['L05'],q_direct:['U18'],q_tapp:['L05','Q24'],q_capp:['L05','Q24'],q_perms:['G16'],q_has:['G16'],upgrade:['D21'],wait:[],iu:['U18'],sc:['U18'],fu:['U18'],cu:['U18'],end:['U18','G17'],fetch:['U18'],q_ust:['U18'],q_uploads:['U18','Q24'],q_subs:['U19'],q_blocks:['L12'],q_archs:['L12'],during:['L12'],q_consent:['X29'],q_inst:['I30'],q_upbad:['I30','D21'],q_xinst:['I30'],q_xupbad:['I30','X28'],xq:['X27'],xinst:['X26'],xup:['X28'],xend:['X28']};
const UPL=new Set(['iu','sc','fu','cu','end']);
const STATE=new Set(['mint','burn','xfer','xfrom','appr','apprc','rev','revc','umeta','ucfg','grant','revoke']);
const add=(s,...l)=>l.forEach(x=>s.add(x));
const CODE={TooOld:['T13'],CreatedInFuture:['T13'],Duplicate:['T14'],ApprovalDoesNotExist:['L06'],ConcurrentManagementCall:['G17'],ExceedMaxAllowedSupplyCap:['L07']};
const WHY={time:['T13'],dup:['T14'],rate:['T15'],maxappr:['L06'],noappr:['L06'],nonft:['L04'],cap:['L07','C23'],memo:['C23'],batch:['B25','C23'],take:['Q24','C23'],perm:['G16'],busy:['G17'],none:['L01'],throttled:['T14'],full:['L12']};
// one answer against one answer
function answer(t,op,a,e,multi){
  add(t,...(OPTAG[op.op]||[]));
  if(e.why&&WHY[e.why])add(t,...WHY[e.why]);
  if(e.k!=='ok'&&(e.why==='none')&&op.op!=='mint')add(t,'L08');
  if(e.why==='auth'||e.why==='notowner'||e.why==='recipient'||e.why==='anon')add(t,op.op==='burn'?'L08':'L02');
  if(a.k==='err'&&CODE[a.c])add(t,...CODE[a.c]);
  if(a.k==='err'&&a.c==='GenericError'){const m=JSON.stringify(a.m||'',(k,v)=>typeof v==='bigint'?String(v):v);if(/limit|window|too many|rate/i.test(m))add(t,'T15');if(/uplicate/.test(m))add(t,'T14');if(/approval/i.test(m))add(t,'L06');}
  if(a.k==='rej'&&e.k!=='rej'&&/uthoriz|ermission|Guard|guard/.test(a.m||''))add(t,'G16');
  if(op.op==='xfrom'&&(e.why==='auth'||(a.k==='err'&&a.c==='Unauthorized')))add(t,'L03','L04','L05');
  if((op.op==='rev'||op.op==='revc')&&e.k!==a.k)add(t,'L06');
  if(e.k==='ok'&&a.k==='ok'&&STATE.has(op.op))add(t,'L10'); // transaction index
}
export function judge(mm,s,u,fam,ops){
  const t=new Set(),op=mm.op,a=mm.act,e=mm.exp;
  const items=op.items||op.reqs||op.ids||[];
  if(!mm.okr){
    if(e.k==='ok'&&a.k==='ok'&&Array.isArray(e.v)&&e.v.some(x=>x&&x.k)){
      if(a.v.length!==e.v.length)add(t,'B25',...(OPTAG[op.op]||[]));
      for(let i=0;i<Math.min(a.v.length,e.v.length);i++)if(a.v[i].k!==e.v[i].k||a.v[i].c!==e.v[i].c||JSON.stringify(a.v[i].v)!==JSON.stringify(e.v[i].v))answer(t,op,a.v[i],e.v[i]);}
    else answer(t,op,a,e);
    if(items.length!==1&&(op.items||op.ids))add(t,'B25');
    if(items.length>1)add(t,'B25');
    // it is answered that nothing was done, but it was
    const ea=e.k==='ok'&&Array.isArray(e.v)?e.v:[],aa=a.k==='ok'&&Array.isArray(a.v)?a.v:[];
    if(STATE.has(op.op)&&!['grant','revoke'].includes(op.op)&&!mm.diffs.length&&(e.k==='ok'&&a.k!=='ok'||ea.some((x,i)=>x&&x.k==='ok'&&aa[i]&&aa[i].k!=='ok')))add(t,'L09');
  }
  const failed=e.k!=='ok'||(Array.isArray(e.v)&&e.v.length&&e.v.every(x=>x&&x.k&&x.k!=='ok'));
  const changed=failed&&mm.okr;
  let own=false,blk=false;
  // a burned token that is there again
  const burned=new Set([...(fam.prelude||[]),...ops].filter(o=>o.op==='burn').map(o=>String(o.id)));
  const back=k=>burned.has(k.split(':')[1])&&['owner','meta','tapp'].includes(k.split(':')[0]);
  if(mm.diffs.some(([k,av,xv])=>back(k)&&JSON.stringify(av)!==JSON.stringify(xv)))add(t,'L08');
  for(const[k,av,xv]of mm.diffs){const f=k.split(':')[0];
    if(['owner','bal','list','tokens','supply'].includes(f)){own=own||f==='owner';add(t,'L01');if(op.op==='xfer'||op.op==='xfrom')add(t,'L02');if(op.op==='mint')add(t,'L07');if(op.op==='burn')add(t,'L08');if(f==='list'||f==='tokens')add(t,'Q24');}
    else if(f==='meta'){add(t,'M22');if(op.op==='mint')add(t,'L07');if(op.op==='burn')add(t,'L08');}
    else if(f==='tapp')add(t,'L03','L05',...(op.op==='burn'?['L08']:[]),...(op.op==='rev'?['L06']:[]));
    else if(f==='capp')add(t,'L04','L05',...(op.op==='revc'?['L06']:[]));
    else if(f==='appd')add(t,'L05','L03','L04');
    else if(f==='cfg'||f==='cmeta'||f==='maxappr'||f==='maxrev')add(t,'C23');
    else if(f==='perm')add(t,'G16');
    else if(f==='mperm')add(t,'G16');else if(f==='mrel')add(t,'D21');else if(f==='mtest')add(t,'I30','D21');
    else if(f==='ust')add(t,'U18');else if(f==='subs')add(t,'U19');else if(f==='http')add(t,'U20','U18');else if(f==='page')add(t,'U20');
    else if(f==='len'||f==='block'){blk=true;add(t,'L10','L11');if(f==='block'&&av!==null&&xv!==null&&/"meta"/.test(xv)&&op.op==='umeta')add(t,'M22');}
    else if(f==='chain'||f==='whole')add(t,'L12');
    else if(f==='x'){add(t,'X26');if(k!=='x:n'&&k!=='x:ledger')add(t,'X27');}
  }
  if(own&&!blk)add(t,'L11');
  if(changed&&mm.diffs.length)add(t,'L09',...(op.op==='mint'?['L07']:[]));
  // a refused item of a batch that left something behind
  if(mm.okr&&!failed&&e.k==='ok'&&Array.isArray(e.v)&&items.length>1){
    const bad=new Set(),good=new Set();items.forEach((it,i)=>{const x=e.v[i];(x&&x.k==='ok'?good:bad).add(String(it.id));});
    if(bad.size&&mm.diffs.some(([k,av,xv])=>bad.has(k.split(':')[1])&&!good.has(k.split(':')[1])||k==='len'&&Number(av)>Number(xv)))add(t,'L09');}
  if(!STATE.has(op.op)&&blk)add(t,'L12');
  if((op.op==='rev'||op.op==='revc')&&mm.diffs.some(([k])=>/^(tapp|capp|appd)/.test(k)))add(t,'L06');
  if(op.op==='burn'&&mm.diffs.some(([k])=>/^(tapp|appd|meta)/.test(k)))add(t,'L08');
  if(op.op==='q_consent'&&mm.diffs.length)add(t,'X29');
  if(!mm.okr&&e.k!=='ok'&&a.k==='ok')add(t,...[]);
  // a fault before or now, and something is wrong with uploads
  if([...t].some(x=>x==='U18'||x==='U20')&&ops.some(o=>o.f&&o.f.length))add(t,'U19');
  if(ops.some(o=>o.hold)&&(a.c==='ConcurrentManagementCall'||e.why==='busy'))add(t,'G17');
  if(a.c==='ConcurrentManagementCall'&&ops.some(o=>o.f&&o.f.length))add(t,'U19');
  if(a.k==='hang'||(UPL.has(op.op)&&a.k==='rej'&&e.k!=='rej'))add(t,'U19','G17');
  if(op.op==='fetch')add(t,'U20');if(op.op==='fu'&&e.k==='ok'&&a.k==='ok')add(t,'U20');
  if(op.op==='upgrade'||mm.upgradeBlamed)add(t,'D21');
  // a listing of everything under some keys that misses blocks or has others
  if(op.op==='xq'&&op.filters.length&&!op.start&&op.len>=1000&&a.k==='ok'&&e.k==='ok'&&[...a.v[1]].sort().join()!==[...e.v[1]].sort().join())add(t,'X26');
  if((t.has('X26')||t.has('X27'))&&ops.some(o=>o.op==='xup'||o.hold||o.f&&o.f.length||o.op==='xend'))add(t,'X28');
  if(mm.diffs.length&&items.length>1)add(t,'B25');
  // a configured limit that does not take effect
  const why=new Set([e.why,...(Array.isArray(e.v)?e.v.map(x=>x&&x.why):[])]);
  const set=k=>fam.init.cfg[k]?.length||ops.some(o=>o.op==='ucfg'&&o.f.some(x=>x[0]===k));
  if(t.has('T13')&&(set('tx_window')||set('permitted_drift'))||op.op.startsWith('q_tokens')&&t.has('Q24')&&(set('max_take_value')||set('default_take_value'))||a.k==='ok'&&e.k==='ok'&&Array.isArray(e.v)&&a.v.length!==e.v.length&&items.length&&set('max_update_batch_size')||why.has('maxappr')&&fam.init.maxappr.length)add(t,'C23');
  if(mm.broken)add(t,'*');
  if(fam.tag)add(t,...fam.tag);
  return{op,act:a,exp:e,okr:mm.okr,diffs:mm.diffs.slice(0,12),ndiffs:mm.diffs.length,tags:[...t].sort()};}
