// The families explored exhaustively; quick and thorough differ in depth.
import {A,fam as fam0,mint,burn,xi,xfer,fi,xfrom,ai,appr,ci,apprc,ri,rev,rci,revc,umeta,ucfg,grant,revoke,wait,upgrade,q,req,now,iu,sc,fu,cu,end,gcend,waitf,during,DAY,UPERM,fa,ty,tk,xinst,xup,xq,xend,waith,METHS} from './fam.mjs';
export const ALL={};
const Q=(n,quick,thorough,o)=>{ALL[n]=tier=>fam0(n,{...o,ops:typeof o.ops==='function'?o.ops(tier):o.ops,depth:tier==='quick'?quick:thorough});};
const r=d=>['r',d];
const PERM={admin:['Minting','UpdateMetadata','UpdateCollectionMetadata','ManageAuthorities']};

Q('own',3,4,{prelude:[mint([req('a',{meta:'m1'}),req(A('a',1)),req('b')])],ops:[mint('c'),mint([req('a'),req(A('b',2),{meta:'m2',memo:4})]),
  xfer('a',1,'b'),xfer('a',2,'a'),xfer('a',1,A('a',1)),xfer('a',2,A('a',-1)),xfer('a',1,A('a',-1)),xfer('b',1,A('a',1)),xfer('b',3,'c'),xfer('b',1,'a'),xfer('c',3,A('c',1)),xfer('b',1,'c'),
  xfrom('b',1,'a','c'),xfrom('a',1,'a','b'),xfrom('b',2,A('a',1),'b'),appr('a',1,'b'),apprc('a','b'),burn('a',1),burn('b',3),burn('c',1),umeta(1,'m3')]});

// who may move what: every caller, source, recipient and subaccount
Q('auth',2,3,{prelude:[mint([req('a'),req(A('a',1)),req('b')]),appr('a',1,'c'),appr('a',2,A('c',2),{fs:1}),apprc('b',A('c',2)),apprc('a','d')],
  ops:[...['a','b','c','d','anon'].flatMap(p=>[xfer(p,1,'e'),xfer(p,2,'e')]),xfer('a',1,'anon'),xfer('a',1,A('anon',3)),xfer('a',1,A('a',-1)),xfer('a',2,A('a',1)),xfer('a',9,'b'),xfer('a',0,'b'),xfer('a',1,'e',{fs:1}),xfer('b',3,A('b',-1)),
    ...[['c',1,'a',0],['c',1,A('a',-1),0],['c',1,'a',-1],['c',1,'a',2],['c',1,A('a',1),0],['c',2,A('a',1),2],['c',2,A('a',1),0],['c',2,'a',2],['c',3,'b',2],['c',3,'b',0],['d',1,'a',0],['d',2,A('a',1),0],['d',2,'a',0],['d',3,'b',0],['d',3,'a',0],['a',2,A('a',1),1],['a',2,A('a',1),0],['a',1,'a',0],['anon',1,'a',0],['b',9,'b',0]].map(([p,i,f,ss])=>xfrom(p,i,f,'e',{ss})),
    xfrom('c',1,'a','anon'),xfrom('c',1,'a',A('anon',1)),xfrom('c',1,'a','a'),xfrom('c',1,'a',A('a',-1)),xfrom('d',1,'a',A('a',1)),xfrom('c',1,'b','b'),
    q.approved([['c',1],[A('c',2),2],['d',1],['d',2],['a',1],['a',2],[A('a',1),2],['b',3],['anon',1],['c',9],['a',0]])]});

Q('appr',3,4,{prelude:[mint([req('a'),req('a'),req('b')])],
  ops:[appr('a',1,'b'),appr('a',1,'c',{exp:r(500),memo:2}),appr('a',2,'b'),appr('b',1,'c'),appr('a',1,A('b',1)),appr('a',1,'anon'),appr('a',1,'a'),appr('a',9,'b'),appr('a',1,'b',{fs:1}),appr('a',1,'b',{fs:-1,exp:r(700)}),
    rev('a',1,'b'),rev('a',1),rev('b',1,'b'),rev('b',1),rev('a',1,'c'),rev('a',2),rev('a',1,'b',{fs:1}),
    xfer('a',1,'b'),xfer('b',1,'a'),xfer('a',1,'c'),xfrom('b',1,'a','c'),xfrom('c',1,'a','b'),xfrom('b',2,'a','b'),xfrom('a',1,'a',A('a',2)),xfrom('a',1,A('a',2),'a',{ss:2}),burn('a',1),wait(400),mint('a')]});

Q('coll',3,4,{prelude:[mint([req('a'),req('a'),req(A('a',1)),req('b')])],
  ops:[apprc('a','b'),apprc('a','b',{fs:1}),apprc('a','c',{exp:r(500)}),apprc('a',A('c',1),{fs:-1}),apprc('c','b'),apprc('a','anon'),apprc('b','a',{memo:1}),
    revc('a','b'),revc('a'),revc('a',null,{fs:1}),revc('a','b',{fs:1}),revc('b'),revc('a','c'),
    xfrom('b',1,'a','c'),xfrom('b',2,'a','b'),xfrom('b',3,A('a',1),'c'),xfrom('b',3,'a','c'),xfrom('c',1,'a','b'),xfrom('a',4,'b','a'),xfrom('c',1,'a','b',{ss:1}),
    xfer('a',1,'c'),xfer('c',1,'a'),xfer('a',2,'b'),xfer('b',4,'a'),burn('a',1),mint('a'),wait(400)]});

// more approvals of a token, and of a collection, than a page shows
const SPS=['b','c','d','e','b','c','d','e','b','c','d','e','b'].map((p,i)=>A(p,i>>2));
Q('bigappr',1,2,{init:{maxappr:20},prelude:[mint([req('a'),req(A('a',1))]),...[0,4,8,12].flatMap(k=>[appr('a',SPS.slice(k,k+4).map((s,i)=>ai(1,s,{exp:k===0&&i===3?r(100000):[]})),{dt:11000}),apprc('a',SPS.slice(k,k+4).map(s=>ci(s)),{dt:11000})]),appr('a',1,A('b',0),{memo:1,dt:11000}),apprc('a',A('e',0),{memo:2})],
  ops:[...[null,SPS[0],SPS[3],SPS[6],SPS[12],A('x',0)].flatMap(p=>[undefined,0,1,9,10,11,50,2000000000,1900000000].flatMap(t=>[q.tapp(1,p,t),q.capp('a',p,t)])),q.tapp(2),q.capp(A('a',1)),q.tapp(9),wait(20000),xfer('a',1,'b'),rev('a',1,SPS[4]),revc('a',SPS[5]),rev('a',1),revc('a')]});
// an approval given again: with an expiry or none, sooner or later, with another memo, from another subaccount, and once its token has moved and come back
Q('renew',3,4,{prelude:[mint([req('a'),req(A('a',1))]),appr('a',1,'b',{exp:r(5000),memo:1}),apprc('a','b',{exp:r(5000),memo:1})],
  ops:[appr('a',1,'b',{exp:r(9000)}),appr('a',1,'b',{exp:r(300),memo:2}),appr('a',1,'b'),appr('a',1,A('b',0)),appr('a',1,A('b',-1),{exp:r(300)}),appr('a',2,'b',{fs:1,exp:r(300)}),apprc('a','b',{exp:r(9000)}),apprc('a','b',{exp:r(300),memo:2}),apprc('a','b'),apprc('a','b',{fs:1,exp:r(300)}),apprc('a',A('b',-1),{exp:r(300)}),
    xfrom('b',1,'a','c'),xfrom('a',1,'c','a'),xfer('c',1,'a'),xfer('a',1,A('a',2)),revc('a','b'),rev('a',1,'b'),wait(400),wait(6000),upgrade({dt:10})]});

// both kinds of approval around their expiry, in milliseconds
Q('expiry',4,6,{prelude:[mint([req('a'),req('a')])],agecap:10,
  ops:[appr('a',1,'b',{exp:r(2),dt:120}),appr('a',1,'b',{exp:r(0),dt:120}),appr('a',1,'c',{exp:r(-1),dt:120}),apprc('a','b',{exp:r(2),dt:120}),apprc('a','c',{exp:['a',0],dt:120}),appr('a',2,'b',{exp:['a',2000000000],dt:120}),
    wait(1),wait(2),xfrom('b',1,'a','c',{dt:0}),xfrom('b',2,'a','c',{dt:1}),xfrom('a',1,'c','a',{dt:120}),rev('a',1,'b',{dt:1}),rev('a',1,null,{dt:1}),revc('a','b',{dt:1}),q.approved([['b',1],['b',2],['c',1]])]});

Q('limits',3,4,{init:{maxappr:2,maxrev:1},prelude:[mint([req('a'),req('a')])],
  ops:[appr('a',1,'b'),appr('a',1,'c',{exp:r(300)}),appr('a',1,'d'),appr('a',1,A('b',1)),apprc('a','b'),apprc('a','c',{exp:r(300)}),apprc('a','d'),apprc('a','b',{fs:1}),
    appr('a',[ai(1,'b'),ai(1,'c'),ai(1,'d')]),apprc('a',[ci('b'),ci('c'),ci('d')]),appr('a',[ai(1,'d'),ai(2,'d')]),
    rev('a',1,'b'),rev('a',1),rev('a',1,'d'),rev('a',[ri(1,'b'),ri(1,'c')]),rev('a',[ri(2),ri(1)]),revc('a','b'),revc('a'),revc('a',[rci('c'),rci('b')]),revc('a','d'),xfer('a',1,'b'),q.tapp(1),q.capp('a')]});
Q('limits3',3,4,{init:{maxappr:3,maxrev:2},prelude:[mint([req('a'),req('a')]),appr('a',1,'b'),apprc('a','b')],
  ops:[appr('a',1,'c'),appr('a',1,'d'),appr('a',1,'e'),apprc('a','c'),apprc('a','d'),apprc('a','e'),
    rev('a',[ri(1,'b'),ri(1,'c')]),rev('a',[ri(1,'c'),ri(1,'d'),ri(1,'e')]),rev('a',1),revc('a'),revc('a',[rci('c'),rci('d'),rci('b')]),rev('a',[ri(2,'b'),ri(1,'b')]),rev('a',[]),revc('a',[]),appr('a',[]),apprc('a',[])]});

Q('mint',3,4,{init:{supply_cap:3,max_update_batch_size:2,max_memo_size:4,perm:{admin:['Minting','UpdateMetadata'],b:['ManageAuthorities'],c:[]}},prelude:[],
  ops:[mint('a'),mint([req('a',{meta:'m2',memo:4}),req(A('b',1),{meta:'m3'})]),mint([req('a'),req('a'),req('a')]),mint(req('a',{memo:5})),mint([req('a'),req('b',{memo:5})]),mint([]),mint('a',{by:'b'}),mint('a',{by:'c'}),mint('a',{by:'a'}),mint('anon'),mint(A('a',-1)),mint(req('c',{memo:0,meta:'m5'})),
    burn('a',1),burn('a',2),burn('b',2),burn('a',3),umeta(1,'m4'),xfer('a',1,'b')]});
Q('mintburst',3,5,{init:{supply_cap:8},prelude:[mint('a')],  // mints that fail on the way, because the log refuses
  ops:[mint([req('a'),req('b',{meta:'m1'})],{dt:0}),mint([req('a'),req('b'),req('c',{meta:'m1'})],{dt:0}),mint([req('a'),req('a'),req('a'),req('a'),req('b'),req('c')],{dt:150}),mint([req('a',{meta:'m2'}),req('a'),req('a'),req('a'),req('b')],{dt:150}),burn('a',1,{dt:0}),burn('a',2,{dt:50}),umeta(2,'m6',{dt:0}),umeta(1,'m1',{dt:60}),xfer('a',2,'b',{dt:0}),upgrade({dt:0})]});

Q('burn',3,4,{prelude:[mint([req('a',{meta:'m1'}),req(A('a',1),{meta:'m4'}),req('b')]),appr('a',1,'b'),appr('a',2,'c',{fs:1}),apprc('a','d')],
  ops:[burn('a',1),burn('a',2),burn('b',3),burn('b',1),burn('c',2),burn('d',1),burn('admin',1),burn('anon',1),burn('a',9),burn('a',0),
    xfer('a',1,'b'),xfer('a',2,'a'),xfrom('b',1,'a','c'),xfrom('c',2,A('a',1),'c'),xfrom('d',1,'a','d'),xfrom('a',1,'a','b'),appr('a',1,'c'),rev('a',1,'b'),rev('a',1),umeta(1,'m2'),mint(req('a',{meta:'m7'})),mint('b'),revc('a')]});

// the same stated time again
const X=['a',1000300];
Q('dup',4,6,{prelude:[mint([req('a'),req('a')],{dt:200})],abstime:1,
  ops:[xfer('a',1,'b',{cr:X,dt:40}),xfer('b',1,'a',{cr:X,dt:10}),xfer('a',1,'b',{cr:X,memo:1,dt:10}),xfer('b',1,'a',{dt:0}),xfer('a',1,A('b',1),{cr:X,dt:10}),xfer('a',2,'b',{cr:X,dt:10}),
    xfrom('a',1,'a','b',{cr:X,dt:10}),xfrom('b',1,'b','a',{cr:X,dt:10}),umeta(1,'m1',{dt:0}),wait(60)]});
Q('dup2',4,5,{prelude:[mint([req('a'),req('a')],{dt:200})],abstime:1,
  ops:[appr('a',1,'b',{cr:X,dt:20}),appr('a',1,'b',{cr:X,exp:['a',1009000],dt:20}),appr('a',1,'b',{cr:X,memo:3,dt:20}),rev('a',1,'b',{cr:X,dt:20}),rev('a',1,null,{cr:X,dt:20}),apprc('a','b',{cr:X,dt:20}),revc('a','b',{cr:X,dt:20}),revc('a',null,{cr:X,dt:20}),wait(90)]});
// every kind of change, refused because the log takes no more for now, or taken
Q('logfull',3,4,{prelude:[mint([req('a',{meta:'m1'}),req('a')],{dt:200}),wait(20000),appr('a',1,'b',{exp:r(60000)}),apprc('a','c'),appr('a',2,'d',{dt:0}),apprc('a','d',{dt:0}),appr('a',1,'c',{dt:0})],
  ops:[xfer('a',1,'b',{dt:0}),xfer('a',1,'b',{dt:90}),xfer('a',2,A('a',1),{dt:0}),xfrom('b',1,'a','b',{dt:0}),xfrom('b',1,'a','c',{dt:60}),xfrom('c',2,'a','a',{dt:0}),xfrom('d',2,'a','d',{dt:0}),appr('a',1,'b',{dt:0}),appr('a',1,'e',{dt:0}),apprc('a','c',{dt:0,exp:r(900)}),apprc('a','e',{dt:0}),rev('a',1,'b',{dt:0}),rev('a',1,null,{dt:0}),rev('a',2,'d',{dt:90}),revc('a','c',{dt:0}),revc('a',null,{dt:0}),
    burn('a',1,{dt:0}),burn('a',2,{dt:90}),umeta(1,'m3',{dt:0}),mint(req('a',{meta:'m2'}),{dt:0}),mint([req('b'),req('c')],{dt:70}),wait(10000)]});
// a transfer by someone approved, again with the same stated time once the token is back and approved again
Q('dupfrom',3,4,{prelude:[mint([req('a'),req('a')],{dt:200}),appr('a',1,'b',{dt:10}),apprc('a','c',{dt:10}),xfrom('b',1,'a','d',{cr:X,dt:10}),xfer('d',1,'a',{dt:10}),appr('a',1,'b',{dt:120}),appr('a',2,'b',{dt:10}),apprc('a','b',{dt:10})],abstime:1,
  ops:[xfrom('b',1,'a','d',{cr:X,dt:100}),xfrom('c',1,'a','d',{cr:X,dt:100}),xfrom('b',[fi(1,'a','d',{cr:X}),fi(2,'a','d',{cr:X})],{dt:100}),xfrom('a',1,'a','d',{cr:X,dt:100}),xfer('a',1,'d',{cr:X,dt:100}),xfrom('b',1,'a','d',{dt:100}),xfer('d',1,'a',{dt:100}),appr('a',1,'b',{dt:100}),revc('a','b',{dt:100}),rev('a',1,'b',{dt:100})]});
// a configured window makes the memory last
Q('dupwin',4,5,{init:{tx_window:1},prelude:[mint('a',{dt:200})],abstime:1,
  ops:[xfer('a',1,'b',{cr:r(0),dt:0}),xfer('b',1,'a',{cr:r(0),dt:0}),xfer('a',1,'b',{dt:50}),xfer('b',1,'a',{dt:70}),mint('b',{dt:500}),burn('a',1,{dt:9}),umeta(1,'m2',{dt:200}),appr('a',1,'c',{dt:200}),wait(1001000)]});

const TIMES=(W,D)=>[-W-D-1,-W-D,-W-D+1,-W-1,-W,-W+1,-1,0,1,D-1,D,D+1,D+2,60000].filter((x,i,a)=>a.indexOf(x)===i);
const timeOps=(W,D)=>[...TIMES(W,D).map(r),['a',0],['a',2000000000]].flatMap(cr=>[xfer('a',1,'b',{cr}),xfrom('d',1,'a','c',{cr}),appr('a',1,'b',{cr}),apprc('a','b',{cr}),rev('a',1,'c',{cr}),revc('a','c',{cr})]);
const tpre=[mint([req('a')]),appr('a',1,'c'),apprc('a','c'),apprc('a','d'),wait(30000)];
Q('time',1,2,{prelude:tpre,ops:timeOps(10000,50)});
Q('timecfg',1,2,{prelude:[...tpre,ucfg({tx_window:500,permitted_drift:20})],ops:timeOps(500,20)});
Q('timecfg0',1,2,{prelude:[...tpre,ucfg({tx_window:0,permitted_drift:0})],ops:timeOps(0,0)});
Q('timens',1,2,{init:{tx_window:-1,permitted_drift:-1},prelude:tpre.map(o=>({...o})),ops:timeOps(0,0)});
Q('timebig',1,2,{init:{permitted_drift:5000},prelude:tpre.map(o=>({...o})),ops:timeOps(10000,5000)});

// requests in quick succession; most of them fail for other reasons, which counts as well
Q('rate',6,8,{prelude:[mint([req('a'),req('a')])],
  ops:[xfer('c',1,'b',{dt:0}),xfer('c',1,'b',{dt:20}),xfer('c',1,'b',{dt:59}),xfer('c',1,'b',{dt:60}),xfer('a',1,A('a',1),{dt:25})]});
Q('rate2',5,7,{prelude:[mint([req('a'),req('a')])],
  ops:[appr('c',1,'b',{dt:0}),rev('a',1,'b',{dt:0}),xfrom('c',1,'a','b',{dt:0}),xfer('a',2,'anon',{dt:0}),apprc('c','b',{dt:0}),revc('c','b',{dt:0}),wait(61)]});
Q('rate3',3,4,{prelude:[mint([req('a'),req('a')])],
  ops:[xfer('c',[xi(1,'b'),xi(1,'b'),xi(1,'b')],{dt:0}),appr('c',[ai(1,'b'),ai(2,'b'),ai(1,'b')],{dt:0}),xfrom('c',[fi(1,'a','b'),fi(1,'a','b')],{dt:30}),apprc('c',[ci('b'),ci('b'),ci('b')],{dt:0}),revc('c',[rci('b'),rci('b')],{dt:30}),rev('c',[ri(1),ri(1),ri(2)],{dt:0}),rev('a',[ri(2),ri(1)],{dt:0}),xfer('a',1,A('a',1),{dt:1}),wait(59),wait(60)]});

Q('perm',3,4,{init:{perm:{admin:['ManageAuthorities','Minting'],b:['UpdateMetadata'],c:[]}},prelude:[mint('a')],
  ops:[...[['b','Minting'],['b','ManageAuthorities'],['c','UpdateCollectionMetadata'],['a','UpdateMetadata'],['admin','Minting']].flatMap(([w,p])=>[grant('admin',w,p),revoke('admin',w,p)]),grant('b','a','Minting'),revoke('b','admin','ManageAuthorities'),revoke('admin','admin','ManageAuthorities'),revoke('b','b','UpdateMetadata'),grant('c','c','ManageAuthorities'),grant('anon','a','Minting'),
    mint('a',{by:'b'}),mint('a',{by:'anon'}),umeta(1,'m1',{by:'b'}),umeta(1,'m2',{by:'a'}),umeta(1,'m3'),ucfg({name:'N2'},{by:'c'}),ucfg({name:'N3'}),q.perms('b','a'),q.has('c','c','Minting')]});
const PS=['Minting','ManageAuthorities','UpdateMetadata','UpdateCollectionMetadata','ReadUploads','UpdateUploads'];
Q('perm1',2,3,{init:{perm:{admin:['ManageAuthorities'],b:PS,c:['UpdateUploads','ReadUploads']}},prelude:[mint('a',{by:'b'})],
  ops:[...PS.flatMap(p=>[grant('admin','a',p),revoke('admin','b',p)]),grant('a','c','Minting'),...['a','b','c','admin','d'].flatMap(p=>[mint('c',{by:p}),umeta(1,'m1',{by:p}),ucfg({description:'by '+p},{by:p}),q.perms(p,'a'),q.has(p,'b','Minting'),q.has(p,'a','ReadUploads'),q.has(p,'d','Minting')]),q.has('admin','c','UpdateUploads'),q.perms('admin','d')]});

const MS=['m0','m1','m2','m3','m4','m5','m6','m7','m9','m10','m11'];
Q('meta',2,3,{prelude:[mint([req('a',{meta:'m6'}),req('b')])],
  ops:[...MS.flatMap(m=>[umeta(1,m),mint(req('a',{meta:m}))]),umeta(2,'m4'),umeta(9,'m1'),umeta(0,'m1'),umeta(1,'m1',{by:'a'}),umeta(1,'m8'),mint(req('a',{meta:'m8'})),burn('a',1),xfer('a',1,'b'),q.meta([1,2,3,9,1]),upgrade()]});

const CF={name:['N2',''],symbol:['S2'],description:['d1',''],logo:['https://example.org/l.png'],supply_cap:[0,1,3],max_query_batch_size:[0,1,2],max_update_batch_size:[0,1,2],max_take_value:[0,1,2],default_take_value:[0,1,2],max_memo_size:[0,2],atomic_batch_transfers:[0,1],tx_window:[0,1000],permitted_drift:[0,1000],max_canister_storage_threshold:[7]};
const cfgUse=[mint('a'),mint([req('a'),req('b')]),mint(req('a',{memo:3})),xfer('a',[xi(1,'b'),xi(2,'b')]),xfer('a',1,'b',{memo:3}),xfer('a',1,'b',{cr:r(-1200)}),xfer('a',1,'b',{cr:r(-10500)}),xfer('a',1,'b',{cr:r(100)}),appr('a',1,'b',{cr:r(900),memo:3}),
  appr('a',1,'b',{memo:3}),apprc('a','b',{memo:3}),appr('a',[ai(1,'b'),ai(2,'b',{memo:2})]),apprc('a',[ci('b'),ci('c')]),rev('a',1,null,{memo:3}),revc('a',null,{memo:3}),xfrom('b',1,'a','c',{memo:3}),xfrom('a',[fi(1,'a','b'),fi(2,'a','b')]),q.approved([['b',1],['b',2],['a',1]]),
  q.owner([1,2]),q.owner([1,2,3]),q.balance(['a','b']),q.meta([1,2]),q.tokens(),q.tokens(undefined,2),q.tokens(1,1),q.tokens_of('a'),q.tokens_of('a',undefined,3)];
const cset=Object.entries(CF).flatMap(([k,l])=>l.map(v=>ucfg({[k]:v})));
Q('config',2,3,{prelude:[mint([req('a'),req('a'),req('b')]),wait(20000)],ops:tier=>[...cset,ucfg({supply_cap:9,max_take_value:2,name:'N3'}),ucfg({}),ucfg({name:'X'},{by:'a'}),...cfgUse,...(tier==='quick'?[]:[upgrade()])]});
Q('configinit',1,2,{init:{name:'Coll',symbol:'C',description:'about',logo:'https://x.org/a',supply_cap:4,max_query_batch_size:2,max_update_batch_size:1,max_take_value:2,default_take_value:1,max_memo_size:2,atomic_batch_transfers:1,tx_window:-900,permitted_drift:700,max_canister_storage_threshold:5,maxappr:7,maxrev:3},
  prelude:[mint('a'),mint('a'),mint('b'),wait(20000)],ops:[...cfgUse,...cset,upgrade()]});

// the limits that hold when nothing is configured: batches of 100 and 101 items, pages of 100 of 105 tokens
const upto=(n,k=0)=>Array.from({length:n},(_,i)=>i+1+k);
// more tokens than fit a byte
Q('many',2,3,{prelude:upto(52).map(i=>mint([1,2,3,4,5].map(j=>req(i===1||i===52?'b':'a',{meta:'m'+(i+j)%3})),{dt:10200})),
  ops:[...[[1,'b'],[256,'b'],[257,'b'],[24,'a'],[232,'a']].flatMap(([i,p])=>[umeta(i,'m3'),burn(p,i),xfer(p,i,'c'),appr(p,i,'d'),q.tapp(i)]),appr('b',[ai(1,'c'),ai(257,'c')]),xfrom('d',257,'b','c'),rev('b',1),rev('b',257),q.tokens(),q.tokens(99),q.tokens(254,3),q.tokens_of('b'),q.tokens_of('b',5,3),upgrade(),mint('a')]});
Q('big',2,3,{prelude:upto(21).map(i=>mint([1,2,3,4,5].map(j=>req(i*5+j>100?'b':'a',{meta:'m'+j})),{dt:10200})),
  ops:[...[undefined,1,99,100,101,102].flatMap(t=>[undefined,0,1,4,5,105].flatMap(p=>[q.tokens(p,t),q.tokens_of('a',p,t)])),
   ...[100,101].flatMap(n=>[q.owner(upto(n)),q.owner(upto(n,5)),q.meta(upto(n)),q.balance(upto(n).map(i=>i%2?'a':'b')),q.approved(upto(n).map(i=>['c',i])),
    xfer('a',upto(n).map(i=>xi(i,'c')),{dt:10200}),xfer('a',upto(n,4).map(i=>xi(i,i%3?'c':'a')),{dt:10200}),xfrom('a',upto(n).map(i=>fi(i,'a','c')),{dt:10200}),appr('a',upto(n).map(i=>ai(i,'c')),{dt:10200}),rev('a',upto(n).map(i=>ri(i,null)),{dt:10200}),
    apprc('a',upto(n).map(i=>ci('c')),{dt:10200}),revc('a',upto(n).map(i=>rci(null)),{dt:10200})]),appr('a',1,'c'),apprc('a','c'),ucfg({max_query_batch_size:101}),ucfg({max_update_batch_size:101}),ucfg({max_take_value:101}),ucfg({default_take_value:101})]});

// numbers beyond a machine word: identifiers, page sizes, limits, windows
const W64=2000000000,W32=1900000000,L64=1000000000,L70=900000000;
const hugeUse=[mint('b'),mint([req('b',{memo:5}),req('b')]),xfer('a',1,'b',{memo:40,cr:r(-3)}),xfer('a',[xi(1,'b'),xi(2,'b')]),xfer('a',1,'b',{cr:r(-30000)}),xfer('a',1,'b',{cr:r(60000)}),xfrom('a',1,'a','b',{memo:9,cr:r(-25000)}),xfrom('a',[fi(1,'a','b'),fi(2,'a','b')],{dt:200}),
  appr('a',1,'b',{memo:9,cr:r(-25000)}),appr('a',[ai(1,'c'),ai(2,'c')]),apprc('a','b',{memo:9,cr:r(50000)}),rev('a',1,null,{memo:9,cr:r(-2)}),revc('a',null,{memo:9}),q.owner([1,2,3]),q.approved([['b',1],['a',1]]),q.tokens(),q.tokens(undefined,W32),q.tokens(undefined,W64),q.tokens_of('a',undefined,W64)];
Q('huge',2,3,{prelude:[mint([req('a'),req('a')]),appr('a',1,'d'),appr('a',1,'e'),wait(40000)],ops:[...['supply_cap','max_query_batch_size','max_update_batch_size','max_take_value','default_take_value','max_memo_size'].flatMap(k=>[ucfg({[k]:W64}),ucfg({[k]:W32})]),
  ...['tx_window','permitted_drift'].flatMap(k=>[ucfg({[k]:L64}),ucfg({[k]:L70})]),ucfg({max_take_value:5,default_take_value:W64}),...hugeUse,upgrade(),
  ...[W32,W64].flatMap(i=>[xfer('a',i,'b'),xfrom('a',i,'a','b'),appr('a',i,'b'),rev('a',i,null),burn('a',i),umeta(i,'m1'),q.owner([1,i]),q.meta([i,1]),q.approved([['a',i],['a',1]]),q.tapp(i),q.tokens(i),q.tokens_of('a',i),q.tapp(1,undefined,i),q.capp('a',undefined,i)])]});
for(const[j,x]of[{max_update_batch_size:W64,max_memo_size:W64,max_query_batch_size:W64,max_take_value:W64,maxappr:W64,maxrev:W64},{max_update_batch_size:W32,max_memo_size:W32,max_query_batch_size:W32,default_take_value:W32,maxappr:W32,maxrev:W32,supply_cap:W32},{tx_window:L64,permitted_drift:L70},{tx_window:L70,permitted_drift:L64,supply_cap:W64}].entries())
  Q('hugeinit'+j,2,3,{init:x,prelude:[mint([req('a'),req('a')]),...(j<2?[appr('a',[1,2].flatMap(i=>['b','c','d','e','x'].map(p=>ai(i,p))),{dt:200}),appr('a',['y','admin',A('b',1),A('c',1),A('d',1)].map(p=>ai(1,p)),{dt:300}),appr('a',1,A('e',1)),wait(9000)]:[])],ops:[...hugeUse,upgrade()]});

const TK=[undefined,0,1,2,3,5,100,101,1000],PV=[undefined,0,1,2,3,4,6,9];
const pageOps=(big)=>[...(big?PV:[undefined,1,3,9]).flatMap(p=>(big?TK:[undefined,0,2,101]).flatMap(t=>[q.tokens(p,t),q.tokens_of('a',p,t)])),
  ...[null,'b','c','d','e',A('b',1),A('b',-1)].flatMap(p=>[undefined,0,1,2,3,50].flatMap(t=>[q.tapp(1,p,t),q.capp('a',p,t),q.capp(A('a',-1),p,t)])),q.tokens_of('d'),q.tokens_of(A('a',1)),q.tapp(9),q.tapp(2),q.capp('c')];
const ppre=[mint([req('a'),req('a'),req('a'),req('b'),req('a')]),appr('a',1,'b'),apprc('a','c'),appr('a',1,'d',{memo:1}),apprc('a','b',{exp:r(60000)}),appr('a',[ai(1,'c'),ai(1,'e',{exp:r(90000)})]),apprc('a',[ci('d'),ci(A('b',1))],{dt:200}),appr('a',1,A('b',1))];
Q('page',1,1,{prelude:ppre,ops:pageOps(true)});
Q('page2',2,3,{prelude:[...ppre,ucfg({default_take_value:2,max_take_value:3})],ops:[...pageOps(false),burn('a',2),xfer('a',1,'b'),xfer('b',4,'a'),mint('a'),rev('a',1,'c')]});

Q('batch',2,3,{init:{max_update_batch_size:3,maxrev:2},prelude:[mint([req('a'),req('a'),req('b')]),appr('a',[ai(1,'c'),ai(2,'c')])],
  ops:[xfer('a',[xi(1,'b'),xi(2,'b')]),xfer('a',[xi(1,'b'),xi(1,'c')]),xfer('a',[xi(9,'b'),xi(2,'c'),xi(3,'a')]),xfer('a',[xi(1,'b'),xi(2,'b'),xi(2,'c'),xi(1,'c')]),xfer('a',[]),xfer('b',[xi(3,'a'),xi(1,'c')]),xfer('anon',[xi(1,'b'),xi(2,'b')]),
    xfrom('c',[fi(1,'a','b'),fi(2,'a','c')]),xfrom('c',[fi(1,'a','b'),fi(1,'b','c'),fi(2,'b','c')]),xfrom('a',[fi(1,'a','b'),fi(2,'a','b'),fi(3,'a','c'),fi(1,'a','c')]),xfrom('a',[]),
    appr('a',[ai(1,'d'),ai(2,'d'),ai(3,'d')]),appr('a',[ai(1,'anon'),ai(2,'b')]),appr('a',[ai(1,'d',{cr:r(99999)}),ai(1,'e')]),appr('a',[]),apprc('a',[ci('b'),ci('anon'),ci('c',{fs:1})]),appr('a',[ai(1,'e'),ai(2,'e'),ai(1,'x'),ai(2,'x')]),apprc('a',[ci('b'),ci('c'),ci('d'),ci('e')]),
    rev('a',[ri(1,'c'),ri(2,'c')]),rev('a',[ri(9),ri(1)]),rev('a',[ri(1,'d'),ri(1,'c'),ri(2,'c')]),revc('a',[rci('b'),rci('c',{fs:1})]),revc('a',[rci('x'),rci()]),
    mint([req('a'),req('b',{meta:'m1'}),req(A('c',1))]),mint([req('a'),req('b'),req('c'),req('d')]),ucfg({atomic_batch_transfers:1,max_update_batch_size:2}),burn('a',1)]});
// more items in one message than the log accepts at once
Q('batchlog',2,3,{prelude:[mint([req('a'),req('a'),req('a'),req('a')]),mint([req('a'),req('a'),req('a'),req('b')])],
  ops:[xfer('a',[1,2,3,4,5,6,7].map(i=>xi(i,'b'))),xfer('b',[8,1,2,3,4,5,6,7].map(i=>xi(i,'a'))),xfrom('a',[1,2,3,4,5,6,8].map(i=>fi(i,'a','b'))),appr('a',[1,2,3,4,5,6,7].map(i=>ai(i,'b'))),apprc('a',['b','c','d','e'].map(p=>ci(p))),rev('a',[1,2,3,4,5,6].map(i=>ri(i,'b'))),revc('a',['b','c','d','e','x'].map(p=>rci(p))),xfer('a',1,'c',{dt:0}),wait(90)]});

// every optional part of every operation, for the blocks
const MEM=[undefined,0,1,40];
Q('blocks',1,2,{prelude:[mint([req('a'),req(A('a',2)),req('b')]),appr('a',1,'d'),appr('a',2,'d',{fs:2}),apprc('a','d'),apprc('a','e',{fs:2})],
  ops:[...MEM.flatMap(memo=>[[],r(0),r(-5)].flatMap(cr=>[xfer('a',1,'b',{memo,cr}),xfer('a',2,A('c',1),{memo,cr}),xfrom('d',1,'a',A('c',3),{memo,cr}),xfrom('a',2,A('a',2),'b',{memo,cr,ss:2}),rev('a',1,'d',{memo,cr}),rev('a',2,null,{memo,cr,fs:2}),revc('a','d',{memo,cr}),revc('a',null,{memo,cr,fs:2})])),
    ...MEM.flatMap(memo=>[[],r(5000),['a',0],['a',2000000000]].flatMap(exp=>[appr('a',1,'c',{memo,exp,cr:r(-7)}),apprc('a',A('b',1),{memo,exp,fs:2})])),
    ...MEM.flatMap(memo=>[mint(req('c',{memo,meta:'m3'})),mint([req(A('b',1),{memo}),req('a',{memo:7})])]),burn('a',1),burn('a',2),burn('b',3),umeta(1,'m2'),umeta(2,'m0'),umeta(3,'m3')]});

Q('upgrade',3,4,{init:{maxappr:3,supply_cap:6},prelude:[mint([req('a',{meta:'m1'}),req(A('a',1),{meta:'m3'}),req('b')]),appr('a',1,'b',{exp:r(5000)}),apprc('a','c'),burn('b',3),grant('admin','b','Minting'),ucfg({max_take_value:9,description:'dd'}),umeta(1,'m4')],
  ops:[q.upbad(),upgrade(),upgrade({dt:0}),mint('a',{by:'b',dt:0}),xfer('a',1,'b',{cr:r(-1),dt:1}),xfrom('c',1,'a','d'),xfrom('b',1,'a','d'),appr('a',2,'d',{fs:1}),umeta(2,'m6',{dt:0}),rev('a',1)]});
Q('upgrade2',4,5,{prelude:[mint([req('a'),req('a')])],abstime:1,   // what must not be forgotten: recent transactions, request rates
  ops:[upgrade({dt:0}),xfer('a',1,'b',{cr:['a',1000300],dt:20}),xfer('b',1,'a',{cr:['a',1000300],dt:10}),xfer('c',2,'b',{dt:0}),apprc('a','b',{cr:['a',1000290],dt:10,exp:['a',1000400]})]});
Q('upgrade3',2,2,{init:{tx_window:1},prelude:[mint([req('a'),req('a')]),umeta(1,'m3',{dt:0}),umeta(2,'m2',{dt:0})],ops:[upgrade({dt:0}),umeta(1,'m3',{dt:0}),umeta(2,'m6',{dt:0}),mint('b'),xfer('a',1,'b'),burn('a',2),wait(1001000)]});
// uploads
const D1=[1,2,3,4,5],D2=[9,8,7];
const U={init:{perm:UPERM}};
Q('up1',5,7,{...U,prelude:[],ops:[iu('/a',D1,{csz:3}),iu('a',D2),sc('/a',0,[1,2,3]),sc('/a',1,[4,5]),sc('/a',1,[4,6]),fu('/a'),cu('/a'),q.fetch('/a'),upgrade({dt:0})]});
Q('up2',4,5,{...U,prelude:[],ops:[iu('/a',D1),iu('/b-c',D2,{csz:1}),iu('b-c',D2),sc('/a',0,D1),sc('/b-c',2,[7]),sc('/b-c',0,[9]),sc('/b-c',1,[8]),fu('/a'),fu('/b-c'),cu('/a'),cu('b-c'),cu('/b-c'),q.fetch('/b-c'),q.ust('/b-c'),q.uploads([],[]),upgrade({dt:0})]});
// chunks in any order, twice, too many, too long, empty, out of range; sizes that do not divide; nothing to store
Q('upchunk',5,6,{...U,prelude:[iu('/a',D1,{csz:2})],ops:[sc('/a',0,[1,2]),sc('/a',1,[3,4]),sc('/a',2,[5]),sc('/a',2,[5,6]),sc('/a',3,[9]),sc('/a',0,[]),sc('/a',1,[3,4,5,6,7,8]),fu('/a'),q.fetch('/a')]});
Q('upsize',3,4,{...U,prelude:[],ops:[iu('/a',D1,{csz:0}),iu('/a',D1,{csz:5000000}),iu('/a',D1,{size:2000000000}),iu('/a',D1,{size:2000000000,csz:1000}),iu('/a',D1,{size:999999999,csz:1000000}),iu('/a',D1,{size:1000000001,csz:1000000}),iu('/a',D1,{csz:1000000}),iu('/a',D1,{csz:9}),iu('/a',D1,{size:4}),iu('/b',D2,{size:7,csz:2}),sc('/a',0,D1),sc('/a',0,[1,2,3,4]),sc('/b',0,[9,8]),sc('/b',1,[7]),sc('/b',3,[1]),fu('/a'),fu('/b'),cu('/a'),q.subs(),q.fetch('/a')]});
const FM=['get_storage_size','init_upload','create_canister','install_code','store_chunk','finalize_upload','cancel_upload'];
const fl=(m,l=[1,2,3,99])=>l.map(n=>({f:[m,n]}));
Q('upfault1',3,4,{...U,prelude:[],ops:[iu('/a',D2,{csz:2}),iu('/b',D1),...FM.slice(0,4).flatMap(m=>fl(m,m==='install_code'?[1]:[2,3,99])).map(o=>iu('/a',D2,{csz:2,...o})),iu('/b',D1,{f:['init_upload',6]}),iu('/b',D1,{f:['install_code',2]}),cu('/a'),upgrade({dt:0})]});
Q('upfault2',4,5,{...U,prelude:[iu('/a',D2,{csz:2})],ops:[sc('/a',0,[9,8]),sc('/a',1,[7]),...fl('store_chunk',[2,3]).map(o=>sc('/a',0,[9,8],o)),sc('/a',1,[7],{f:['store_chunk',99]}),fu('/a'),...fl('finalize_upload').map(o=>fu('/a',o)),cu('/a'),...fl('cancel_upload').map(o=>cu('/a',o)),iu('/a',D1),q.fetch('/a')]});
// the storage canisters take orders from the ledger alone
Q('updirect',2,3,{...U,init:{perm:{...UPERM,b:['UpdateUploads','ReadUploads','Minting']}},prelude:[iu('/a',D1),sc('/a',0,D1),fu('/a'),iu('/b',D1)],ops:[...['x','b','anon'].flatMap(p=>['init_upload','store_chunk','finalize_upload','cancel_upload'].flatMap(m=>['/a','/b','/c'].map(f=>q.direct(p,m,f)))),iu('/c',D1,{f:['full',1]}),sc('/b',0,D1),grant('admin','b','ManageAuthorities'),upgrade({dt:0})]});
// storage canisters that are full, or have just enough left
Q('upfull',4,5,{...U,prelude:[iu('/a',D1)],ops:[...['full','fits'].flatMap(m=>fl(m,m==='full'?[1,2]:[99])).flatMap(o=>[iu('/b',D2,{csz:2,...o}),iu('/c',D1,o)]),sc('/a',0,D1),sc('/b',0,[9,8]),sc('/b',1,[7]),sc('/c',0,D1),fu('/a'),fu('/b'),fu('/c'),cu('/b'),iu('/b',D2,{csz:2}),q.subs(),q.fetch('/b','?a'),upgrade({dt:0})]});
// calls that wait for another canister, and what comes in between
Q('uphold1',3,4,{...U,agecap:1,prelude:[iu('/b',D2,{csz:2}),mint('a')],ops:[iu('/a',D1,{hold:'req'}),iu('/a',D1,{hold:'rep'}),iu('/a',D1,{hold:'first'}),end(),upgrade({dt:0}),mint('b',{dt:0}),burn('a',1,{dt:0}),umeta(1,'m1',{dt:0}),ucfg({name:'n2'},{dt:0}),grant('admin','b','UpdateUploads',{dt:0}),revoke('admin','admin','UpdateUploads',{dt:0}),iu('/a',D2),cu('/b'),sc('/b',0,[9,8]),q.ust('/a')]});
Q('uphold2',5,6,{...U,prelude:[iu('/a',D2,{csz:2})],ops:[sc('/a',0,[9,8]),sc('/a',1,[7]),...['req','rep'].flatMap(hold=>[sc('/a',1,[7],{hold}),fu('/a',{hold}),cu('/a',{hold})]),end(),upgrade({dt:0}),fu('/a'),cu('/a'),iu('/a',D2,{csz:2}),q.fetch('/a')]});
Q('uphold3',3,4,{...U,prelude:[],ops:[q.upbad(),iu('/a',D2,{csz:2,hold:'first'}),iu('/a',D2,{csz:2,hold:'req'}),iu('/a',D2,{csz:2,hold:'rep'}),end(),upgrade({dt:0}),iu('/a',D2,{csz:2}),iu('/b',D1),cu('/a'),cu('/b'),sc('/a',0,[9,8]),mint('a',{dt:0})]});
Q('uphold4',3,4,{init:{perm:{...UPERM,b:['UpdateUploads','Minting']}},agecap:1,prelude:[mint([req('a'),req('a')]),iu('/a',D2,{csz:2}),sc('/a',0,[9,8])],ops:[sc('/a',1,[7],{hold:'req',by:'b'}),fu('/a',{hold:'rep',by:'b'}),end(),mint('a',{dt:0,by:'b'}),mint('a',{dt:0}),burn('a',1,{dt:0}),xfer('a',2,'b',{dt:0}),appr('a',2,'c',{dt:0}),umeta(2,'m2',{dt:0}),ucfg({max_take_value:7},{dt:0}),grant('admin','c','Minting',{dt:0}),revoke('admin','b','Minting',{dt:0}),cu('/a',{by:'b'}),sc('/a',1,[7]),wait(1000)]});
// garbage collection
Q('upgc1',4,5,{...U,prelude:[iu('/a',D2,{csz:2})],ops:[wait(DAY/2),wait(DAY),waitf(DAY,['cancel_upload',99]),sc('/a',0,[9,8]),sc('/a',1,[7]),fu('/a'),iu('/a',D2,{csz:2}),iu('/b',D1),cu('/a'),upgrade({dt:0}),q.fetch('/a')]});
for(const h of['gcreq','gcrep'])Q('uphold'+h,4,6,{...U,prelude:[iu('/a',D2,{csz:2}),sc('/a',0,[9,8]),wait(DAY-1000),waith(DAY+2000,h)],ops:[gcend(),sc('/a',1,[7]),fu('/a'),cu('/a'),iu('/a',D2,{csz:2}),sc('/a',0,[9,8]),sc('/a',1,[7],{hold:'rep'}),fu('/a',{hold:'req'}),end(),upgrade({dt:0}),q.fetch('/a')]});
Q('upgc2',3,4,{...U,prelude:[wait(DAY-1000),iu('/a',D2,{csz:2}),sc('/a',0,[9,8],{dt:2000}),wait(DAY-5000)],ops:[sc('/a',1,[7],{hold:'req'}),sc('/a',1,[7],{hold:'rep'}),end(),wait(1),wait(4000),wait(5000),wait(DAY),fu('/a'),iu('/a',D2,{csz:2}),q.ust('/a'),upgrade({dt:0})]});
Q('uppath',2,3,{...U,prelude:[],ops:['/ü','/b c','/a%20b','/a?b','/a#b','/x//y','/x/y','/m/','/logs','traces','metrics','','/','/dir/x.png'].flatMap(p=>[iu(p,[3])]).concat([sc('/ü',0,[3]),sc('/x/y',0,[3]),q.ust('/b c'),upgrade()])});
Q('uppath2',1,2,{...U,prelude:['/ü','/x//y','/x/y','/m/','','/dir/x.png'].flatMap((p,i)=>[iu(p,[3,i]),sc(p,0,[3,i]),fu(p)]),ops:['/ü','/x//y','/x/y','/m/','/','/dir/x.png','/a'].flatMap(p=>[q.fetch(p),q.fetch(p,'?x=1&y=/m/')]).concat([upgrade(),iu('/',[1]),iu('x/y',[1]),iu('/m',[1]),mint('a'),wait(DAY)])});
// more uploads than a listing gives when nothing is asked for
const UP=upto(105).map(i=>'/u'+String(i).padStart(3,'0'));
Q('uppages',1,2,{init:{...U.init,prank:Object.fromEntries(UP.map((p,i)=>[p,i+1]))},prelude:UP.map((p,i)=>iu(p,D1,{dt:i%10?0:300})),ops:[[],0,1,5,6,104,105].flatMap(p=>[[],0,1,99,100,101,105,W64].map(t=>q.uploads(p,t))).concat([cu(UP[3]),cu(UP[104]),sc(UP[99],0,D1),upgrade()])});
// who may
Q('upperm',2,3,{init:{perm:{admin:['ManageAuthorities'],b:['UpdateUploads'],c:['ReadUploads'],d:['Minting','UpdateMetadata','UpdateCollectionMetadata']}},prelude:[iu('/a',D2,{by:'b'})],ops:['admin','b','c','d','anon'].flatMap(by=>[iu('/b',D1,{by}),sc('/a',0,D2,{by}),fu('/a',{by}),cu('/a',{by}),q.ust('/a',by),q.uploads([],[],by),q.subs(by)]).concat([grant('admin','d','UpdateUploads'),revoke('admin','b','UpdateUploads'),grant('admin','a','ReadUploads')])});
Q('uppage',1,1,{...U,prelude:['/a','/a2','/b','/b-c','/c','/d/e'].flatMap((p,i)=>[iu(p,D2),...(i%2?[sc(p,0,D2)]:[]),...(i===3?[fu(p)]:[])]),ops:[...[[],0,1,2,5,6,7,W32,W64].flatMap(p=>[[],0,1,3,6,100,W32,W64].map(t=>q.uploads(p,t))),...['/a','/b','/b-c','/zz'].map(p=>q.ust(p)),iu('/0',D1),cu('/a2'),upgrade()]});
// archiving: rounds every ten minutes, what they fail at, upgrades, all kinds of ranges
const RNG=n=>{const l=[];for(let a=0;a<=n+1;a++)for(const k of[0,1,2,n,n+5])l.push(q.blocks([a,k]));return l;};
const MIN=60000;
Q('arch1',3,5,{arch:1,prelude:[mint([req('a',{meta:'m3'}),req('a')]),xfer('a',1,'b',{memo:3})],
  ops:[q.upbad(),wait(600000),wait(120000),wait(479000),mint(req('a',{meta:'m4'})),xfer('b',1,'a'),upgrade({dt:0}),waitf(600000,['insert_blocks',3]),waitf(600000,['insert_blocks',2]),waitf(1200000,['insert_blocks',99]),waitf(600000,['create_canister',3]),waitf(600000,['create_canister',1]),waitf(1200000,['create_canister',4]),waitf(600000,['install_code',1]),q.blocks([0,100]),q.archs()]});
Q('arch2',1,2,{arch:1,prelude:[mint([req('a',{meta:'m6'}),req('a'),req('b')]),appr('a',1,'b',{exp:r(10)}),wait(600000),apprc('a','b'),xfrom('b',1,'a','b'),umeta(1,'m3'),wait(479000),burn('b',3),revc('a')],
  ops:[...RNG(9),q.blocks(),q.blocks([0,3],[2,5]),q.blocks([5,2],[0,9],[8,1],[8,1]),q.archs(),wait(1),wait(120000),wait(600000),upgrade(),mint('c'),xfer('b',1,'a')]});
// the round takes what is more than two minutes old at that moment, to the millisecond
Q('arch3',2,3,{arch:1,prelude:[mint('a',{dt:479998}),xfer('a',1,'b',{dt:1}),xfer('b',1,'a',{dt:1}),xfer('a',1,'b',{dt:1}),wait(119998)],ops:[wait(1),wait(2),wait(600000),q.blocks([0,9]),q.archs(),upgrade({dt:0}),mint('b',{dt:0})]});
// calls during a round
Q('archhold',1,2,{arch:1,tag:['L12'],prelude:[mint('a',{dt:200}),wait(600000-200),xfer('a',1,'b',{dt:200})],ops:[q.blocks([0,9]),xfer('b',1,'a',{dt:0}),mint('c',{dt:0}),wait(0)].map(o=>during(600000-200,o)).concat([wait(600000-200)])});
// no more than a thousand blocks outside the archives
const five=(p,o,k=5)=>xfer(p,[1,2,3,4,5].slice(0,k).map(i=>xi(i,o)));
Q('archfull',2,3,{arch:1,prelude:[mint([1,2,3,4,5].map(i=>req('a'))),...Array.from({length:198},(_,i)=>i%2?five('b','a'):five('a','b')),xfer('a',[xi(1,'b'),xi(2,'b')])],
  ops:[five('a','b'),xfer('b',[xi(1,'a'),xi(2,'a')]),mint('c'),mint([req('a'),req('b'),req('c'),req('d')]),burn('b',1),umeta(1,'m2'),appr('b',1,'c'),apprc('a','c'),xfrom('a',3,'a','c'),wait(600000),upgrade(),q.blocks([0,2000]),q.blocks([990,20])]});
// the index: what it files where, in any order of ledger activity, rounds, queries and upgrades
const XF=[fa('a'),fa('b'),fa('c'),fa('a',-1),fa('a',1),fa('x'),ty('7mint'),ty('7xfer'),ty('37xfer'),ty('37approve'),ty('37approve_coll'),ty('37revoke_coll'),ty('7update_token'),ty('nothing'),tk(1),tk(3),tk(9),tk(2000000000)];
const xpre=[mint([req('a',{meta:'m3'}),req('a'),req('b')]),xfer('a',1,'b'),appr('b',1,'c',{exp:r(9000),memo:3}),apprc('a','c'),xfrom('c',1,'b','a'),xfer('a',2,A('a',1)),appr('a',1,A('a',1)),rev('a',1),revc('a','c'),apprc('b','b'),burn('b',3),umeta(1,'m4'),xfrom('b',1,'a','b')];
Q('x1',4,5,{prelude:[mint([req('a'),req('b')]),xinst()],ops:[q.xupbad(),xfer('a',1,'b'),xfrom('c',1,'b','a'),apprc('b','c'),wait(60000),wait(59000),xup(),xq(0,10),xq(0,3,{desc:1}),xq(0,9,{by:[fa('b')]}),upgrade({dt:13})]});
Q('x2',1,2,{prelude:[...xpre,xinst(),wait(120000)],ops:[...XF.flatMap(f=>[xq(0,50,{by:[f]}),xq(1,2,{by:[f],desc:1})]),...XF.slice(0,6).flatMap(f=>XF.slice(6).map(g=>xq(0,50,{by:[g,f],desc:2}))),xq(0,50,{by:[ty('37xfer'),tk(1),fa('b'),fa('c')]}),xq(0,5,{by:[fa('a'),fa('a')]}),xq(0,50,{by:[fa('a'),fa('b')],desc:1})]});
const XR=[[0,0],[0,1],[0,5],[3,4],[9,9],[12,1],[13,1],[14,5],[0,13],[0,14],[0,100],[500,3]];
Q('x3',1,2,{prelude:[...xpre,xinst(),wait(60000),xfer('b',1,'a'),xfer('a',1,'b')],ops:[...XR.flatMap(([a,n])=>[0,1,2].map(desc=>xq(a,n,{desc}))),...[fa('a'),ty('7xfer'),tk(1)].flatMap(f=>[...XR,[2000000000,3],[0,2000000000],[2,2000000000]].flatMap(([a,n])=>[0,1].map(desc=>xq(a,n,{by:[f],desc})))),xfer('b',1,'c'),wait(60000),xup()]});
// the cache warm, cold, partly filled and emptied
Q('x4',3,4,{prelude:[...xpre,xinst(),wait(DAY-60000)],ops:[xq(2,3),xq(6,3,{desc:1}),xq(0,20),xq(0,20,{by:[fa('c')],desc:1}),xq(0,20,{by:[fa('a'),ty('37xfer')]}),xfer('b',1,'a'),wait(60000),wait(300000),xup()]});
// several rounds' worth of blocks
Q('x5',3,4,{prelude:[mint([1,2,3,4,5].map(i=>req('a'))),...Array.from({length:45},(_,i)=>i%2?five('b','a'):five('a','b')),xinst()],
  ops:[wait(60000),xfer('b',1,'c'),xq(0,100),xq(99,3),xq(95,200),xq(0,7,{desc:1}),xq(97,6,{by:[tk(2)]}),xq(40,3,{by:[fa('b'),tk(5)],desc:1}),waitf(60000,['icrc3_get_blocks',1]),xup()]});
// blocks in archives
Q('x6',3,4,{arch:1,prelude:[...xpre,xinst(),wait(600000)],ops:[wait(60000),xfer('b',1,'a'),wait(600000),xup(),upgrade({dt:13}),xq(0,20),xq(9,9),xq(0,20,{by:[fa('b')],desc:1}),xq(0,20,{f:['archive',1]}),xq(0,20,{by:[ty('7mint')],f:['icrc3_get_blocks',1]}),waitf(60000,['archive',1])]});
Q('x7',3,4,{arch:1,prelude:[...xpre,wait(600000),xfer('b',1,'a'),xfer('a',1,'b'),xinst()],ops:[wait(60000),waitf(60000,['archive',1]),waitf(120000,['archive',1]),waitf(60000,['icrc3_get_blocks',1]),waitf(180000,['icrc3_get_blocks',2]),xq(11,2),xq(13,9),xq(0,20,{f:['archive',1]}),xq(0,20,{by:[fa('b')],f:['archive',1]}),xq(0,20,{by:[fa('c')]}),xup(),upgrade({dt:13})]});
// faults, with some of the blocks at hand and others not
Q('x8',3,4,{prelude:[...xpre,xinst()],ops:[xq(2,2),xq(5,3),xq(0,20,{f:['icrc3_get_blocks',1]}),xq(8,2,{f:['icrc3_get_blocks',1]}),xq(0,9,{by:[fa('a')],f:['icrc3_get_blocks',1]}),wait(60000),waitf(60000,['icrc3_get_blocks',1]),waitf(120000,['icrc3_get_blocks',1]),waitf(120000,['icrc3_get_blocks',2]),waitf(180000,['icrc3_get_blocks',99]),xfer('b',1,'a'),xup(),upgrade({dt:13})]});
// every kind of block with parties who are in no other
Q('x15',2,3,{prelude:[mint([req('a'),req('a'),req(A('a',1)),req('b')]),appr('a',1,'c'),appr('a',2,'c'),appr('a',3,'c',{fs:1}),apprc('a','c'),apprc('a',A('d',1)),xinst()],
  ops:[rev('a',1,'c'),rev('a',1),rev('a',3,'c',{fs:1}),revc('a','c'),revc('a',A('d',1)),revc('a'),revc('a',[rci('c'),rci(A('d',1))]),rev('a',[ri(1,'c'),ri(2)]),appr('a',1,'e'),appr('a',1,A('e',1)),apprc('a','e'),apprc('a',A('e',1),{exp:r(900)}),appr('a',[ai(1,'d'),ai(2,'e',{memo:1})]),xfrom('c',1,'a','d'),xfrom('c',2,'a',A('e',1)),xfrom('a',1,'a','e'),xfer('a',1,'e'),xfer('b',4,'d'),burn('b',4),burn('a',2),umeta(1,'m3'),mint('e'),mint(req(A('d',2),{memo:1})),wait(60000)]});
// faults once nothing is at hand any more
Q('x14',2,3,{arch:1,prelude:[...xpre,wait(600000),xfer('b',1,'a'),xinst(),wait(DAY+60000)],ops:['icrc3_get_blocks','archive'].flatMap(m=>[{},{by:[fa('a')]},{by:[fa('b'),ty('37xfer')]},{by:[tk(1)],desc:1}].map(o=>xq(0,20,{...o,f:[m,1]}))).concat([xq(0,20),xq(2,3,{by:[fa('a')]}),xq(8,2),xfer('b',1,'a'),wait(60000),xup()])});
// rounds and queries on their way while others begin and end
Q('x9',4,5,{prelude:[mint([req('a'),req('b')]),xfer('a',1,'b'),xinst()],ops:[waith(60000,'req'),waith(60000,'rep'),wait(60000),xfer('b',1,'a'),xend(1),xend(2),xup(),upgrade({dt:13}),xend(1,{f:['icrc3_get_blocks',1]})]});
Q('x10',3,4,{arch:1,prelude:[...xpre,wait(600000),xfer('b',1,'a'),xinst()],ops:[waith(60000,'req'),waith(60000,'rep'),waith(120000,'rep'),wait(60000),wait(600000),xq(0,9),xq(0,20,{hold:'req'}),xq(0,20,{hold:'rep',desc:1}),xq(0,5,{by:[fa('b')],hold:'rep'}),xend(1),xend(2),xend(1,{f:['archive',1]}),xfer('a',1,'b'),xup()]});
Q('x11',3,4,{prelude:[...Array.from({length:24},(_,i)=>i?i%2?five('a','b'):five('b','a'):mint([1,2,3,4,5].map(j=>req('a')))),xinst()],ops:[waith(60000,'req'),waith(60000,'rep'),wait(60000),xend(1),xend(2),xq(90,20),xq(0,50,{by:[tk(1)],hold:'req'}),xup(),xfer('b',1,'c'),waitf(60000,['icrc3_get_blocks',1])]});
// busy accounts, types and tokens; more blocks than an archive returns at once
const four=(i,l=[1,2,3,5])=>i%2?xfer('b',l.map(t=>xi(t,'a'))):xfer('a',l.map(t=>xi(t,'b')));
const busy=(n,m)=>[mint([1,2,3,4,5].map(i=>req(i===4?'c':'a'))),mint(req('d')),...Array.from({length:n},(_,i)=>four(i)),...m,umeta(6,'m3'),xinst(),...Array.from({length:12},()=>wait(60000))];
Q('x12',1,2,{arch:1,prelude:busy(240,[]),
  ops:[...[[0,4],[60,9],[270,20],[475,9],[930,40],[0,2000]].flatMap(([a,n])=>[fa('a'),fa('b'),ty('7xfer'),tk(2)].map(f=>xq(a,n,{by:[f]}))),xq(0,30,{by:[fa('a'),ty('7mint')],desc:1}),xq(5,30,{by:[tk(5),fa('b')],desc:1}),xq(0,9,{by:[fa('d')]}),xq(940,50),xq(0,20,{desc:1}),xq(0,1000)]});
Q('x13',2,3,{arch:1,prelude:busy(240,[wait(1200000),...Array.from({length:40},(_,i)=>four(i)),wait(600000),...Array.from({length:4},(_,i)=>four(i)),wait(20*60000)]).concat([wait(DAY)]),
  ops:[xq(0,1200),xq(0,1000),xq(50,1200,{desc:1}),xq(0,2000,{by:[ty('7xfer')]}),xq(999,3),xq(1090,60),xq(0,1200,{f:['archive',1]}),xq(0,1200,{f:['icrc3_get_blocks',1]}),wait(60000)]});
// consent messages: all supported calls, batch shapes, arguments of one call shown for another, and nonsense
const sup=[['xfer',n=>xfer('a',Array.from({length:n},(_,i)=>xi(i+1,i%2?'c':A('b',1),{memo:i?3:undefined,cr:i?now:[],fs:i})))],['xfrom',n=>xfrom('b',Array.from({length:n},(_,i)=>fi(i+1,'a',i%2?'c':A('d',2),{ss:i,memo:i?undefined:7})))],
  ['appr',n=>appr('a',Array.from({length:n},(_,i)=>ai(i+1,['b','c',A('b',1),'d'][i%4],{exp:i?r(900):[],memo:1})))],['apprc',n=>apprc('a',Array.from({length:n},(_,i)=>ci(['b','c',A('b',1),'d'][i%4],{exp:i?r(900):[]})))],
  ['rev',n=>rev('a',Array.from({length:n},(_,i)=>ri(i+1,i%2?undefined:'b')))],['revc',n=>revc('a',Array.from({length:n},(_,i)=>rci(i%2?undefined:A('b',1))))]];
Q('y1',1,1,{init:{description:'nice'},prelude:[mint([req('a'),req('a'),req('b')])],
  ops:[...sup.flatMap(([k,g])=>[0,1,2,3,4,7,12].map(n=>q.consent(g(n),{by:['x','a','anon','admin'][n%4],lang:['en','','fr-CH'][n%3],off:[undefined,0,-60,840][n%4],dev:n%2}))),
    ...sup.flatMap(([k,g])=>[1,2].flatMap(n=>METHS.filter(m=>q.consent(g(n)).m!==m).map(m=>q.consent(g(n),{m})))),
    ...sup.flatMap(([k,g])=>['cut','none','text','raw'].map(junk=>q.consent(g(2),{junk}))),
    ...['mint','burn_nft','icrc7_tokens','','icrc7_transfer_from','ICRC7_TRANSFER',' icrc7_transfer','update_nft_metadata','icrc37_approve','finalize_upload','icrc21_canister_call_consent_message'].map(m=>q.consent(sup[0][1](1),{m})),
    q.consent(apprc('a',[ci('b'),ci('b',{fs:1}),ci('b')])),q.consent(apprc('a','a')),q.consent(apprc('a','anon')),q.consent(apprc('a',[ci('e'),ci('d'),ci('c'),ci('b')])),q.consent(xfer('a',99,'b')),q.consent(xfer('a',1,'anon'))]});
Q('y2',3,4,{init:{max_update_batch_size:2},prelude:[mint([req('a'),req('b')])],
  ops:[...[2,3,4,5].map(i=>q.consent(sup[i][1](2))),q.consent(sup[0][1](3)),q.consent(sup[1][1](0)),apprc('a',[ci('b'),ci('c')]),apprc('a','d'),xfer('a',1,'b'),appr('b',2,'a'),revc('a'),burn('b',2),mint('c'),ucfg({name:'N2',description:'d1'}),upgrade()]});
// Every sequence of operations, without taking histories that end alike for the same: a canister may remember what the
// specification has no reason to (a permission granted twice, an entry left empty, a count).
const P=(n,quick,thorough,o)=>Q(n,quick,thorough,{...o,paths:1});
P('pperm',4,5,{init:{perm:{admin:['ManageAuthorities']}},prelude:[],ops:[grant('admin','b','Minting'),revoke('admin','b','Minting'),grant('admin','b','UpdateMetadata'),revoke('admin','b','UpdateMetadata'),mint('a',{by:'b'}),umeta(1,'m1',{by:'b'}),upgrade()]});
P('ptest',4,5,{init:{test:1,perm:{admin:['Minting'],b:['ManageAuthorities','ReadUploads']}},prelude:[],ops:[revoke('b','admin','ManageAuthorities'),revoke('b','admin','Minting'),revoke('admin','b','ManageAuthorities'),grant('admin','c','Minting'),mint('a'),umeta(1,'m1'),upgrade()]});
P('pown',4,5,{prelude:[mint([req('a'),req('a')])],ops:[mint('a'),xfer('a',1,'b'),xfer('b',1,'a'),xfer('a',2,'b'),xfer('a',2,A('a',1)),burn('a',1),burn('b',1),xfrom('a',2,'a','b')]});
P('pappr',4,5,{prelude:[mint([req('a'),req('b')])],ops:[appr('a',1,'b'),appr('a',1,'c'),rev('a',1,'b'),rev('a',1),xfrom('b',1,'a','c'),xfer('a',1,'b'),xfer('b',1,'a'),xfer('c',1,'a')]});
P('pexp',4,5,{prelude:[mint([req('a'),req('a')])],ops:[appr('a',1,'b'),appr('a',1,'b',{exp:r(400)}),apprc('a','b'),apprc('a','b',{exp:r(300)}),wait(250),xfrom('b',1,'a','b'),xfer('b',1,'a'),upgrade()]});
P('pcoll',4,5,{prelude:[mint([req('a'),req('a'),req('b')])],ops:[apprc('a','b'),apprc('a','c'),revc('a','b'),revc('a'),xfrom('b',1,'a','c'),xfrom('c',2,'a','b'),xfer('a',1,'b'),xfer('b',1,'a')]});
P('plim',4,5,{init:{maxappr:2,maxrev:1},prelude:[mint('a')],ops:[appr('a',1,'b'),appr('a',1,'c'),appr('a',1,'d'),rev('a',1,'b'),apprc('a','b'),apprc('a','c'),apprc('a','d'),revc('a','b')]});
P('pmeta',4,5,{prelude:[mint(req('a',{meta:'m1'}))],ops:[umeta(1,'m1'),umeta(1,'m0'),umeta(1,'m3'),umeta(1,'m6'),burn('a',1),mint(req('a',{meta:'m4'})),umeta(2,'m2'),upgrade()]});
P('pcfg',4,5,{prelude:[mint([req('a'),req('a'),req('a')])],ops:[ucfg({name:'N2',supply_cap:4}),ucfg({description:'d',max_take_value:2}),ucfg({max_take_value:1,default_take_value:1,max_update_batch_size:1}),ucfg({}),upgrade(),mint('a'),q.tokens(),xfer('a',[xi(1,'b'),xi(2,'b')])]});
P('pmint',4,5,{init:{supply_cap:3},prelude:[],ops:[mint('a'),mint(req('b',{memo:2})),mint([req('a'),req('b')]),burn('a',1),burn('b',2),burn('b',1),burn('a',3),umeta(2,'m1')]});
P('pfail',4,5,{init:{max_memo_size:2},prelude:[mint([req('a'),req('b')])],ops:[xfer('a',1,'anon'),xfer('c',1,'b'),xfrom('c',1,'a','b'),appr('a',1,'a'),rev('a',1,'b'),revc('a','b'),burn('c',1),xfer('a',1,'b'),apprc('a','c')]});
P('pbatch',3,4,{prelude:[mint([req('a'),req('a'),req('b')])],ops:[xfer('a',[xi(1,'b'),xi(2,'b')]),xfer('b',[xi(2,'a'),xi(1,'a')]),xfer('a',[xi(1,'b'),xi(1,'b')]),appr('a',[ai(1,'c'),ai(2,'c')]),rev('a',[ri(2),ri(1)]),xfrom('c',[fi(1,'a','c'),fi(2,'a','b')]),apprc('a',[ci('b'),ci('c')]),revc('a',[rci('c'),rci('c')]),mint([req('a'),req('b')]),ucfg({atomic_batch_transfers:1})]});
P('pup',4,5,{...U,prelude:[iu('/a',D2,{csz:2})],ops:[iu('/a',D2,{csz:2}),sc('/a',0,[9,8]),sc('/a',1,[7]),fu('/a'),cu('/a'),q.fetch('/a'),upgrade({dt:0}),iu('/b',D1)]});
P('pgc',3,5,{...U,prelude:[iu('/a',D2)],ops:[sc('/a',0,D2),fu('/a'),cu('/a'),iu('/a',D2),wait(DAY),wait(DAY/2),upgrade({dt:0})]});
P('pflt',4,5,{...U,prelude:[],ops:[iu('/a',D2),iu('/a',D2,{f:['init_upload',99]}),iu('/a',D2,{f:['create_canister',99]}),sc('/a',0,D2),sc('/a',0,D2,{f:['store_chunk',99]}),fu('/a'),fu('/a',{f:['finalize_upload',99]}),cu('/a')]});
P('phold',4,5,{init:{perm:{...UPERM,b:['UpdateUploads']}},agecap:1,prelude:[iu('/a',D2)],ops:[sc('/a',0,D2,{hold:'req',by:'b'}),fu('/a',{hold:'rep',by:'b'}),end(),mint('a',{dt:0}),burn('a',1,{dt:0}),ucfg({name:'N2'},{dt:0}),upgrade({dt:0}),cu('/a',{by:'b'})]});
P('ptime',3,4,{prelude:[mint([req('a'),req('b')]),wait(30000)],ops:[xfer('a',1,'b',{cr:r(-10050)}),xfer('b',1,'a',{cr:r(50)}),xfer('a',1,'b',{cr:['a',1030100]}),xfer('b',1,'a',{cr:['a',1030100]}),appr('b',2,'a',{cr:r(-9999)}),ucfg({tx_window:300}),ucfg({permitted_drift:0}),wait(300),upgrade({dt:0})]});
P('pdup',4,5,{prelude:[mint('a',{dt:200})],ops:[xfer('a',1,'b',{cr:X,dt:20}),xfer('b',1,'a',{cr:X,dt:20}),appr('a',1,'b',{cr:X,dt:20}),appr('b',1,'a',{cr:X,dt:20}),rev('a',1,'b',{cr:X,dt:20}),wait(90),upgrade({dt:0})]});
P('prate',6,7,{prelude:[mint([req('a'),req('a')])],ops:[xfer('a',1,'anon',{dt:0}),rev('c',1,'b',{dt:0}),wait(30),xfer('a',1,A('a',1),{dt:20})]});
P('parch',3,5,{arch:1,prelude:[mint('a')],ops:[wait(600000),wait(480000),xfer('a',1,'b'),xfer('b',1,'a'),upgrade({dt:0}),waitf(600000,['insert_blocks',99])]});
P('pidx',4,5,{prelude:[mint('a'),xinst()],ops:[wait(60000),xfer('a',1,'b'),xfer('b',1,'a'),xq(0,9),xq(0,9,{by:[fa('b')],desc:1}),xup(),wait(59000)]});
P('pidxf',4,5,{prelude:[mint('a'),xfer('a',1,'b'),xinst()],ops:[wait(60000),waitf(60000,['icrc3_get_blocks',99]),waith(60000,'req'),waith(60000,'rep'),xend(1),xfer('b',1,'a'),xq(0,9),xup()]});
// installations, and upgrades with the wrong arguments
const FULL={name:'Coll',symbol:'C',description:'about',logo:'https://x.org/a',supply_cap:4,max_query_batch_size:2,max_update_batch_size:3,max_take_value:5,default_take_value:1,max_memo_size:6,atomic_batch_transfers:1,tx_window:7000,permitted_drift:90,max_canister_storage_threshold:8,maxappr:9,maxrev:11};
const PM={a:['Minting'],b:['ManageAuthorities','ReadUploads'],c:['UpdateMetadata','UpdateCollectionMetadata','ReadUploads','UpdateUploads'],d:[]};
Q('inst',1,2,{init:{...U.init,...FULL},prelude:[mint('a'),iu('/a',D1)],ops:[q.xinst(),q.xinst('init',{by:'a',test:1}),q.xinst('upgrade'),q.inst(),q.inst({},{test:1}),q.inst({},{test:1,by:'a'}),q.inst({},{kind:'upgrade'}),q.inst(FULL),q.inst({...FULL,perm:PM}),q.inst({...FULL,perm:PM},{test:1,by:'b'}),q.inst({perm:PM},{test:1,by:'c'}),q.inst({perm:{}}),q.inst({perm:{}},{test:1,by:'e'}),
  ...Object.entries(FULL).flatMap(([k,v])=>[q.inst({[k]:v,perm:PM}),...(typeof v==='number'&&k!=='atomic_batch_transfers'?[q.inst({[k]:0,perm:PM}),q.inst({[k]:1,perm:PM}),q.inst({[k]:k==='tx_window'||k==='permitted_drift'?L64:W64,perm:PM})]:[])]),
  ...['','logo','no address','://x','/logo.png','https://x.org','data:image/png;base64,AAAA','ipfs://x/y'].map(logo=>q.inst({logo})),q.inst({atomic_batch_transfers:0}),q.inst({name:'',symbol:'',description:''}),q.inst({logo:'logo',maxappr:0},{kind:'upgrade'}),
  q.upbad(),upgrade(),mint('b'),ucfg({name:'N2',supply_cap:7}),grant('admin','b','Minting'),sc('/a',0,D1),fu('/a')]});
export const pick=(names,tier)=>names.map(n=>{if(!ALL[n])throw new Error('family '+n);return ALL[n](tier);});
