// What decides each property: which families are explored exhaustively and which random histories are run.
import {pick} from './families.mjs';import {histories} from './gen.mjs';
const fams=(...n)=>tier=>pick(n,tier);
const plan=(id,families,profiles,n=32,len=90)=>({families:fams(...families),traces:histories(id,n,len,profiles)});
export const PLANS={
  L01:plan('L01',['own','burn','batch','mintburst','pown'],['mix','token','mint','upgrade']),
  L02:plan('L02',['auth','own','coll','appr','batch','pcoll','pappr'],['mix','token','coll','batch']),
  L03:plan('L03',['appr','many','renew','expiry','auth','limits','burn','pappr','pexp'],['token','mix','limits']),
  L04:plan('L04',['coll','renew','expiry','auth','limits','pcoll','pexp'],['coll','mix','limits']),
  L05:plan('L05',['appr','bigappr','renew','coll','expiry','auth','page','pappr','pcoll'],['token','coll','limits']),
  L06:plan('L06',['limits','limits3','appr','expiry','hugeinit0','hugeinit1','plim'],['limits','limits','token','coll']),
  L07:plan('L07',['mint','mintburst','burn','configinit','pmint'],['mint','mix','meta','batch']),
  L08:plan('L08',['burn','many','own','mintburst','batch','pown','pmint'],['mint','token','mix','fast']),
  L09:plan('L09',['own','logfull','dupfrom','appr','coll','mint','mintburst','batchlog','rate3','config','pfail','pbatch'],['mix','fast','batch','dup']),
  L10:plan('L10',['blocks','batch','batchlog','burn','meta','pbatch','pown'],['mix','batch','coll','token']),
  L11:plan('L11',['own','mintburst','burn','batchlog','dup','upgrade3','pown','pmint'],['mix','mint','fast','batch']),
  L12:plan('L12',['arch1','arch2','arch3','archfull','archhold','upgrade','batchlog','parch'],['arch','arch','mix'],24,90),
  T13:plan('T13',['time','timecfg','timecfg0','timens','timebig','expiry','huge','hugeinit2','hugeinit3','ptime'],['times','config','dup'],36,90),
  T14:plan('T14',['dup','dupfrom','logfull','dup2','dupwin','batchlog','pdup'],['dup','dup','fast'],36,90),
  T15:plan('T15',['rate','rate2','rate3','prate'],['fast','dup','batch'],36,90),
  G16:plan('G16',['perm','perm1','mint','upperm','pperm','ptest'],['perm','upgrade','upload'],36,90),
  M22:plan('M22',['meta','many','blocks','mint','upgrade','upgrade3','pmeta'],['meta','meta','mint','upgrade']),
  C23:plan('C23',['config','configinit','limits','timecfg','timecfg0','huge','hugeinit0','hugeinit1','hugeinit2','hugeinit3','pcfg','big'],['config','config','limits','page']),
  Q24:plan('Q24',['page','bigappr','page2','configinit','uppage','uppages','big','huge','pcfg','pown'],['page','page','config'],36,90),
  B25:plan('B25',['batch','big','batchlog','rate3','configinit','limits3','config','huge','hugeinit0','hugeinit1','pbatch'],['batch'],36,90),
  D21:plan('D21',['upgrade','upgrade2','upgrade3','uphold2','uphold3','uppath2','pmeta','pexp','pcfg','pup','ptest'],['upgrade','upgrade','upload'],36,90),
  U18:plan('U18',['up1','up2','upchunk','upsize','uppage','uphold2','uppath','upgc2','upfull','updirect','pup'],['upload','upload','hold','fault'],32,110),
  U19:plan('U19',['upfault1','upfault2','upgc1','upgc2','uphold3','upsize','upfull','upholdgcreq','upholdgcrep','pflt','pgc'],['fault','fault','upload'],32,110),
  U20:plan('U20',['up1','up2','uppath','uppath2','uphold2','upfault2','pup'],['upload','fault'],32,110),
  I30:plan('I30',['inst','configinit','hugeinit0','hugeinit1','hugeinit2','hugeinit3','limits3','ptest'],['install'],24,60),
  X29:plan('X29',['y1','y2'],['consent'],32,110),
  G17:plan('G17',['uphold1','uphold2','uphold3','uphold4','mintburst','phold'],['hold'],32,110),
};
const XP={pkgs:['core_nft','index_icrc7']};
Object.assign(PLANS,{
  X26:{...plan('X26',['x1','x15','x5','x2','x6','x12','pidx'],['index'],24,80),...XP},
  X27:{...plan('X27',['x2','x3','x4','x6','x13','pidx'],['index'],24,80),...XP},
  X28:{...plan('X28',['x7','x8','x14','x9','x10','x11','x13','pidxf'],['index'],24,80),...XP},
});
