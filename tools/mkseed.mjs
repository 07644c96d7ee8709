// Makes /verif/seeded/<id>/ from tools/seed/<id>.mjs (the demonstration; first lines: // property: .., // needs: .., // breaks: .., // pkgs: ..)
// and from the difference of the scratch tree given (default /tmp/seed) to its HEAD. usage: mkseed.mjs <id> [tree] | --refresh
import fs from 'node:fs';import path from 'node:path';import {execFileSync} from 'node:child_process';
const V=path.resolve(path.dirname(new URL(import.meta.url).pathname),'..');
function fill(id){const d=`${V}/seeded/${id}`;fs.mkdirSync(d+'/emu',{recursive:true});const src=fs.readFileSync(`${V}/tools/seed/${id}.mjs`,'utf8');
  const f=k=>(new RegExp('^// '+k+': (.*)$','m').exec(src)||[])[1];
  fs.writeFileSync(d+'/demo.mjs',src);for(const x of['h.mjs','demo.sh'])fs.copyFileSync(`${V}/tools/seed/${x}`,`${d}/${x}`);fs.chmodSync(d+'/demo.sh',0o755);
  for(const x of['candid','ic','nft','httpcert'])fs.copyFileSync(`${V}/emu/${x}.mjs`,`${d}/emu/${x}.mjs`);
  fs.writeFileSync(d+'/pkgs',(f('pkgs')||'core_nft')+'\n');
  fs.writeFileSync(d+'/meta.json',JSON.stringify({property:f('property'),needs:f('needs'),what_it_breaks:f('breaks')},null,1)+'\n');}
if(process.argv[2]==='--refresh'){for(const id of fs.readdirSync(V+'/seeded'))fill(id);}
else{const id=process.argv[2],t=process.argv[3]||'/tmp/seed';fill(id);const diff=execFileSync('git',['-C',t,'diff','HEAD'],{encoding:'utf8'});if(!diff)throw new Error('no change in '+t);fs.writeFileSync(`${V}/seeded/${id}/patch.diff`,diff);}
