// Runs TLC on a family (exhaustive exploration) or on recorded traces (validation).
import fs from 'node:fs';import path from 'node:path';import os from 'node:os';import {spawn} from 'node:child_process';import {fileURLToPath} from 'node:url';
const SPEC=path.join(path.dirname(fileURLToPath(import.meta.url)),'..','spec');
const JAR='/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar';
// returns {lines:[parsed json], states, transitions, distinct, ok, error}
export function tlc(module,family,{workers=8,extra=[],timeout=800,cfg,heap='6g'}={}){
  const dir=fs.mkdtempSync(path.join(os.tmpdir(),'tlc-'));
  for(const f of fs.readdirSync(SPEC))if(/\.(tla|cfg)$/.test(f))fs.copyFileSync(path.join(SPEC,f),path.join(dir,f));
  const fam=path.join(dir,'family.json');fs.writeFileSync(fam,JSON.stringify(family));
  return new Promise((res)=>{
    const a=['-Dfile.encoding=UTF-8','-Dsun.stdout.encoding=UTF-8','-Dsun.jnu.encoding=UTF-8','-XX:+UseParallelGC','-Xmx'+heap,'-Xss64m','-cp',JAR,'tlc2.TLC','-config',(cfg||module)+'.cfg','-workers',String(workers),'-metadir',path.join(dir,'states'),'-noGenerateSpecTE',...extra,module+'.tla'];
    const p=spawn('java',a,{cwd:dir,env:{...process.env,FAMILY:fam}});
    const lines=[];let buf='',rest='',err='';const t=setTimeout(()=>p.kill('SIGKILL'),timeout*1000);
    p.stdout.setEncoding('utf8');p.stdout.on('data',d=>{buf+=d;let i;while((i=buf.indexOf('\n'))>=0){const l=buf.slice(0,i);buf=buf.slice(i+1);if(l.startsWith('"{'))lines.push(JSON.parse(JSON.parse(l)));else rest+=l+'\n';}});
    p.stderr.on('data',d=>err+=d);
    p.on('close',code=>{clearTimeout(t);fs.rmSync(dir,{recursive:true,force:true});
      const m=/(\d+) states generated, (\d+) distinct states found/.exec(rest);
      const ok=code===0&&/Model checking completed. No error|The number of states generated/.test(rest)&&!/Error:/.test(rest);
      res({lines,generated:m?+m[1]:0,distinct:m?+m[2]:0,ok,code,log:rest+err});});
  });}
