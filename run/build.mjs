// Builds the canisters from /repo's working tree (into folders git ignores there).
import {spawnSync} from 'node:child_process';import fs from 'node:fs';
export const REPO=process.env.VERIF_REPO||'/repo';
export function build(pkgs){
  const t0=Date.now();
  for(const p of pkgs){const r=spawnSync('bash',['-c',`. /opt/vp/env.sh; cd ${REPO} && CARGO_INCREMENTAL=0 cargo rustc --crate-type=cdylib --target wasm32-unknown-unknown --release --locked --offline -p ${p}`],{encoding:'utf8',maxBuffer:1<<28});
    if(r.status!==0){console.error(r.stderr.slice(-6000));throw new Error('the code does not build: '+p);}}
  return(Date.now()-t0)/1000;}
