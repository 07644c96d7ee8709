// Writes MANIFEST.json from the plans.
import fs from 'fs';import {PLANS} from '../run/plans.mjs';
const ids=fs.readFileSync(new URL('../properties.jsonl',import.meta.url),'utf8').trim().split('\n').map(l=>JSON.parse(l).id);
const NA={};
const checks=ids.filter(i=>PLANS[i]).map(i=>({property:i,quick_cmd:`node run/check.mjs ${i} quick`,thorough_cmd:`node run/check.mjs ${i} thorough`,technique:PLANS[i].technique||'TLA+ specification checked with TLC; TLC-enumerated behaviours and TLC-validated random histories replayed on the canister wasm and compared state by state',level:'model_checking',level_note:PLANS[i].note||'Every behaviour of the specification within the stated families (operation tables and depths) is explored by TLC with the invariants and action properties evaluated, and every one of its transitions is executed on the compiled canister with all answers and the complete observable state compared; beyond those bounds seeded random histories, validated by TLC step by step. Trusts the emulator of the Internet Computer in emu/, TLC, rustc and node.'}));
fs.writeFileSync(new URL('../MANIFEST.json',import.meta.url),JSON.stringify({version:1,setup_cmd:'true',checks,not_applicable:ids.filter(i=>!PLANS[i]).map(i=>({property:i,reason:NA[i]||'its check is still being built'}))},null,1)+'\n');
