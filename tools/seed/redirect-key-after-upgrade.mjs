// property: U20
// needs: a file published under a path without a leading slash, and an upgrade
// breaks: after the upgrade the published address is not found any more
import {Demo,is,done,kind} from './h.mjs';
const d=new Demo();const data=Buffer.from('hello');
is('init',kind(d.iu('admin','pic.png',data)),'Ok');is('chunk',kind(d.sc('admin','pic.png',0,data)),'Ok');is('finalize',kind(d.fu('admin','pic.png')),'Ok');
const loc=()=>{const r=d.http('/pic.png');return r.status_code+' '+(r.headers?.find(h=>h._0.toLowerCase()==='location')?._1||'');};
const before=loc();is('redirect',/^30. https/.test(before),true);
is('upgrade',d.upgrade(),'');is('redirect after the upgrade',loc(),before);
done();
