// property: T14
// needs: one collection approval sent twice with the same stated time, the second a moment later
// breaks: the second one is not recognised as a duplicate: it is accepted and logged again
import {Demo,acc,is,ok,done,kind,user,MS,SEC} from './h.mjs';
const d=new Demo();d.mint(acc('a'));const at=d.now()+SEC;
is('first',kind(d.apprc('a',acc('s'),{at})),'Ok');const n=d.log();
d.w.tick(MS);
const again=d.n.upd('icrc37_approve_collection',user('a'),[{approval_info:d.info(acc('s'),{at})}]).ok[0];
ok('the second is refused',!(again.Ok?.[0]?.[0]??again.Ok?.[0]??again).Ok,again);
is('log',d.log(),n);
done();
