// property: Q24
// needs: a page of the list of uploads that does not begin at the first of them
// breaks: the page is shorter than asked for, or empty
import {Demo,is,done,kind,A} from './h.mjs';
const d=new Demo();for(const p of['/a','/b','/c','/d','/e'])is(p,kind(d.iu('admin',p,Buffer.from('x'))),'Ok');
const pg=(s,t)=>d.n.q('get_all_uploads',A,[BigInt(s)],[BigInt(t)]).ok[0].Ok.map(e=>e._0??e[0]).sort();
is('first two',pg(0,2),['/a','/b']);is('next two',pg(2,2),['/c','/d']);is('the last',pg(4,2),['/e']);
done();
