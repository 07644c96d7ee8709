// property: U18
// needs: the same path initialised a second time while no chunk has been stored yet
// breaks: the second initialisation is accepted and replaces the first one's size and hash
import {Demo,is,done,kind} from './h.mjs';
const d=new Demo();d.grant('admin','UpdateUploads');d.grant('admin','ReadUploads');
const one=new Uint8Array([1,2,3,4]),two=new Uint8Array([5,6]);
is('first',kind(d.iu('admin','/a',one)),'Ok');
const r=d.iu('admin','/a',two);
is('second',[kind(r),r.Err&&Object.keys(r.Err)[0]],['FileAlreadyExists','FileAlreadyExists']);
is('the first file can still be stored',kind(d.sc('admin','/a',0,one)),'Ok');
is('and finalized',kind(d.fu('admin','/a')),'Ok');
done();
