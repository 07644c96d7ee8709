// property: U20
// needs: a file published under a path with more than one slash before it or one behind it
// breaks: the file is published under another address, and the redirect leads nowhere
import {Demo,is,ok,done,kind} from './h.mjs';
const d=new Demo();const data=Buffer.from('hello');
for(const p of['/a','/dir/']){is('init',kind(d.iu('admin',p,data)),'Ok');is('chunk',kind(d.sc('admin',p,0,data)),'Ok');
  const r=d.fu('admin',p);is('finalize',kind(r),'Ok');ok('url '+r.Ok?.url,r.Ok?.url?.endsWith('.raw.icp0.io'+p),r);
  is('redirect',d.http(p).status_code,307);}
done();
