// property: D21
// needs: a ledger in test mode whose installer has given up the right to manage permissions, and an upgrade by him
// breaks: the upgrade gives him that right back
import {Demo,is,done,kind,A,user} from './h.mjs';
const d=new Demo({test_mode:true});
is('grant',kind(d.grant('b','ManageAuthorities')),'Ok');
is('give up',kind(d.u('revoke_permission','b',{principal:A,permission:{ManageAuthorities:null}})),'Ok');
is('refused',kind(d.grant('c','Minting')),'rej');
is('upgrade',d.upgrade(),'');is('still refused',kind(d.grant('c','Minting')),'rej');
is('others keep theirs',kind(d.u('grant_permission','b',{principal:user('c'),permission:{Minting:null}})),'Ok');
done();
