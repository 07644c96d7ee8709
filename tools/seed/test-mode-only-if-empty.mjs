// property: I30
// needs: an installation in test mode by a principal whom the arguments name with some permissions
// breaks: the installer does not get all permissions of test mode
import {Demo,acc,is,done,kind,A} from './h.mjs';
const d=new Demo({test_mode:true,permissions:{[A]:['ManageAuthorities']}});
is('mint',kind(d.mint(acc('a'))),'Ok');is('owner',d.owner(1)!==null,true);
const e=new Demo({test_mode:true});is('mint without any named',kind(e.mint(acc('a'))),'Ok');
const f=new Demo({test_mode:false,permissions:{[A]:['ManageAuthorities']}});is('mint outside test mode',kind(f.mint(acc('a'))),'rej');
done();
