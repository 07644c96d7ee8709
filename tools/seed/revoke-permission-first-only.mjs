// property: G16
// needs: the same permission granted twice to the same principal before it is revoked
// breaks: revoking a permission that was granted twice leaves the principal with it
import {Demo,acc,is,done,kind,user} from './h.mjs';
const d=new Demo();is('grant',kind(d.grant('m','Minting')),'Ok');is('grant again',kind(d.grant('m','Minting')),'Ok');
is('revoke',kind(d.u('revoke_permission','admin',{principal:user('m'),permission:{Minting:null}})),'Ok');
const r=d.u('mint','m',{mint_requests:[{token_owner:acc('m'),memo:[],metadata:[]}]});
is('mint is rejected',kind(r),'rej');
is('permission',d.n.q('has_permission',user('admin'),{principal:user('m'),permission:{Minting:null}}).ok[0],{Ok:false});
done();
