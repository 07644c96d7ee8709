// property: L04
// needs: a principal with tokens in two subaccounts who grants a collection approval from the default one only
// breaks: the spender of the default subaccount can also move the tokens of the other subaccounts
import {Demo,acc,is,done,kind} from './h.mjs';
const d=new Demo();d.mint(acc('a'));d.mint(acc('a',1));
is('approve',kind(d.apprc('a',acc('s'))),'Ok');
is('other subaccount',kind(d.xfrom('s',acc('a',1),acc('s'),2)),'Unauthorized');
is('granted account',kind(d.xfrom('s',acc('a'),acc('s'),1)),'Ok');
done();
