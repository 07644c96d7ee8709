// property: T13
// needs: no configured drift, and a time stated between the default drift and the window ahead of the ledger
// breaks: approvals, revocations and approved transfers dated up to 10 s in the future are accepted
import {Demo,acc,is,done,kind,MS,SEC} from './h.mjs';
const d=new Demo();d.mint(acc('a'));
is('inside the drift',kind(d.appr('a',acc('s'),1,{at:d.now()+SEC+40n*MS})),'Ok');
is('outside the drift',kind(d.appr('a',acc('t'),1,{at:d.now()+SEC+5n*SEC})),'CreatedInFuture');
is('transfer outside the drift',kind(d.xfrom('s',acc('a'),acc('b'),1,{at:d.now()+SEC+5n*SEC})),'CreatedInFuture');
done();
