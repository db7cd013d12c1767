"""Demonstration of the known finding C21/ecc-mul-untied-base, against the real MockProver.

The cells x_p, y_p that the incomplete additions of variable-base multiplication use are kept constant
by the gate q_mul_2 but never tied to the base point.  This program writes, into the honest witness of
[s]B, the accumulation with another base B' and every later cell that depends on it; MockProver accepts,
although the output differs from [s]B.   Run: python3 /verif/findings/ecc-mul-untied-base.py
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'bin'))
import lib, gadget
from checks import c21
P,Q,TQ,H=c21.P,c21.Q,c21.TQ,c21.H
ctx=lib.Ctx('C21','quick',1)
ctx.build(**gadget.GV)
s=int('3ddb96703f66b572273b914deffffffff',16)
B=c21.mul(424242,c21.G); B2=c21.mul(77777,c21.G)
base=dict(id=1,g='ecc',field='r10',k=11,p=H(P),ops=[dict(op='mul',v=[H(s),c21.PT(B)],t=[])],limit=10)
outs=gadget.record(ctx,[base])
ready,meta=gadget.prepare(ctx,[base],outs)
c,o,sys_,m=meta[1]
cellvar={tuple(cc):v for v,cs in m['cells'].items() for cc in cs}
k=(s+TQ)
bits=[(k>>i)&1 for i in range(254,-1,-1)]
hi,lo=bits[0:125],bits[125:251]
A=c21.mul(2,B)
# find first row: z_init
def sim(col,row0,A,bits,dev):
    xa,ya=A
    xp,yp=B2
    r=row0
    for b in bits:
        y=yp if b else P-yp
        l1=(ya-y)*pow(xa-xp,-1,P)%P
        xr=(l1*l1-xa-xp)%P
        l2=(2*ya*pow(xa-xr,-1,P)-l1)%P
        xn=(l2*l2-xa-xr)%P
        ya=(l2*(xa-xn)-ya)%P
        dev[cellvar[0,r]]=xp; dev[cellvar[1,r]]=yp
        dev[cellvar[col[1],r]]=l1; dev[cellvar[col[2],r]]=l2; dev[cellvar[col[0],r+1]]=xn
        xa=xn; r+=1
    dev[cellvar[col[1],r]]=ya
    return (xa,ya)
dev={}
A=sim((3,4,5),3,A,hi,dev)
A=sim((7,8,2),3,A,lo,dev)

inv=lambda x: pow(x,-1,P) if x%P else 0
def setc(col,row,x):
    v=cellvar.get((col,row))
    if v: dev[v]=x%P
def row_add(row,p_,q_):
    (xp,yp),(xq,yq)=p_,q_
    r=c21.add(p_,q_); assert r
    lam=(yq-yp)*inv(xq-xp)%P if xp!=xq else 3*xp*xp*inv(2*yp)%P
    assert not(xp==xq and yp!=yq)
    for col,x in zip((0,1,2,3,5,6,7,8,4),(xp,yp,xq,yq,inv(xq-xp),inv(xp),inv(xq),inv(yq+yp) if xp==xq else 0,lam)): setc(col,row,x)
    setc(2,row+1,r[0]); setc(3,row+1,r[1])
    return r
acc=A
for j in range(3):
    bit=(k>>(3-j))&1
    U=B if bit else c21.neg(B)
    t=row_add(130+2*j,U,acc)
    acc=row_add(131+2*j,acc,t)
bit=k&1
if not bit:
    acc=row_add(136,c21.neg(B),acc)
else:
    for col,x in zip((0,1,2,3,5,6,7,8,4),(0,0,acc[0],acc[1],inv(acc[0]),0,inv(acc[0]),0,0)): pass
print('k even' if not bit else 'odd')
dv=[[v,H(x)] for v,x in sorted(dev.items())]
t=gadget.tampered(c,sys_,m,o,dv)
print(ctx.harness('x',[dict(c,tamper=[t])])[0])
print('claimed',[H(x) for x in acc],'right',o['inst'][3:])
