#!/usr/bin/env python3
"""
Writes harness/cyclo_parts.h: members of the cyclotomic subgroup of Fp12 with one
vanishing half of a coefficient (a case of density 1/p).

(c + w)/(c - w), c = c0 + c1 v + c2 v^2, is in the subgroup iff c1 = (3 xi c2^2 + 1)/(3 c0).
With c2 fixed and c0 = t*g, t in Fp, each real coordinate is a rational function of t; its
numerator is interpolated and the roots in Fp are found.  Only (coordinate, c0, c2) is written;
the harness recomputes the element in the reference model and checks it.
"""
import sys, os, random
DEG = 60
def F2(p):
    class E:
        __slots__=('a','b')
        def __init__(s,a,b=0): s.a=a%p; s.b=b%p
        def __add__(s,o): return E(s.a+o.a,s.b+o.b)
        def __sub__(s,o): return E(s.a-o.a,s.b-o.b)
        def __mul__(s,o): return E(s.a*o.a-s.b*o.b,s.a*o.b+s.b*o.a)
        def inv(s):
            n=pow(s.a*s.a+s.b*s.b,-1,p); return E(s.a*n,-s.b*n)
    return E
def element(E,xi,c0,c2):
    one=E(1); three=E(3)
    c1=(three*xi*c2*c2+one)*(three*c0).inv()
    c=(c0,c1,c2)
    def mul6(x,y):
        return (x[0]*y[0]+xi*(x[1]*y[2]+x[2]*y[1]), x[0]*y[1]+x[1]*y[0]+xi*(x[2]*y[2]), x[0]*y[2]+x[2]*y[0]+x[1]*y[1])
    q=mul6(c,c); m=(q[0],q[1]-one,q[2])
    # (c + w)^2/(c^2 - v)
    e=(m[0]*m[0]-xi*m[1]*m[2], xi*m[2]*m[2]-m[0]*m[1], m[1]*m[1]-m[0]*m[2])
    N=m[0]*e[0]+xi*(m[2]*e[1]+m[1]*e[2]); 
    a=mul6((q[0],q[1]+one,q[2]),e); b=mul6((c[0]+c[0],c[1]+c[1],c[2]+c[2]),e)
    return a,b,N
# polynomials mod p, little endian
def trim(f):
    while f and f[-1]==0: f.pop()
    return f
def pmod(f,g,p):
    f=f[:]; i=pow(g[-1],-1,p); n=len(g)
    while len(f)>=n:
        k=f[-1]*i%p
        if k:
            o=len(f)-n
            for j in range(n): f[o+j]=(f[o+j]-k*g[j])%p
        f.pop()
    return trim(f)
def pmul(f,g,p):
    if not f or not g: return []
    r=[0]*(len(f)+len(g)-1)
    for i,x in enumerate(f):
        if x:
            for j,y in enumerate(g): r[i+j]+=x*y
    return trim([x%p for x in r])
def gcd(f,g,p):
    while g: f,g=g,pmod(f,g,p)
    i=pow(f[-1],-1,p); return [x*i%p for x in f]
def ppow(b,e,m,p):
    r=[1]
    for bit in bin(e)[2:]:
        r=pmod(pmul(r,r,p),m,p)
        if bit=='1': r=pmod(pmul(r,b,p),m,p)
    return r
def sub(f,g,p):
    n=max(len(f),len(g)); f=f+[0]*(n-len(f)); g=g+[0]*(n-len(g))
    return trim([(x-y)%p for x,y in zip(f,g)])
def divp(f,g,p):
    f=f[:]; i=pow(g[-1],-1,p); n=len(g); q=[0]*(len(f)-n+1)
    while len(f)>=n:
        k=f[-1]*i%p; q[len(f)-n]=k; o=len(f)-n
        for j in range(n): f[o+j]=(f[o+j]-k*g[j])%p
        f.pop()
    return q
def roots(f,p,rnd):
    if len(f)<2: return []
    f=gcd(f,sub(ppow([0,1],p,f,p),[0,1],p),p) if len(f)>2 else f
    if len(f)<2: return []
    if len(f)==2: return [(-f[0])*pow(f[1],-1,p)%p]
    while True:
        h=sub(ppow([rnd.randrange(p),1],(p-1)//2,f,p),[1],p)
        if not h: continue
        g=gcd(f,h,p)
        if 1<len(g)<len(f): return roots(g,p,rnd)+roots(divp(f,g,p),p,rnd)
def interp(xs,ys,p):
    # Newton
    c=ys[:]
    for j in range(1,len(xs)):
        for i in range(len(xs)-1,j-1,-1): c[i]=(c[i]-c[i-1])*pow(xs[i]-xs[i-j],-1,p)%p
    f=[]
    for i in range(len(xs)-1,-1,-1):
        f=[0]+f
        for k in range(len(f)-1): f[k]=(f[k]-xs[i]*f[k+1])%p
        if not f: f=[0]
        f[0]=(f[0]+c[i])%p
    return trim(f)
def find(p,xa,xb,per):
    E=F2(p); xi=E(xa,xb); rnd=random.Random(1); out=[]
    for coord in range(12):
        got=0; tries=0
        while got<per:
            tries+=1
            c2=E(tries%5,tries//5%3) ; g=E(1+tries%7,tries%4)
            def num(t):
                a,b,N=element(E,xi,E(t)*g,c2)
                h=(a+b)[coord//2]
                v=h*E(N.a,-N.b)
                return (v.b if coord&1 else v.a)*pow(t,DEG//2,p)%p
            xs=list(range(1,DEG+3)); f=interp(xs,[num(x) for x in xs],p)
            if not f: continue # vanishes identically
            assert len(f)<=DEG+1,len(f)
            while f and f[0]==0: f=f[1:]
            for t in sorted(roots(f,p,rnd)):
                c0=E(t)*g; a,b,N=element(E,xi,c0,c2)
                if N.a==0 and N.b==0: continue
                h=(a+b)[coord//2]*N.inv()
                z=(h.b if coord&1 else h.a); o=(h.a if coord&1 else h.b)
                if z or not o: continue
                out.append((coord,c0.a,c0.b,c2.a,c2.b)); got+=1
                if got>=per: break
    return out
def main():
    z=-(2**62+2**55+1); s=4965661367192848881
    P=lambda z:36*z**4+36*z**3+24*z**2+6*z+1
    res=['#pragma once','// written by tools/gen_cyclo.py','struct CycloPart { int coord; const char *c0a, *c0b, *c2a, *c2b; };']
    for name,p,xa,xb in (('cycloPartsB',P(z),1,1),('cycloPartsS',P(s),9,1)):
        res.append('static const CycloPart %s[] = {'%name)
        for c,*v in find(p,xa,xb,2): res.append('\t{ %d, %s },'%(c,', '.join('"%d"'%x for x in v)))
        res.append('};')
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','harness','cyclo_parts.h'),'w').write('\n'.join(res)+'\n')
if __name__=='__main__': main()
