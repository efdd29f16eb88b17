#!/usr/bin/env python3-vt
"""Generates mc/src/data.rs: published curve constants (openssl for the NIST and SECG curves, RFC 7748 /
8032 / 9380 formulas for the rest; nothing is copied from the code under test) and a table of primes."""
import subprocess,re
from sympy import isprime, prevprime, nextprime
out=[]
def ossl(name):
    t=subprocess.run(["openssl","ecparam","-name",name,"-param_enc","explicit","-text","-noout"],capture_output=True,text=True).stdout
    d={}
    for k,lab in [("p","Prime"),("a","A"),("b","B"),("g","Generator (uncompressed)"),("r","Order")]:
        m=re.search(re.escape(lab)+r":\s*((?:\n?\s*[0-9a-f]{2}:?)+|0\b|\d+ \(0x[0-9a-f]+\))",t)
        s=m.group(1)
        if "(" in s: d[k]=int(s.split()[0]); continue
        h=re.sub(r"[^0-9a-f]","",s)
        d[k]=h if k=="g" else int(h,16)
    g=d.pop("g"); assert g[:2]=="04"; n=(len(g)-2)//2
    d["gx"]=int(g[2:2+n],16); d["gy"]=int(g[2+n:],16)
    return d
def sqrtmod(x,p):
    from sympy.ntheory import sqrt_mod
    return sqrt_mod(x,p)
W=[]
for n,o in [("P256","prime256v1"),("P384","secp384r1"),("P521","secp521r1"),("SECP256K1","secp256k1")]:
    d=ossl(o); d["name"]=n; d["h"]=1; W.append(d)
k1=W[-1]
p=k1["p"]
# RFC 9380 8.7: the 3-isogenous curve of secp256k1
a3=0x3f8731abdd661adca08a5558f0f5d272e953d363cb6f0e5d405447c01a444533
W.append(dict(name="SECP256K1_3ISO",p=p,a=a3,b=1771,r=k1["r"],h=1,gx=None,gy=None))
# BLS12-381
x=-0xd201000000010000
r=x**4-x**2+1; p=(x-1)**2//3*r+x
assert isprime(p) and isprime(r)
gx=0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb
gy=0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1
assert (gy*gy-gx**3-4)%p==0
W.append(dict(name="BLS12381G1",p=p,a=0,b=4,r=r,h=1-x,gx=gx,gy=gy))
a11=0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d
b11=0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0
W.append(dict(name="BLS12381G1_11ISO",p=p,a=a11,b=b11,r=r,h=(x-1)**2//3,gx=None,gy=None))
p25=2**255-19; r25=2**252+27742317777372353535851937790883648493
d25=(-121665*pow(121666,-1,p25))%p25
y=4*pow(5,-1,p25)%p25
xx=(y*y-1)*pow(d25*y*y+1,-1,p25)%p25
x=sqrtmod(xx,p25); x = x if x%2==0 else p25-x
gv=p25-0x20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9  # RFC 7748 with erratum 4730 (the sign that the Edwards base point maps to)
assert (gv*gv-9**3-486662*81-9)%p25==0
p4=2**448-2**224-1; r4=2**446-0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
v4=355293926785568175264127502063783334808976399387714271831880898435169088786967410002932673765864550910142774147268105838985595290606362
assert (v4*v4-125-156326*25-5)%p4==0
gx4=224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710
gy4=298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660
assert (gx4**2+gy4**2-1+39081*gx4**2*gy4**2)%p4==0
assert isprime(p25) and isprime(r25) and isprime(p4) and isprime(r4)
Eds=[dict(name="EDWARDS25519",p=p25,a=-1,d=d25,r=r25,h=8,gx=x,gy=y),dict(name="EDWARDS448",p=p4,a=1,d=-39081,r=r4,h=4,gx=gx4,gy=gy4)]
Mts=[dict(name="CURVE25519",p=p25,a=486662,b=1,r=r25,h=8,gx=9,gy=gv),dict(name="CURVE448",p=p4,a=156326,b=1,r=r4,h=4,gx=5,gy=v4)]
def emit(ty,lst,keys):
    print(f"pub static {ty}: &[[&str; {len(keys)+1}]] = &[",file=F)
    for d in lst: print("    ["+", ".join(f'"{d[k] if d[k] is not None else ""}"' for k in ["name"]+keys)+"],",file=F)
    print("];",file=F)
F=open("/verif/mc/src/data.rs","w")
print("//! Generated by tools/gen_data.py: published constants and a table of primes.",file=F)
print("// name, p, a, b, r, h, gx, gy (empty: no published generator)",file=F)
emit("WEIERSTRASS",W,["p","a","b","r","h","gx","gy"])
print("// name, p, a, d, r, h, gx, gy",file=F)
emit("EDWARDS",Eds,["p","a","d","r","h","gx","gy"])
emit("MONTGOMERY",Mts,["p","a","b","r","h","gx","gy"])
# primes: for each bit length b, class c = p mod 8: offset o with 2^b - o the largest prime of that class, and 2^(b-1)+o the smallest
print("/// (bits, class mod 8, from_top, offset): p = 2^bits - offset, or 2^(bits-1) + offset",file=F)
rows=[]
for b in range(3,531):
    for c in (3,5,7,1):
        o=(-c)%8
        while o<2**(b-1):
            if isprime(2**b-o): rows.append((b,c,1,o)); break
            o+=8
        o=(c-2**(b-1))%8; ref=rows[-1] if rows and rows[-1][:2]==(b,c) else None
        while o<2**(b-1):
            if isprime(2**(b-1)+o):
                if not (ref and 2**(b-1)+o==2**b-ref[3]): rows.append((b,c,0,o))
                break
            o+=8
print(f"pub static PRIMES: &[(u32, u8, u8, u32)] = &[",file=F)
line=""
for r_ in rows:
    line+="(%d,%d,%d,%d),"%r_
    if len(line)>100: print("    "+line,file=F); line=""
print("    "+line,file=F)
print("];",file=F)
F.close(); print(len(rows))
