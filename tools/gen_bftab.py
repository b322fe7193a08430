#!/usr/bin/env python3
"""Generates mc/src/bftab.rs: values of elementary functions computed with mpmath at 1500 bits.
Run with python3-vt; only needed when the table itself is to be changed."""
import mpmath as mp, struct, random, math
mp.mp.prec = 1500
random.seed(7)
def bits(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def split(v):
    if v == 0: return 0.0, 0.0, 0
    m, e = mp.frexp(v)          # v = m * 2^e, m in [1/2, 1)
    m = m*2; e = int(e)-1
    hi = float(m); lo = float(m-mp.mpf(hi))
    return hi, lo, e
rows=[]
def row(f, x, y, v):
    hi, lo, e = split(v)
    rows.append(f'    ("{f}", {bits(x):#x}, {bits(y):#x}, {bits(hi):#x}, {bits(lo):#x}, {e}),')
base=[1e-300,1e-100,1e-20,1e-19,2.0**-60,2.0**-31,2.0**-30,2.0**-29,1e-8,1e-5,0.01,0.1,0.25,0.5,0.7,0.78,0.785,0.7853981633974483,0.79,0.99,1.0,1.0000001,1.4,1.41421356,1.42,1.5,1.5707963267948966,2.0,2.5,3.0,3.141592653589793,4.0,4.71238898038469,5.5,6.283185307179586,7.0,10.0,11.0,20.0,22.0,33.3,50.0,88.7,100.0,355.0,500.0,700.0,709.7]
rnd=[random.uniform(0,10) for _ in range(20)]+[math.ldexp(random.uniform(1,2), random.randint(-40,9)) for _ in range(20)]
big=[1e3,1e5,1e9,1e15,1e16,1e22,1e50,1e100,1e300,1.7976931348623157e308,6381956970095103*2.0**797,5.319372648326541e255,2.0**1023]+[math.ldexp(random.uniform(1,2), random.randint(10,1023)) for _ in range(30)]
for x in base+rnd:
    for s in (x,-x):
        X=mp.mpf(s)
        for n,f in (("exp",mp.exp),("sinh",mp.sinh),("cosh",mp.cosh),("sin",mp.sin),("cos",mp.cos),("tan",mp.tan)): row(n,s,0.0,f(X))
    if x<=1:
        row("asin",x,0.0,mp.asin(mp.mpf(x))); row("asin",-x,0.0,mp.asin(mp.mpf(-x)))
    row("ln",x,0.0,mp.log(mp.mpf(x))); row("sqrt",x,0.0,mp.sqrt(mp.mpf(x)))
for x in big:
    for n,f in (("sin",mp.sin),("cos",mp.cos),("tan",mp.tan)): row(n,x,0.0,f(mp.mpf(x)))
    row("sin",-x,0.0,mp.sin(mp.mpf(-x)))
    row("ln",x,0.0,mp.log(mp.mpf(x))); row("sqrt",x,0.0,mp.sqrt(mp.mpf(x)))
for x in [5e-324,1e-310,2.2250738585072014e-308,1-2.0**-53,1+2.0**-52,1-2.0**-30,1+2.0**-30,0.7071067811865475,0.7071067811865476]:
    row("ln",x,0.0,mp.log(mp.mpf(x))); row("sqrt",x,0.0,mp.sqrt(mp.mpf(x)))
    row("sin",x,0.0,mp.sin(mp.mpf(x)))
    if x<=1: row("asin",x,0.0,mp.asin(mp.mpf(x)))
ab=[1e-300,1e-200,1e-30,2.0**-31,1e-9,0.001,0.5,1.0,1.0000000000000002,3.0,1e9,1e200,1e300,5e-324]
for y in ab:
    for x in ab:
        for sy in (1,-1):
            for sx in (1,-1):
                row("atan2",sy*y,sx*x,mp.atan2(mp.mpf(sy*y),mp.mpf(sx*x)))
for y in ab:
    row("atan2",y,0.0,mp.pi/2); row("atan2",-y,0.0,-mp.pi/2); row("atan2",0.0,-y,mp.pi)
for _ in range(60):
    x=math.ldexp(random.uniform(-2,2), random.randint(-300,300)); y=math.ldexp(random.uniform(-2,2), random.randint(-300,300))
    row("mul",x,y,mp.mpf(x)*mp.mpf(y)); row("div",x,y,mp.mpf(x)/mp.mpf(y))
    y=math.ldexp(random.uniform(-2,2), random.randint(-60,60)); x=random.uniform(-2,2)
    row("add",x,y,mp.mpf(x)+mp.mpf(y)); row("atan2",x,y,mp.atan2(mp.mpf(x),mp.mpf(y)))
open('/verif/mc/src/bftab.rs','w').write('//! Generated by tools/gen_bftab.py: (function, x, y, mantissa high, low, exponent), numbers as bits.\npub const TABLE: &[(&str, u64, u64, u64, u64, i64)] = &[\n'+'\n'.join(rows)+'\n];\n')
print(len(rows))
