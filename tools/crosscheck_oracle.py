#!/usr/bin/env python3
"""Design-time cross-check of the frozen oracle tables against CPython's own codecs (an independent source)."""
import os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','oracle')
PY={'ascii':'ascii','ibm_866':'cp866','koi8_r':'koi8-r','koi8_u':'koi8-u','mac_roman':'mac-roman','mac_cyrillic':'mac-cyrillic'}
bad=0
for l in open(R+'/single_byte.txt'):
    if l.startswith('#'): continue
    q=l.split(); n=q[0]; c=PY.get(n) or n.replace('windows_','cp').replace('iso_8859_','iso8859-')
    for i,h in enumerate(q[1:]):
        try: u='%04X'%ord(bytes([128+i]).decode(c))
        except UnicodeDecodeError: u='-'
        if u!=h: bad+=1; print(n,hex(128+i),h,u)
def load(p): return {int(l.split()[0]):int(l.split()[1],16) for l in open(p) if not l.startswith('#')}
def bb(i): t=i%157; return bytes([i//157+0x81,t+(0x40 if t<0x3f else 0x62)])
def jb(i): l=i//188;t=i%188; return bytes([l+(0x81 if l<0x1f else 0xc1),t+(0x40 if t<0x3f else 0x41)])
def cmp(t,f,c,n):
    both=diff=0
    for i in range(n):
        try: u=f(i).decode(c)
        except UnicodeDecodeError: u=None
        if u is not None and i in t:
            both+=1
            if u!=chr(t[i]): diff+=1; print(c,i,u,chr(t[i]))
    print(c,'codes in both',both,'differing',diff)
    return diff
d=cmp(load(R+'/big5.txt'),bb,'big5hkscs',126*157)   # differences: known WHATWG vs HKSCS-2004 choices
d2=cmp(load(R+'/jis0208.txt'),jb,'cp932',60*188)
print('single-byte differences',bad)
