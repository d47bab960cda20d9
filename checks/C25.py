from vp import *
def main():
    c = Check('C25')
    S = ['--signed-overflow-check']
    o = [Ob(n, 'f_tv.c', [], defs=['OP=%d'%i,'BITS=32','M=1'], unwind=3, flags=S+CADICAL) for i,n in ((1,'add'),(2,'sub'),(3,'cmp'))]
    for m in [50,100,250,333,500,750,1000,1250,1500,2000,5000,10000]+([3,7,200,999,1001,3000,8000,20000,64000,100000] if THOROUGH else []):
        o += [Ob('mul%d' % m, 'f_tv.c', [], defs=['OP=4','BITS=%d'%(32 if m<=2000 else 28 if m<=20000 else 26),'M=%d'%m], unwind=3, flags=S+INTS),
              Ob('div%d' % m, 'f_tv.c', [], defs=['OP=5','BITS=32','M=%d'%m], unwind=3, flags=S+INTS)]
    return c.main(o, assumptions=['times are normalized (0<=tv_usec<1000000) and fit in 32 bits of seconds, either sign'],
        bounds='every pair of times; the listed factors (for those above 2000, within +-8 years) for tmul1000 and tdiv1000',
        explanation='the time macros of libtty/ttyrec.h against integer arithmetic')
