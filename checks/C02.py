from term import *
def obs(chk, flags=(), pfx=''):
    o = []
    for n, pre, b, post, ex in STEPS:
        k = dict(byte=b) if not (isinstance(b, str) and len(b) > 1) else dict(cls=b)
        lays = (1, 2, 3) if n in ('utfM',) else (1, 2) if (n in ('A', 'lf') or THOROUGH) else (1,)
        for l in lays:
            o.append(step('%s%s_l%d' % (pfx, n, l), pre, post=post, extra=ex + ['LAYOUT=%d' % l], sx=3, sy=2,
                          chk=chk + ['COMBS=1'], flags=list(flags), prio=l, **k))
    for n, pre, cls in CLASSES:
        ex = ['OSCBUF=8'] if pre == 'ST_OSCSTR' else []
        o.append(step(pfx + n, pre, cls=cls, extra=ex + ['TITLE=1', 'NORESIZE'], sx=2, sy=1, chk=chk + ['COMBS=0'], unwindset={'tty_add_comb': 34, 'tty_kill_comb': 5},
                      flags=list(flags), prio=5, srcs=TTYOSC))
    return o
def resizes():
    return [Ob('resize_%dx%d_%dx%d'%(sx,sy,x,y), 't_resize.c', TTY, defs=['TSX=%d'%sx,'TSY=%d'%sy,'NSX=%d'%x,'NSY=%d'%y,'NX=%d'%x,'NY=%d'%y,'INVONLY']+(['COMBS=1','LAYOUT=1'] if (sx,sy)==(3,2) else []),
        models=MODELS, unwind=20, unwindset=WITHCOMB if (sx,sy)==(3,2) else {'tty_kill_comb':2,'tty_add_comb':2}, flags=['--bounds-check','--pointer-check'])
        for sx,sy,x,y in ((4,3,3,2),(4,3,2,1),(4,3,5,2),(3,2,2,1),(3,2,4,3),(3,3,3,2))]
def main():
    c = Check('C02'); c.learn()
    return c.main(obs(['CHK_INV'])+resizes())
