from term import *
def ob(n, *d, **k):
    return Ob(n, 't_sgr.c', TTY, defs=['TSX=2','TSY=1']+list(d), models=MODELS, unwind=18, unwindset=NOCOMB, **k)
def main():
    c = Check('C07'); c.learn()
    o = [ob('one_any', 'NP=1', 'MAXP=0xffffffffu')]
    o += [ob('n%d' % n, 'NP=%d' % n, 'MAXP=255') for n in ((2, 3) if not THOROUGH else (2, 3, 4))]
    for k in (38, 48):
        o.append(ob('rgb%d' % k, 'NP=6', 'NPFIX', 'MAXP=255', 'FIXP=%d,2' % k))
        o.append(ob('c256_%d' % k, 'NP=4', 'NPFIX', 'MAXP=255', 'FIXP=%d,5' % k))
        o.append(ob('full%d' % k, 'NP=16', 'NPFIX', 'MAXP=255', 'FIXP=1,1,1,1,1,1,1,1,1,1,%d,2,0,0,0,0' % k))
    return c.main(o)
