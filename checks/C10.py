from term import *
def ob(n, sx, sy, nsx, nsy, nx=None, ny=None, extra=(), combs=0):
    d = ['TSX=%d'%sx,'TSY=%d'%sy,'NSX=%d'%nsx,'NSY=%d'%nsy,'NX=%d'%(nx or nsx),'NY=%d'%(ny or nsy)]+list(extra)
    if combs: d += ['COMBS=1','LAYOUT=%d'%combs]
    return Ob(n, 't_resize.c', TTY, defs=d, models=MODELS, unwind=max(sx*sy,nsx*nsy if nsx*nsy<50 else 0,17)+3,
        unwindset=WITHCOMB if combs else {'tty_kill_comb':2,'tty_add_comb':2}, flags=['--bounds-check','--pointer-check'])
def main():
    c = Check('C10'); c.learn()
    o = []
    n = 5 if THOROUGH else 4
    sizes = [(x,y) for x in range(2,n+1) for y in range(1,n)]
    for sx, sy in ((4,3),(2,1),(3,2)) + (((5,3),) if THOROUGH else ()):
        for x, y in sizes:
            o.append(ob('r%dx%d_%dx%d' % (sx,sy,x,y), sx, sy, x, y))
    for l in (1,2,3):
        for x, y in sizes:
            o.append(ob('c%d_%dx%d' % (l,x,y), 3, 2, x, y, combs=l))
    A = ['VIAESC','ALLOW=1']
    for x, y in sizes[::3]:
        o.append(ob('esc_%dx%d' % (x,y), 3, 2, x, y, extra=A))
        o.append(ob('escno_%dx%d' % (x,y), 3, 2, x, y, 3, 2, extra=['VIAESC','ALLOW=0','REFUSED']))
    o.append(ob('esc_big_w', 3, 2, 513, 2, 3, 2, extra=A+['REFUSED']))
    o.append(ob('esc_big_h', 3, 2, 3, 257, 3, 2, extra=A+['REFUSED']))
    o.append(ob('esc_1col', 3, 2, 1, 2, 3, 2, extra=A+['REFUSED']))
    o.append(ob('esc_0w', 3, 2, 0, 4, 3, 4, extra=A))
    o.append(ob('esc_0h', 3, 2, 4, 0, 4, 2, extra=A))
    o.append(ob('esc_now', 3, 2, 9, 4, 3, 4, extra=A+['SHORT=1']))
    o.append(ob('esc_none', 3, 2, 9, 9, 3, 2, extra=A+['SHORT=0']))
    return c.main(o)
