from term import *
def main():
    c = Check('C11'); c.learn()
    o = []
    for n, pre, b, post, ex in STEPS:
        if n in ('utfM',): continue
        k = dict(byte=b) if not (isinstance(b, str) and len(b) > 1) else dict(cls=b)
        ex = ex + ['BELL=%d' % (n == 'bel')]
        sx, sy = (4, 3) if THOROUGH else (3, 2)
        if n in ('lf', 'vt', 'A', 'utfA', 'utfW', 'e_D', 'e_E', 'e_M', 'p_L', 'p_M') and THOROUGH:
            o += split_regions('ev_' + n, pre, post=post, extra=ex, sx=sx, sy=sy, chk=['CHK_EV','COMBS=0'], **k)
        else:
            o.append(step('ev_' + n, pre, post=post, extra=ex, sx=sx, sy=sy, chk=['CHK_EV','COMBS=0'], **k))
    for f in '@PXJK':
        o.append(step('ev1_%d' % ord(f), P, byte=f, sx=6, sy=1, chk=['CHK_EV','COMBS=0','BELL=0']))
    o.append(step('ev_mark', G, byte=0x80, extra=['PR_UTF=0', 'EXTRA=c>=0x300&&c<0x370', 'MARK'], sx=3, sy=2, chk=['CHK_EV','COMBS=1']))
    o.append(step('ev_c', E, byte='c', sx=3, sy=2, chk=['CHK_EV','COMBS=0']))
    for b in 'bzqyST^~$! "<=\x7f\x00\x18\x1a':
        o.append(step('ev_p_%02x' % ord(b), P, byte=b, sx=3, sy=2, chk=['CHK_EV','COMBS=0','BELL=0']))
    for n, pre, cls in CLASSES:
        if n in ('any_par', 'any_csi') and not THOROUGH: continue
        ex = ['OSCBUF=8'] if pre == 'ST_OSCSTR' else []
        o.append(step('ev_' + n, pre, cls=cls, extra=ex + ['TITLE=1', 'NORESIZE'], sx=2, sy=1, chk=['CHK_EV','COMBS=0'], unwindset={'tty_add_comb': 34, 'tty_kill_comb': 5},
                      prio=5, srcs=TTYOSC))
    return c.main(o)
