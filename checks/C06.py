from term import *
def main():
    c = Check('C06'); c.learn()
    o = []
    sx, sy = (6, 3) if THOROUGH else (4, 3)
    for f, op in (('J','ED'),('K','EL')):
        for p in (0, 1, 2):
            o.append(step('%s%d' % (f, p), P, byte=f, op=op, sx=sx, sy=sy, extra=['TOK0=%d' % p]))
        o.append(step('%s_other' % f, P, byte=f, op='NOP', sx=sx, sy=sy, extra=['EXTRA=t->tok[0]>2']))
    for f, op in (('L','IL'),('M','DL')):
        for cy in range(sy):
            o += split_regions('%s_y%d' % (f, cy), P, byte=f, op=op, sx=sx, sy=sy, extra=['FIX_CY=%d' % cy])
    sx = 8 if THOROUGH else 6
    for f, op in (('@','ICH'),('P','DCH'),('X','ECH')):
        o.append(step('csi_%d' % ord(f), P, byte=f, op=op, sx=sx, sy=1))
        o.append(step('csi_%d_2' % ord(f), P, byte=f, op=op, sx=4, sy=2))
    return c.main(o)
