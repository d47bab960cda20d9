from term import *
HK = ['fprintf=v_fprintf', 'fputs=v_fputs', 'putc=v_putc', 'fputc=v_putc', 'fflush=v_fflush', 'fileno=v_fileno', 'clearerr=v_clearerr', 'get_tty_size=v_get_tty_size', 'mk_wcwidth=v_width']
SRC = TTYOSC + [('libtty/vtredir.c', dict(defs=HK))]
def ob(n, seq, pre=None, sx=3, sy=2, extra=(), prio=0, unwindset=None, **k):
    d = ['TSX=%d'%sx,'TSY=%d'%sy,'SEQ='+','.join(str(b if isinstance(b,int) else ord(b)) for b in seq)]+list(extra)
    if pre: d.append('PRE='+pre)
    o = Ob(n, 't_vtvt.c', SRC, defs=d, models=MODELS, unwind=18, unwindset=unwindset or {'tty_kill_comb':2,'tty_add_comb':2,'build_vt100graph':100}, **k)
    o.prio = prio
    return o
def main():
    c = Check('C13'); c.learn()
    o = []
    sx, sy = 3, 2
    for r in regions(sy):
        R = ['FIX_S1=%d'%r[0], 'FIX_S2=%d'%r[1]]
        for cy in range(sy):
            for n, s, pre in (('lf',[10],G),('ri','M',E),('il','L',P),('dl','M',P)):
                o.append(ob('%s_%d_%d%d'%(n,cy,*r), s, pre, extra=R+['FIX_CY=%d'%cy]))
            o.append(ob('wrapA_%d_%d%d'%(cy,*r), 'A', G, extra=R+['FIX_CY=%d'%cy,'FIX_CX=3','UTF8ONLY']))
            o.append(ob('wrapW_%d_%d%d'%(cy,*r), [0xe4,0xb8,0xad], G, extra=R+['FIX_CY=%d'%cy,'FIX_CX=2','UTF8ONLY']))
    for cx in range(sx):
        o.append(ob('A_%d'%cx, 'A', G, extra=['FIX_CX=%d'%cx,'FIX_CY=1','UTF8ONLY']))
        if cx+2 <= sx: o.append(ob('W_%d'%cx, [0xe4,0xb8,0xad], G, extra=['FIX_CX=%d'%cx,'FIX_CY=0','UTF8ONLY']))
    o.append(ob('AWA', ['A',0xe4,0xb8,0xad,'A'], G, sx=5, extra=['FIX_CX=0','FIX_CY=1','UTF8ONLY']))
    for cx in range(sx+1):
        for cy in range(sy):
            for n, s, pre in (('ed0','\x1b[J',G),('ed1','\x1b[1J',G),('el0','\x1b[K',G),('el1','\x1b[1K',G),('ed2','\x1b[2J',G),('el2','\x1b[2K',G),('ich','\x1b[@',G),('dch','\x1b[P',G),('ech2','\x1b[2X',G),('tab',[9],G)):
                o.append(ob('%s_%d%d'%(n,cx,cy), s, pre, extra=['FIX_CX=%d'%cx,'FIX_CY=%d'%cy]))
                # the cursor already known to vtvt
                if n[:2] in ('ed','el') and cx < sx:
                    o.append(ob('%s_k%d%d'%(n,cx,cy), '\x1b[%d;%dH%s'%(cy+1,cx+1,s), pre))
    for n, s in (('cup','\x1b[2;3H'),('cup2','\x1b[1;1H\x1b[2;2H'),('sc','\x1b7\x1b[H\x1b8'),('cr',[13]),('bs',[8]),('ff',[12]),('reset','\x1b[c')):
        o.append(ob(n, s, G))
    o.append(ob('bel', [7], G, extra=['BELL']))
    o.append(ob('title', '\x1b]0;xyz\7', G, extra=['TITLELEN=3','NOCURSOR']))
    # a locale that can't show the character
    o.append(ob('rej_line', [0xe2,0x94,0x80], G, sx=2, sy=1, extra=['REJECT','REJX=0','FIX_CX=0','UTF8ONLY','WIDE=0']))
    o.append(ob('rej_wide', [0xe4,0xb8,0xad], G, sx=3, sy=1, extra=['REJECT','REJX=1','FIX_CX=0','UTF8ONLY','WIDE=0']))
    # every attribute
    o.append(ob('attr', 'A', G, sx=2, sy=1, extra=['FIX_CX=0','UTF8ONLY']))
    for x, y in ((2,1),(3,2)):
        o.append(ob('dump_%dx%d'%(x,y), [0], sx=x, sy=y+(y==1), extra=['DUMP=1']+(['PLAINATTR'] if y>1 else []), prio=5))
    # screens of different sizes
    for ix, iy in ((2,2),(4,2),(3,1),(3,3),(4,3),(2,1)):
        for cx in (0, ix-1, ix):
            for n, s in (('ed0','\x1b[J'),('ed1','\x1b[1J'),('el0','\x1b[K'),('el1','\x1b[1K'),('ed2','\x1b[2J'),('el2','\x1b[2K'),('ech2','\x1b[2X'),('A','A')):
                nc = ['NOCONTENT'] if n == 'A' and cx == ix and iy > sy else []     # scrolls in what was below the real screen
                o.append(ob('odd%dx%d_%s_%d'%(ix,iy,n,cx), s, G, extra=['ODD','IX=%d'%ix,'IY=%d'%iy,'FIX_CX=%d'%cx,'FIX_CY=%d'%(iy-1)]+nc+(['NOCURSOR'] if ix > sx or iy > sy else [])))
    return c.main(o)
