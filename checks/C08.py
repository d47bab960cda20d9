from term import *
def ob(n, *d, **k):
    return Ob(n, 't_utf.c', TTY, defs=['TSX=2','TSY=1','WIDE=0']+list(d), models=MODELS, unwind=18, unwindset={'tty_kill_comb':5,'tty_add_comb':34}, **k)
def main():
    c = Check('C08'); c.learn()
    o = [ob('utf%d' % n, 'LEN=%d' % n) for n in (2, 3, 4)]
    o += [ob('bom', 'BOM'), ob('surrogates', 'SURR'), ob('anybyte', 'ANYBYTE'), ob('cp437', 'TABLES=1'), ob('graphics', 'TABLES=2')]
    return c.main(o)
