from fmt import *
SRC = ('libtty/timeline.c', dict(subs=[(r'^(\s*#\s*define\s+SNAPSHOT_CHUNK\s+)\w+', r'\g<1>4')]))
def ob(n, lens, *d, **k):
    tot = sum(lens)
    return Ob(n, 'f_tl.c', [SRC], defs=['LENS='+','.join(map(str,lens)),'TOTAL=%d'%tot]+list(d),
        unwind=max(lens+(len(lens),))+3, unwindset={'tty_copy.*':tot+3,'tty_write.*':tot+3,'v_main.*':len(lens)+8},
        flags=FLAGS+['--sat-solver','cadical','--signed-overflow-check'], **k)
