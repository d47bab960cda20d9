from term import *
def ob(n, *d, sx=3, sy=2, flags=('--bounds-check','--pointer-check')):
    return Ob(n, 't_copy.c', TTYOSC if 'OSC' in d else TTY, defs=['TSX=%d'%sx,'TSY=%d'%sy]+([] if any(x.startswith('PRE=') for x in d) else ['PRE=ST_GROUND'])+list(d), models=MODELS, unwind=18, unwindset=WITHCOMB, flags=list(flags))
def main():
    c = Check('C12'); c.learn()
    o = []
    for st in ('ST_GROUND','ST_ESC','ST_PAR','ST_CSI','ST_QUES','ST_OSC'):
        o.append(ob('copy_'+st, 'COPY', 'TITLE', 'PRE='+st))
    o.append(ob('copy_notitle', 'COPY'))
    o.append(ob('copy_osc', 'COPY', 'OSC', sx=2, sy=1))
    o.append(ob('copy_osc_title', 'COPY', 'OSC', 'TITLE', sx=2, sy=1))
    for l in (1,2,3,4):
        o.append(ob('copy_marks%d'%l, 'COPY', 'COMBS=1', 'LAYOUT=%d'%l))
        o.append(ob('reset_marks%d'%l, 'COMBS=1', 'LAYOUT=%d'%l))
        o.append(ob('esc_marks%d'%l, 'VIAESC', 'COMBS=1', 'LAYOUT=%d'%l))
    sizes = ((4,3),(2,1),(5,1)) if not THOROUGH else ((4,3),(2,1),(5,1),(6,4),(9,2))
    for x,y in sizes:
        o.append(ob('reset_%dx%d'%(x,y), sx=x, sy=y))
        o.append(ob('esc_%dx%d'%(x,y), 'VIAESC', sx=x, sy=y))
        o.append(ob('copy_%dx%d'%(x,y), 'COPY', sx=x, sy=y))
    return c.main(o)
