from vp import *
D = ['main=rec_main']+['%s=v_%s'%(x,x) for x in 'setlocale nl_langinfo getenv fprintf strcmp sprintf snprintf tcgetattr tcsetattr sigaction sigemptyset kill tcgetpgrp gettimeofday select read write close wait exit'.split()]
CADICAL = ['--sat-solver','cadical']
def ob(n, s, *d, fl=[], **k):
    return Ob(n, 'r_main.c', [('rec/termrec.c', dict(defs=D, include=['r_ioctl.h'], subs=[(r'\b65536\b', '16'), (r'\bioctl\s*\(', 'v_ioctl(')]))], defs=['SCHED="%s"'%s]+list(d),
        unwind=66, flags=['--bounds-check','--pointer-check','--signed-overflow-check','--max-field-sensitivity-array-size','128']+fl, **k)
def main():
    c = Check('C33')
    o = []
    raw = ['','o1','k1','b1','o3k2o2','b2b3','i0o2','o2i0k1o1','w2o2','w1k1b2','o1z0o2','o2i0i0o1','w2i0o1','w1w1o1','o9b9z0b8']
    for s in raw+(['o3b2i0o1w2k3o2b1','i0w1i0w2b3o1z0k2o5'] if THOROUGH else []): o.append(ob('raw_'+s, s, 'RAW=1'))
    for s in ['','o1','i0o2','w2k1o2']+(['w1w1o1','o2i0i0o1','o2i0k1o1','w1k1b2','b2i0i0w1o2'] if THOROUGH else []): o.append(ob('run_'+s, s, 'SYMSIZE', fl=CADICAL))
    for d in (3,5): o.append(ob('size%d'%d, 'o1', 'DIG=%d'%d, 'SYMSIZE'))
    for s in ['i0o1']+(['b1w2'] if THOROUGH else []):
        o.append(ob('notutf_'+s, s, 'UTF=0', 'SYMSIZE', fl=CADICAL))
        for d in (3,5): o.append(ob('size%d_%s'%(d,s), s, 'DIG=%d'%d, fl=CADICAL))
    o.append(ob('eof', 'o2', 'ENDS=0'))
    for i in range(5): o.append(ob('signal%d'%i, 'o1s%do2'%i))
    for s in ('o2k1',): o.append(ob('notty', s, 'NOTTY')); o.append(ob('notty2', s, 'NOTTY', 'UTF=0'))
    for f,s in ((1,'o1'),(2,'o1'),(3,'o2'),(4,'o2'),(5,'k2')): o.append(ob('fault%d'%f, s, 'FAULT=%d'%f))
    return c.main(o,
        bounds='sessions of up to %d events with up to %d bytes each, sizes of 1 to 5 digits (every one of one digit, the listed ones above that), all data, times and outcomes of closing' % ((9,5) if THOROUGH else (4,3)),
        assumptions=['writes to the terminals are whole or fail', 'a window resized between the last check and select() is taken care of when something else happens, as claimed no better', 'what comes from the session after the keyboard is closed is not claimed'],
        explanation='main() of termrec with stubs for the terminals, the clock, signals and the recorder')
