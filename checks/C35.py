from vp import *
D = ['main=ct_main']+['%s=v_%s'%(x,x) for x in 'fprintf printf strerror'.split()]
def ob(n, cat, files):
    return Ob(n, 'ct_main.c', [('cat/termcat.c' if cat else 'time/termtime.c', dict(defs=D))], defs=['FILES="%s"'%files]+['CAT']*cat, unwind=40,
        flags=['--bounds-check','--pointer-check','--signed-overflow-check','--max-field-sensitivity-array-size','64'])
def main():
    c = Check('C35')
    o = [ob('%s_%s'%(('time','cat')[cat],f), cat, f) for cat in (0,1) for f in ['0','1','x','12','x2','2x1','303','xx','111']+(['5x52','44444'] if THOROUGH else [])]
    return c.main(o, bounds='up to %d files with up to %d frames each, all delays up to 2^24 seconds' % ((5,5) if THOROUGH else (3,3)),
        assumptions=['delays are not negative'], explanation='main() of termcat and termtime with stubs for the player and the recorder')
