from vp import *
D = ['%s=v_%s'%(x,x) for x in 'time localtime strftime free open strerror strcmp'.split()]
FL = ['--bounds-check','--pointer-check','--max-field-sensitivity-array-size','64']
def ob(n, mode, src, *d, u=45, **k): return Ob(n, 'o_out.c', [(src, dict(defs=D, include=['o_asprintf.h'], subs=[(r'--(\w+)\s*<\s*(\w+)\b', r'(--\1)-\2<0'), (r'\basprintf\s*\(', 'V_asprintf(')]))], defs=['MODE=%d'%mode]+list(d), unwind=u, flags=FL if mode>1 else [f for f in FL if 'pointer' not in f], **k)
def main():
    c = Check('C34')
    t = 120 if THOROUGH else 56
    o = [ob('names', 1, 'common/open_out.c', 'TRIES=%d'%t, u=t+5), ob('names_app', 1, 'common/open_out.c', 'TRIES=1', 'APP=1'), ob('names_err', 1, 'common/open_out.c', 'TRIES=2', 'LAST=1', 'ERR'), ob('file', 3, 'libstream/url_file.c')]
    for i,n in enumerate(('x.ttyrec','-','--','tcp://h','a','-a')): o += [ob('given%d_%d'%(i,a), 2, 'common/open_out.c', 'NAME="%s"'%n, 'APP=%d'%a) for a in (0,1)]
    return c.main(o,
        bounds='up to %d files that already exist; every outcome of opening; the names listed'%t,
        assumptions=['memory does not run out', 'the default compression is that of this build (bzip2)'],
        explanation='open_out() and open_file() with stubs for open(), the date and streams')
