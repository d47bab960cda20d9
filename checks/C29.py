from fmt import cstr_ as cs
from vp import *
D = ['%s=v_%s'%(x,x) for x in 'read write close dup shutdown snprintf strerror strchr memmove memcpy memset'.split()]
def ob(n, pre, sym=0, mid='', sym2=0, post='', want='ab', ch='', buf=None, fault=0, unw=0, **k):
    N = len(pre)+sym+len(mid)+sym2+len(post)
    buf = buf or 2*N+2
    return Ob(n, 's_termcast.c', [('libstream/url_termcast.c', dict(defs=D, subs=[(r'\bBUFSIZ\b', str(buf))]))],
        defs=['PRE='+cs(pre),'MID='+cs(mid),'POST='+cs(post),'SYM=%d'%sym,'SYM2=%d'%sym2,'WANT='+cs(want),'CHUNKS="%s"'%ch,'BUFSZ=%d'%buf,'FAULT=%d'%fault],
        unwind=max(N+3,12), unwindset={'v_memset.*':66,'v_memmove.*':buf+66}, flags=['--bounds-check','--pointer-check','--max-field-sensitivity-array-size','300'], **k)
def main():
    c = Check('C29')
    o = []
    L = '\r\n\033[12d'
    o.append(ob('key', L, 2, ') ab (x', 0, 'yz'))
    o.append(ob('line', 'q', 3, '[3d c) ab ('))
    o.append(ob('digits', '\r\n\033[', 3, ' c) ab ('))
    o.append(ob('name', L+'c) ', 3, ' (x'))
    o.append(ob('tail', L+' c) ab', 3, 'xyz'))
    o.append(ob('colours', L+' c) \033[1', 1, 'mab', 3, ' ('))
    o.append(ob('colours2', L+'c) ab \033', 3, '('))
    o.append(ob('colours3', L+'c) \033[1;33m', 2, '\033[0m \033[m', 1))
    o.append(ob('second', L+'a) b', 1, ' (\r\n\033[3d', 1, ') ab ('))
    o.append(ob('other', L+'a) abc (\r', 2, '\033[4dX) ab (', 1))
    for i,ch in enumerate(('1111111111111111111','44444','83335','92222')): o.append(ob('split%d'%i, L, 1, ') ab', 1, '(xy', ch=ch))
    for i,(b,ch) in enumerate(((40,'66666666'),(38,'5577577559'),(36,'3838383838'))): o.append(ob('move%d'%i, 'menu\r\nfoo\r'+L+'a) z', 1, ' (\r\n\033[3d', 1, ') ab (', ch=ch, buf=b))
    o.append(ob('full', 'x'*20, 1, L+'c) ab (', buf=26))
    for f in (1,2): o.append(ob('fault%d'%f, L, 1, fault=f))
    o.append(ob('fault3', L, 2, ') ab (', fault=3))
    o.append(ob('fault4', L, 1, ') ab (xyz', fault=4, ch='333'))
    o.append(ob('fault5', L, 1, ') ab', 1, '(', fault=5))
    return c.main(o,
        bounds='menus of up to about 40 bytes with up to 4 symbolic ones in the places listed, several divisions into reads, buffer sizes small enough for it to be moved about',
        assumptions=['no NUL bytes before the session is chosen', 'menu entries fit half the buffer'],
        explanation='open_termcast() and its filter with stubs for the socket, against an independent matcher of the documented menu format')
