from vp import *
NET = ['%s=v_%s'%(x,x) for x in 'strchr strrchr strtoul strtol snprintf sprintf getaddrinfo freeaddrinfo gai_strerror strerror socket connect close shutdown'.split()]
def ob(n, pre, sym, post='', port=23, hb=0, *d, **k):
    tot = len(pre)+sym+len(post)
    hb = hb or max(6, tot+1)
    return Ob(n, 's_tcp.c', [('libstream/url_tcp.c', dict(defs=NET, subs=[(r'(\bchar\s+host\[)\w+(\])', r'\g<1>%d\2'%hb)]))],
        defs=['PRE="%s"'%pre,'POST="%s"'%post,'SYM=%d'%sym,'DEFPORT=%d'%port,'HOSTBUF=%d'%hb]+list(d),
        unwind=max(14, tot+3, hb+2), flags=['--bounds-check','--pointer-check','--max-field-sensitivity-array-size','100'], **k)
def main():
    c = Check('C30')
    o = []
    for n in (1,3,4) + ((2,5) if THOROUGH else ()):
        for p in (0,23): o.append(ob('any%d_%d'%(n,p), '', n, '', p))
    o.append(ob('port_t', 'h:', 4, '/xy'))
    o.append(ob('port4', 'h:', 4, '', 0))
    o.append(ob('port_655', 'h:655', 2, '', 0))
    o.append(ob('port_huge', 'h:429496729', 1, '', 0))
    o.append(ob('port_65', 'h:65', 3, '', 0))
    o.append(ob('neg', 'h:-', 2, '', 0))
    o.append(ob('v6', '[', 4))
    o.append(ob('v6p', '[::1]', 3))
    o.append(ob('v6q', '[::1]:', 3, '/ab', 0))
    o.append(ob('v6u', '[::', 3, ']'))
    o.append(ob('slash', 'ab', 3, 'c:5'))
    o.append(ob('two', 'a:b', 2, ':7/', 0))
    o.append(ob('long', 'abcdefg', 3, '', 23, 8))
    o.append(ob('long_p', 'abcde:7', 3, '', 23, 8))
    return c.main(o,
        bounds='addresses of up to 3 arbitrary bytes, and longer ones with up to 6 in the places listed; two network addresses per host',
        assumptions=['port numbers with a leading plus sign or blank are not claimed','the resolver, sockets and the libc string functions are modelled by stubs','the host buffer is scaled'],
        explanation='open_tcp/connect_tcp against an independent parser of host:port/rest and of [host]:port')
