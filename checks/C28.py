from vp import *
def src(b): return [('libstream/url_telnet.c', dict(defs=['recv=v_recv','send=v_send','write=v_write','close=v_close'], subs=[(r'\bBUFSIZ\b',str(b))]))]
def ob(n, N, pre='', *d, ch='', buf=3, uw=None, **k):
    return Ob(n, 's_telnet.c', src(buf), defs=['N=%d'%N, 'PRE="%s"'%pre,'CHUNKS="%s"'%ch]+list(d), unwind=uw or 3*N+3, flags=['--bounds-check','--pointer-check','--max-field-sensitivity-array-size','300'], **k)
def main():
    c = Check('C28')
    o = []
    for n, chs in ((1,('1',)),(3,('12','21','111')),(5,('2111','131')),(8,('8','11111111','3311','2222')),(11,('92','3333'))) + (((13,('94','33333')),(15,('9','5555'))) if THOROUGH else ()):
        for ch in chs: o.append(ob('any%d_%s'%(n,ch), n, ch=ch, buf=n))
    o.append(ob('filled', 9, buf=4))
    o.append(ob('iac', 9, '\\377', buf=4))
    o.append(ob('sub', 9, '\\377\\372', buf=9))
    o.append(ob('sub_split', 8, '\\377\\372', ch='422', buf=9))
    for k in (1,63,64):
        o.append(ob('sub_%d'%k, 3+k+5, '\\377\\372\\030'+'a'*k+'\\377\\360', buf=80, uw=230))
    o.append(ob('failed', 3, '', 'WFAIL=1', ch='111'))
    o.append(ob('error', 3, '', 'WFAIL=2'))
    return c.main(o,
        bounds='all streams of up to 5 bytes (6 after IAC), divided into reads in the ways listed (BUFSIZ is scaled), subnegotiations of 64 bytes',
        assumptions=['a subnegotiation longer than 64 bytes is taken for an unterminated one: not claimed'],
        explanation='the telnet filter against an independent decoder written from RFC 854/857/858')
