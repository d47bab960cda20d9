from fmt import *
def cstr(s):
    """a C string literal; octal, to be safe"""
    return '"' + ''.join(c if c.isalnum() or c in ' ,:;.[]{}()<>=+-*/' else '\\%03o""' % ord(c) for c in s) + '"'
def src(buf, nih):
    return [FMT(max(buf,4)), ('libtty/asciicast.c', dict(defs=IOD+TIME+['sprintf=v_sprintf','strcmp=v_strcmp','strlen=v_strlen'], subs=[(r'^(\s*#\s*define\s+BUFFER_SIZE\s+)\w+', r'\g<1>%d'%buf),(r'^(\s*#\s*define\s+NIH_FILE_BUFFER\s+)\w+', r'\g<1>%d'%nih)]))]

def ob(n, pre, sym, post, *d, merged=0, buf=60, nih=None, want=0, pmax=60, pat='', **k):
    tot = len(pre)+sym+len(pat)+len(post)
    return Ob(n, 'f_ac.c', src(buf, nih or tot+1), defs=['ASCIICAST','PRE='+cstr(pre),'SYM=%d'%sym,'POST='+cstr(post),'WANT=%d'%want,'LONG=30','FMAX=%d'%(tot+2),'PMAX=%d'%pmax]+(['PAT='+cstr(pat)] if pat else [])+list(d),
        models=['fstubs.c'], unwind=merged or max(tot+4,70), unwindset={'v_main.*|v_sprintf.*|v_strlen.*':75,'v_strcmp.*|player.*|same.*':16,'eat_string.*':merged*2+4,'l_print.*':36,'string.*':14} if merged else {},
        flags=(CADICAL if merged else PATHS)+['--max-field-sensitivity-array-size','300']+['--bounds-check'], **k)
H2 = '{"version":2}[1,"o","'
H1 = '{"version":1,"stdout":[[1,"'

def main():
    c = Check('C20')
    T = ('TIME_S=1','TIME_U=0')
    o = []
    def st(n, pre, k, strpre='', post='"]', exp='', after='', t=T, **kw):
        o.append(ob(n, pre+strpre, k, post, 'STRPRE='+cstr(strpre), 'EXPECT='+cstr(exp), 'AFTER='+cstr(after), *t, want=1, **kw))
    st('str1', H2, 1)
    st('str2', H2, 2)
    def hx(n, t, h):
        i = t.index('*')
        o.append(ob('hex_'+n, H2+t[:i], 1, t[i+1:]+'"]', 'STRPRE='+cstr(t[:i]), 'STRPOST='+cstr(t[i+1:]), 'EXPECT=""', 'AFTER=""', 'HEX=%d'%h, *T, want=1))
    for t in ('00e*','00*9','0*a8','FFf*','d7*F','000*','007*','008*','07f*','e0*0','D*12')+(('*1Ac',) if THOROUGH else ()): hx(t.replace('*','x'), '\\u'+t, 1)
    for t in ('d83d\\uDe*8','d83d\\udc0*','D83D\\ud*f2','dBFf\\udF*d')+(('*800\\uDC00','dB*f\\udFfF','d8*5\\ude01','d83d\\u*c10') if THOROUGH else ()): hx(t.replace('*','x').replace('\\','_'), '\\u'+t, 2)
    st('v1', H1, 2, post='"]]}')
    st('second', H2+'ab"]\n[ 2.25 , "o", "', 1, exp='ab', t=('TIME_S=2','TIME_U=250000'))
    st('v1second', H1+'ab"],\n[2.25, "', 1, post='"]\n]}\n', exp='ab', t=('TIME_S=3','TIME_U=250000'))
    st('input', H2+'a"]\n[3, "i", "xy"]\n[4,"m",""]\n[5,"o","', 1, exp='a', t=('TIME_S=5','TIME_U=0'))
    st('head', '{"version": 2, "width": 7, "height": 9, "timestamp": 5, "idle": 1.5,\t"title": "a\\"}b", "n":null, "env": {"SHELL": "x", "E": {}, "T":"y"}}\n[1, "o", "', 1, '', t=T+('SX=7','SY=9'))

    for p in ('d','1d','d0','0.d','0.0d','0.00000d','12.d4','de0','3d.5e-2','2e0','8.12345d') + (('de2','dd','d.d','d.5E+3','1234567d','98765.12345d') if THOROUGH else ()):
        n = p.replace('.', '_').replace('+', 'p').replace('-', 'm')
        o.append(ob('v2_'+n, '{"version":2}[', 0, ',"o","x"]', 'AFTER="x"', 'PLUS=0', want=2, pat=p))
        if len(p)<5: o.append(ob('v2l_'+n, H2+'a"][1'[:-1], 0, ',"o","x"]', 'AFTER="x"', 'EXPECT="a"', 'PLUS=0', want=2, pat='1'+p))
        o.append(ob('v1_'+n, H1+'a"],[ ', 0, ' , "x"]]}', 'AFTER="x"', 'EXPECT="a"', 'PLUS=1000000', want=2, pat=p))
    for p in ('d','1d0','13d'):
        o.append(ob('width_'+p, '{"version":2,"width":', 0, '}', want=3, pat=p))
        o.append(ob('height_'+p, '{"version":2,"width":99 , "height": ', 0, '\n}', 'SX=99', want=4, pat=p))
    for p in ('d','15d','160000000d'):
        o.append(ob('date_'+p, '{"version":2,"timestamp":', 0, '}', want=5, pat=p))
    o.append(ob('type', '{"version":2}[1,"', 1, '","x"]', 'AFTER="x"', *T, want=6))
    o.append(ob('type2', '{"version":2}[1,"o', 1, '","x"]', 'AFTER=""', *T, want=6))
    return c.main(o,
        assumptions=['what is not valid JSON (per RFC 8259) is only required to be handled safely (C21)', 'numbers with more than six decimal places or exponents above 6 are not claimed'],
        bounds='the listed files with one or two arbitrary bytes or digits in the place given: strings of two bytes, every hex digit of an escape, digits of numbers; BUFFER_SIZE scaled to 60',
        explanation='play_asciicast against an independent decoder of JSON strings and numbers')
