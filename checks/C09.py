from term import *
HOOK = ['malloc=v_malloc', 'free=v_free', 'realloc=v_realloc', 'strdup=v_strdup']
TTYH = [('libtty/tty.c', dict(defs=['mk_wcwidth=v_width']+HOOK, include=['vtty.h'],
        subs=[(r'^(\s*#\s*define\s+MAXOSC\s+)\d+', r'\g<1>8')])), 'libtty/charsets.c']
def ob(n, seq, *chk, sx=3, sy=2, extra=(), srcs=TTYOSC, prio=0, **k):
    d = ['TSX=%d'%sx,'TSY=%d'%sy,'SEQ='+','.join(str(b if isinstance(b,int) else ord(b)) for b in seq),'MAXB=255']+list(chk)+list(extra)
    o = Ob(n, 't_seq.c', srcs, defs=d, models=MODELS, unwind=18, unwindset={'tty_kill_comb':3,'tty_add_comb':34}, **k)
    o.prio = prio
    return o
SIMPLE=['SIMPLE','WIDE=0','FIX_CX=0','FIX_CY=0','FIX_S1=0','FIX_S2=2']
HIST = [('cup','\33[2;3H'),('cup1','\33[2H'),('cup0','\33[H'),('sgr','\33[1;38;5;12m'),('sgr38','\33[38m'),('sgr48','\33[48;5m'),('sgr0','\33[m'),('rgb','\33[38;2;1;2m'),
 ('ed','\33[J'),('el','\33[1K'),('ich','\33[@'),('il','\33[L'),('stbm','\33[r'),('stbm2','\33[;2r'),('mode','\33[?7l'),('mode0','\33[?l'),('cuu','\33[A'),('dch','\33[P'),('ech','\33[2X'),
 ('cha','\33[G'),('vpa','\33[d'),('title','\33]0;xy\7'),('notitle','\33]0\7'),('osc5','\33]5\33\\'),('oscbad','\33]x;q\7'),('resize','\33[8;2;3t'),('resize2','\33[8t'),
 ('u2',[0xc3,0xa9]),('u3',[0xe2,0x94,0x80]),('u4',[0xf0,0x9f,0x98,0x80]),('a','A'),('g0','\33(0'),('ri','\33M')]
# complete sequences that mean nothing here
NOPS = ['\33[z','\33[5y','\33[1;2q','\33[?1z','\33[?2004h','\33[?1;3l','\33[?h','\33Z','\33q','\33(A','\33)K','\33%x','\33\\','\33[9;1t','\33[h','\33[4l','\33[g','\33[1n',
        '\33[2\x18','\33[\x1a','\33\x18','\33]\x18','\33]0;x\x18','\33[\33[\33[z','\33]12;q\7','\33]x\7','\33[4J','\33[3K','\33[1;1;1;1;1;1;1;1;1;1;1;1;1;1;1;1;','\0\x05\x7f',
        '\33[8;300;2t','\33[8;2;600t','\33[8;1;1t']
def main():
    c = Check('C09'); c.learn()
    o = []
    for n, s in HIST:
        for st in (0, 1) if n in ('title','notitle','osc5','oscbad') else (0,):
            x = ['STALEOSC=%d'%st]
            if n in ('notitle','osc5'): x.append('OSCLEN=0')
            if n == 'title': x += ['OSCLEN=2','TITLE']
            o.append(ob('hist_%s%s'%(n,st or ''), s, 'CHK_HIST', extra=x+SIMPLE))
    for i, s in enumerate(NOPS):
        o.append(ob('nop_%02d'%i, s, 'CHK_NOP', extra=['TITLE']))
    # a symbolic final byte outside what is known
    for n, pre, b in (('csi','ST_CSI',notin(CSI_FINALS+'0123456789;?')),('par','ST_PAR',notin(CSI_FINALS+'0123456789;')),('ques','ST_QUES',notin('hl0123456789;')),
                      ('esc','ST_ESC',notin('[]()%78DEM=>c'))):
        o.append(ob('nopany_'+n, [0], 'CHK_NOP', sx=2, sy=1, extra=['PRE='+pre,'SYM=0','NORESIZE','STEPS=ST_GROUND','SYMCOND(b)='+b,'TITLE','ABSORB']+SIMPLE[:2]+['FIX_CX=0','FIX_CY=0','FIX_S1=0','FIX_S2=1'], prio=5))
    # strings; -: a symbolic byte
    def osc(n, s, sets, nosc, cmd=0, start=0, length=0, states=None):
        st, cur = [], 'G'
        m = {'G':'ST_GROUND','E':'ST_ESC','O':'ST_OSC','S':'ST_OSCSTR'}
        for ch in states: st.append(m[ch])
        sym = [i for i, ch in enumerate(s) if ch == '-']
        x = ['STEPS='+','.join(st),'SETS=%d'%sets,'NOSC=%d'%nosc,'CMD=%d'%cmd,'TSTART=%d'%start,'TLEN=%d'%length,'TITLE','NORESIZE','HOOKMALLOC']
        if sym: x.append('SYM='+','.join(map(str, sym)))
        o.append(ob('osc_'+n, [0x78 if ch == '-' else ord(ch) for ch in s], 'CHK_TITLE', sx=2, sy=1, srcs=TTYH, extra=x+SIMPLE[:2]+['FIX_CX=0','FIX_CY=0','FIX_S1=0','FIX_S2=1'], prio=9))
    osc('bel', '\33]0;---\7', 1, 1, 0, 4, 3, 'EOOSSSSG')
    osc('st', '\33]0;--\33\\', 1, 1, 0, 4, 2, 'EOOSSSEG')
    osc('st2', '\33]0;-\33\\', 1, 1, 0, 4, 1, 'EOOSSEG')
    osc('empty', '\33]0;\7', 1, 1, 0, 4, 0, 'EOOSG')
    osc('none', '\33]0\7', 1, 1, 0, 4, 0, 'EOOG')
    osc('other', '\33]2;--\7', 0, 1, 2, 4, 2, 'EOOSSSG')
    osc('multi', '\33]12;-\7', 0, 1, 12, 5, 1, 'EOOOSSG')
    osc('trunc', '\33]0;--------\7', 1, 1, 0, 4, 7, 'EOOSSSSSSSSSG')
    osc('full', '\33]0;-------\7', 1, 1, 0, 4, 7, 'EOOSSSSSSSSG')
    osc('abort', '\33]0;x\x18\33]0;yz\7', 1, 1, 0, 10, 2, 'EOOSSGEOOSSSG')
    osc('abort2', '\33]0;xyz\x1a\33]0\7', 1, 1, 0, 10, 0, 'EOOSSSSGEOOG')
    osc('bad', '\33]x;---\7', 0, 0, 0, 0, 0, 'EOSSSSSG')
    osc('twice', '\33]0;-\7\33]0;-\7', 1, 2, 0, 10, 1, 'EOOSSGEOOSSG')
    osc('escnew', '\33]0;-\33]0;-\7', 1, 2, 0, 9, 1, 'EOOSSEOOSSG')
    osc('semi', '\33]0;-;-\7', 1, 1, 0, 4, 3, 'EOOSSSSG')
    return c.main(o)
