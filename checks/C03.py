from term import *
def ob(n, seq, sx=3, sy=2, pre='ST_GROUND', extra=(), **k):
    d = ['TSX=%d'%sx,'TSY=%d'%sy,'SEQ='+','.join(str(b if isinstance(b,int) else ord(b)) for b in seq),'CHK_SPLIT','PRE='+pre,'MAXB=255']+list(extra)
    return Ob(n, 't_seq.c', TTYOSC, defs=d, models=MODELS, unwind=18, unwindset={'tty_kill_comb':3,'tty_add_comb':k.pop('addcomb', 34)}, **k)
SEQS = [
 ('a', [65, 66]), ('u2', [0xc3, 0xa9]), ('u3', [0xe2, 0x94, 0x80]), ('u3b', [0xe2, 0x94, 0x80, 66]), ('wide', [0xe4, 0xb8, 0xad]), ('u4', [0xf0, 0x9f, 0x98]),
 ('mark', [65, 0xcc, 0x81]), ('surr', [0xed, 0xa0, 0x81, 0xed, 0xb0, 0x80]), ('bad', [0xe2, 65, 0x80]), ('bom', [0xef, 0xbb, 0xbf, 65]),
 ('crlf', [13, 10]), ('lf', [10, 65]), ('tab', [9, 65]), ('bs', [65, 8]), ('so', [14, 'q', 15, 'q']), ('bel', [7, 65]),
 ('cup', '\33[2;3H'), ('rel', '\33[12A'), ('sgr', '\33[1;38;5;12m'), ('ed', '\33[1J'), ('el', '\33[K'), ('ich', '\33[2@'), ('il', '\33[2L'), ('stbm', '\33[1;2r'),
 ('mode', '\33[?7l'), ('save', '\0337\0338'), ('g0', '\33(0q'), ('g1', '\33)0'), ('pct', '\33%@\xc9'), ('pct8', '\33%8'), ('kp', '\33='), ('ri', '\33M'), ('ind', '\33D'),
 ('title', '\33]0;xy\7'), ('title2', '\33]0;\33\\'), ('oscpart', '\33]12;q'), ('osc5', '\33]5;x\33\\A'), ('can', '\33[3\x18A'), ('unk', '\33[3zA'), ('ctl', '\33[1\r;2H'), ('reset', '\33c'),
 ('escesc', '\33\33[A'), ('csi', '\33['), ('semi', '\33[;'), ('quespart', '\33[?2'), ('esc', '\33'), ('xterm', '\33[>4;2m'), ('resize', '\33[8;2;3t'), ('rst', '\33[c')]
SYMS = [('y_g_%02x' % b, [b, 65], 'ST_GROUND', [1]) for b in (65, 0xc3, 0xe2, 0x80)] + \
       [('y_q', '2A', 'ST_QUES', [1]), ('y_o', '1A', 'ST_OSC', [1]), ('y_e', '\33A', 'ST_GROUND', [1])]
def main():
    c = Check('C03'); c.learn()
    SIMPLE=['SIMPLE','WIDE=0','FIX_CX=0','FIX_CY=0','FIX_S1=0','FIX_S2=2']
    o = [ob(n, s, extra=(SIMPLE if not THOROUGH or n[0] not in 'csrqeio' or n in ('can','surr','so') else [])+(['TITLE'] if n in ('a', 'title', 'title2') else [])) for n, s in SEQS]
    for n, s, pre, sym in SYMS:
        x = ob(n, s, sx=2, sy=1, pre=pre, extra=['NORESIZE','SIMPLE','WIDE=0','FIX_CX=0','FIX_CY=0','FIX_S1=0','FIX_S2=1','SYM='+','.join(map(str, sym))]); x.prio = 5
        o.append(x)
    return c.main(o)
