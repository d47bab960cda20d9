"""shared obligations for the terminal"""
from vp import *
import vp
TTY = [('libtty/tty.c', dict(defs=['mk_wcwidth=v_width'], include=['vtty.h'])), 'libtty/charsets.c']
TTYOSC = [('libtty/tty.c', dict(defs=['mk_wcwidth=v_width'], include=['vtty.h'],
          subs=[(r'^(\s*#\s*define\s+MAXOSC\s+)\d+', r'\g<1>8')])), 'libtty/charsets.c']
MODELS = ['width_model.c', 'vmem.c']
NOCOMB = {r'tty_kill_comb': 2, r'tty_add_comb': 2}
WITHCOMB = {r'tty_kill_comb': 6, r'tty_add_comb': 26}
THOROUGH = TIER == 'thorough'

def step(name, pre, byte=None, cls=None, op=None, post='ST_GROUND', extra=(), sx=4, sy=3, chk=('CHK_REF',), prio=0, **kw):
    d = ['TSX=%d' % sx, 'TSY=%d' % sy, 'PRE=' + pre, 'POST=' + post] + list(chk) + list(extra)
    if byte is not None:
        d.append('BYTE=%d' % (byte if isinstance(byte, int) else ord(byte)))
    if cls:
        d.append('CLASS(b)=' + cls)
    if op:
        d.append('OP_' + op)
    k_us = kw.pop('unwindset', None)
    comb = any(x.startswith('COMBS=') and x != 'COMBS=0' for x in d)
    o = Ob(name, 't_step.c', kw.pop('srcs', TTY), defs=d, models=MODELS, unwind=max(sx*sy, 16)+1,
           unwindset=k_us or (WITHCOMB if comb else NOCOMB), flags=kw.pop('flags', []), **kw)
    o.prio = prio
    return o

def regions(sy):
    return [(a, b) for a in range(sy) for b in range(min(a+2, sy), sy+1) if b > a+1 or sy == 1]

def split_regions(name, *a, sy=3, extra=(), **k):
    return [step('%s_r%d_%d' % (name, s1, s2), *a, sy=sy, extra=list(extra)+['FIX_S1=%d' % s1, 'FIX_S2=%d' % s2], **k)
            for s1, s2 in regions(sy)]

def split_print(name, w, *a, sx=4, sy=3, extra=(), **k):
    """cursor column concrete; where the character wraps, also the region"""
    o = []
    for cx in range(sx+1):
        e = list(extra) + ['FIX_CX=%d' % cx]
        if cx + w <= sx:
            o.append(step('%s_x%d' % (name, cx), *a, sx=sx, sy=sy, extra=e, **k))
        else:
            o += split_regions('%s_x%d' % (name, cx), *a, sx=sx, sy=sy, extra=e, **k)
    return o

# parser steps: name, pre-state, byte or class, post-state, extra defines
G, E, P, C, Q = 'ST_GROUND', 'ST_ESC', 'ST_PAR', 'ST_CSI', 'ST_QUES'
DIG = "(b)>='0'&&(b)<='9'"
NOCTL = "(b)>=0x20&&(b)!=0x7f"
def notin(s):
    return NOCTL + ''.join("&&(b)!=%d" % ord(c) for c in s)
CSI_FINALS = 'ABCDEFGHJKLMPX@`adfrmct'
STEPS = [
 ('bs', G, 8, G, []), ('tab', G, 9, G, []), ('lf', G, 10, G, []), ('vt', G, 11, G, []), ('ff', G, 12, G, []),
 ('cr', G, 13, G, []), ('so', G, 14, G, []), ('si', G, 15, G, []), ('bel', G, 7, G, []),
 ('can', G, 24, G, []), ('sub', G, 26, G, []), ('esc', G, 27, E, []),
 ('ignored', G, '(b)==0||(b)==5||(b)==127', G, []),
 ('A', G, 0x41, G, []), ('utfA', G, 0x80, G, ['PR_UTF=1']), ('utfW', G, 0x80, G, ['PR_UTF=2']),
 ('utfM', G, 0x80, G, ['PR_UTF=0', 'EXTRA=c>=0x300&&c<0x370']),
 ('e_D', E, 'D', G, []), ('e_E', E, 'E', G, []), ('e_M', E, 'M', G, []), ('e_7', E, '7', G, []), ('e_8', E, '8', G, []),
 ('e_eq', E, '=', G, []), ('e_gt', E, '>', G, []), ('e_csi', E, '[', C, []), ('e_osc', E, ']', 'ST_OSC', []),
 ('e_g0', E, '(', 'ST_G0', []), ('e_g1', E, ')', 'ST_G1', []), ('e_pct', E, '%', 'ST_PCT', []),
]
STEPS += [('p_%s' % {'@': 'at', '`': 'bt'}.get(c, c if c.isupper() else 'l' + c), P, c, G, []) for c in CSI_FINALS if c != 't']
STEPS += [('p_semi', P, ';', P, []), ('q_h', Q, 'h', G, []), ('q_l', Q, 'l', G, []), ('q_semi', Q, ';', Q, []),
 ('p_t', P, 't', G, ['NORESIZE'])]
# classes: the whole switch gets encoded, on a tiny screen
CLASSES = [('any_ground', G, '1'), ("any_esc", E, "1"), ('any_par', P, '1'), ('any_csi', C, '1'),
 ('any_ques', Q, '1'), ('any_g0', 'ST_G0', '1'), ('any_g1', 'ST_G1', '1'), ('any_pct', 'ST_PCT', '1'),
 ('any_osc', 'ST_OSC', '1'), ('any_oscstr', 'ST_OSCSTR', '1')]
