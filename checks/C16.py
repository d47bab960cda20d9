from vp import *
def main():
    c = Check('C16')
    tty = [('libtty/tty.c', dict(defs=['mk_wcwidth=v_width','vsnprintf=v_vsnprintf','vasprintf=v_vasprintf','vsprintf=v_vsprintf'], include=['vtty.h'],
            subs=[(r'^(\s*#\s*define\s+BUFFER_SIZE\s+)\d+', r'\g<1>8'),(r'^(.*\bvoid\s+)tty_write(?=\s*\(tty\s+\w+\s*,[^;]*$)',r'\1unused_tty_write')])), 'libtty/charsets.c']
    o = [Ob('len%d' % n, 't_printf.c', tty, defs=['LEN=%d' % n], models=['width_model.c','vmem.c'], unwind=2*n+9,
            unwindset={'tty_kill_comb.*': 2, 'tty_add_comb.*': 2}, flags=CADICAL+['--bounds-check','--pointer-check','--max-field-sensitivity-array-size','100'])
         for n in (0,1,3,6,7,8,9,10,15,16,17)+((24,31,32,33) if THOROUGH else ())]
    return c.main(o,
        assumptions=['vsnprintf and vasprintf work as documented (C99)', 'allocation succeeds'],
        bounds='texts of 0 to %d characters, all characters, BUFFER_SIZE scaled to 8' % (33 if THOROUGH else 17),
        explanation='tty_printf, with tty_write() replaced by one that remembers the bytes, against writing the formatted text: complete, exact, without stray reads or writes')
