from vp import *
def main():
    c = Check('C14')
    R = [(0, 0x9f), (0xa0, 0x10ff), (0x1100, 0x2fff), (0x3000, 0xffff), (0x10000, 0x10ffff), (0x110000, 0xffffffff)]
    o = [Ob('w_%x' % a, 't_width.c', ['libtty/wcwidth.c'], defs=['LO=%du' % a, 'HI=%du' % b], unwind=170, unwindset={'bisearch': 12}, cap=700,
            flags=['--bounds-check', '--pointer-check', '--div-by-zero-check'], about='every code point U+%X..U+%X' % (a, b)) for a, b in R]
    return c.main(o)
