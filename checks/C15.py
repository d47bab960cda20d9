from vp import *
def main():
    c = Check('C15')
    o = [Ob('part%d' % i, 't_color.c', ['libtty/colors.c'], defs=['PART=%d' % i], unwind=5, flags=['--sat-solver','cadical','--signed-overflow-check','--bounds-check'], timeout=600) for i in range(1,7)]
    return c.main(o,
        assumptions=['values have the layout of struct tty\'s attributes: type in bits 24-25, value below; what a value of no type converts to is not claimed'],
        bounds='none: all 2^32 values, all target types in both notations',
        explanation='tty_color_convert against the published palettes')
