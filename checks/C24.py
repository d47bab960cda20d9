from tl import *
def main():
    c = Check('C24')
    o = []
    for l in [(1,),(0,),(2,2),(0,3),(1,1,1),(3,0,2)]+([(1,1,1,1),(2,3,4,1),(9,9)] if THOROUGH else []):
        n = '_'.join(map(str,l))
        o += [ob('save_'+n, l, 'SAVE', 'LOAD'), ob('saveadd_'+n, l, 'SAVE')]
    return c.main(o,
        assumptions=['the recorder is a model that remembers what it is given (the real ones: C17-C19)', 'allocation succeeds'],
        bounds='up to %d frames; all data, delays, selection limits and recorder failures symbolic' % (4 if THOROUGH else 3),
        explanation='ttyrec_save against a list of frames')
