from tl import *
def main():
    c = Check('C23')
    o = []
    for l in [(1,),(0,),(2,2),(0,3),(4,4),(5,1,3),(1,1,1),(3,0,2)]+([(1,1,1,1),(2,3,4,1),(9,9),(1,1,1,1,1)] if THOROUGH else []):
        n = '_'.join(map(str,l))
        o += [ob('load_'+n, l, 'LOAD'), ob('add_'+n, l)]
    return c.main(o,
        assumptions=['terminals are models that remember the bytes written to them (the real ones are decided by C03 and C12: the result depends only on the bytes, and copies are equal and independent)', 'allocation succeeds'],
        bounds='up to %d frames of up to %d bytes, SNAPSHOT_CHUNK scaled to 4; all data, delays (32-bit seconds, negative too), start times and times sought symbolic' % ((5,9) if THOROUGH else (3,5)),
        explanation='ttyrec_load/ttyrec_add_frame, ttyrec_seek, ttyrec_next_frame, ttyrec_free against a list of frames')
