from fmt import *
# the buffer is scaled down so that its edges are within reach
def ob(n, lens, *d, buf=4, **k):
    sz = 12*len(lens)+sum(lens)
    return Ob(n, 'f_ttyrec.c', [FMT(buf)], defs=['LENS='+','.join(map(str,lens)),'FMAX=%d'%(sz+4),'PMAX=%d'%(sum(lens)+2)]+list(d),
        models=['fstubs.c'], unwind=max(max(lens)+2, len(lens)+2, 14), unwindset={'v_main.*':sz+4, 'v_fwrite.*':max(lens+(12,))+2}, flags=FLAGS, **k)
def main():
    c = Check('C17')
    o = []
    L = [(1,),(3,),(4,),(5,),(8,),(9,),(0,3),(2,0,1),(1,4,2),(4,4),(5,8,1),(1,1,1)]+([(9,4,0,3),(2,3,4,5,6),(15,15)] if THOROUGH else [])
    for l in L:
        n = '_'.join(map(str,l))
        o.append(ob('write_'+n, l, 'WRITE'))
        o.append(ob('read_'+n, l))
    for l in [(3,2),(5,)]+([(9,4,2),(2,5,1)] if THOROUGH else []):
        for t in range(0, 12*len(l)+sum(l)+1):
            o.append(ob('trunc_%s_%d'%('_'.join(map(str,l)),t), l, 'TRUNC=%d'%t))
    return c.main(o,
        assumptions=['stdio works: fread returns all there is, fwrite accepts everything (failures: C31)', 'time stamps fit the format (32 bit seconds, microseconds below a million)'],
        bounds='frames of up to %d bytes, up to %d of them, BUFFER_SIZE scaled to 4, all data and times symbolic; truncation at every byte' % (15 if THOROUGH else 9, 5 if THOROUGH else 3),
        explanation='the ttyrec recorder is compared byte by byte with the published format, and the player is run on any file in that format')
