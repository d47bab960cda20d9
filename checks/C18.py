from fmt import *
def ob(n, lens, *d, buf=8, **k):
    sz = 5+5*len(lens)+sum(lens)
    return Ob(n, 'f_nh.c', [FMT(buf)], defs=['LENS='+','.join(map(str,lens)),'FMAX=%d'%(sz+4),'PMAX=%d'%(sum(lens)+2)]+list(d),
        models=['fstubs.c'], unwind=max(max(lens)+2, len(lens)+2, 14), unwindset={'v_main.*':sz+5, 'v_fwrite.*':7,'play_nh.*':sz//3+5,'v_fread.*':buf+2,'l_print.*':sum(lens)+3}, flags=FLAGS+(['--sat-solver','cadical'] if 'WRITE' in d else ['--z3']), **k)
def main():
    c = Check('C18')
    o = []
    for l in [(1,),(3,),(2,0,1),(1,3,2)]+([(4,4),(3,3,3)] if THOROUGH else []):
        o.append(ob('write_'+'_'.join(map(str,l)), l, 'WRITE'))
    for l in [(1,),(2,),(3,)]:
        o.append(ob('any_'+'_'.join(map(str,l)), l))
    for l in [(4,),(5,),(2,1),(3,1),(12,),(0,3),(0,0,2),(1,4,2),(3,3,3)]+([(8,8,8),(2,3,4,5,6),(20,)] if THOROUGH else []):
        for b in (8,9,11)+((6,7,10,13) if THOROUGH else ()):
            o.append(ob('read%d_'%b+'_'.join(map(str,l)), l, 'FIXED', buf=b))
    for l in [(3,2)]+([(6,4,3)] if THOROUGH else []):
        for t in range(0, 5*len(l)+sum(l)+1):
            o.append(ob('trunc_%s_%d'%('_'.join(map(str,l)),t), l, 'TRUNC=%d'%t, 'FIXED'))
    return c.main(o,
        assumptions=['stdio works: fread returns all there is, fwrite accepts everything (failures: C31)', 'the recording is no longer than 2^31 hundredths of a second, times in it do not go back'],
        bounds='writing: frames of up to %d bytes, up to 3 of them, all data and times symbolic; reading: one frame of up to 3 symbolic bytes, and several frames of fixed bytes with symbolic times, with BUFFER_SIZE scaled to 8 and more, so timestamps cross the blocks at every offset; truncation at every byte' % (4 if THOROUGH else 3),
        explanation='the nh_recorder writer is compared with the format byte by byte, the player is run on files in that format')
