from fmt import *
D = ['%s=v_%s'%(x,x) for x in ('strncasecmp','strcasecmp','strlen')]
SRC = [('libtty/formats.c+libstream/compress.c+libtty/files.c+libstream/prefix.c', dict(defs=D, append='const char *h_comp(const char *name, int wr) { compress_info *ci=comp_from_ext(name, wr? compressors : decompressors); return ci? ci->name : 0; }'))]
def ob(n, N, post='', fb=0, fpre=None, nf=0, noname=0, **k):
    d = ['N=%d'%N, 'POST="%s"'%post, 'FB=%d'%fb, 'NF=%d'%nf, 'NONAME=%d'%noname] + (['EXPLICIT','FPRE="%s"'%fpre] if fpre is not None else [])
    return Ob(n, 's_names.c', SRC, defs=d, models=['fstubs.c'], libs=['-lz','-lbz2','-llzma','-lzstd','-lpthread'], unwind=16, flags=['--bounds-check','--pointer-check','--max-field-sensitivity-array-size','64'], **k)
def main():
    c = Check('C26')
    o = []
    for n in (0,1,3,4,5,7) + ((6,8,9,10) if THOROUGH else ()): o.append(ob('name%d'%n, n, fb=n%7))
    for p in ('z','Gz','.bZ2','.xz','.zst'):
        for q in ('st','cast-v1','ttyrec','nh') if THOROUGH else ('st','nh'):
            o.append(ob('n_%s_%s'%(q,p.replace('.','_')), 4+len(q+p), q+p, 1))
    for q in ('v1','ttyrec','-v1.xz','txt.gz.gz','.gz.txt'): o.append(ob('n_'+q.replace('.','_').replace('-','_'), 6+len(q), q, 2))
    for i,f in enumerate(('','l','ttyre','asciicast-','asciicas','nh_recorde','Auto','baudrat')):
        for k in (1,2) if i<2 else (1,): o.append(ob('f%d_%d'%(i,k), 3, 'st', i%7, f, len(f)+k))
    for i in range(7): o.append(ob('fb%d'%i, 1, '', i, noname=1))
    return c.main(o,
        bounds='names of up to 10 arbitrary bytes, or a few arbitrary bytes before the endings listed; explicit names with one or two arbitrary letters',
        assumptions=['all four compression libraries are configured, as in this build'],
        explanation='format and compression chosen, against the table in the documentation')
