from vp import *
RN = ['%s=v_%s'%(x,x) for x in 'strlen read write close fdopen fclose getc ungetc gzdopen gzread gzwrite gzclose lzma_stream_decoder lzma_easy_encoder lzma_code lzma_end ZSTD_createDStream ZSTD_createCStream ZSTD_initDStream ZSTD_initCStream ZSTD_isError ZSTD_freeDStream ZSTD_freeCStream ZSTD_decompressStream ZSTD_compressStream ZSTD_endStream'.split()] \
   + ['BZ2_bz%s=v_bz%s'%(x,x) for x in 'ReadOpen Read ReadGetUnused ReadClose WriteOpen Write WriteClose'.split()] + ['ZSTD_%s=v_ZSTD_size'%x for x in 'DStreamInSize DStreamOutSize CStreamInSize CStreamOutSize'.split()]
APP = '\nvoid h_run(int wr, const char *name, int f, int fd) { compress_info *ci=wr? compressors : decompressors; for (;ci->name;ci++) if (!strcmp(ci->name, name)) { ci->comp(f, fd, 0); return; } }\n'
STUB = '\nint match_suffix(const char *txt, const char *ext, int skip) { return 0; }\n'
def ob(n, codec, wr, N=3, buf=2, wf=0, rf=0, cf=0, n1=None, junk=0, greedy=0, **k):
    base = dict(zip(('gz','bz','xz','zs'),(1,2,3,4)))[codec]
    stubs = []
    return Ob('%s_%s_%s'%(codec,'w' if wr else 'r',n), 's_comp.c', [('libstream/compress.c+libstream/prefix.c', dict(defs=RN, append=APP, subs=[(r'^(\s*#\s*define\s+BUFFER_SIZE\s+)\w+', r'\g<1>%d'%buf)]))],
        defs=['CODEC=%d'%base,'WR=%d'%wr,'N=%d'%N,'BUF=%d'%buf,'WFAULT=%d'%wf,'RFAULT=%d'%rf,'CFAULT=%d'%cf,'N1=%d'%(N if n1 is None else n1),'JUNK=%d'%junk]+(['GREEDY'] if greedy else []),
        models=['s_comp_none.c'], unwind=2*N+6, unwindset={'h_run.*|strcmp.*':8, 'v_strlen.*':48, '(read|write)_(bz2|zstd).*':N+3}, flags=['--bounds-check','--pointer-check','--max-field-sensitivity-array-size','64'], **k)
def main():
    c = Check('C27')
    o = []
    for codec in ('gz','bz','xz','zs'):
        for wr in (0,1):
            for n in (0,1,2,3) + ((4,5) if THOROUGH else ()): o.append(ob('n%d'%n, codec, wr, n))
            o.append(ob('b3', codec, wr, 4 if codec=='gz' or THOROUGH else 3, 3))
            for i in (1,2): o.append(ob('wf%d'%i, codec, wr, 3, wf=i))
            for i in (1,2): o.append(ob('rf%d'%i, codec, wr, 3, rf=i))
            for i in (1,2,3,4) if codec in ('xz','zs') else (1,): o.append(ob('cf%d'%i, codec, wr, 3, cf=i))
    o.append(ob('two', 'bz', 0, 2, n1=1))
    if THOROUGH:
        for n1 in (1,2): o.append(ob('two%d'%n1, 'bz', 0, 3, n1=n1))
    o.append(ob('junk', 'bz', 0, 2, junk=1))
    return c.main(o,
        bounds='up to 4 bytes of data, buffers scaled to 2 or 3 bytes; at most one fault per run, at the points listed',
        assumptions=['the compression libraries themselves are not checked: codecs are modelled as the identity, taking and giving pieces of every size their documentation allows','corruption is reported for gzip and bzip2 only (the others stop)'],
        explanation='every schedule of short reads and codec progress through the real filter loops')
