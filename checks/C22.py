from fmt import *
def ob(n, mode, N, *d, buf=16, ch='', fl=[], **k):
    return Ob(n, 'f_auto.c', [FMT(buf)], defs=['MODE=%d'%mode,'N=%d'%N,'FMAX=%d'%(max(N,5)*3+4),'PMAX=%d'%(N+2),'CHUNKS="%s"'%ch,'CLOCK']+list(d),
        models=['fstubs_dos.c'], unwind=max(3*N+4,16), unwindset={'is_asciicast.*':14}, flags=FLAGS+fl, **k)
def main():
    c = Check('C22')
    o = []
    for l in [(1,),(3,0,2),(4,1),(5,),(9,2),(1,1,1)]+([(8,4,3),(2,0,0,5,1)] if THOROUGH else []):
        n = sum(l)+12*len(l)
        o.append(ob('ttyrec_'+'_'.join(map(str,l)), 1, n, 'LENS='+','.join(map(str,l)), buf=4))
    o.append(ob('ttyrec_chunks', 1, 27, 'LENS=1,2', ch='84231'))
    for us,l in ((0,65535),(999999,32768),(999999,32769),(1,40000)): o.append(ob('long%d'%l, 4, 3, 'US=%d'%us, 'LEN=%d'%l, buf=64))
    for n in (0,1,5,11):
        for i,ch in enumerate(('','13241','1')): o.append(ob('short%d_%d'%(n,i), 2, n, *(['READERR'] if i==1 else []), ch=ch))
    for w,v in (('US','1000000'),('US','0xffffffff'),('US','0x64636261'),('LEN','0'),('LEN','65536'),('LEN','0x80000000')):
        for n,ch in ((12,''),(17,'483')): o.append(ob('live_%s%s_%d'%(w,v,n), 2, n, w+'='+v, ch=ch))
    for n,ch in ((13,''),(18,'4441113'),(14,'84'))+(((30,'4441111999'),(45,'84939')) if THOROUGH else ()): o.append(ob('live%d_%s'%(n,ch), 2, n, 'US=0x20202020', ch=ch))
    o.append(ob('live_buf', 2, 18, 'US=0x7a7a7a7a', buf=13))
    o.append(ob('live_err', 2, 14, 'US=0x7a7a7a7a', 'READERR', ch='4444'))
    for n in (0,1,7,17): o.append(ob('onlylive%d'%n, 5, n, ch='213', buf=6))
    for i,t in enumerate(('{"version":_','{"version"_:','{_"version":','{__"version"','{"version": ','{"version" :','{ _"version"', '{   "version')): o.append(ob('asciicast%d'%i, 3, 15, 'TEMPLATE="%s"'%t.replace('"','\\"')))
    for ch in ('84','444','831'): o.append(ob('asciicast_'+ch, 3, 15, 'TEMPLATE="%s"'%'{"version":_'.replace('"','\\"'), ch=ch))
    for n in (0,1,59,60,61,121)+((240,) if THOROUGH else ()): o.append(ob('baudrate%d'%n, 6, n, buf=64))
    for n in (1,2,3)+((4,5) if THOROUGH else ()): o.append(ob('reclive%d'%n, 7, n, *(['GRAIN=4','SMASK=%d'%(3 if n<3 else 1)] if n>1 else []), fl=CADICAL))
    o.append(ob('recansi', 8, 5, 'FORMAT="ansi"'))
    o.append(ob('recnull', 8, 5, 'FORMAT="null"', 'NOTHING'))
    return c.main(o,
        assumptions=['whether `{"version"` followed by something else than `:1` or `:2` is taken for an asciicast is not claimed', 'the clock doesn\'t go backwards'],
        bounds='ttyrecs of up to %s frames of up to 9 bytes; other data of up to %d bytes, in the listed divisions into reads; BUFFER_SIZE scaled' % ((5,45) if THOROUGH else (3,18)),
        explanation='the automatic, live and baudrate players and the live and ansi recorders run with a model of files and the clock')
