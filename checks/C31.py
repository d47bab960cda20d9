from vp import *
D = ['%s=v_%s'%(x,x) for x in 'close pipe dup malloc free strerror strdup strcmp strncmp strncasecmp strlen strstr atexit'.split()] + \
    ['pthread_%s=v_pthread_%s'%(x,x) for x in 'create attr_init attr_destroy attr_setdetachstate mutex_init mutex_lock mutex_unlock cond_init cond_wait cond_signal cond_broadcast'.split()]
# CBMC can't choose between arrays declared without a size
AFTER = {'compress.h': '\nextern compress_info v_compressors[2], v_decompressors[2];\n#define compressors (&v_compressors[0])\n#define decompressors (&v_decompressors[0])\n'}
SRC = [('libstream/stream.c+libstream/prefix.c', dict(defs=D, after=AFTER))]
FL = ['--bounds-check','--pointer-check','--max-field-sensitivity-array-size','64']
def url(n, pre, sym, post=''):
    return Ob(n, 's_stream.c', SRC, defs=['MODE=1','SYM=%d'%sym,'PRE="%s"'%pre,'POST="%s"'%post], unwind=len(pre)+sym+len(post)+6+8, flags=FL)
def calls(w):
    k = len(w)
    return Ob('exit_'+w, 's_stream.c', SRC, defs=['MODE=2','CALLS=%d'%k,'WHAT="%s"'%w], unwind=8, unwindset={'finish_up.*':k+3}, flags=FL)
def main():
    c = Check('C31')
    o = [url('any%d'%n, '', n) for n in (0,1,2,4)+((5,6) if THOROUGH else ())]
    for i,(a,n,b) in enumerate((('file://',1,'.c'),('tcp://',2,''),('telnet://',2,''),('termcast://',2,''),('http',1,'//x'),('file:/',2,'y'),('t',3,'//h'),('a/b://',1,''),('x:',1,'/y'),('te',5,'//z'),('telnet',3,'q'),('-',1,''),('fil',3,'/x'))): o.append(url('url%d'%i, a, n, b))
    for w in ('0','1','2','3','00','10','20','30','01','02','03','000','030','301')+(('0000','3030','1203','333') if THOROUGH else ()): o.append(calls(w))
    return c.main(o,
        bounds='names of up to %d arbitrary bytes and the longer ones listed; up to %d streams at once, up to %d of the calls failing, threads running at every possible synchronization point' % (6 if THOROUGH else 4, 4 if THOROUGH else 3, 3 if THOROUGH else 1),
        assumptions=['threads switch at locks, creation, waiting and between calls; what filters do meanwhile does not touch the shared state', 'URLs are handled by CURL, as configured in this build'],
        explanation='open_stream() and filter() with models of descriptors, threads and the openers')
