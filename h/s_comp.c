/* compressing/decompressing filters, with codecs that do not change the data but
   take and give it in pieces of any size the library may choose */
#include "v.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <zstd.h>
#define GZ 1
#define BZ 2
#define XZ 3
#define ZS 4
#define FD_F 5      /* the compressed side */
#define FD_P 6      /* the plain side */
#define MX (N+8)
void h_run(int wr, const char *name, int f, int fd);
static unsigned char src[MX], dst[MX];
static int srcn, srcp, dstn, msgs, wfault, rfault, cfault, wfailed, wbroken, ended, closed_f, closed_p, opened, released, bad;
static int choice(int lo, int hi)   /* lo..hi */
{
    if (hi<=lo) return lo;
#ifdef GREEDY
    return hi;
#else
    int k=v_u8()&7;
    return k<lo? lo : k>hi? hi : k;
#endif
}
static void put(const unsigned char *b, int n)
{
    for (int i=0;i<BUF;i++) if (i<n) { if (dstn<MX) dst[dstn]=b[i]; dstn++; }
}
size_t v_strlen(const char *s) { size_t n=0; while (s[n]) n++; return n; }
/* ---- files ---- */
long v_read(int f, void *b, size_t n)
{
    v_assert(f==(WR? FD_P : FD_F), "reads from the right side");
    v_assert(n<=BUF, "reads no more than fits");
    if (rfault && rfault--==1) { ended=1; errno=EIO; return -1; }
    int k=srcn-srcp;
    if (k>(int)n) k=n;
    k=choice(k>0, k);
    for (int i=0;i<BUF;i++) if (i<k) ((unsigned char*)b)[i]=src[srcp+i];
    srcp+=k;
    if (!k) ended=1;
    return k;
}
long v_write(int f, const void *b, size_t n)
{
    v_assert(f==(WR? FD_F : FD_P), "writes to the right side");
    if (!WR && n>BUF) { msgs++; return n; }
    v_assert(n<=BUF, "writes no more than there is");
    v_assert(!wfailed, "nothing is written after a failure");
    if (n && wfault && wfault--==1) { wfailed=1; errno=EPIPE; return wbroken? 0 : -1; }
    put(b, n);
    return n;
}
int v_close(int f) { if (f==FD_F) closed_f++; else if (f==FD_P) closed_p++; else bad=1; return 0; }
/* ---- a codec holds what it took and did not give yet ---- */
static unsigned char hold[MX]; static int hin, hout;
static void take(const unsigned char *b, int n) { for (int i=0;i<BUF;i++) if (i<n) { hold[hin+i]=b[i]; } hin+=n; }
static void give(unsigned char *b, int n) { for (int i=0;i<BUF;i++) if (i<n) b[i]=hold[hout+i]; hout+=n; }
#if CODEC==GZ
static int gzh;
gzFile v_gzdopen(int f, const char *m)
{
    v_assert(f==FD_F && m[0]==(WR? 'w' : 'r'), "opens the right side");
    if (cfault==1) return 0;
    opened++;
    return (gzFile)&gzh;
}
int v_gzread(gzFile g, void *b, unsigned n)
{
    v_assert(n<=BUF, "reads no more than fits");
    if (rfault && rfault--==1) return -1;
    int k=srcn-srcp;
    if (k>(int)n) k=n;
    k=choice(k>0, k);
    for (int i=0;i<BUF;i++) if (i<k) ((unsigned char*)b)[i]=src[srcp+i];
    srcp+=k;
    return k;
}
int v_gzwrite(gzFile g, const void *b, unsigned n)
{
    v_assert(!wfailed && n<=BUF, "writes no more than there is");
    if (wfault && wfault--==1) { wfailed=1; return 0; }
    put(b, n);
    return n;
}
int v_gzclose(gzFile g) { released++; closed_f++; return 0; }
#elif CODEC==BZ
static int fileh, bzh, streams, s_end, ahead, isopen;
FILE *v_fdopen(int f, const char *m)
{
    v_assert(f==FD_F && m[0]==(WR? 'w' : 'r'), "opens the right side");
    return (FILE*)&fileh;
}
int v_fclose(FILE *f) { v_assert(f==(FILE*)&fileh, "closes the right file"); closed_f++; return 0; }
int v_getc(FILE *f) { return srcp<srcn+JUNK? 'x' : EOF; }
int v_ungetc(int c, FILE *f) { return c; }
static unsigned char unused[MX];
static const int len1=N1;
BZFILE *v_bzReadOpen(int *e, FILE *f, int verb, int small, void *u, int nu)
{
    if (cfault==1) { *e=BZ_MEM_ERROR; return 0; }
    v_assert(nu==ahead, "what was read ahead is passed on");
    for (int i=0;i<N;i++) if (i<nu) bad|= ((unsigned char*)u)[i]!=(unsigned char)(src[srcp+i]^0x80);
    streams++; opened++;
    s_end= srcp<len1? len1 : srcn;
    *e=BZ_OK;
    return (BZFILE*)&bzh;
}
int v_bzRead(int *e, BZFILE *b, void *p, int n)
{
    v_assert(n<=BUF, "reads no more than fits");
    if (srcp>=srcn && JUNK && streams>1) { *e=BZ_DATA_ERROR_MAGIC; return 0; }
    if (rfault && rfault--==1) { *e=BZ_DATA_ERROR; return 0; }
    int k=s_end-srcp;
    if (k>n) k=n;
    k=choice(k>0, k);
    for (int i=0;i<BUF;i++) if (i<k) ((unsigned char*)p)[i]=src[srcp+i];
    srcp+=k;
    *e=BZ_OK;
    if (srcp==s_end && (k<n || choice(0, 1)))
    {
        *e=BZ_STREAM_END;
        ahead=choice(0, srcn-srcp);
        for (int i=0;i<N;i++) if (i<ahead) unused[i]=src[srcp+i]^0x80;
    }
    return k;
}
void v_bzReadGetUnused(int *e, BZFILE *b, void **u, int *n) { *e=BZ_OK; *u=unused; *n=ahead; }
void v_bzReadClose(int *e, BZFILE *b) { if (b) { released++; *e=BZ_OK; } else *e=BZ_OK; }
BZFILE *v_bzWriteOpen(int *e, FILE *f, int l, int v, int w)
{
    if (cfault==1) { *e=BZ_MEM_ERROR; return 0; }
    opened++; *e=BZ_OK;
    return (BZFILE*)&bzh;
}
void v_bzWrite(int *e, BZFILE *b, void *p, int n)
{
    v_assert(!wfailed && n<=BUF, "writes no more than there is");
    if (wfault && wfault--==1) { wfailed=1; *e=BZ_IO_ERROR; return; }
    put(p, n);
    *e=BZ_OK;
}
void v_bzWriteClose(int *e, BZFILE *b, int a, unsigned *i, unsigned *o) { if (b) released++; *e=BZ_OK; }
#elif CODEC==XZ
static int codec_open(lzma_stream *s) { if (cfault==1) return LZMA_MEM_ERROR; opened++; return LZMA_OK; }
lzma_ret v_lzma_stream_decoder(lzma_stream *s, uint64_t lim, uint32_t fl) { v_assert(!WR, "decodes"); v_assert(fl&LZMA_CONCATENATED, "all streams"); return codec_open(s); }
lzma_ret v_lzma_easy_encoder(lzma_stream *s, uint32_t p, lzma_check c) { v_assert(WR, "encodes"); return codec_open(s); }
void v_lzma_end(lzma_stream *s) { released++; }
static int idle;
lzma_ret v_lzma_code(lzma_stream *s, lzma_action a)
{
    v_assert(s->avail_in<=BUF && s->avail_out<=BUF, "the codec is given its buffers");
    if (cfault>1 && cfault--==2) return LZMA_DATA_ERROR;
    int ti=choice(0, s->avail_in);
    int most=hin+ti-hout;
    if (most>(int)s->avail_out) most=s->avail_out;
    int go=choice(0, most);
    if (!ti && !go) { if (most) go=1; else if (s->avail_in) { ti=1; } }
    if (!ti && !go && a==LZMA_RUN && idle++) return LZMA_BUF_ERROR;
    if (ti || go) idle=0;
    take(s->next_in, ti); s->next_in+=ti; s->avail_in-=ti;
    give(s->next_out, go); s->next_out+=go; s->avail_out-=go;
    return a==LZMA_FINISH && !s->avail_in && hin==hout? LZMA_STREAM_END : LZMA_OK;
}
#else
size_t v_ZSTD_size(void) { return BUF; }
static int zh;
ZSTD_DStream *v_ZSTD_createDStream(void) { if (cfault==1) return 0; opened++; return (ZSTD_DStream*)&zh; }
ZSTD_CStream *v_ZSTD_createCStream(void) { if (cfault==1) return 0; opened++; return (ZSTD_CStream*)&zh; }
size_t v_ZSTD_initDStream(ZSTD_DStream *s) { return cfault==2? (size_t)-3 : 0; }
size_t v_ZSTD_initCStream(ZSTD_CStream *s, int l) { return cfault==2? (size_t)-3 : 0; }
unsigned v_ZSTD_isError(size_t e) { return e>(size_t)-100; }
size_t v_ZSTD_freeDStream(ZSTD_DStream *s) { released++; return 0; }
size_t v_ZSTD_freeCStream(ZSTD_CStream *s) { released++; return 0; }
static size_t code(ZSTD_outBuffer *o, ZSTD_inBuffer *i)
{
    v_assert(o->pos<=o->size && o->size==BUF && i->pos<=i->size && i->size<=BUF, "the codec is given its buffers");
    if (cfault>2 && cfault--==3) return (size_t)-3;
    int ai=i->size-i->pos, ao=o->size-o->pos;
    int ti=choice(0, ai);
    /* the input is not used up with room left for output and something to put there */
    int most=hin+ti-hout;
    if (most>ao) most=ao;
    int go=choice(0, most);
    if (!ti && !go) { if (ai) { ti=1; } }
    if (!WR && ti==ai) { go=hin+ti-hout; if (go>ao) go=ao; }
    take((const unsigned char*)i->src+i->pos, ti); i->pos+=ti;
    give((unsigned char*)o->dst+o->pos, go); o->pos+=go;
    return 1;
}
size_t v_ZSTD_decompressStream(ZSTD_DStream *s, ZSTD_outBuffer *o, ZSTD_inBuffer *i) { return code(o, i); }
size_t v_ZSTD_compressStream(ZSTD_CStream *s, ZSTD_outBuffer *o, ZSTD_inBuffer *i) { return code(o, i); }
size_t v_ZSTD_endStream(ZSTD_CStream *s, ZSTD_outBuffer *o)
{
    int ao=o->size-o->pos, k=hin-hout;
    if (k>ao) k=ao;
    give((unsigned char*)o->dst+o->pos, k); o->pos+=k;
    return hin-hout;
}
#endif
void v_main(void)
{
    srcn=N;
    for (int i=0;i<N;i++) src[i]=v_u8();
    wfault=WFAULT; rfault=RFAULT; cfault=CFAULT; wbroken=v_bool();
    static const char *names[]={0,"gzip","bzip2","xz","zstd"};
    h_run(WR, names[CODEC], FD_F, FD_P);
    v_assert(closed_f==1 && closed_p==1 && !bad, "both sides are closed, once");
    v_assert(released==opened, "the codec is released");
    int ok=1;
    v_assert(dstn<=N, "no more data than there was");
    for (int i=0;i<N;i++) if (i<dstn) ok&= dst[i]==src[i];
    v_assert(ok, "the data gets through unchanged and in order");
    if (!WFAULT && !RFAULT && !CFAULT) v_assert(dstn==N && !msgs, "all of it");
#if CODEC==GZ || CODEC==BZ
    if (!WR && !wfailed && (RFAULT && !rfault || CFAULT==1)) v_assert(msgs, "damage is reported");
#endif
    v_reach("end");
}
