/* the codecs an obligation does not use */
#define W(t) __attribute__((weak)) t
#define Z(x) W(void) *x(void) { return 0; }
#if CODEC!=1
Z(v_gzdopen) Z(v_gzread) Z(v_gzwrite) Z(v_gzclose)
#endif
#if CODEC!=2
Z(v_fdopen) Z(v_fclose) Z(v_getc) Z(v_ungetc) Z(v_bzReadOpen) Z(v_bzRead) Z(v_bzReadGetUnused) Z(v_bzReadClose) Z(v_bzWriteOpen) Z(v_bzWrite) Z(v_bzWriteClose)
#endif
#if CODEC!=3
Z(v_lzma_stream_decoder) Z(v_lzma_easy_encoder) Z(v_lzma_code) Z(v_lzma_end)
#endif
#if CODEC!=4
Z(v_ZSTD_size) Z(v_ZSTD_createDStream) Z(v_ZSTD_createCStream) Z(v_ZSTD_initDStream) Z(v_ZSTD_initCStream) Z(v_ZSTD_isError) Z(v_ZSTD_freeDStream) Z(v_ZSTD_freeCStream) Z(v_ZSTD_decompressStream) Z(v_ZSTD_compressStream) Z(v_ZSTD_endStream)
#endif
