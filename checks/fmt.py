"""shared obligations for the recording formats"""
from vp import *
IOD = ['fread=v_fread','read=v_read','fwrite=v_fwrite','fputc=v_fputc','putc=v_fputc','fputs=v_fputs','fflush=v_fflush','fileno=v_fileno','fprintf=v_fprintf']
TIME = ['gettimeofday=v_gettimeofday','select=v_select']
def scale(n, *others):
    return [(r'^(\s*#\s*define\s+%s\s+)\w+' % o, r'\g<1>%d' % n) for o in ('BUFFER_SIZE',)+others]
def FMT(n=8, more=()):
    return ('libtty/formats.c', dict(defs=IOD+TIME+list(more), subs=scale(n)))
FLAGS = ['--bounds-check','--pointer-check','--max-field-sensitivity-array-size','400']
def cstr_(s):
    """a C string literal; octal, to be safe"""
    return '"' + ''.join(c if c.isalnum() or c in ' ,:;.[]{}()<>=+-*/' else '\\%03o""' % ord(c) for c in s) + '"'
