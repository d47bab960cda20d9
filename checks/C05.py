from term import *
OPS = [('A','CUU'),('B','CUD'),('C','CUF'),('a','CUF'),('D','CUB'),('E','CNL'),('F','CPL'),('G','CHA'),('`','CHA'),
       ('d','VPA'),('H','CUP'),('f','CUP'),('r','STBM')]
def main():
    c = Check('C05'); c.learn()
    o = []
    sx, sy = (9, 7) if THOROUGH else (5, 4)
    for f, op in OPS:
        o.append(step('csi_%d' % ord(f), P, byte=f, op=op, sx=sx, sy=sy))
    for n, s, b, op in (('save',E,'7','SC'),('restore',E,'8','RC'),('bs',G,8,'BS'),('cr',G,13,'CR'),
                        ('kpam',E,'=','KPAM'),('kpnm',E,'>','KPNM'),('so',G,14,'SO'),('si',G,15,'SI')):
        o.append(step(n, s, byte=b, op=op, sx=sx, sy=sy))
    for n, b, tok, op in (('wrapon','h',7,'WRAPON'),('wrapoff','l',7,'WRAPOFF'),('curon','h',25,'CURON'),('curoff','l',25,'CUROFF')):
        o.append(step(n, Q, byte=b, op=op, sx=sx, sy=sy, extra=['NTOK=0','TOK0=%d' % tok]))
    return c.main(o)
