from term import *
def main():
    c = Check('C04'); c.learn()
    o = []
    sx, sy = (5, 4) if THOROUGH else (4, 3)
    o += split_print('A', 1, G, byte='A', op='PRINT', extra=['PR_ASCII'], sx=sx, sy=sy)
    o += split_print('utf1', 1, G, byte=0x85, op='PRINT', extra=['PR_UTF=1'], sx=sx, sy=sy)
    o += split_print('utf2', 2, G, byte=0x85, op='PRINT', extra=['PR_UTF=2'], sx=sx, sy=sy)
    # every byte / code point, on a small screen
    o += [step('ascii', G, cls='(b)>=0x20&&(b)<0x7f', op='PRINT', extra=['PR_ASCII'], sx=2, sy=2, prio=3),
          step('cp437', G, cls='(b)>=0x20&&(b)!=0x7f', op='PRINT', extra=['PR_CP437'], sx=2, sy=2, prio=3),
          step('utf1_any', G, cls='(b)>=0x80&&(b)<0xc0', op='PRINT', extra=['PR_UTF=1'], sx=2, sy=2, prio=3),
          step('utf2_any', G, cls='(b)>=0x80&&(b)<0xc0', op='PRINT', extra=['PR_UTF=2'], sx=2, sy=2, prio=3)]
    for n, b, op in (('bs',8,'BS'),('ff',12,'FF'),('cr',13,'CR')):
        o.append(step(n, G, byte=b, op=op, sx=sx, sy=sy))
    for n, b, op in (('lf',10,'NEL'),('vt',11,'IND')):
        o += split_regions(n, G, byte=b, op=op, sx=sx, sy=sy)
    for cx in (0, 1, 6, 7, 8, 9, 10):
        o.append(step('tab_x%d' % cx, G, byte=9, op='TAB', sx=10, sy=1, extra=['FIX_CX=%d' % cx]))
    o.append(step('tab2', G, byte=9, op='TAB', sx=4, sy=2))
    for b, op in (('D','IND'),('E','NEL'),('M','RI')):
        o += split_regions('esc_'+b, E, byte=b, op=op, sx=sx, sy=sy)
    return c.main(o)
