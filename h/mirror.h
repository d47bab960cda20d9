/* A listener that rebuilds the screen from the reported events only. */
static S M;
static int m_events, m_flush, m_bell, m_ok=1, m_cursor_ok=1, m_resized, m_osc;
static void m_put(int x, int y, ucs ch, uint64_t attr, int w)
{
    m_ok&= x>=0 && y>=0 && y<TSY && (w==1 || w==2) && x+w<=TSX && w==v_width(ch) && ch!=VT100_CJK_RIGHT;
    attr&=~VT100_ATTR_CJK;
    for (int j=0;j<TSY;j++) for (int i=0;i<TSX;i++) if (j==y)
    {
        if (i==x) M.c[j][i].ch=ch, M.c[j][i].attr=attr|(w==2?VT100_ATTR_CJK:0);
        if (w==2 && i==x+1) M.c[j][i].ch=VT100_CJK_RIGHT, M.c[j][i].attr=attr|VT100_ATTR_CJK;
    }
    orphans(&M);
}
static void m_char(tty t, int x, int y, ucs ch, uint64_t attr, int w) { m_events++; m_put(x, y, ch, attr, w); }
static void m_comb(tty t, int x, int y, ucs ch, uint64_t attr) { m_events++; m_ok&= x>=0 && x<TSX && y>=0 && y<TSY; }
static void m_cursor(tty t, int x, int y) { m_events++; M.cx=x; M.cy=y; m_cursor_ok&= x==t->cx && y==t->cy; }
static void m_clear(tty t, int x, int y, int len)
{
    m_events++;
    int from=y*TSX+x;
    m_ok&= x>=0 && x<=TSX && y>=0 && y<TSY && len>=0 && from+len<=NC;
    m_ok&= x+len<=TSX || from==0 || from+len==NC;   /* spilling clears reach an end of the screen */
    M.attr=t->attr;
    r_blank(&M, from, from+len);
}
static void m_scroll(tty t, int nl)
{
    m_events++;
    M.attr=t->attr;
    r_scroll(&M, t->s1, t->s2, nl);
}
static void m_flag(tty t, int f, int v)
{
    if (f==VT100_FLAG_CURSOR) M.cursor=!!v;
    if (f==VT100_FLAG_KPAD) M.kpad=!!v;
    if (f==VT100_FLAG_AUTO_WRAP) M.wrap=!!v;
}
static void m_flushed(tty t) { m_flush++; }
static void m_belled(tty t) { m_bell++; }
static void m_resize(tty t, int x, int y) { m_events++; m_resized++; }
static void mirror_attach(tty t, const S *s)
{
    M=*s;
    t->l_char=m_char; t->l_comb=m_comb; t->l_cursor=m_cursor; t->l_clear=m_clear; t->l_scroll=m_scroll;
    t->l_flag=m_flag; t->l_flush=m_flushed; t->l_bell=m_belled; t->l_resize=m_resize;
}
static void mirror_check(tty t, const S *before)
{
    S a; snap(&a, t);
    v_assert(m_ok, "every event lies within the screen and is well formed");
    v_assert(m_cursor_ok, "cursor events report the actual cursor");
    v_assert(same_cells(&a, &M), "a listener drawing only the reported events sees the same screen");
    v_assert((a.cx==before->cx && a.cy==before->cy) || m_events, "the cursor never moves without an event");
    v_assert(a.cursor==M.cursor && a.kpad==M.kpad && a.wrap==M.wrap, "flag changes are reported");
    v_assert(m_flush==1, "one flush per write");
#ifdef BELL
    v_assert(m_bell==BELL, "bell reported once");
#endif
}
