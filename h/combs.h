/* Tables of combining marks (LAYOUT 1..4); validity afterwards. */
/* chains per cell, in slot numbers; 0-terminated */
#if NC!=6
# error layouts are for 3x2
#endif
#ifndef LAYOUT
# define LAYOUT 1
#endif
#if LAYOUT==1   /* a mark on every cell, one free slot */
# define NCMB 8
static const int lay[6][5]={{3},{1},{6},{2},{5},{4}}, layfree[]={7,0};
#elif LAYOUT==2 /* chains of 0 to 4 marks, two free slots */
# define NCMB 12
static const int lay[6][5]={{3,1},{0},{2,5,4,6},{7},{0},{8,9}}, layfree[]={11,10,0};
#elif LAYOUT==4 /* the free slots come before those in use */
# define NCMB 9
static const int lay[6][5]={{8},{7},{6},{5},{4},{3}}, layfree[]={1,2,0};
#else           /* a mark on every cell, none free: the table has to grow */
# define NCMB 7
static const int lay[6][5]={{3},{1},{6},{2},{5},{4}}, layfree[]={0};
#endif
static void havoc_combs(tty t)
{
    combc *k=malloc(NCMB*sizeof(combc));
    v_assume(k!=0);
    for (int i=1;i<NCMB;i++)
        { k[i].ch=v_u32(); v_assume(k[i].ch>=0x300 && k[i].ch<=0x36f); }
    k[0].ch=NCMB;
    uint32_t *p=&k[0].next;
    for (int i=0;layfree[i];i++) *p=layfree[i], p=&k[layfree[i]].next;
    *p=NCMB;
    for (int c=0;c<NC;c++)
    {
        p=&t->scr[c].comb;
        for (int i=0;i<4 && lay[c][i];i++) *p=lay[c][i], p=&k[lay[c][i]].next;
        *p=0;
    }
    t->combs=k;
}
/* every slot is in exactly one chain: that of one cell, or the free one */
static void inv_combs_n(tty t, int nc, int maxn)
{
    int ok=1, len=1;
    if (!t->combs)
    {
        for (int i=0;i<nc;i++) ok&= !t->scr[i].comb;
        v_assert(ok, "INV no marks without a table");
        return;
    }
    uint32_t n=t->combs[0].ch;
    int seen=0, cnt=0;
    v_assert(n>=1 && (int)n<=maxn, "INV size of the combining table");
    for (int c=0;c<nc;c++)
    {
        uint32_t j=t->scr[c].comb;
        int l=0;
        for (int s=0;s<5;s++) if (j)
        {
            if (j>=n || s==4) { ok=0; break; }
            ok&= !(seen>>j&1); seen|=1<<j; cnt++;
            j=t->combs[j].next;
        }
    }
    v_assert(ok, "INV every chain of marks is intact, unshared and at most 4 long");
    uint32_t j=t->combs[0].next;
    for (int s=0;s<maxn;s++) if (j<n)
    {
        ok&= j!=0 && !(seen>>j&1); seen|=1<<j; cnt++;
        j=t->combs[j].next;
    }
    v_assert(ok && j==n, "INV the free list is intact");
    v_assert(cnt==(int)n-1, "INV no combining slot leaks");
}
#define inv_combs(t, n) inv_combs_n(t, NC, n)
