From 02b4e8ae8868d2f27f9c5d6f6878bb7f9ac9ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 01/53] fix: ESC[@, ESC[P and ESC[X past the right edge left
 the parser mid-sequence

With the cursor past the last column there's nothing to insert, delete or
erase, but the early exit forgot to end the control sequence, thus eating
the text that follows.
---
 libtty/tty.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 5133d26..f28e2c6 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1002,6 +1002,7 @@ export void tty_write(tty vt, const char *buf, int len)
                 break;
 
             case '@':   // ESC[@ -> insert spaces
+                vt->state=ESnormal;
                 i=vt->tok[0];
                 if (i<=0)
                     i=1;
@@ -1030,6 +1031,7 @@ export void tty_write(tty vt, const char *buf, int len)
                 break;
 
             case 'P':   // ESC[P -> delete characters
+                vt->state=ESnormal;
                 i=vt->tok[0];
                 if (i<=0)
                     i=1;
@@ -1055,6 +1057,7 @@ export void tty_write(tty vt, const char *buf, int len)
                 break;
 
             case 'X':   // ESC[X -> erase to the right
+                vt->state=ESnormal;
                 i=vt->tok[0];
                 if (i<=0)
                     i=1;
-- 
2.43.0


From 2483a922e70de32039f0c54338ed56c3e8da912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 02/53] fix: tty_printf() wrote (and overread) the wrong buffer
 for long output

---
 libtty/tty.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index f28e2c6..dc8be16 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1273,7 +1273,7 @@ export void tty_printf(tty vt, const char *fmt, ...)
         va_end(ap);
         if (len<=0 || !bigstr)
             return;
-        tty_write(vt, buf, len);
+        tty_write(vt, bigstr, len);
         free(bigstr);
     }
     else if (len>=BUFFER_SIZE)
@@ -1283,7 +1283,7 @@ export void tty_printf(tty vt, const char *fmt, ...)
         va_start(ap, fmt);
         len=vsnprintf(bigstr, len+1, fmt, ap);
         va_end(ap);
-        tty_write(vt, buf, len);
+        tty_write(vt, bigstr, len);
         free(bigstr);
     }
     else
-- 
2.43.0


From ddfe0b42e33318cc87e73719f81730f578327e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 03/53] fix: tty_copy() isn't supposed to copy event callbacks

The documentation promises so.  Having both terminals share l_data means a
double l_free() and events of the copy delivered as if coming from the original.
---
 libtty/tty.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index dc8be16..0f16ab0 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -197,6 +197,18 @@ export tty tty_copy(tty vt)
             goto drop_scr;
         memcpy(nvt->combs, vt->combs, NCOMBS*sizeof(combc));
     }
+    nvt->l_data=0;
+    nvt->l_char=0;
+    nvt->l_comb=0;
+    nvt->l_cursor=0;
+    nvt->l_clear=0;
+    nvt->l_scroll=0;
+    nvt->l_flag=0;
+    nvt->l_osc=0;
+    nvt->l_resize=0;
+    nvt->l_flush=0;
+    nvt->l_bell=0;
+    nvt->l_free=0;
     nvt->title=vt->title? strdup(vt->title) : 0;
     if (vt->oscbuf)
         if ((nvt->oscbuf=malloc(MAXOSC)))
-- 
2.43.0


From 2a76f46d8a3dd99b7c25f1d1a2ae306ec6649ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 04/53] fix: an aborted OSC leaked its string into the next one

CAN, SUB, a reset or an invalid command number end an OSC without disposing
of the buffer; the next OSC without a string of its own would then use it,
and one with a string would leak it.
---
 libtty/tty.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 0f16ab0..ac01dea 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -649,6 +649,8 @@ export void tty_write(tty vt, const char *buf, int len)
 
             case ']':
                 vt->state=ESosc;
+                free(vt->oscbuf);
+                vt->oscbuf=0;
                 vt->tok[0]=0;
                 break;
 
-- 
2.43.0


From eed87e3b44eb4a6d4b5c20b0aaa0320ef31b5f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 05/53] fix: truncated ESC[38m/ESC[48m used parameters of an
 earlier sequence

---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index ac01dea..8e19285 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -644,7 +644,7 @@ export void tty_write(tty vt, const char *buf, int len)
             case '[':
                 vt->state=ESsquare;
                 vt->ntok=0;
-                vt->tok[0]=0;
+                memset(vt->tok, 0, sizeof(vt->tok));
                 break;
 
             case ']':
-- 
2.43.0


From 77210da64465cb5a5e495b26665c50db445b0e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 06/53] fix: the BOM is U+FEFF rather than U+FFEF

---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 8e19285..1a039fd 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -583,7 +583,7 @@ export void tty_write(tty vt, const char *buf, int len)
 
                 if (c<0xA0) // underlong or C1 controls
                     c=0xFFFD;
-                if (c==0xFFEF)  // BOM
+                if (c==0xFEFF)  // BOM
                     continue;
 
                 /* The following code deals with malformed UTF-16
-- 
2.43.0


From d796c1f0790209e08092e1aaa0f1b5f38cd3391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 07/53] fix: tty_init(,,resizable) ignored even values

The field is a single bit.
---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 1a039fd..3296128 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -107,7 +107,7 @@ export tty tty_init(int sx, int sy, int resizable)
         return 0;
 
     memset(vt, 0, sizeof(struct tty));
-    vt->allow_resize=resizable;
+    vt->allow_resize=!!resizable;
     tty_reset(vt);
     if (sx && sy)
         tty_resize(vt, sx, sy);
-- 
2.43.0


From 467ad3765ca57e5d9c6e3ced75dec8aba16019e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 08/53] fix: a terminal reset kept the old colour on screen,
 and stale saved state

ESC c cleared the screen before dropping the current attribute, and failed to
reset the attribute ESC 8 would restore and a pending lead surrogate.
---
 libtty/tty.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 3296128..44a3300 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -257,11 +257,11 @@ static void tty_kill_comb_region(tty vt, int st, int l)
 
 export void tty_reset(tty vt)
 {
+    vt->attr=vt->save_attr=0;
     tty_clear_region(vt, 0, SX*SY, true);
     CX=CY=vt->save_cx=vt->save_cy=0;
     vt->s1=0;
     vt->s2=SY;
-    vt->attr=0;
     vt->state=ESnormal;
     vt->opt_auto_wrap=1;
     vt->opt_cursor=1;
@@ -269,6 +269,7 @@ export void tty_reset(tty vt)
     vt->G=vt->save_G=1<<1; // G0: normal, G1: vt100 graphics
     vt->curG=vt->save_curG=0;
     vt->utf_count=0;
+    vt->utf_surrogate=0;
 }
 
 static void tty_scroll(tty vt, int nl)
-- 
2.43.0


From 98542ca005fce06e56433100195a5678402e5c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 09/53] fix: wrapping a line below the scrolling region jumped
 into that region

Both text in the region and what's below got garbled; a newline there does the
right thing.
---
 libtty/tty.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 44a3300..46175e4 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -418,11 +418,13 @@ static inline void tty_write_char(tty vt, ucs c)
         {
             CX=0;
             CY++;
-            if (CY>=vt->s2)
+            if (CY==vt->s2)
             {
                 CY=vt->s2-1;
                 SCROLL(1);
             }
+            else if (CY>=SY)
+                CY=SY-1;
         }
         else
             CX=SX-w;
-- 
2.43.0


From fcee43c1409e1b1da15ad788b625a59248aa1a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 10/53] fix: ESC[r moved the cursor without telling l_cursor

---
 libtty/tty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 46175e4..e1d0f11 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -942,6 +942,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     vt->s2=vt->tok[1];
                     CX=0;
                     CY=vt->s1;
+                    L_CURSOR;
                 }
                 vt->state=ESnormal;
                 break;
-- 
2.43.0


From 8f6530ef8b41713cc64d0d78aaaef51d8f539f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 11/53] fix: ESC[@ and ESC[P reported right halves of CJK
 characters to l_char

They're not characters anyone could draw.
---
 libtty/tty.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index e1d0f11..45797a6 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1042,9 +1042,10 @@ export void tty_write(tty vt, const char *buf, int len)
                 tty_clear_region(vt, CY*SX+CX, i, false);
                 if (vt->l_char)
                     for (int j=CX;j<SX;j++)
-                        vt->l_char(vt, j, CY, vt->scr[CY*SX+j].ch,
-                                              vt->scr[CY*SX+j].attr,
-                                              mk_wcwidth(vt->scr[CY*SX+j].ch));
+                        if (vt->scr[CY*SX+j].ch!=VT100_CJK_RIGHT)
+                            vt->l_char(vt, j, CY, vt->scr[CY*SX+j].ch,
+                                                  vt->scr[CY*SX+j].attr,
+                                                  mk_wcwidth(vt->scr[CY*SX+j].ch));
                 vt->state=ESnormal;
                 break;
 
@@ -1063,7 +1064,7 @@ export void tty_write(tty vt, const char *buf, int len)
                 for (int j=CX+i;j<SX;j++)
                 {
                     vt->scr[CY*SX+j-i]=vt->scr[CY*SX+j];
-                    if (vt->l_char)
+                    if (vt->l_char && vt->scr[CY*SX+j].ch!=VT100_CJK_RIGHT)
                     {
                         vt->l_char(vt, j-i, CY, vt->scr[CY*SX+j].ch,
                                                 vt->scr[CY*SX+j].attr,
-- 
2.43.0


From 6ce2ce900dd695f29af8771a32b64d9858d1ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 12/53] fix: ESC[P didn't report the blanks it shifts in to the
 listener

---
 libtty/tty.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 45797a6..da5bafe 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1072,6 +1072,8 @@ export void tty_write(tty vt, const char *buf, int len)
                     }
                 }
                 tty_clear_region(vt, CY*SX+SX-i, i, false);
+                if (vt->l_clear)
+                    vt->l_clear(vt, SX-i, CY, i);
                 vt->state=ESnormal;
                 break;
 
-- 
2.43.0


From ced5e0ee96675a5c9d55966443942c4a0dda2e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 13/53] fix: a terminal reset changed flags without telling
 l_flag

---
 libtty/tty.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index da5bafe..ceddbd7 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -255,6 +255,15 @@ static void tty_kill_comb_region(tty vt, int st, int l)
         tty_kill_comb(vt, c++);
 }
 
+#define reset_flag(vt, opt, v, f)               \
+    do                                          \
+    {                                           \
+        bool was=(vt)->opt;                     \
+        (vt)->opt=(v);                          \
+        if (was!=(v) && (vt)->l_flag)           \
+            (vt)->l_flag((vt), (f), (v));       \
+    } while (0)
+
 export void tty_reset(tty vt)
 {
     vt->attr=vt->save_attr=0;
@@ -263,9 +272,9 @@ export void tty_reset(tty vt)
     vt->s1=0;
     vt->s2=SY;
     vt->state=ESnormal;
-    vt->opt_auto_wrap=1;
-    vt->opt_cursor=1;
-    vt->opt_kpad=0;
+    reset_flag(vt, opt_auto_wrap, 1, VT100_FLAG_AUTO_WRAP);
+    reset_flag(vt, opt_cursor, 1, VT100_FLAG_CURSOR);
+    reset_flag(vt, opt_kpad, 0, VT100_FLAG_KPAD);
     vt->G=vt->save_G=1<<1; // G0: normal, G1: vt100 graphics
     vt->curG=vt->save_curG=0;
     vt->utf_count=0;
-- 
2.43.0


From 6405954cf26181210b66c81787928674e2d2f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 14/53] fix: resizing that cut a CJK character left its
 combining marks on the blank

---
 libtty/tty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index ceddbd7..962b190 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -144,6 +144,7 @@ export int tty_resize(tty vt, int nsx, int nsy)
             for (y=0;y<SY;y++)
                 if (vt->scr[y*SX+nsx].ch==VT100_CJK_RIGHT)
                 {
+                    tty_kill_comb(vt, &vt->scr[y*SX+nsx-1]);
                     vt->scr[y*SX+nsx-1].ch=' ';
                     vt->scr[y*SX+nsx-1].attr&=~VT100_ATTR_CJK;
                 }
-- 
2.43.0


From 832829b465051ee28730537590c5b12577fc0d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:57 +0000
Subject: [PATCH 15/53] fix: ESC[?7h and ESC[?7l didn't report the flag to the
 listener

---
 libtty/tty.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 962b190..679aefb 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1197,7 +1197,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     switch (vt->tok[i])
                     {
                     case 7:
-                        vt->opt_auto_wrap=1;
+                        FLAG(opt_auto_wrap, VT100_FLAG_AUTO_WRAP, 1);
                         break;
                     case 25:
                         FLAG(opt_cursor, VT100_FLAG_CURSOR, 1);
@@ -1213,7 +1213,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     switch (vt->tok[i])
                     {
                     case 7:
-                        vt->opt_auto_wrap=0;
+                        FLAG(opt_auto_wrap, VT100_FLAG_AUTO_WRAP, 0);
                         break;
                     case 25:
                         FLAG(opt_cursor, VT100_FLAG_CURSOR, 0);
-- 
2.43.0


From d34458be001acf1e285679548e2aab60fdab17db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:41 +0000
Subject: [PATCH 16/53] fix: ESC[1J and ESC[1K are supposed to erase the
 cursor's cell, too

Per ECMA-48 and every terminal vtvt may write to, "from the start" erases
include the active position.
---
 libtty/tty.c     | 17 ++++++++---------
 libtty/vtredir.c |  4 ++--
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 679aefb..ede06dd 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -965,10 +965,10 @@ export void tty_write(tty vt, const char *buf, int len)
                         cjk_damage_left(vt, CX, true);
                     CLEAR(CX, CY, SX*SY-(CY*SX+CX));
                     break;
-                case 1: // to cursor
-                    if (CX>0)
-                        cjk_damage_right(vt, CX-1, true);
-                    CLEAR(0, 0, CY*SX+CX);
+                case 1: // to cursor, inclusive
+                    i=(CX<SX)? CX+1 : SX;
+                    cjk_damage_right(vt, i-1, true);
+                    CLEAR(0, 0, CY*SX+i);
                     break;
                 case 2: // whole screen
                     CLEAR(0, 0, SX*SY);
@@ -985,11 +985,10 @@ export void tty_write(tty vt, const char *buf, int len)
                     cjk_damage_left(vt, CX, true);
                     CLEAR(CX, CY, SX-CX);
                     break;
-                case 1: // to cursor
-                    if (CX<=0)
-                        break;
-                    cjk_damage_right(vt, CX-1, true);
-                    CLEAR(0, CY, CX);
+                case 1: // to cursor, inclusive
+                    i=(CX<SX)? CX+1 : SX;
+                    cjk_damage_right(vt, i-1, true);
+                    CLEAR(0, CY, i);
                     break;
                 case 2: // whole line
                     CLEAR(0, CY, SX);
diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index a18b30e..0dd8a01 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -156,13 +156,13 @@ static void vtvt_clear(tty vt, int x, int y, int len)
     setattr(vt, vt->attr);
     if (x==0 && y==0 && len==SX*SY)
         fprintf(DATA->f, "\e[2J");
-    else if (x==0 && y==0 && len==CY*SX+CX)
+    else if (x==0 && y==0 && CX<SX && len==CY*SX+CX+1)
         fprintf(DATA->f, "\e[1J");
     else if (x==CX && y==CY && len==SX*SY-CY*SX-CX)
         fprintf(DATA->f, "\e[0J");
     else if (x==0 && y==CY && len==SX)
         fprintf(DATA->f, "\e[2K");
-    else if (x==0 && y==CY && len==CX)
+    else if (x==0 && y==CY && CX<SX && len==CX+1)
         fprintf(DATA->f, "\e[1K");
     else if (x==CX && y==CY && len==SX-CX)
         fprintf(DATA->f, "\e[0K");
-- 
2.43.0


From 34a2161cced93b01b5e0b4a31214f18b0d11c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:49 +0000
Subject: [PATCH 17/53] fix: vtvt lost track of the cursor after CJK
 characters, and drew below the screen

---
 libtty/vtredir.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 0dd8a01..e027366 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -95,7 +95,7 @@ static void build_vt100graph(void)
 
 static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
 {
-    if (x>=SX || y>SY)
+    if (x>=SX || y>=SY)
         return;
     if (x!=CX || y!=CY)
         vtvt_cursor(vt, x, y);
@@ -117,12 +117,12 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
         else
             fprintf(DATA->f, "?");
     }
-    CX++;
+    CX+=width;
 }
 
 static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
 {
-    if (x>=SX || y>SY)
+    if (x>=SX || y>=SY)
         return;
     if (x+1!=CX || y!=CY) // cursor should be _after_ the glyph
         vtvt_cursor(vt, x+1, y);
-- 
2.43.0


From 47951d36ef80087b3a577c832568d00c7001402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:55 +0000
Subject: [PATCH 18/53] fix: vtvt cleared wrong cells if the screen sizes
 differ, or for empty clears

---
 libtty/vtredir.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index e027366..ee46d97 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -1,5 +1,6 @@
 #include "config.h"
 #include <stdio.h>
+#include <stdbool.h>
 #include <unistd.h>
 #include <stdlib.h>
 #include <string.h>
@@ -152,26 +153,32 @@ export void vtvt_dump(tty vt)
 static void vtvt_clear(tty vt, int x, int y, int len)
 {
     int c;
+    // the emulated screen can have a different size than the real one
+    bool inside=CX>=0 && CX<SX && CY>=0 && CY<SY;
+    bool same=vt->sx==SX && vt->sy==SY;
 
     setattr(vt, vt->attr);
-    if (x==0 && y==0 && len==SX*SY)
+    if (same && x==0 && y==0 && len==SX*SY)
         fprintf(DATA->f, "\e[2J");
-    else if (x==0 && y==0 && CX<SX && len==CY*SX+CX+1)
+    else if (same && inside && x==0 && y==0 && len==CY*SX+CX+1)
         fprintf(DATA->f, "\e[1J");
-    else if (x==CX && y==CY && len==SX*SY-CY*SX-CX)
+    else if (same && inside && x==CX && y==CY && len==SX*SY-CY*SX-CX)
         fprintf(DATA->f, "\e[0J");
-    else if (x==0 && y==CY && len==SX)
+    else if (same && inside && x==0 && y==CY && len==SX)
         fprintf(DATA->f, "\e[2K");
-    else if (x==0 && y==CY && CX<SX && len==CX+1)
+    else if (same && inside && x==0 && y==CY && len==CX+1)
         fprintf(DATA->f, "\e[1K");
-    else if (x==CX && y==CY && len==SX-CX)
+    else if (same && inside && x==CX && y==CY && len==SX-CX)
         fprintf(DATA->f, "\e[0K");
     else
         while (len)
         {
-            vtvt_cursor(vt, x, y);
-            c=(len>SX-x)? SX-x : len;
-            fprintf(DATA->f, "\e[%dX", c);
+            c=(len>vt->sx-x)? vt->sx-x : len;
+            if (c && x<SX && y<SY)
+            {
+                vtvt_cursor(vt, x, y);
+                fprintf(DATA->f, "\e[%dX", c);
+            }
             len-=c;
             x=0;
             y++;
-- 
2.43.0


From 4dd1fc96727b492ab3f57c5dc056377dd5c129ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:02 +0000
Subject: [PATCH 19/53] fix: vtvt scrolled in lines of the wrong colour, and
 left the cursor at the top

---
 libtty/vtredir.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index ee46d97..168ea42 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -188,12 +188,13 @@ static void vtvt_clear(tty vt, int x, int y, int len)
 
 static void vtvt_scroll(tty vt, int nl)
 {
+    setattr(vt, vt->attr); // for the lines that come in
     if (nl>0)
-        fprintf(DATA->f, "\e[0m\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, vt->s2, vt->s1+1, nl);
+        fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, vt->s2, vt->s1+1, nl);
     else if (nl<0)
-        fprintf(DATA->f, "\e[0m\e[%d;%dr\e[%d;1f\e[%dL\e[r", vt->s1+1, vt->s2, vt->s1+1, -nl);
+        fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dL\e[r", vt->s1+1, vt->s2, vt->s1+1, -nl);
     CX=CY=-1;
-    DATA->attr=0;
+    vtvt_cursor(vt, vt->cx, vt->cy);
 
 //  vtvt_dump(vt);
 }
-- 
2.43.0


From c4ccb39d44d824d405fbae84b715533cdf77c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:09 +0000
Subject: [PATCH 20/53] fix: vtvt_dump lost combining marks and flushed a wrong
 file

---
 libtty/vtredir.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 168ea42..4f68af7 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -143,7 +143,11 @@ export void vtvt_dump(tty vt)
         for (x=0; x<vt->sx; x++)
         {
             if (ch->ch != VT100_CJK_RIGHT)
+            {
                 vtvt_char(vt, x, y, ch->ch, ch->attr, mk_wcwidth(ch->ch));
+                for (uint32_t c=ch->comb; c; c=vt->combs[c].next)
+                    vtvt_comb(vt, x, y, vt->combs[c].ch, ch->attr);
+            }
             ch++;
         }
     }
@@ -262,6 +266,6 @@ export void vtvt_attach(tty vt, FILE *f, int dump)
     {
         fprintf(DATA->f, "\ec");
         vtvt_dump(vt);
-        fflush(stdout);
+        fflush(DATA->f);
     }
 }
-- 
2.43.0


From 27d3f16a53c87981ee188ed097df8b8b5c320832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 21/53] fix: vtvt could set attributes with more parameters
 than we ourselves take

---
 libtty/vtredir.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 4f68af7..7a79a0d 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -31,15 +31,15 @@ static void print_color(FILE *f, uint32_t c, int bg)
     {
     case 1<<24:
         if (c&8)
-            fprintf(f, ";%d%u", 9+bg, c&7);
+            fprintf(f, "\e[%d%um", 9+bg, c&7);
         else
-            fprintf(f, ";%d%u", 3+bg, c&7);
+            fprintf(f, "\e[%d%um", 3+bg, c&7);
         break;
     case 2<<24:
-        fprintf(f, ";%d8;5;%u", 3+bg, c&0xff);
+        fprintf(f, "\e[%d8;5;%um", 3+bg, c&0xff);
         break;
     case 3<<24:
-        fprintf(f, ";%d8;2;%u;%u;%u", 3+bg, (c>>16)&0xff, (c>>8)&0xff, c&0xff);
+        fprintf(f, "\e[%d8;2;%u;%u;%um", 3+bg, (c>>16)&0xff, (c>>8)&0xff, c&0xff);
     }
 }
 
@@ -64,9 +64,10 @@ static void setattr(tty vt, uint64_t attr)
         fprintf(DATA->f, ";7");
     if (attr&VT100_ATTR_STRIKE)
         fprintf(DATA->f, ";9");
+    fprintf(DATA->f, "m");
+    // all of this in one sequence could exceed VT100_MAXTOK parameters
     print_color(DATA->f, attr, 0);
     print_color(DATA->f, attr>>32, 1);
-    fprintf(DATA->f, "m");
 }
 
 static void vtvt_cursor(tty vt, int x, int y)
-- 
2.43.0


From 8578a718c76fd6973f49c26a684ea2d0f28e92bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 22/53] fix: vtvt left the cursor at the end of the line after
 ESC[@

The mirrored terminal's cursor stayed where the last reported character was
drawn rather than where the emulated one has it.
---
 libtty/vtredir.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 7a79a0d..5c3e24d 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -223,6 +223,8 @@ static void vtvt_resized(tty vt, int sx, int sy)
 
 static void vtvt_flush(tty vt)
 {
+    // not every change to the screen comes with a cursor move
+    vtvt_cursor(vt, vt->cx, vt->cy);
     fflush(DATA->f);
 }
 
-- 
2.43.0


From 51e1588f16aba9e4008479a31919e684ec665c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 23/53] fix: vtvt used scrolling regions that don't fit the
 real terminal

If the emulated screen is taller than the real one, the region could end past
the last line.  Real terminals ignore that, and thus we'd scroll the lines
outside the region as well.
---
 libtty/vtredir.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 5c3e24d..67da32e 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -193,11 +193,17 @@ static void vtvt_clear(tty vt, int x, int y, int len)
 
 static void vtvt_scroll(tty vt, int nl)
 {
+    int s2=vt->s2<SY? vt->s2 : SY; // a region past the end may get ignored
+
     setattr(vt, vt->attr); // for the lines that come in
-    if (nl>0)
-        fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, vt->s2, vt->s1+1, nl);
+    if (vt->s1>=s2)
+        ;
+    else if (vt->s1+1==s2) // too small for a region
+        fprintf(DATA->f, "\e[%d;1f\e[2K", s2);
+    else if (nl>0)
+        fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, s2, vt->s1+1, nl);
     else if (nl<0)
-        fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dL\e[r", vt->s1+1, vt->s2, vt->s1+1, -nl);
+        fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dL\e[r", vt->s1+1, s2, vt->s1+1, -nl);
     CX=CY=-1;
     vtvt_cursor(vt, vt->cx, vt->cy);
 
-- 
2.43.0


From a3dc7abcac8d74f146f2cd50c413e110c56395b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 24/53] fix: times that add up to a whole second weren't
 carried

This left tv_usec==1000000, making the live recorder's select() fail.
---
 libtty/formats.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index a2e524e..ba179a8 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -94,7 +94,7 @@ Will be called when the recording ends.
 # define little_endian(x) ((uint32_t)(x))
 #endif
 
-#define tadd(t, d)      {if (((t).tv_usec+=(d).tv_usec)>1000000)        \
+#define tadd(t, d)      {if (((t).tv_usec+=(d).tv_usec)>=1000000)       \
                             (t).tv_usec-=1000000, (t).tv_sec++;         \
                          (t).tv_sec+=(d).tv_sec;                        \
                         }
-- 
2.43.0


From d969d304e9f4c08a455cd852d8f9417681704cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 25/53] fix: nh_recorder player mishandled timestamps split
 between blocks

It read past the data, moved it the wrong way and then continued at a wrong
place of the buffer.
---
 libtty/formats.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index ba179a8..cd61792 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -340,25 +340,25 @@ static void play_nh_recorder(FILE *f,
     void *arg, const struct timeval *cont)
 {
     char buf[BUFFER_SIZE];
-    int b,i,i0;
+    int b,i,i0,rest;
     struct timeval tv;
     uint32_t t,tp;
 
     t=0;
-    i=b=0;
-    while ((b=fread(buf+b-i, 1, BUFFER_SIZE-(b-i), f))>0)
+    rest=0;
+    while ((b=fread(buf+rest, 1, BUFFER_SIZE-rest, f))>0)
     {
-        i0=0;
+        b+=rest;
+        i0=rest=0;
         for (i=0;i<b;i++)
             if (!buf[i])
             {
                 if (i0<i)
                     synch_print(buf+i0, i-i0, arg);
-                if (i+4>b)      // timestamp happened on a block boundary
+                if (i+5>b)      // timestamp happened on a block boundary
                 {
-                    if (b<5)    // incomplete last timestamp
-                        return;
-                    memmove(buf+i, buf, b-i);
+                    rest=b-i;
+                    memmove(buf, buf+i, rest);
                     goto block_end;
                 }
                 else
-- 
2.43.0


From d2e9c3a3886e0d7acc55b064c341e510a877f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 26/53] fix: nh_recorder recordings had every chunk one delay
 too early

The player -- and the timestamp of 0 we start the file with -- say a timestamp
comes before the data it's for.
---
 libtty/formats.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index cd61792..c219824 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -399,9 +399,10 @@ static void record_nh_recorder(FILE *f, void* state, const struct timeval *tm, c
     i=(tm->tv_sec-((struct timeval*)state)->tv_sec)*100+
       (tm->tv_usec-((struct timeval*)state)->tv_usec)/10000;
 
-    fwrite(buf, 1, len, f);
+    // the timestamp applies to what follows it
     fwrite("\0", 1, 1, f);
     fwrite(&i, 1, 4, f);
+    fwrite(buf, 1, len, f);
 }
 
 static void record_nh_recorder_finish(FILE *f, void* state)
-- 
2.43.0


From 806ccbbd01d10ea5e81271d761800350704f7cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 27/53] fix: nh_recorder recordings with NULs in the data were
 unreadable

There's no way to escape them, and terminals ignore NULs anyway.
---
 libtty/formats.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index c219824..5323668 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -402,7 +402,9 @@ static void record_nh_recorder(FILE *f, void* state, const struct timeval *tm, c
     // the timestamp applies to what follows it
     fwrite("\0", 1, 1, f);
     fwrite(&i, 1, 4, f);
-    fwrite(buf, 1, len, f);
+    for (;len>0; buf++, len--)
+        if (*buf)       // would be taken for a timestamp
+            fputc(*buf, f);
 }
 
 static void record_nh_recorder_finish(FILE *f, void* state)
-- 
2.43.0


From 0d6aaa749f4316bd12643f58b379f7080799a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 28/53] fix: auto-detected streams shorter than 12 bytes were
 dropped

---
 libtty/formats.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libtty/formats.c b/libtty/formats.c
index 5323668..90c04b2 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -460,7 +460,15 @@ static void play_auto(FILE *f,
     {
         // must use unbuffered I/O here, to not spoil it for play_live()
         if ((len=read(fileno(f), ((char*)&tth)+got, 12-got))<=0)
+        {
+            if (got)    // too short for a header: raw data
+            {
+                gettimeofday(&tv, 0);
+                synch_init_wait(&tv, arg);
+                synch_print((char*)&tth, got, arg);
+            }
             return;
+        }
         got+=len;
     } while (got<12);
     if (little_endian(tth.usec)<1000000 &&
-- 
2.43.0


From f87ac9c98595e06d00fe4d512d51807c78614a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 29/53] fix: asciicast recorder didn't escape backslashes

---
 libtty/asciicast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 7f062c7..48bb18f 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -548,6 +548,8 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
                 fprintf(f, "\\u%04x", *buf);
         else if (*buf=='"')
             fputs("\\\"", f);
+        else if (*buf=='\\')
+            fputs("\\\\", f);
         else
             fputc(*buf, f);
         buf++;
-- 
2.43.0


From 9c74d43e77f229c36921e8cbe7a7864ee6908500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 30/53] fix: asciicast v1 recorder lost the delay after a frame
 at 0:0

Without a date, all times are relative to 0:0 thus there's no need to special
case the first frame.
---
 libtty/asciicast.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 48bb18f..37d83a6 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -528,10 +528,7 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
         else
             as->need_comma = true;
         struct timeval ts = *tm;
-        if (as->ts.tv_sec || as->ts.tv_usec)
-            tsub(ts, as->ts);
-        else
-            ts.tv_sec = ts.tv_usec = 0;
+        tsub(ts, as->ts);
         as->ts = *tm;
         fprintf(f, "[%f, \"", ts.tv_sec+ts.tv_usec*0.000001);
     }
-- 
2.43.0


From e176baea828796325e7db4f0f3904860af187d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 31/53] fix: asciicast recorder leaked memory on frames with
 just part of a character

---
 libtty/asciicast.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 37d83a6..1572ccf 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -519,7 +519,10 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
     as->putf[skip]=0;
 
     if (!len)
+    {
+        free(buf2);
         return;
+    }
 
     if (as->version == 1)
     {
@@ -552,8 +555,7 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
         buf++;
     }
     fprintf(f, as->version==1? "\"]" : "\"]\n");
-    if (buf2)
-        free(buf2);
+    free(buf2);
 }
 
 void record_asciicast_finish(FILE *f, void* state)
-- 
2.43.0


From 2b0beacf13ebaf44b2df40787c10335fbbbb84b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 32/53] fix: asciicast player printed events other than output

Recorded input, markers and resizes would be all blasted to the screen.
---
 libtty/asciicast.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 1572ccf..e8ceb85 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -377,12 +377,14 @@ body:
         if (c != ',')
             FAIL("Malformed asciicast: no comma after duration.\n");
 
+        bool output = true;
         if (version == 2)
         {
             EAT();
             if (c != '"')
                 FAIL("Malformed asciicast: expected event type.\n");
             eat_string(f, buf);
+            output = !strcmp(buf, "o"); // skip input, markers, etc
             EAT();
             if (c != ',')
                 FAIL("Malformed asciicast: no comma after event type.\n");
@@ -391,7 +393,9 @@ body:
         EAT();
         if (c !='"')
             FAIL("Malformed asciicast: expected even-data string.\n");
-        synch_print(buf, eat_string(f, buf) - buf, arg);
+        char *bend = eat_string(f, buf);
+        if (output)
+            synch_print(buf, bend-buf, arg);
 
         EAT();
         if (c !=']')
-- 
2.43.0


From 7fdabd920987cb4a4c1d0b346705c285670ed485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 33/53] fix: asciicast player gave unnormalized delays if time
 goes backwards

---
 libtty/asciicast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index e8ceb85..9122095 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -371,6 +371,8 @@ body:
         }
         tv.tv_sec =  delay/1000000;
         tv.tv_usec = delay%1000000;
+        if (tv.tv_usec < 0)     // v2 times are absolute, may go backwards
+            tv.tv_usec+=1000000, tv.tv_sec--;
         synch_wait(&tv, arg);
 
         EAT();
-- 
2.43.0


From 83ac02e15f4926f00a944c5989e7e7aeab2bd0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 34/53] fix: asciicasts with no events were rejected

---
 libtty/asciicast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 9122095..b2a4bb2 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -325,7 +325,7 @@ skip_field:
                 ungetc(c, f);
                 goto expect_field;
             }
-            if (c == '[' && bracket_level == -1)
+            if ((c == '[' || c == EOF) && bracket_level == -1)
             {
                 ungetc(c, f);
                 goto body;
-- 
2.43.0


From 9bc8a40f01010651a71ee7782fd8c5d893563cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 35/53] fix: asciicasts with empty or deeply nested objects in
 the header were rejected

---
 libtty/asciicast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index b2a4bb2..51e4d17 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -337,6 +337,9 @@ skip_field:
             if (version == 2 && !bracket_level)
                 goto body;
             bracket_level--;
+            EAT();
+            if (c != ',')
+                ungetc(c, f);
             break;
         default:
             FAIL("Not an asciicast: bad header.\n");
-- 
2.43.0


From 8e9fe821c632a8fde235fc497d26918fcdb8a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 36/53] fix: dosrecorder notes weren't read properly, and could
 overflow the stack

A misplaced parenthesis meant just one byte of the header got read; the
position of the note wasn't checked.
---
 libtty/dosrecorder.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libtty/dosrecorder.c b/libtty/dosrecorder.c
index b5fbf03..c7cdf5d 100644
--- a/libtty/dosrecorder.c
+++ b/libtty/dosrecorder.c
@@ -171,8 +171,10 @@ void play_dosrecorder(FILE *f,
 
         if (note)
         {
-            if (gzread(g, &nh, sizeof(nh)!=sizeof(nh)))
+            if (gzread(g, &nh, sizeof(nh))!=sizeof(nh))
                 goto end;
+            if (nh.x+nh.w>80 || nh.y+nh.h>25)
+                goto end;       // corrupted file
             for (i=0; i<nh.h; i++)
                 gzread(g, &scr[nh.y+i][nh.x], nh.w*sizeof(attrchar));
             if (nh.titlelen>80)
-- 
2.43.0


From 14c371085457e03fe1bc8810b7b696f9203fffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 37/53] fix: dosrecorder player mishandled attribute 0xff and
 NUL characters

The former got confused with "no attribute yet", the latter took no space on
the screen.
---
 libtty/dosrecorder.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libtty/dosrecorder.c b/libtty/dosrecorder.c
index c7cdf5d..14fa509 100644
--- a/libtty/dosrecorder.c
+++ b/libtty/dosrecorder.c
@@ -19,7 +19,7 @@
 // format: dosrecorder
 
 #define MAXSCREENS 256
-typedef struct { char c,a; } attrchar, screen[25][80];
+typedef struct { unsigned char c,a; } attrchar, screen[25][80];
 
 static char rgbbgr[8]="04261537";
 
@@ -49,7 +49,7 @@ static inline void wrchar(attrchar *ch, char **b)
 {
     // Unicode is 32-bit, charset_cp437[] only 16-bit as all its entries fit
     // into the range.  Thus, hush the compiler warning.
-    TF8(bp, charset_cp437[(unsigned char)ch->c]);
+    TF8(bp, ch->c? charset_cp437[ch->c] : ' '); // NUL is shown as a blank
 }
 #pragma GCC diagnostic pop
 #undef bp
-- 
2.43.0


From 886e5f3440f540498eef054e06bc5390b2d0873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:48 +0000
Subject: [PATCH 38/53] fix: asciicast: long numbers and exponents could
 overflow or hang

A delay of 1e2000000000 took ages, and any number too long was undefined
behaviour.
---
 libtty/asciicast.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 51e4d17..c7e6f43 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -80,6 +80,12 @@ static bool eat_colon(NIH_FILE *f)
     return true;
 }
 
+// no sane number is any longer, avoid overflows
+static int64_t add_digit(int64_t x, int c)
+{
+    return (x<100000000000) ? x*10+c-'0' : x;
+}
+
 static int64_t eat_int(NIH_FILE *f)
 {
     int64_t x=0;
@@ -87,7 +93,7 @@ static int64_t eat_int(NIH_FILE *f)
     {
         int c=getc(f);
         if (c>='0' && c<='9')
-            x=x*10+c-'0';
+            x=add_digit(x, c);
         else
         {
             ungetc(c, f);
@@ -103,7 +109,7 @@ static int64_t eat_float(NIH_FILE *f)
     int64_t x=0;
     c=getc(f);
     while (c>='0' && c<='9')
-        x=x*10+c-'0', c=getc(f);
+        x=add_digit(x, c), c=getc(f);
     x*=1000000;
 
     if (c=='.')
@@ -124,12 +130,16 @@ static int64_t eat_float(NIH_FILE *f)
             c=getc(f), minus=true;
         int e=0;
         while (c>='0' && c<='9')
-            e=e*10+c-'0', c=getc(f);
+        {
+            if (e<1000)
+                e=e*10+c-'0';
+            c=getc(f);
+        }
         if (minus)
-            while (e-->0)
+            while (x && e-->0)
                 x/=10;
         else
-            while (e-->0)
+            while (x && x<=INT64_MAX/10 && e-->0)
                 x*=10;
     }
 
-- 
2.43.0


From e98ce71eaee062dbdb6b23b759fbd201f249d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 39/53] fix: [::1] without a port: the last group was taken for
 one

---
 libstream/url_tcp.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 3f024e6..3b4443f 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -41,18 +41,16 @@ static const char *resolve_host(char *host, int port, struct addrinfo **ai)
         if (!cp)
             return _("Unmatched [ in the host part.");
         *cp++=0;
-        if (*cp)
-        {
-            if (*cp==':')
-                goto getrport;
-            else
-                return _("Cruft after the [host name]."); // IPv6-style host name
-        }
+        if (!*cp)
+            cp=0;
+        else if (*cp!=':')
+            return _("Cruft after the [host name]."); // IPv6-style host name
     }
+    else
+        cp=strrchr(host, ':');
     // extract :port
-    if ((cp=strrchr(host, ':')))
+    if (cp)
     {
-    getrport:
         *cp=0;
         cp++;
         i=strtoul(cp, &cp, 10);
-- 
2.43.0


From 40bd0933a625c033cb099eba3a21ee705a29da32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 40/53] fix: a negative port number was let through and
 overflowed portstr[]

---
 libstream/url_tcp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 3b4443f..662f50a 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -53,8 +53,8 @@ static const char *resolve_host(char *host, int port, struct addrinfo **ai)
     {
         *cp=0;
         cp++;
-        i=strtoul(cp, &cp, 10);
-        if (*cp || !i || i>65535)
+        i=strtol(cp, &cp, 10);
+        if (*cp || i<=0 || i>65535)
             return _("Invalid port number");
         port=i;
     }
-- 
2.43.0


From c8fe1f1a76dd8c328a3f1d30129d1427756f8ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 41/53] fix: a socket leaked for every address that can't be
 connected to

---
 libstream/url_tcp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 662f50a..91189a1 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -94,7 +94,12 @@ static int connect_out(struct addrinfo *ai)
             if (errno == EINTR)
                 goto intr;
             else
+            {
+                int err=errno;
+                close(sock);
+                errno=err;
                 continue;
+            }
         return sock;
     }
     return -1;  // errno will be valid here
-- 
2.43.0


From fe343a89258c86d84a273ae092f300e1281970e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 42/53] fix: an over-long host:port was cut, and connected to
 elsewhere

---
 libstream/url_tcp.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 91189a1..a6806e5 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -135,18 +135,23 @@ int connect_tcp(const char *url, int port, const char **rest, const char **error
 {
     char host[128], *cp;
     struct addrinfo *ai;
-    int fd;
+    int fd, len;
 
     if ((cp=strchr(url, '/')))
     {
-        snprintf(host, sizeof(host), "%.*s", (int)(cp-url), url);
+        len=snprintf(host, sizeof(host), "%.*s", (int)(cp-url), url);
         *rest=cp;
     }
     else
     {
-        snprintf(host, sizeof(host), "%s", url);
+        len=snprintf(host, sizeof(host), "%s", url);
         *rest="";
     }
+    if (len<0 || len>=(int)sizeof(host))
+    {
+        *error=_("Host name too long");
+        return -1;
+    }
     if ((*error=resolve_host(host, port, &ai)))
         return -1;
     if ((fd=connect_out(ai))==-1)
-- 
2.43.0


From 1efb4464b9f158aec8c713e1a01ccc0b10116d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 43/53] fix: xz, zstd: an I/O error was taken for a read of
 2^64-1 bytes

---
 libstream/compress.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index e9e884e..a7860fa 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -191,9 +191,12 @@ static void read_xz(int f, int fd, const char *arg)
 
     xz.avail_in  = 0;
 
+    ssize_t s;
     while (xz.avail_in
-           || (xz.avail_in = read(f, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
+           || (s = read(f, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
     {
+        if (!xz.avail_in)
+            xz.avail_in = s;
         xz.next_out  = outbuf;
         xz.avail_out = sizeof(outbuf);
         if (lzma_code(&xz, LZMA_RUN) != LZMA_OK)
@@ -234,9 +237,12 @@ static void write_xz(int f, int fd, const char *arg)
 
     xz.avail_in  = 0;
 
+    ssize_t s;
     while (xz.avail_in
-           || (xz.avail_in = read(fd, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
+           || (s = read(fd, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
     {
+        if (!xz.avail_in)
+            xz.avail_in = s;
         xz.next_out  = outbuf;
         xz.avail_out = sizeof(outbuf);
         if (lzma_code(&xz, LZMA_RUN) != LZMA_OK)
@@ -287,7 +293,7 @@ static void read_zstd(int f, int fd, const char *arg)
     if (ZSTD_isError(ZSTD_initDStream(stream)))
         goto zstd_r_error;
 
-    size_t s;
+    ssize_t s;
     while ((s = read(f, (void*)zin.src, inbufsz)) > 0)
     {
         zin.size = s;
@@ -330,7 +336,7 @@ static void write_zstd(int f, int fd, const char *arg)
     if (ZSTD_isError(ZSTD_initCStream(stream, 3)))
         goto zstd_w_error;
 
-    size_t s;
+    ssize_t s;
     while ((s = read(fd, (void*)zin.src, inbufsz)) > 0)
     {
         zin.size = s;
-- 
2.43.0


From dc912c08e328471b5708ef8d5db2ecad10772acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 44/53] fix: zstd: output still held by the decoder at the end
 of input was lost

---
 libstream/compress.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index a7860fa..47763cb 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -298,7 +298,7 @@ static void read_zstd(int f, int fd, const char *arg)
     {
         zin.size = s;
         zin.pos = 0;
-        while (zin.pos < zin.size)
+        do
         {
             zout.pos = 0;
             size_t w = ZSTD_decompressStream(stream, &zout, &zin);
@@ -306,7 +306,8 @@ static void read_zstd(int f, int fd, const char *arg)
                 goto zstd_r_error;
             if (write(fd, zout.dst, zout.pos) != (ssize_t)zout.pos)
                 goto zstd_r_error;
-        }
+        } // a full buffer means there may be more to come
+        while (zin.pos < zin.size || zout.pos == zout.size);
     }
 
 zstd_r_error:
-- 
2.43.0


From 09ce802a4aff44a76bc0a754a1e96d8a2fc03154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 45/53] fix: zstd: the stream was left unfinished if its end
 didn't fit the buffer

---
 libstream/compress.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index 47763cb..dfc6b8f 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -353,10 +353,17 @@ static void write_zstd(int f, int fd, const char *arg)
         }
     }
 
-    zout.pos = 0;
-    ZSTD_endStream(stream, &zout);
-    // no way to handle an error here
-    write(f, zout.dst, zout.pos);
+    size_t left;
+    do
+    {
+        zout.pos = 0;
+        left = ZSTD_endStream(stream, &zout);
+        if (ZSTD_isError(left))
+            goto zstd_w_error;
+        if (write(f, zout.dst, zout.pos) != (ssize_t)zout.pos)
+            goto zstd_w_error;
+    }
+    while (left);
 
 zstd_w_error:
     ZSTD_freeCStream(stream);
-- 
2.43.0


From 699553e7e31535388189fca0863587ab2432f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 46/53] fix: bzip2: appended streams weren't read; the file was
 never closed

---
 libstream/compress.c | 84 +++++++++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 24 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index dfc6b8f..daed52a 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -50,54 +50,88 @@ VISIBILITY_DISABLE
 static void read_bz2(int f, int fd, const char *arg)
 {
     BZFILE* b;
-    int     nBuf;
-    char    buf[BUFFER_SIZE];
+    FILE*   in;
+    int     nBuf, nUnused=0, first=1, c;
+    char    buf[BUFFER_SIZE], unused[BZ_MAX_UNUSED];
+    void*   u;
     int     bzerror;
 
-    b = BZ2_bzReadOpen(&bzerror, fdopen(f,"rb"), 0, 0, NULL, 0);
-    if (bzerror != BZ_OK)
+    if (!(in=fdopen(f,"rb")))
     {
-        BZ2_bzReadClose(&bzerror, b);
-        // error
         ERRORMSG(_("Invalid/corrupt .bz2 file.\n"));
+        close(f);
         close(fd);
         return;
     }
 
-    bzerror = BZ_OK;
-    while (bzerror == BZ_OK)
+    do  // there may be several streams, one after another
     {
-        nBuf = BZ2_bzRead(&bzerror, b, buf, BUFFER_SIZE);
-        if (write(fd, buf, nBuf)!=nBuf)
+        b = BZ2_bzReadOpen(&bzerror, in, 0, 0, unused, nUnused);
+        if (bzerror != BZ_OK)
         {
+            // error
+            ERRORMSG(_("Invalid/corrupt .bz2 file.\n"));
+            break;
+        }
+
+        while (bzerror == BZ_OK)
+        {
+            nBuf = BZ2_bzRead(&bzerror, b, buf, BUFFER_SIZE);
+            if (bzerror != BZ_OK && bzerror != BZ_STREAM_END)
+                break;
+            if (write(fd, buf, nBuf)!=nBuf)
+            {
+                BZ2_bzReadClose(&bzerror, b);
+                fclose(in);
+                close(fd);
+                return;
+            }
+        }
+        if (bzerror != BZ_STREAM_END)
+        {
+            // garbage past the last stream gets ignored
+            if (first || bzerror != BZ_DATA_ERROR_MAGIC)
+            {
+                ERRORMSG("\033[0m");
+                ERRORMSG(_("bzip2: Error during decompression.\n"));
+            }
             BZ2_bzReadClose(&bzerror, b);
-            close(fd);
-            return;
+            break;
         }
-    }
-    if (bzerror != BZ_STREAM_END)
-    {
-        BZ2_bzReadClose(&bzerror, b);
-        // error
-        ERRORMSG("\033[0m");
-        ERRORMSG(_("bzip2: Error during decompression.\n"));
-    }
-    else
+
+        BZ2_bzReadGetUnused(&bzerror, b, &u, &nUnused);
+        memcpy(unused, u, nUnused);
         BZ2_bzReadClose(&bzerror, b);
+        first = 0;
+        if (!nUnused)
+        {
+            if ((c=getc(in))==EOF)
+                break;
+            ungetc(c, in);
+        }
+    } while (1);
+    fclose(in);
     close(fd);
 }
 
 static void write_bz2(int f, int fd, const char *arg)
 {
     BZFILE* b;
+    FILE*   out;
     int     nBuf;
     char    buf[BUFFER_SIZE];
     int     bzerror;
 
-    b = BZ2_bzWriteOpen(&bzerror, fdopen(f,"wb"), 9, 0, 0);
+    if (!(out=fdopen(f,"wb")))
+    {
+        close(f);
+        close(fd);
+        return;
+    }
+    b = BZ2_bzWriteOpen(&bzerror, out, 9, 0, 0);
     if (bzerror != BZ_OK)
     {
-        BZ2_bzWriteClose(&bzerror, b, 0,0,0);
+        fclose(out);
         // error
         // the writer will get smitten with sigpipe
         close(fd);
@@ -110,12 +144,14 @@ static void write_bz2(int f, int fd, const char *arg)
         BZ2_bzWrite(&bzerror, b, buf, nBuf);
         if (bzerror!=BZ_OK)
         {
-            BZ2_bzWriteClose(&bzerror, b, 0,0,0);
+            BZ2_bzWriteClose(&bzerror, b, 1,0,0);
+            fclose(out);
             close(fd);
             return;
         }
     }
     BZ2_bzWriteClose(&bzerror, b, 0,0,0);
+    fclose(out);
     close(fd);
 }
 #endif
-- 
2.43.0


From 77bf60037ce259f6944c3845d9a7e3c1affc35ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 47/53] fix: filter() left the error message unset if it had no
 pipe or memory

---
 libstream/stream.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libstream/stream.c b/libstream/stream.c
index 4357cc5..d5f2c1a 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -1,5 +1,6 @@
 #include <string.h>
 #include <unistd.h>
+#include <errno.h>
 #include "config.h"
 #include "compat.h"
 #include "error.h"
@@ -100,9 +101,15 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
     thread_t th;
 
     if (pipe(p))
+    {
+        *error=strerror(errno);
         goto failpipe;
+    }
     if (!(fdata=malloc(sizeof(struct filterdata))))
+    {
+        *error=strerror(errno);
         goto failfdata;
+    }
     fdata->fdin=fd;
     fdata->fdout=p[!wr];
     fdata->func=func;
-- 
2.43.0


From 3fed2c3bd8d3a38ee4af38d10ad5774ceece42b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:03 +0000
Subject: [PATCH 48/53] fix: open_stream() on an open fd crashed without a
 name, or on failure without *error

---
 libstream/stream.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libstream/stream.c b/libstream/stream.c
index d5f2c1a..3baec4d 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -149,12 +149,12 @@ export int open_stream(int fd, const char* url, int mode, const char **error)
     compress_info *ci;
     const char *dummy;
 
+    if (!error)
+        error=&dummy;
     if (fd==-1)
     {
         if (!url)
             return -1;
-        if (!error)
-            error=&dummy;
         if (!strcmp(url, "-"))
             fd=dup(wr? 1 : 0);
         else if (match_prefix(url, "file://"))
@@ -175,7 +175,7 @@ export int open_stream(int fd, const char* url, int mode, const char **error)
     if (fd==-1)
         return -1;
 
-    ci=comp_from_ext(url, wr? compressors : decompressors);
+    ci=url? comp_from_ext(url, wr? compressors : decompressors) : 0;
     if (!ci)
         return fd;
     return filter(ci->comp, fd, wr, 0, error);
-- 
2.43.0


From c91e69414e6717de32e5f84456abd3d24836fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 49/53] fix: termcast: the reader was left hanging if the
 choice of session could not be sent

---
 libstream/url_termcast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libstream/url_termcast.c b/libstream/url_termcast.c
index 5be743a..e7b50f3 100644
--- a/libstream/url_termcast.c
+++ b/libstream/url_termcast.c
@@ -123,7 +123,7 @@ static void termcast(int in, int out, const char *arg)
 found:
     free(rest);
     if (write(sock, &ses, 1) != 1)
-        return;
+        goto end;
     while ((len=read(in, buf, BUFSIZ))>0)
         if (write(out, buf, len)!=len)
             break;;
-- 
2.43.0


From 13af075b5b989711dcda938c32edbfd98d356819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 50/53] fix: termcast: the socket was closed twice, the pipe
 never

---
 libstream/url_termcast.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/libstream/url_termcast.c b/libstream/url_termcast.c
index e7b50f3..4fa2934 100644
--- a/libstream/url_termcast.c
+++ b/libstream/url_termcast.c
@@ -4,6 +4,9 @@
 #include <stdlib.h>
 #include <string.h>
 #include <errno.h>
+#ifdef HAVE_SYS_SOCKET_H
+# include <sys/socket.h>
+#endif
 #include "export.h"
 #include "stream.h"
 #include "gettext.h"
@@ -131,6 +134,10 @@ found:
     // Alas, there's no real way to detect when the session ends, other
     // than a server disconnect.
 end:
+    shutdown(sock, SHUT_RDWR);  // the other descriptor belongs to telnet()
+    while (read(in, buf, BUFSIZ)>0)
+        {}; // let it finish
+    close(in);
     close(sock);
     close(out);
 }
@@ -138,7 +145,7 @@ end:
 
 int open_termcast(const char* url, int mode, const char **error)
 {
-    int fd, fdmid;
+    int fd, fdmid, sock;
     const char *rest;
 
     if (mode&SM_WRITE)
@@ -155,10 +162,25 @@ int open_termcast(const char* url, int mode, const char **error)
         *error=_("What termcast session to look for?");
         return -1;
     }
+    if ((sock=dup(fd))==-1)
+    {
+        close(fd);
+        *error=strerror(errno);
+        return -1;
+    }
     if ((fdmid=filter(telnet, fd, !!(mode&SM_WRITE), 0, error))==-1)
+    {
+        close(sock);
         return -1;
+    }
     struct filterarg *fa = malloc(sizeof(struct filterarg));
-    fa->sock=fd;
+    fa->sock=sock;
     fa->rest=strdup(rest);
-    return filter(termcast, fdmid, !!(mode&SM_WRITE), (const char*)fa, error);
+    if ((fd=filter(termcast, fdmid, !!(mode&SM_WRITE), (const char*)fa, error))==-1)
+    {
+        close(sock);
+        free(fa->rest);
+        free(fa);
+    }
+    return fd;
 }
-- 
2.43.0


From 1c9db5d2ce8d0c9ddf3340a353f04f9dfb454c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 51/53] fix: curl: the URL was used after open_stream()
 returned

---
 libstream/url_curl.c | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/libstream/url_curl.c b/libstream/url_curl.c
index 54a6010..51deb56 100644
--- a/libstream/url_curl.c
+++ b/libstream/url_curl.c
@@ -2,6 +2,9 @@
 #ifdef HAVE_CURL_CURL_H
 
 #include <unistd.h>
+#include <stdlib.h>
+#include <string.h>
+#include <errno.h>
 #include <curl/curl.h>
 #include "export.h"
 #include "stream.h"
@@ -19,7 +22,11 @@ static void curl_r(int in, int out, const char *arg)
     CURLcode res;
     FILE *f = fdopen(out, "w");
     if (!f)
-        return close(out), (void)0;
+    {
+        free((char*)arg);
+        close(out);
+        return;
+    }
 
     curl_global_init(CURL_GLOBAL_ALL);
     curl_handle = curl_easy_init();
@@ -30,6 +37,7 @@ static void curl_r(int in, int out, const char *arg)
     if (res != CURLE_OK)
         fprintf(f, "CURL failed: %s\n", curl_easy_strerror(res));
     curl_easy_cleanup(curl_handle);
+    free((char*)arg);
     fclose(f);
 }
 
@@ -39,7 +47,11 @@ static void curl_w(int in, int out, const char *arg)
     CURLcode res;
     FILE *f = fdopen(out, "r");
     if (!f)
-        return close(out), (void)0;
+    {
+        free((char*)arg);
+        close(out);
+        return;
+    }
 
     curl_global_init(CURL_GLOBAL_ALL);
     curl_handle = curl_easy_init();
@@ -51,11 +63,15 @@ static void curl_w(int in, int out, const char *arg)
     if (res != CURLE_OK)
         fprintf(f, "curl_easy_perform() failed: %s\n", curl_easy_strerror(res));
     curl_easy_cleanup(curl_handle);
+    free((char*)arg);
     fclose(f);
 }
 
 int open_curl(const char* url, int mode, const char **error)
 {
+    char *arg;
+    int fd;
+
     if (mode == SM_REPREAD)
     {
         *error = "Watching CURL URLs is not (yet?) supported.";
@@ -68,9 +84,19 @@ int open_curl(const char* url, int mode, const char **error)
         return -1;
     }
 
+    // the filter may well outlive our caller's string
+    if (!(arg=strdup(url)))
+    {
+        *error = strerror(errno);
+        return -1;
+    }
+
     if (mode&SM_WRITE)
-        return filter(curl_w, -1, 1, url, error);
+        fd=filter(curl_w, -1, 1, arg, error);
     else
-        return filter(curl_r, -1, 0, url, error);
+        fd=filter(curl_r, -1, 0, arg, error);
+    if (fd==-1)
+        free(arg);
+    return fd;
 }
 #endif
-- 
2.43.0


From 68f2ab536b53a7346de69ac480359cfc920a788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:15 +0000
Subject: [PATCH 52/53] fix: termrec sent signals to the process numbered as
 its pty's descriptor

instead of to whatever runs there.
---
 rec/termrec.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index 85b1709..0d3f346 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -42,7 +42,10 @@ static void sigwinch(int s)
 
 static void sigpass(int s)
 {
-    kill(ptym, s);
+    pid_t pg=tcgetpgrp(ptym);
+
+    if (pg>0)
+        kill(-pg, s);
 }
 
 static void tty_restore(void);
-- 
2.43.0


From dabcc85b66186a10b58bd103fac1e2f95162b249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:35 +0000
Subject: [PATCH 53/53] fix: termrec -a without a name could never create its
 file

---
 common/open_out.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/open_out.c b/common/open_out.c
index 744a4e9..4e1fa21 100644
--- a/common/open_out.c
+++ b/common/open_out.c
@@ -69,7 +69,7 @@ int open_out(char **file_name, const char *format_ext, int append)
         {
             if (asprintf(file_name, "%s%s%s%s", date, add, format_ext, append?"":comp_ext) == -1)
                 abort();
-            fd=open(*file_name, (append?O_APPEND:O_CREAT|O_EXCL)|O_WRONLY|O_BINARY, 0666);
+            fd=open(*file_name, O_CREAT|(append?O_APPEND:O_EXCL)|O_WRONLY|O_BINARY, 0666);
             // We do some autoconf magic to exclude O_BINARY when inappropriate.
             if (fd!=-1)
                 goto finish;
-- 
2.43.0

