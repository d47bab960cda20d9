/* Zero-width characters of M. Kuhn's wcwidth (Unicode 5.0: Mn, Me, Cf but U+00AD, plus U+1160..11FF, U+200B) */
static const uint32_t zero_width[][2]={{0x300,0x36f},{0x483,0x486},{0x488,0x489},{0x591,0x5bd},{0x5bf,0x5bf},{0x5c1,0x5c2},{0x5c4,0x5c5},{0x5c7,0x5c7},{0x600,0x603},{0x610,0x615},{0x64b,0x65e},{0x670,0x670},{0x6d6,0x6e4},{0x6e7,0x6e8},{0x6ea,0x6ed},{0x70f,0x70f},{0x711,0x711},{0x730,0x74a},{0x7a6,0x7b0},{0x7eb,0x7f3},{0x901,0x902},{0x93c,0x93c},{0x941,0x948},{0x94d,0x94d},{0x951,0x954},{0x962,0x963},{0x981,0x981},{0x9bc,0x9bc},{0x9c1,0x9c4},{0x9cd,0x9cd},{0x9e2,0x9e3},{0xa01,0xa02},{0xa3c,0xa3c},{0xa41,0xa42},{0xa47,0xa48},{0xa4b,0xa4d},{0xa70,0xa71},{0xa81,0xa82},{0xabc,0xabc},{0xac1,0xac5},{0xac7,0xac8},{0xacd,0xacd},{0xae2,0xae3},{0xb01,0xb01},{0xb3c,0xb3c},{0xb3f,0xb3f},{0xb41,0xb43},{0xb4d,0xb4d},{0xb56,0xb56},{0xb82,0xb82},{0xbc0,0xbc0},{0xbcd,0xbcd},{0xc3e,0xc40},{0xc46,0xc48},{0xc4a,0xc4d},{0xc55,0xc56},{0xcbc,0xcbc},{0xcbf,0xcbf},{0xcc6,0xcc6},{0xccc,0xccd},{0xce2,0xce3},{0xd41,0xd43},{0xd4d,0xd4d},{0xdca,0xdca},{0xdd2,0xdd4},{0xdd6,0xdd6},{0xe31,0xe31},{0xe34,0xe3a},{0xe47,0xe4e},{0xeb1,0xeb1},{0xeb4,0xeb9},{0xebb,0xebc},{0xec8,0xecd},{0xf18,0xf19},{0xf35,0xf35},{0xf37,0xf37},{0xf39,0xf39},{0xf71,0xf7e},{0xf80,0xf84},{0xf86,0xf87},{0xf90,0xf97},{0xf99,0xfbc},{0xfc6,0xfc6},{0x102d,0x1030},{0x1032,0x1032},{0x1036,0x1037},{0x1039,0x1039},{0x1058,0x1059},{0x1160,0x11ff},{0x135f,0x135f},{0x1712,0x1714},{0x1732,0x1734},{0x1752,0x1753},{0x1772,0x1773},{0x17b4,0x17b5},{0x17b7,0x17bd},{0x17c6,0x17c6},{0x17c9,0x17d3},{0x17dd,0x17dd},{0x180b,0x180d},{0x18a9,0x18a9},{0x1920,0x1922},{0x1927,0x1928},{0x1932,0x1932},{0x1939,0x193b},{0x1a17,0x1a18},{0x1b00,0x1b03},{0x1b34,0x1b34},{0x1b36,0x1b3a},{0x1b3c,0x1b3c},{0x1b42,0x1b42},{0x1b6b,0x1b73},{0x1dc0,0x1dca},{0x1dfe,0x1dff},{0x200b,0x200f},{0x202a,0x202e},{0x2060,0x2063},{0x206a,0x206f},{0x20d0,0x20ef},{0x302a,0x302f},{0x3099,0x309a},{0xa806,0xa806},{0xa80b,0xa80b},{0xa825,0xa826},{0xfb1e,0xfb1e},{0xfe00,0xfe0f},{0xfe20,0xfe23},{0xfeff,0xfeff},{0xfff9,0xfffb},{0x10a01,0x10a03},{0x10a05,0x10a06},{0x10a0c,0x10a0f},{0x10a38,0x10a3a},{0x10a3f,0x10a3f},{0x1d167,0x1d169},{0x1d173,0x1d182},{0x1d185,0x1d18b},{0x1d1aa,0x1d1ad},{0x1d242,0x1d244},{0xe0001,0xe0001},{0xe0020,0xe007f},{0xe0100,0xe01ef}};
