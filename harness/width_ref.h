/* Frozen reference: Unicode 9 Mn/Me (zero columns) and East Asian W/F (two
 * columns), plus the zero-width format characters the library documents. */
#define REF_ZERO Z(0x34f,0x34f) Z(0x200b,0x200f) Z(0x2028,0x2029) Z(0x202a,0x202e) Z(0x2060,0x2063) Z(0x300,0x36f) Z(0x483,0x489) Z(0x591,0x5bd) Z(0x5bf,0x5bf) Z(0x5c1,0x5c2) Z(0x5c4,0x5c5) Z(0x5c7,0x5c7) Z(0x610,0x61a) Z(0x64b,0x65f) Z(0x670,0x670) Z(0x6d6,0x6dc) Z(0x6df,0x6e4) Z(0x6e7,0x6e8) Z(0x6ea,0x6ed) Z(0x711,0x711) Z(0x730,0x74a) Z(0x7a6,0x7b0) Z(0x7eb,0x7f3) Z(0x816,0x819) Z(0x81b,0x823) Z(0x825,0x827) Z(0x829,0x82d) Z(0x859,0x85b) Z(0x8d4,0x8e1) Z(0x8e3,0x902) Z(0x93a,0x93a) Z(0x93c,0x93c) Z(0x941,0x948) Z(0x94d,0x94d) Z(0x951,0x957) Z(0x962,0x963) Z(0x981,0x981) Z(0x9bc,0x9bc) Z(0x9c1,0x9c4) Z(0x9cd,0x9cd) Z(0x9e2,0x9e3) Z(0xa01,0xa02) Z(0xa3c,0xa3c) Z(0xa41,0xa42) Z(0xa47,0xa48) Z(0xa4b,0xa4d) Z(0xa51,0xa51) Z(0xa70,0xa71) Z(0xa75,0xa75) Z(0xa81,0xa82) Z(0xabc,0xabc) Z(0xac1,0xac5) Z(0xac7,0xac8) Z(0xacd,0xacd) Z(0xae2,0xae3) Z(0xb01,0xb01) Z(0xb3c,0xb3c) Z(0xb3f,0xb3f) Z(0xb41,0xb44) Z(0xb4d,0xb4d) Z(0xb56,0xb56) Z(0xb62,0xb63) Z(0xb82,0xb82) Z(0xbc0,0xbc0) Z(0xbcd,0xbcd) Z(0xc00,0xc00) Z(0xc3e,0xc40) Z(0xc46,0xc48) Z(0xc4a,0xc4d) Z(0xc55,0xc56) Z(0xc62,0xc63) Z(0xc81,0xc81) Z(0xcbc,0xcbc) Z(0xcbf,0xcbf) Z(0xcc6,0xcc6) Z(0xccc,0xccd) Z(0xce2,0xce3) Z(0xd01,0xd01) Z(0xd41,0xd44) Z(0xd4d,0xd4d) Z(0xd62,0xd63) Z(0xdca,0xdca) Z(0xdd2,0xdd4) Z(0xdd6,0xdd6) Z(0xe31,0xe31) Z(0xe34,0xe3a) Z(0xe47,0xe4e) Z(0xeb1,0xeb1) Z(0xeb4,0xeb9) Z(0xebb,0xebc) Z(0xec8,0xecd) Z(0xf18,0xf19) Z(0xf35,0xf35) Z(0xf37,0xf37) Z(0xf39,0xf39) Z(0xf71,0xf7e) Z(0xf80,0xf84) Z(0xf86,0xf87) Z(0xf8d,0xf97) Z(0xf99,0xfbc) Z(0xfc6,0xfc6) Z(0x102d,0x1030) Z(0x1032,0x1037) Z(0x1039,0x103a) Z(0x103d,0x103e) Z(0x1058,0x1059) Z(0x105e,0x1060) Z(0x1071,0x1074) Z(0x1082,0x1082) Z(0x1085,0x1086) Z(0x108d,0x108d) Z(0x109d,0x109d) Z(0x135d,0x135f) Z(0x1712,0x1714) Z(0x1732,0x1734) Z(0x1752,0x1753) Z(0x1772,0x1773) Z(0x17b4,0x17b5) Z(0x17b7,0x17bd) Z(0x17c6,0x17c6) Z(0x17c9,0x17d3) Z(0x17dd,0x17dd) Z(0x180b,0x180d) Z(0x1885,0x1886) Z(0x18a9,0x18a9) Z(0x1920,0x1922) Z(0x1927,0x1928) Z(0x1932,0x1932) Z(0x1939,0x193b) Z(0x1a17,0x1a18) Z(0x1a1b,0x1a1b) Z(0x1a56,0x1a56) Z(0x1a58,0x1a5e) Z(0x1a60,0x1a60) Z(0x1a62,0x1a62) Z(0x1a65,0x1a6c) Z(0x1a73,0x1a7c) Z(0x1a7f,0x1a7f) Z(0x1ab0,0x1abe) Z(0x1b00,0x1b03) Z(0x1b34,0x1b34) Z(0x1b36,0x1b3a) Z(0x1b3c,0x1b3c) Z(0x1b42,0x1b42) Z(0x1b6b,0x1b73) Z(0x1b80,0x1b81) Z(0x1ba2,0x1ba5) Z(0x1ba8,0x1ba9) Z(0x1bab,0x1bad) Z(0x1be6,0x1be6) Z(0x1be8,0x1be9) Z(0x1bed,0x1bed) Z(0x1bef,0x1bf1) Z(0x1c2c,0x1c33) Z(0x1c36,0x1c37) Z(0x1cd0,0x1cd2) Z(0x1cd4,0x1ce0) Z(0x1ce2,0x1ce8) Z(0x1ced,0x1ced) Z(0x1cf4,0x1cf4) Z(0x1cf8,0x1cf9) Z(0x1dc0,0x1df5) Z(0x1dfb,0x1dff) Z(0x20d0,0x20f0) Z(0x2cef,0x2cf1) Z(0x2d7f,0x2d7f) Z(0x2de0,0x2dff) Z(0x302a,0x302d) Z(0x3099,0x309a) Z(0xa66f,0xa672) Z(0xa674,0xa67d) Z(0xa69e,0xa69f) Z(0xa6f0,0xa6f1) Z(0xa802,0xa802) Z(0xa806,0xa806) Z(0xa80b,0xa80b) Z(0xa825,0xa826) Z(0xa8c4,0xa8c5) Z(0xa8e0,0xa8f1) Z(0xa926,0xa92d) Z(0xa947,0xa951) Z(0xa980,0xa982) Z(0xa9b3,0xa9b3) Z(0xa9b6,0xa9b9) Z(0xa9bc,0xa9bc) Z(0xa9e5,0xa9e5) Z(0xaa29,0xaa2e) Z(0xaa31,0xaa32) Z(0xaa35,0xaa36) Z(0xaa43,0xaa43) Z(0xaa4c,0xaa4c) Z(0xaa7c,0xaa7c) Z(0xaab0,0xaab0) Z(0xaab2,0xaab4) Z(0xaab7,0xaab8) Z(0xaabe,0xaabf) Z(0xaac1,0xaac1) Z(0xaaec,0xaaed) Z(0xaaf6,0xaaf6) Z(0xabe5,0xabe5) Z(0xabe8,0xabe8) Z(0xabed,0xabed) Z(0xfb1e,0xfb1e) Z(0xfe00,0xfe0f) Z(0xfe20,0xfe2f) Z(0x101fd,0x101fd) Z(0x102e0,0x102e0) Z(0x10376,0x1037a) Z(0x10a01,0x10a03) Z(0x10a05,0x10a06) Z(0x10a0c,0x10a0f) Z(0x10a38,0x10a3a) Z(0x10a3f,0x10a3f) Z(0x10ae5,0x10ae6) Z(0x11001,0x11001) Z(0x11038,0x11046) Z(0x1107f,0x11081) Z(0x110b3,0x110b6) Z(0x110b9,0x110ba) Z(0x11100,0x11102) Z(0x11127,0x1112b) Z(0x1112d,0x11134) Z(0x11173,0x11173) Z(0x11180,0x11181) Z(0x111b6,0x111be) Z(0x111ca,0x111cc) Z(0x1122f,0x11231) Z(0x11234,0x11234) Z(0x11236,0x11237) Z(0x1123e,0x1123e) Z(0x112df,0x112df) Z(0x112e3,0x112ea) Z(0x11300,0x11301) Z(0x1133c,0x1133c) Z(0x11340,0x11340) Z(0x11366,0x1136c) Z(0x11370,0x11374) Z(0x11438,0x1143f) Z(0x11442,0x11444) Z(0x11446,0x11446) Z(0x114b3,0x114b8) Z(0x114ba,0x114ba) Z(0x114bf,0x114c0) Z(0x114c2,0x114c3) Z(0x115b2,0x115b5) Z(0x115bc,0x115bd) Z(0x115bf,0x115c0) Z(0x115dc,0x115dd) Z(0x11633,0x1163a) Z(0x1163d,0x1163d) Z(0x1163f,0x11640) Z(0x116ab,0x116ab) Z(0x116ad,0x116ad) Z(0x116b0,0x116b5) Z(0x116b7,0x116b7) Z(0x1171d,0x1171f) Z(0x11722,0x11725) Z(0x11727,0x1172b) Z(0x11c30,0x11c36) Z(0x11c38,0x11c3d) Z(0x11c3f,0x11c3f) Z(0x11c92,0x11ca7) Z(0x11caa,0x11cb0) Z(0x11cb2,0x11cb3) Z(0x11cb5,0x11cb6) Z(0x16af0,0x16af4) Z(0x16b30,0x16b36) Z(0x16f8f,0x16f92) Z(0x1bc9d,0x1bc9e) Z(0x1d167,0x1d169) Z(0x1d17b,0x1d182) Z(0x1d185,0x1d18b) Z(0x1d1aa,0x1d1ad) Z(0x1d242,0x1d244) Z(0x1da00,0x1da36) Z(0x1da3b,0x1da6c) Z(0x1da75,0x1da75) Z(0x1da84,0x1da84) Z(0x1da9b,0x1da9f) Z(0x1daa1,0x1daaf) Z(0x1e000,0x1e006) Z(0x1e008,0x1e018) Z(0x1e01b,0x1e021) Z(0x1e023,0x1e024) Z(0x1e026,0x1e02a) Z(0x1e8d0,0x1e8d6) Z(0x1e944,0x1e94a) Z(0xe0100,0xe01ef)
#define REF_WIDE W(0x1100,0x115f) W(0x231a,0x231b) W(0x2329,0x232a) W(0x23e9,0x23ec) W(0x23f0,0x23f0) W(0x23f3,0x23f3) W(0x25fd,0x25fe) W(0x2614,0x2615) W(0x2648,0x2653) W(0x267f,0x267f) W(0x2693,0x2693) W(0x26a1,0x26a1) W(0x26aa,0x26ab) W(0x26bd,0x26be) W(0x26c4,0x26c5) W(0x26ce,0x26ce) W(0x26d4,0x26d4) W(0x26ea,0x26ea) W(0x26f2,0x26f3) W(0x26f5,0x26f5) W(0x26fa,0x26fa) W(0x26fd,0x26fd) W(0x2705,0x2705) W(0x270a,0x270b) W(0x2728,0x2728) W(0x274c,0x274c) W(0x274e,0x274e) W(0x2753,0x2755) W(0x2757,0x2757) W(0x2795,0x2797) W(0x27b0,0x27b0) W(0x27bf,0x27bf) W(0x2b1b,0x2b1c) W(0x2b50,0x2b50) W(0x2b55,0x2b55) W(0x2e80,0x2e99) W(0x2e9b,0x2ef3) W(0x2f00,0x2fd5) W(0x2ff0,0x2ffb) W(0x3000,0x303e) W(0x3041,0x3096) W(0x3099,0x30ff) W(0x3105,0x312d) W(0x3131,0x318e) W(0x3190,0x31ba) W(0x31c0,0x31e3) W(0x31f0,0x321e) W(0x3220,0x3247) W(0x3250,0x32fe) W(0x3300,0x4dbf) W(0x4e00,0xa48c) W(0xa490,0xa4c6) W(0xa960,0xa97c) W(0xac00,0xd7a3) W(0xf900,0xfaff) W(0xfe10,0xfe19) W(0xfe30,0xfe52) W(0xfe54,0xfe66) W(0xfe68,0xfe6b) W(0xff01,0xff60) W(0xffe0,0xffe6) W(0x16fe0,0x16fe0) W(0x17000,0x187ec) W(0x18800,0x18af2) W(0x1b000,0x1b001) W(0x1f004,0x1f004) W(0x1f0cf,0x1f0cf) W(0x1f18e,0x1f18e) W(0x1f191,0x1f19a) W(0x1f200,0x1f202) W(0x1f210,0x1f23b) W(0x1f240,0x1f248) W(0x1f250,0x1f251) W(0x1f300,0x1f320) W(0x1f32d,0x1f335) W(0x1f337,0x1f37c) W(0x1f37e,0x1f393) W(0x1f3a0,0x1f3ca) W(0x1f3cf,0x1f3d3) W(0x1f3e0,0x1f3f0) W(0x1f3f4,0x1f3f4) W(0x1f3f8,0x1f43e) W(0x1f440,0x1f440) W(0x1f442,0x1f4fc) W(0x1f4ff,0x1f53d) W(0x1f54b,0x1f54e) W(0x1f550,0x1f567) W(0x1f57a,0x1f57a) W(0x1f595,0x1f596) W(0x1f5a4,0x1f5a4) W(0x1f5fb,0x1f64f) W(0x1f680,0x1f6c5) W(0x1f6cc,0x1f6cc) W(0x1f6d0,0x1f6d2) W(0x1f6eb,0x1f6ec) W(0x1f6f4,0x1f6f6) W(0x1f910,0x1f91e) W(0x1f920,0x1f927) W(0x1f930,0x1f930) W(0x1f933,0x1f93e) W(0x1f940,0x1f94b) W(0x1f950,0x1f95e) W(0x1f980,0x1f991) W(0x1f9c0,0x1f9c0) W(0x20000,0x2fffd) W(0x30000,0x3fffd)
