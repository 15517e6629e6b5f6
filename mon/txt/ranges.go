// Code generated by tools/mkranges.py; DO NOT EDIT.

package txt

var wideRanges = [][2]rune{
	{0x231a, 0x231b},
	{0x2329, 0x232a},
	{0x23e9, 0x23ec},
	{0x23f0, 0x23f0},
	{0x23f3, 0x23f3},
	{0x25fd, 0x25fe},
	{0x2614, 0x2615},
	{0x2648, 0x2653},
	{0x267f, 0x267f},
	{0x2693, 0x2693},
	{0x26a1, 0x26a1},
	{0x26aa, 0x26ab},
	{0x26bd, 0x26be},
	{0x26c4, 0x26c5},
	{0x26ce, 0x26ce},
	{0x26d4, 0x26d4},
	{0x26ea, 0x26ea},
	{0x26f2, 0x26f3},
	{0x26f5, 0x26f5},
	{0x26fa, 0x26fa},
	{0x26fd, 0x26fd},
	{0x2705, 0x2705},
	{0x270a, 0x270b},
	{0x2728, 0x2728},
	{0x274c, 0x274c},
	{0x274e, 0x274e},
	{0x2753, 0x2755},
	{0x2757, 0x2757},
	{0x2795, 0x2797},
	{0x27b0, 0x27b0},
	{0x27bf, 0x27bf},
	{0x2b1b, 0x2b1c},
	{0x2b50, 0x2b50},
	{0x2b55, 0x2b55},
	{0x2e80, 0x2e99},
	{0x2e9b, 0x2ef3},
	{0x2f00, 0x2fd5},
	{0x2ff0, 0x2ffb},
	{0x3001, 0x3029},
	{0x3031, 0x303c},
	{0x303e, 0x303e},
	{0x3041, 0x3096},
	{0x309b, 0x30ff},
	{0x3105, 0x312f},
	{0x3131, 0x318e},
	{0x3190, 0x31e3},
	{0x31f0, 0x321e},
	{0x3220, 0x3247},
	{0x3250, 0x3296},
	{0x3298, 0x3298},
	{0x329a, 0x4dbf},
	{0x4e00, 0xa48c},
	{0xa490, 0xa4c6},
	{0xac00, 0xd7a3},
	{0xf900, 0xfa6d},
	{0xfa70, 0xfad9},
	{0xfe10, 0xfe19},
	{0xfe30, 0xfe52},
	{0xfe54, 0xfe66},
	{0xfe68, 0xfe6b},
	{0xff01, 0xff60},
	{0xffe0, 0xffe6},
	{0x16fe2, 0x16fe2},
	{0x17000, 0x187f7},
	{0x18800, 0x18cd5},
	{0x18d00, 0x18d08},
	{0x1aff0, 0x1aff3},
	{0x1aff5, 0x1affb},
	{0x1affd, 0x1affe},
	{0x1b000, 0x1b122},
	{0x1b132, 0x1b132},
	{0x1b150, 0x1b152},
	{0x1b155, 0x1b155},
	{0x1b164, 0x1b167},
	{0x1b170, 0x1b2fb},
	{0x1f004, 0x1f004},
	{0x1f0cf, 0x1f0cf},
	{0x1f18e, 0x1f18e},
	{0x1f191, 0x1f19a},
	{0x1f200, 0x1f201},
	{0x1f210, 0x1f236},
	{0x1f238, 0x1f23b},
	{0x1f240, 0x1f248},
	{0x1f250, 0x1f251},
	{0x1f300, 0x1f320},
	{0x1f32d, 0x1f335},
	{0x1f337, 0x1f37c},
	{0x1f37e, 0x1f393},
	{0x1f3a0, 0x1f3ca},
	{0x1f3cf, 0x1f3d3},
	{0x1f3e0, 0x1f3f0},
	{0x1f3f4, 0x1f3f4},
	{0x1f3f8, 0x1f3fa},
	{0x1f400, 0x1f43e},
	{0x1f440, 0x1f440},
	{0x1f442, 0x1f4fc},
	{0x1f4ff, 0x1f53d},
	{0x1f54b, 0x1f54e},
	{0x1f550, 0x1f567},
	{0x1f57a, 0x1f57a},
	{0x1f595, 0x1f596},
	{0x1f5a4, 0x1f5a4},
	{0x1f5fb, 0x1f64f},
	{0x1f680, 0x1f6c5},
	{0x1f6cc, 0x1f6cc},
	{0x1f6d0, 0x1f6d2},
	{0x1f6d5, 0x1f6d7},
	{0x1f6dc, 0x1f6df},
	{0x1f6eb, 0x1f6ec},
	{0x1f6f4, 0x1f6fc},
	{0x1f7e0, 0x1f7eb},
	{0x1f7f0, 0x1f7f0},
	{0x1f90c, 0x1f93a},
	{0x1f93c, 0x1f945},
	{0x1f947, 0x1f9ff},
	{0x1fa70, 0x1fa7c},
	{0x1fa80, 0x1fa88},
	{0x1fa90, 0x1fabd},
	{0x1fabf, 0x1fac5},
	{0x1face, 0x1fadb},
	{0x1fae0, 0x1fae8},
	{0x1faf0, 0x1faf8},
	{0x20000, 0x2a6df},
	{0x2a700, 0x2b739},
	{0x2b740, 0x2b81d},
	{0x2b820, 0x2cea1},
	{0x2ceb0, 0x2ebe0},
	{0x2f800, 0x2fa1d},
	{0x30000, 0x3134a},
	{0x31350, 0x323af},
}

var narrowRanges = [][2]rune{
	{0xa2, 0xac},
	{0xae, 0x24f},
	{0x370, 0x377},
	{0x37a, 0x37f},
	{0x384, 0x38a},
	{0x38c, 0x38c},
	{0x38e, 0x3a1},
	{0x3a3, 0x482},
	{0x48a, 0x52f},
	{0x531, 0x556},
	{0x559, 0x58a},
	{0x5d0, 0x5ea},
	{0x10d0, 0x10ff},
	{0x1200, 0x1248},
	{0x124a, 0x124d},
	{0x1250, 0x1256},
	{0x1258, 0x1258},
	{0x125a, 0x125d},
	{0x1260, 0x1288},
	{0x128a, 0x128d},
	{0x1290, 0x12b0},
	{0x12b2, 0x12b5},
	{0x12b8, 0x12be},
	{0x12c0, 0x12c0},
	{0x12c2, 0x12c5},
	{0x12c8, 0x12d6},
	{0x12d8, 0x1310},
	{0x1312, 0x1315},
	{0x1318, 0x135a},
	{0x1360, 0x137c},
	{0x1380, 0x1399},
	{0x13a0, 0x13f5},
	{0x1400, 0x167f},
	{0x16a0, 0x16f8},
	{0x1e00, 0x1f15},
	{0x1f18, 0x1f1d},
	{0x1f20, 0x1f45},
	{0x1f48, 0x1f4d},
	{0x1f50, 0x1f57},
	{0x1f59, 0x1f59},
	{0x1f5b, 0x1f5b},
	{0x1f5d, 0x1f5d},
	{0x1f5f, 0x1f7d},
	{0x1f80, 0x1fb4},
	{0x1fb6, 0x1fc4},
	{0x1fc6, 0x1fd3},
	{0x1fd6, 0x1fdb},
	{0x1fdd, 0x1fef},
	{0x1ff2, 0x1ff4},
	{0x1ff6, 0x1ffe},
	{0x2010, 0x2027},
	{0x2030, 0x205e},
	{0x2070, 0x2071},
	{0x2074, 0x208e},
	{0x2090, 0x209c},
	{0x20a0, 0x20bf},
	{0x2100, 0x218b},
	{0x2190, 0x2319},
	{0x231c, 0x2328},
	{0x232b, 0x23e8},
	{0x23ed, 0x23ef},
	{0x23f1, 0x23f2},
	{0x23f4, 0x2426},
	{0x2460, 0x25fc},
	{0x25ff, 0x2613},
	{0x2616, 0x262f},
	{0x2638, 0x2647},
	{0x2654, 0x267e},
	{0x2680, 0x2689},
	{0x2690, 0x2692},
	{0x2694, 0x26a0},
	{0x26a2, 0x26a9},
	{0x26ac, 0x26bc},
	{0x26bf, 0x26c3},
	{0x26c6, 0x26cd},
	{0x26cf, 0x26d3},
	{0x26d5, 0x26e9},
	{0x26eb, 0x26f1},
	{0x26f4, 0x26f4},
	{0x26f6, 0x26f9},
	{0x26fb, 0x26fc},
	{0x26fe, 0x2704},
	{0x2706, 0x2709},
	{0x270c, 0x2727},
	{0x2729, 0x274b},
	{0x274d, 0x274d},
	{0x274f, 0x2752},
	{0x2756, 0x2756},
	{0x2758, 0x2794},
	{0x2798, 0x27af},
	{0x27b1, 0x27be},
	{0x27c0, 0x2b1a},
	{0x2b1d, 0x2b4f},
	{0x2b51, 0x2b54},
	{0x2b56, 0x2b73},
	{0x2b76, 0x2b95},
	{0x2b97, 0x2bff},
	{0x2c60, 0x2cee},
	{0x2cf2, 0x2cf3},
	{0x2cf9, 0x2cff},
	{0xa640, 0xa66e},
	{0xff61, 0xff9d},
	{0x10330, 0x1034a},
	{0x1d400, 0x1d454},
	{0x1d456, 0x1d49c},
	{0x1d49e, 0x1d49f},
	{0x1d4a2, 0x1d4a2},
	{0x1d4a5, 0x1d4a6},
	{0x1d4a9, 0x1d4ac},
	{0x1d4ae, 0x1d4b9},
	{0x1d4bb, 0x1d4bb},
	{0x1d4bd, 0x1d4c3},
	{0x1d4c5, 0x1d505},
	{0x1d507, 0x1d50a},
	{0x1d50d, 0x1d514},
	{0x1d516, 0x1d51c},
	{0x1d51e, 0x1d539},
	{0x1d53b, 0x1d53e},
	{0x1d540, 0x1d544},
	{0x1d546, 0x1d546},
	{0x1d54a, 0x1d550},
	{0x1d552, 0x1d6a5},
	{0x1d6a8, 0x1d7cb},
	{0x1f030, 0x1f093},
	{0x1f0a1, 0x1f0ae},
	{0x1f0b1, 0x1f0bf},
	{0x1f0d1, 0x1f0f5},
	{0x1f650, 0x1f67f},
	{0x1f700, 0x1f773},
	{0x1f780, 0x1f7d4},
	{0x1f800, 0x1f80b},
}
