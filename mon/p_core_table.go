package main

// widthRanges: first and last code point and the width Unicode 15 gives it (East
// Asian Width W/F: 2, control/non-spacing/format: 0, else 1), generated from
// Python's unicodedata. Left out: unassigned, private use, surrogates, spacing
// marks, prepended format characters, and pictographs of the supplementary planes
// with text presentation, whose width terminals dispute. Vowel and final Jamo are 0.
var widthRanges = [][3]int32{
	{0x0, 0x1f, 0},
	{0x20, 0x7e, 1},
	{0x7f, 0x9f, 0},
	{0xa0, 0xac, 1},
	{0xad, 0xad, 0},
	{0xae, 0x2ff, 1},
	{0x300, 0x36f, 0},
	{0x370, 0x377, 1},
	{0x37a, 0x37f, 1},
	{0x384, 0x38a, 1},
	{0x38c, 0x38c, 1},
	{0x38e, 0x3a1, 1},
	{0x3a3, 0x482, 1},
	{0x483, 0x489, 0},
	{0x48a, 0x52f, 1},
	{0x531, 0x556, 1},
	{0x559, 0x58a, 1},
	{0x58d, 0x58f, 1},
	{0x591, 0x5bd, 0},
	{0x5be, 0x5be, 1},
	{0x5bf, 0x5bf, 0},
	{0x5c0, 0x5c0, 1},
	{0x5c1, 0x5c2, 0},
	{0x5c3, 0x5c3, 1},
	{0x5c4, 0x5c5, 0},
	{0x5c6, 0x5c6, 1},
	{0x5c7, 0x5c7, 0},
	{0x5d0, 0x5ea, 1},
	{0x5ef, 0x5f4, 1},
	{0x606, 0x60f, 1},
	{0x610, 0x61a, 0},
	{0x61b, 0x61b, 1},
	{0x61c, 0x61c, 0},
	{0x61d, 0x64a, 1},
	{0x64b, 0x65f, 0},
	{0x660, 0x66f, 1},
	{0x670, 0x670, 0},
	{0x671, 0x6d5, 1},
	{0x6d6, 0x6dc, 0},
	{0x6de, 0x6de, 1},
	{0x6df, 0x6e4, 0},
	{0x6e5, 0x6e6, 1},
	{0x6e7, 0x6e8, 0},
	{0x6e9, 0x6e9, 1},
	{0x6ea, 0x6ed, 0},
	{0x6ee, 0x70d, 1},
	{0x710, 0x710, 1},
	{0x711, 0x711, 0},
	{0x712, 0x72f, 1},
	{0x730, 0x74a, 0},
	{0x74d, 0x7a5, 1},
	{0x7a6, 0x7b0, 0},
	{0x7b1, 0x7b1, 1},
	{0x7c0, 0x7ea, 1},
	{0x7eb, 0x7f3, 0},
	{0x7f4, 0x7fa, 1},
	{0x7fd, 0x7fd, 0},
	{0x7fe, 0x815, 1},
	{0x816, 0x819, 0},
	{0x81a, 0x81a, 1},
	{0x81b, 0x823, 0},
	{0x824, 0x824, 1},
	{0x825, 0x827, 0},
	{0x828, 0x828, 1},
	{0x829, 0x82d, 0},
	{0x830, 0x83e, 1},
	{0x840, 0x858, 1},
	{0x859, 0x85b, 0},
	{0x85e, 0x85e, 1},
	{0x860, 0x86a, 1},
	{0x870, 0x88e, 1},
	{0x898, 0x89f, 0},
	{0x8a0, 0x8c9, 1},
	{0x8ca, 0x8e1, 0},
	{0x8e3, 0x902, 0},
	{0x904, 0x939, 1},
	{0x93a, 0x93a, 0},
	{0x93c, 0x93c, 0},
	{0x93d, 0x93d, 1},
	{0x941, 0x948, 0},
	{0x94d, 0x94d, 0},
	{0x950, 0x950, 1},
	{0x951, 0x957, 0},
	{0x958, 0x961, 1},
	{0x962, 0x963, 0},
	{0x964, 0x980, 1},
	{0x981, 0x981, 0},
	{0x985, 0x98c, 1},
	{0x98f, 0x990, 1},
	{0x993, 0x9a8, 1},
	{0x9aa, 0x9b0, 1},
	{0x9b2, 0x9b2, 1},
	{0x9b6, 0x9b9, 1},
	{0x9bc, 0x9bc, 0},
	{0x9bd, 0x9bd, 1},
	{0x9c1, 0x9c4, 0},
	{0x9cd, 0x9cd, 0},
	{0x9ce, 0x9ce, 1},
	{0x9dc, 0x9dd, 1},
	{0x9df, 0x9e1, 1},
	{0x9e2, 0x9e3, 0},
	{0x9e6, 0x9fd, 1},
	{0x9fe, 0x9fe, 0},
	{0xa01, 0xa02, 0},
	{0xa05, 0xa0a, 1},
	{0xa0f, 0xa10, 1},
	{0xa13, 0xa28, 1},
	{0xa2a, 0xa30, 1},
	{0xa32, 0xa33, 1},
	{0xa35, 0xa36, 1},
	{0xa38, 0xa39, 1},
	{0xa3c, 0xa3c, 0},
	{0xa41, 0xa42, 0},
	{0xa47, 0xa48, 0},
	{0xa4b, 0xa4d, 0},
	{0xa51, 0xa51, 0},
	{0xa59, 0xa5c, 1},
	{0xa5e, 0xa5e, 1},
	{0xa66, 0xa6f, 1},
	{0xa70, 0xa71, 0},
	{0xa72, 0xa74, 1},
	{0xa75, 0xa75, 0},
	{0xa76, 0xa76, 1},
	{0xa81, 0xa82, 0},
	{0xa85, 0xa8d, 1},
	{0xa8f, 0xa91, 1},
	{0xa93, 0xaa8, 1},
	{0xaaa, 0xab0, 1},
	{0xab2, 0xab3, 1},
	{0xab5, 0xab9, 1},
	{0xabc, 0xabc, 0},
	{0xabd, 0xabd, 1},
	{0xac1, 0xac5, 0},
	{0xac7, 0xac8, 0},
	{0xacd, 0xacd, 0},
	{0xad0, 0xad0, 1},
	{0xae0, 0xae1, 1},
	{0xae2, 0xae3, 0},
	{0xae6, 0xaf1, 1},
	{0xaf9, 0xaf9, 1},
	{0xafa, 0xaff, 0},
	{0xb01, 0xb01, 0},
	{0xb05, 0xb0c, 1},
	{0xb0f, 0xb10, 1},
	{0xb13, 0xb28, 1},
	{0xb2a, 0xb30, 1},
	{0xb32, 0xb33, 1},
	{0xb35, 0xb39, 1},
	{0xb3c, 0xb3c, 0},
	{0xb3d, 0xb3d, 1},
	{0xb3f, 0xb3f, 0},
	{0xb41, 0xb44, 0},
	{0xb4d, 0xb4d, 0},
	{0xb55, 0xb56, 0},
	{0xb5c, 0xb5d, 1},
	{0xb5f, 0xb61, 1},
	{0xb62, 0xb63, 0},
	{0xb66, 0xb77, 1},
	{0xb82, 0xb82, 0},
	{0xb83, 0xb83, 1},
	{0xb85, 0xb8a, 1},
	{0xb8e, 0xb90, 1},
	{0xb92, 0xb95, 1},
	{0xb99, 0xb9a, 1},
	{0xb9c, 0xb9c, 1},
	{0xb9e, 0xb9f, 1},
	{0xba3, 0xba4, 1},
	{0xba8, 0xbaa, 1},
	{0xbae, 0xbb9, 1},
	{0xbc0, 0xbc0, 0},
	{0xbcd, 0xbcd, 0},
	{0xbd0, 0xbd0, 1},
	{0xbe6, 0xbfa, 1},
	{0xc00, 0xc00, 0},
	{0xc04, 0xc04, 0},
	{0xc05, 0xc0c, 1},
	{0xc0e, 0xc10, 1},
	{0xc12, 0xc28, 1},
	{0xc2a, 0xc39, 1},
	{0xc3c, 0xc3c, 0},
	{0xc3d, 0xc3d, 1},
	{0xc3e, 0xc40, 0},
	{0xc46, 0xc48, 0},
	{0xc4a, 0xc4d, 0},
	{0xc55, 0xc56, 0},
	{0xc58, 0xc5a, 1},
	{0xc5d, 0xc5d, 1},
	{0xc60, 0xc61, 1},
	{0xc62, 0xc63, 0},
	{0xc66, 0xc6f, 1},
	{0xc77, 0xc80, 1},
	{0xc81, 0xc81, 0},
	{0xc84, 0xc8c, 1},
	{0xc8e, 0xc90, 1},
	{0xc92, 0xca8, 1},
	{0xcaa, 0xcb3, 1},
	{0xcb5, 0xcb9, 1},
	{0xcbc, 0xcbc, 0},
	{0xcbd, 0xcbd, 1},
	{0xcbf, 0xcbf, 0},
	{0xcc6, 0xcc6, 0},
	{0xccc, 0xccd, 0},
	{0xcdd, 0xcde, 1},
	{0xce0, 0xce1, 1},
	{0xce2, 0xce3, 0},
	{0xce6, 0xcef, 1},
	{0xcf1, 0xcf2, 1},
	{0xd00, 0xd01, 0},
	{0xd04, 0xd0c, 1},
	{0xd0e, 0xd10, 1},
	{0xd12, 0xd3a, 1},
	{0xd3b, 0xd3c, 0},
	{0xd3d, 0xd3d, 1},
	{0xd41, 0xd44, 0},
	{0xd4d, 0xd4d, 0},
	{0xd4e, 0xd4f, 1},
	{0xd54, 0xd56, 1},
	{0xd58, 0xd61, 1},
	{0xd62, 0xd63, 0},
	{0xd66, 0xd7f, 1},
	{0xd81, 0xd81, 0},
	{0xd85, 0xd96, 1},
	{0xd9a, 0xdb1, 1},
	{0xdb3, 0xdbb, 1},
	{0xdbd, 0xdbd, 1},
	{0xdc0, 0xdc6, 1},
	{0xdca, 0xdca, 0},
	{0xdd2, 0xdd4, 0},
	{0xdd6, 0xdd6, 0},
	{0xde6, 0xdef, 1},
	{0xdf4, 0xdf4, 1},
	{0xe01, 0xe30, 1},
	{0xe31, 0xe31, 0},
	{0xe32, 0xe33, 1},
	{0xe34, 0xe3a, 0},
	{0xe3f, 0xe46, 1},
	{0xe47, 0xe4e, 0},
	{0xe4f, 0xe5b, 1},
	{0xe81, 0xe82, 1},
	{0xe84, 0xe84, 1},
	{0xe86, 0xe8a, 1},
	{0xe8c, 0xea3, 1},
	{0xea5, 0xea5, 1},
	{0xea7, 0xeb0, 1},
	{0xeb1, 0xeb1, 0},
	{0xeb2, 0xeb3, 1},
	{0xeb4, 0xebc, 0},
	{0xebd, 0xebd, 1},
	{0xec0, 0xec4, 1},
	{0xec6, 0xec6, 1},
	{0xec8, 0xece, 0},
	{0xed0, 0xed9, 1},
	{0xedc, 0xedf, 1},
	{0xf00, 0xf17, 1},
	{0xf18, 0xf19, 0},
	{0xf1a, 0xf34, 1},
	{0xf35, 0xf35, 0},
	{0xf36, 0xf36, 1},
	{0xf37, 0xf37, 0},
	{0xf38, 0xf38, 1},
	{0xf39, 0xf39, 0},
	{0xf3a, 0xf3d, 1},
	{0xf40, 0xf47, 1},
	{0xf49, 0xf6c, 1},
	{0xf71, 0xf7e, 0},
	{0xf80, 0xf84, 0},
	{0xf85, 0xf85, 1},
	{0xf86, 0xf87, 0},
	{0xf88, 0xf8c, 1},
	{0xf8d, 0xf97, 0},
	{0xf99, 0xfbc, 0},
	{0xfbe, 0xfc5, 1},
	{0xfc6, 0xfc6, 0},
	{0xfc7, 0xfcc, 1},
	{0xfce, 0xfda, 1},
	{0x1000, 0x102a, 1},
	{0x102d, 0x1030, 0},
	{0x1032, 0x1037, 0},
	{0x1039, 0x103a, 0},
	{0x103d, 0x103e, 0},
	{0x103f, 0x1055, 1},
	{0x1058, 0x1059, 0},
	{0x105a, 0x105d, 1},
	{0x105e, 0x1060, 0},
	{0x1061, 0x1061, 1},
	{0x1065, 0x1066, 1},
	{0x106e, 0x1070, 1},
	{0x1071, 0x1074, 0},
	{0x1075, 0x1081, 1},
	{0x1082, 0x1082, 0},
	{0x1085, 0x1086, 0},
	{0x108d, 0x108d, 0},
	{0x108e, 0x108e, 1},
	{0x1090, 0x1099, 1},
	{0x109d, 0x109d, 0},
	{0x109e, 0x10c5, 1},
	{0x10c7, 0x10c7, 1},
	{0x10cd, 0x10cd, 1},
	{0x10d0, 0x10ff, 1},
	{0x1100, 0x115f, 2},
	{0x1160, 0x11ff, 0},
	{0x1200, 0x1248, 1},
	{0x124a, 0x124d, 1},
	{0x1250, 0x1256, 1},
	{0x1258, 0x1258, 1},
	{0x125a, 0x125d, 1},
	{0x1260, 0x1288, 1},
	{0x128a, 0x128d, 1},
	{0x1290, 0x12b0, 1},
	{0x12b2, 0x12b5, 1},
	{0x12b8, 0x12be, 1},
	{0x12c0, 0x12c0, 1},
	{0x12c2, 0x12c5, 1},
	{0x12c8, 0x12d6, 1},
	{0x12d8, 0x1310, 1},
	{0x1312, 0x1315, 1},
	{0x1318, 0x135a, 1},
	{0x135d, 0x135f, 0},
	{0x1360, 0x137c, 1},
	{0x1380, 0x1399, 1},
	{0x13a0, 0x13f5, 1},
	{0x13f8, 0x13fd, 1},
	{0x1400, 0x169c, 1},
	{0x16a0, 0x16f8, 1},
	{0x1700, 0x1711, 1},
	{0x1712, 0x1714, 0},
	{0x171f, 0x1731, 1},
	{0x1732, 0x1733, 0},
	{0x1735, 0x1736, 1},
	{0x1740, 0x1751, 1},
	{0x1752, 0x1753, 0},
	{0x1760, 0x176c, 1},
	{0x176e, 0x1770, 1},
	{0x1772, 0x1773, 0},
	{0x1780, 0x17b3, 1},
	{0x17b4, 0x17b5, 0},
	{0x17b7, 0x17bd, 0},
	{0x17c6, 0x17c6, 0},
	{0x17c9, 0x17d3, 0},
	{0x17d4, 0x17dc, 1},
	{0x17dd, 0x17dd, 0},
	{0x17e0, 0x17e9, 1},
	{0x17f0, 0x17f9, 1},
	{0x1800, 0x180a, 1},
	{0x180b, 0x180f, 0},
	{0x1810, 0x1819, 1},
	{0x1820, 0x1878, 1},
	{0x1880, 0x1884, 1},
	{0x1885, 0x1886, 0},
	{0x1887, 0x18a8, 1},
	{0x18a9, 0x18a9, 0},
	{0x18aa, 0x18aa, 1},
	{0x18b0, 0x18f5, 1},
	{0x1900, 0x191e, 1},
	{0x1920, 0x1922, 0},
	{0x1927, 0x1928, 0},
	{0x1932, 0x1932, 0},
	{0x1939, 0x193b, 0},
	{0x1940, 0x1940, 1},
	{0x1944, 0x196d, 1},
	{0x1970, 0x1974, 1},
	{0x1980, 0x19ab, 1},
	{0x19b0, 0x19c9, 1},
	{0x19d0, 0x19da, 1},
	{0x19de, 0x1a16, 1},
	{0x1a17, 0x1a18, 0},
	{0x1a1b, 0x1a1b, 0},
	{0x1a1e, 0x1a54, 1},
	{0x1a56, 0x1a56, 0},
	{0x1a58, 0x1a5e, 0},
	{0x1a60, 0x1a60, 0},
	{0x1a62, 0x1a62, 0},
	{0x1a65, 0x1a6c, 0},
	{0x1a73, 0x1a7c, 0},
	{0x1a7f, 0x1a7f, 0},
	{0x1a80, 0x1a89, 1},
	{0x1a90, 0x1a99, 1},
	{0x1aa0, 0x1aad, 1},
	{0x1ab0, 0x1ace, 0},
	{0x1b00, 0x1b03, 0},
	{0x1b05, 0x1b33, 1},
	{0x1b34, 0x1b34, 0},
	{0x1b36, 0x1b3a, 0},
	{0x1b3c, 0x1b3c, 0},
	{0x1b42, 0x1b42, 0},
	{0x1b45, 0x1b4c, 1},
	{0x1b50, 0x1b6a, 1},
	{0x1b6b, 0x1b73, 0},
	{0x1b74, 0x1b7e, 1},
	{0x1b80, 0x1b81, 0},
	{0x1b83, 0x1ba0, 1},
	{0x1ba2, 0x1ba5, 0},
	{0x1ba8, 0x1ba9, 0},
	{0x1bab, 0x1bad, 0},
	{0x1bae, 0x1be5, 1},
	{0x1be6, 0x1be6, 0},
	{0x1be8, 0x1be9, 0},
	{0x1bed, 0x1bed, 0},
	{0x1bef, 0x1bf1, 0},
	{0x1bfc, 0x1c23, 1},
	{0x1c2c, 0x1c33, 0},
	{0x1c36, 0x1c37, 0},
	{0x1c3b, 0x1c49, 1},
	{0x1c4d, 0x1c88, 1},
	{0x1c90, 0x1cba, 1},
	{0x1cbd, 0x1cc7, 1},
	{0x1cd0, 0x1cd2, 0},
	{0x1cd3, 0x1cd3, 1},
	{0x1cd4, 0x1ce0, 0},
	{0x1ce2, 0x1ce8, 0},
	{0x1ce9, 0x1cec, 1},
	{0x1ced, 0x1ced, 0},
	{0x1cee, 0x1cf3, 1},
	{0x1cf4, 0x1cf4, 0},
	{0x1cf5, 0x1cf6, 1},
	{0x1cf8, 0x1cf9, 0},
	{0x1cfa, 0x1cfa, 1},
	{0x1d00, 0x1dbf, 1},
	{0x1dc0, 0x1dff, 0},
	{0x1e00, 0x1f15, 1},
	{0x1f18, 0x1f1d, 1},
	{0x1f20, 0x1f45, 1},
	{0x1f48, 0x1f4d, 1},
	{0x1f50, 0x1f57, 1},
	{0x1f59, 0x1f59, 1},
	{0x1f5b, 0x1f5b, 1},
	{0x1f5d, 0x1f5d, 1},
	{0x1f5f, 0x1f7d, 1},
	{0x1f80, 0x1fb4, 1},
	{0x1fb6, 0x1fc4, 1},
	{0x1fc6, 0x1fd3, 1},
	{0x1fd6, 0x1fdb, 1},
	{0x1fdd, 0x1fef, 1},
	{0x1ff2, 0x1ff4, 1},
	{0x1ff6, 0x1ffe, 1},
	{0x2000, 0x200a, 1},
	{0x200b, 0x200f, 0},
	{0x2010, 0x2029, 1},
	{0x202a, 0x202e, 0},
	{0x202f, 0x205f, 1},
	{0x2060, 0x2064, 0},
	{0x2066, 0x206f, 0},
	{0x2070, 0x2071, 1},
	{0x2074, 0x208e, 1},
	{0x2090, 0x209c, 1},
	{0x20a0, 0x20c0, 1},
	{0x20d0, 0x20f0, 0},
	{0x2100, 0x218b, 1},
	{0x2190, 0x2319, 1},
	{0x231a, 0x231b, 2},
	{0x231c, 0x2328, 1},
	{0x2329, 0x232a, 2},
	{0x232b, 0x23e8, 1},
	{0x23e9, 0x23ec, 2},
	{0x23ed, 0x23ef, 1},
	{0x23f0, 0x23f0, 2},
	{0x23f1, 0x23f2, 1},
	{0x23f3, 0x23f3, 2},
	{0x23f4, 0x2426, 1},
	{0x2440, 0x244a, 1},
	{0x2460, 0x25fc, 1},
	{0x25fd, 0x25fe, 2},
	{0x25ff, 0x2613, 1},
	{0x2614, 0x2615, 2},
	{0x2616, 0x262f, 1},
	{0x2638, 0x2647, 1},
	{0x2648, 0x2653, 2},
	{0x2654, 0x267e, 1},
	{0x267f, 0x267f, 2},
	{0x2680, 0x2689, 1},
	{0x2690, 0x2692, 1},
	{0x2693, 0x2693, 2},
	{0x2694, 0x26a0, 1},
	{0x26a1, 0x26a1, 2},
	{0x26a2, 0x26a9, 1},
	{0x26aa, 0x26ab, 2},
	{0x26ac, 0x26bc, 1},
	{0x26bd, 0x26be, 2},
	{0x26bf, 0x26c3, 1},
	{0x26c4, 0x26c5, 2},
	{0x26c6, 0x26cd, 1},
	{0x26ce, 0x26ce, 2},
	{0x26cf, 0x26d3, 1},
	{0x26d4, 0x26d4, 2},
	{0x26d5, 0x26e9, 1},
	{0x26ea, 0x26ea, 2},
	{0x26eb, 0x26f1, 1},
	{0x26f2, 0x26f3, 2},
	{0x26f4, 0x26f4, 1},
	{0x26f5, 0x26f5, 2},
	{0x26f6, 0x26f9, 1},
	{0x26fa, 0x26fa, 2},
	{0x26fb, 0x26fc, 1},
	{0x26fd, 0x26fd, 2},
	{0x26fe, 0x2704, 1},
	{0x2705, 0x2705, 2},
	{0x2706, 0x2709, 1},
	{0x270a, 0x270b, 2},
	{0x270c, 0x2727, 1},
	{0x2728, 0x2728, 2},
	{0x2729, 0x274b, 1},
	{0x274c, 0x274c, 2},
	{0x274d, 0x274d, 1},
	{0x274e, 0x274e, 2},
	{0x274f, 0x2752, 1},
	{0x2753, 0x2755, 2},
	{0x2756, 0x2756, 1},
	{0x2757, 0x2757, 2},
	{0x2758, 0x2794, 1},
	{0x2795, 0x2797, 2},
	{0x2798, 0x27af, 1},
	{0x27b0, 0x27b0, 2},
	{0x27b1, 0x27be, 1},
	{0x27bf, 0x27bf, 2},
	{0x27c0, 0x2b1a, 1},
	{0x2b1b, 0x2b1c, 2},
	{0x2b1d, 0x2b4f, 1},
	{0x2b50, 0x2b50, 2},
	{0x2b51, 0x2b54, 1},
	{0x2b55, 0x2b55, 2},
	{0x2b56, 0x2b73, 1},
	{0x2b76, 0x2b95, 1},
	{0x2b97, 0x2cee, 1},
	{0x2cef, 0x2cf1, 0},
	{0x2cf2, 0x2cf3, 1},
	{0x2cf9, 0x2d25, 1},
	{0x2d27, 0x2d27, 1},
	{0x2d2d, 0x2d2d, 1},
	{0x2d30, 0x2d67, 1},
	{0x2d6f, 0x2d70, 1},
	{0x2d7f, 0x2d7f, 0},
	{0x2d80, 0x2d96, 1},
	{0x2da0, 0x2da6, 1},
	{0x2da8, 0x2dae, 1},
	{0x2db0, 0x2db6, 1},
	{0x2db8, 0x2dbe, 1},
	{0x2dc0, 0x2dc6, 1},
	{0x2dc8, 0x2dce, 1},
	{0x2dd0, 0x2dd6, 1},
	{0x2dd8, 0x2dde, 1},
	{0x2de0, 0x2dff, 0},
	{0x2e00, 0x2e5d, 1},
	{0x2e80, 0x2e99, 2},
	{0x2e9b, 0x2ef3, 2},
	{0x2f00, 0x2fd5, 2},
	{0x2ff0, 0x2ffb, 2},
	{0x3000, 0x3029, 2},
	{0x302a, 0x302d, 0},
	{0x3030, 0x303e, 2},
	{0x303f, 0x303f, 1},
	{0x3041, 0x3096, 2},
	{0x3099, 0x309a, 0},
	{0x309b, 0x30ff, 2},
	{0x3105, 0x312f, 2},
	{0x3131, 0x318e, 2},
	{0x3190, 0x31e3, 2},
	{0x31f0, 0x321e, 2},
	{0x3220, 0x3247, 2},
	{0x3248, 0x324f, 1},
	{0x3250, 0x4dbf, 2},
	{0x4e00, 0xa48c, 2},
	{0xa490, 0xa4c6, 2},
	{0xa4d0, 0xa62b, 1},
	{0xa640, 0xa66e, 1},
	{0xa66f, 0xa672, 0},
	{0xa673, 0xa673, 1},
	{0xa674, 0xa67d, 0},
	{0xa67e, 0xa69d, 1},
	{0xa69e, 0xa69f, 0},
	{0xa6a0, 0xa6ef, 1},
	{0xa6f0, 0xa6f1, 0},
	{0xa6f2, 0xa6f7, 1},
	{0xa700, 0xa7ca, 1},
	{0xa7d0, 0xa7d1, 1},
	{0xa7d3, 0xa7d3, 1},
	{0xa7d5, 0xa7d9, 1},
	{0xa7f2, 0xa801, 1},
	{0xa802, 0xa802, 0},
	{0xa803, 0xa805, 1},
	{0xa806, 0xa806, 0},
	{0xa807, 0xa80a, 1},
	{0xa80b, 0xa80b, 0},
	{0xa80c, 0xa822, 1},
	{0xa825, 0xa826, 0},
	{0xa828, 0xa82b, 1},
	{0xa82c, 0xa82c, 0},
	{0xa830, 0xa839, 1},
	{0xa840, 0xa877, 1},
	{0xa882, 0xa8b3, 1},
	{0xa8c4, 0xa8c5, 0},
	{0xa8ce, 0xa8d9, 1},
	{0xa8e0, 0xa8f1, 0},
	{0xa8f2, 0xa8fe, 1},
	{0xa8ff, 0xa8ff, 0},
	{0xa900, 0xa925, 1},
	{0xa926, 0xa92d, 0},
	{0xa92e, 0xa946, 1},
	{0xa947, 0xa951, 0},
	{0xa95f, 0xa95f, 1},
	{0xa960, 0xa97c, 2},
	{0xa980, 0xa982, 0},
	{0xa984, 0xa9b2, 1},
	{0xa9b3, 0xa9b3, 0},
	{0xa9b6, 0xa9b9, 0},
	{0xa9bc, 0xa9bd, 0},
	{0xa9c1, 0xa9cd, 1},
	{0xa9cf, 0xa9d9, 1},
	{0xa9de, 0xa9e4, 1},
	{0xa9e5, 0xa9e5, 0},
	{0xa9e6, 0xa9fe, 1},
	{0xaa00, 0xaa28, 1},
	{0xaa29, 0xaa2e, 0},
	{0xaa31, 0xaa32, 0},
	{0xaa35, 0xaa36, 0},
	{0xaa40, 0xaa42, 1},
	{0xaa43, 0xaa43, 0},
	{0xaa44, 0xaa4b, 1},
	{0xaa4c, 0xaa4c, 0},
	{0xaa50, 0xaa59, 1},
	{0xaa5c, 0xaa7a, 1},
	{0xaa7c, 0xaa7c, 0},
	{0xaa7e, 0xaaaf, 1},
	{0xaab0, 0xaab0, 0},
	{0xaab1, 0xaab1, 1},
	{0xaab2, 0xaab4, 0},
	{0xaab5, 0xaab6, 1},
	{0xaab7, 0xaab8, 0},
	{0xaab9, 0xaabd, 1},
	{0xaabe, 0xaabf, 0},
	{0xaac0, 0xaac0, 1},
	{0xaac1, 0xaac1, 0},
	{0xaac2, 0xaac2, 1},
	{0xaadb, 0xaaea, 1},
	{0xaaec, 0xaaed, 0},
	{0xaaf0, 0xaaf4, 1},
	{0xaaf6, 0xaaf6, 0},
	{0xab01, 0xab06, 1},
	{0xab09, 0xab0e, 1},
	{0xab11, 0xab16, 1},
	{0xab20, 0xab26, 1},
	{0xab28, 0xab2e, 1},
	{0xab30, 0xab6b, 1},
	{0xab70, 0xabe2, 1},
	{0xabe5, 0xabe5, 0},
	{0xabe8, 0xabe8, 0},
	{0xabeb, 0xabeb, 1},
	{0xabed, 0xabed, 0},
	{0xabf0, 0xabf9, 1},
	{0xac00, 0xd7a3, 2},
	{0xd7b0, 0xd7c6, 0},
	{0xd7cb, 0xd7fb, 0},
	{0xf900, 0xfa6d, 2},
	{0xfa70, 0xfad9, 2},
	{0xfb00, 0xfb06, 1},
	{0xfb13, 0xfb17, 1},
	{0xfb1d, 0xfb1d, 1},
	{0xfb1e, 0xfb1e, 0},
	{0xfb1f, 0xfb36, 1},
	{0xfb38, 0xfb3c, 1},
	{0xfb3e, 0xfb3e, 1},
	{0xfb40, 0xfb41, 1},
	{0xfb43, 0xfb44, 1},
	{0xfb46, 0xfbc2, 1},
	{0xfbd3, 0xfd8f, 1},
	{0xfd92, 0xfdc7, 1},
	{0xfdcf, 0xfdcf, 1},
	{0xfdf0, 0xfdff, 1},
	{0xfe00, 0xfe0f, 0},
	{0xfe10, 0xfe19, 2},
	{0xfe20, 0xfe2f, 0},
	{0xfe30, 0xfe52, 2},
	{0xfe54, 0xfe66, 2},
	{0xfe68, 0xfe6b, 2},
	{0xfe70, 0xfe74, 1},
	{0xfe76, 0xfefc, 1},
	{0xfeff, 0xfeff, 0},
	{0xff01, 0xff60, 2},
	{0xff61, 0xffbe, 1},
	{0xffc2, 0xffc7, 1},
	{0xffca, 0xffcf, 1},
	{0xffd2, 0xffd7, 1},
	{0xffda, 0xffdc, 1},
	{0xffe0, 0xffe6, 2},
	{0xffe8, 0xffee, 1},
	{0xfff9, 0xfffb, 0},
	{0xfffc, 0xfffd, 1},
	{0x10000, 0x1000b, 1},
	{0x1000d, 0x10026, 1},
	{0x10028, 0x1003a, 1},
	{0x1003c, 0x1003d, 1},
	{0x1003f, 0x1004d, 1},
	{0x10050, 0x1005d, 1},
	{0x10080, 0x100fa, 1},
	{0x10100, 0x10102, 1},
	{0x10107, 0x10133, 1},
	{0x10137, 0x1018e, 1},
	{0x10190, 0x1019c, 1},
	{0x101a0, 0x101a0, 1},
	{0x101d0, 0x101fc, 1},
	{0x101fd, 0x101fd, 0},
	{0x10280, 0x1029c, 1},
	{0x102a0, 0x102d0, 1},
	{0x102e0, 0x102e0, 0},
	{0x102e1, 0x102fb, 1},
	{0x10300, 0x10323, 1},
	{0x1032d, 0x1034a, 1},
	{0x10350, 0x10375, 1},
	{0x10376, 0x1037a, 0},
	{0x10380, 0x1039d, 1},
	{0x1039f, 0x103c3, 1},
	{0x103c8, 0x103d5, 1},
	{0x10400, 0x1049d, 1},
	{0x104a0, 0x104a9, 1},
	{0x104b0, 0x104d3, 1},
	{0x104d8, 0x104fb, 1},
	{0x10500, 0x10527, 1},
	{0x10530, 0x10563, 1},
	{0x1056f, 0x1057a, 1},
	{0x1057c, 0x1058a, 1},
	{0x1058c, 0x10592, 1},
	{0x10594, 0x10595, 1},
	{0x10597, 0x105a1, 1},
	{0x105a3, 0x105b1, 1},
	{0x105b3, 0x105b9, 1},
	{0x105bb, 0x105bc, 1},
	{0x10600, 0x10736, 1},
	{0x10740, 0x10755, 1},
	{0x10760, 0x10767, 1},
	{0x10780, 0x10785, 1},
	{0x10787, 0x107b0, 1},
	{0x107b2, 0x107ba, 1},
	{0x10800, 0x10805, 1},
	{0x10808, 0x10808, 1},
	{0x1080a, 0x10835, 1},
	{0x10837, 0x10838, 1},
	{0x1083c, 0x1083c, 1},
	{0x1083f, 0x10855, 1},
	{0x10857, 0x1089e, 1},
	{0x108a7, 0x108af, 1},
	{0x108e0, 0x108f2, 1},
	{0x108f4, 0x108f5, 1},
	{0x108fb, 0x1091b, 1},
	{0x1091f, 0x10939, 1},
	{0x1093f, 0x1093f, 1},
	{0x10980, 0x109b7, 1},
	{0x109bc, 0x109cf, 1},
	{0x109d2, 0x10a00, 1},
	{0x10a01, 0x10a03, 0},
	{0x10a05, 0x10a06, 0},
	{0x10a0c, 0x10a0f, 0},
	{0x10a10, 0x10a13, 1},
	{0x10a15, 0x10a17, 1},
	{0x10a19, 0x10a35, 1},
	{0x10a38, 0x10a3a, 0},
	{0x10a3f, 0x10a3f, 0},
	{0x10a40, 0x10a48, 1},
	{0x10a50, 0x10a58, 1},
	{0x10a60, 0x10a9f, 1},
	{0x10ac0, 0x10ae4, 1},
	{0x10ae5, 0x10ae6, 0},
	{0x10aeb, 0x10af6, 1},
	{0x10b00, 0x10b35, 1},
	{0x10b39, 0x10b55, 1},
	{0x10b58, 0x10b72, 1},
	{0x10b78, 0x10b91, 1},
	{0x10b99, 0x10b9c, 1},
	{0x10ba9, 0x10baf, 1},
	{0x10c00, 0x10c48, 1},
	{0x10c80, 0x10cb2, 1},
	{0x10cc0, 0x10cf2, 1},
	{0x10cfa, 0x10d23, 1},
	{0x10d24, 0x10d27, 0},
	{0x10d30, 0x10d39, 1},
	{0x10e60, 0x10e7e, 1},
	{0x10e80, 0x10ea9, 1},
	{0x10eab, 0x10eac, 0},
	{0x10ead, 0x10ead, 1},
	{0x10eb0, 0x10eb1, 1},
	{0x10efd, 0x10eff, 0},
	{0x10f00, 0x10f27, 1},
	{0x10f30, 0x10f45, 1},
	{0x10f46, 0x10f50, 0},
	{0x10f51, 0x10f59, 1},
	{0x10f70, 0x10f81, 1},
	{0x10f82, 0x10f85, 0},
	{0x10f86, 0x10f89, 1},
	{0x10fb0, 0x10fcb, 1},
	{0x10fe0, 0x10ff6, 1},
	{0x11001, 0x11001, 0},
	{0x11003, 0x11037, 1},
	{0x11038, 0x11046, 0},
	{0x11047, 0x1104d, 1},
	{0x11052, 0x1106f, 1},
	{0x11070, 0x11070, 0},
	{0x11071, 0x11072, 1},
	{0x11073, 0x11074, 0},
	{0x11075, 0x11075, 1},
	{0x1107f, 0x11081, 0},
	{0x11083, 0x110af, 1},
	{0x110b3, 0x110b6, 0},
	{0x110b9, 0x110ba, 0},
	{0x110bb, 0x110bc, 1},
	{0x110be, 0x110c1, 1},
	{0x110c2, 0x110c2, 0},
	{0x110d0, 0x110e8, 1},
	{0x110f0, 0x110f9, 1},
	{0x11100, 0x11102, 0},
	{0x11103, 0x11126, 1},
	{0x11127, 0x1112b, 0},
	{0x1112d, 0x11134, 0},
	{0x11136, 0x11144, 1},
	{0x11147, 0x11147, 1},
	{0x11150, 0x11172, 1},
	{0x11173, 0x11173, 0},
	{0x11174, 0x11176, 1},
	{0x11180, 0x11181, 0},
	{0x11183, 0x111b2, 1},
	{0x111b6, 0x111be, 0},
	{0x111c1, 0x111c8, 1},
	{0x111c9, 0x111cc, 0},
	{0x111cd, 0x111cd, 1},
	{0x111cf, 0x111cf, 0},
	{0x111d0, 0x111df, 1},
	{0x111e1, 0x111f4, 1},
	{0x11200, 0x11211, 1},
	{0x11213, 0x1122b, 1},
	{0x1122f, 0x11231, 0},
	{0x11234, 0x11234, 0},
	{0x11236, 0x11237, 0},
	{0x11238, 0x1123d, 1},
	{0x1123e, 0x1123e, 0},
	{0x1123f, 0x11240, 1},
	{0x11241, 0x11241, 0},
	{0x11280, 0x11286, 1},
	{0x11288, 0x11288, 1},
	{0x1128a, 0x1128d, 1},
	{0x1128f, 0x1129d, 1},
	{0x1129f, 0x112a9, 1},
	{0x112b0, 0x112de, 1},
	{0x112df, 0x112df, 0},
	{0x112e3, 0x112ea, 0},
	{0x112f0, 0x112f9, 1},
	{0x11300, 0x11301, 0},
	{0x11305, 0x1130c, 1},
	{0x1130f, 0x11310, 1},
	{0x11313, 0x11328, 1},
	{0x1132a, 0x11330, 1},
	{0x11332, 0x11333, 1},
	{0x11335, 0x11339, 1},
	{0x1133b, 0x1133c, 0},
	{0x1133d, 0x1133d, 1},
	{0x11340, 0x11340, 0},
	{0x11350, 0x11350, 1},
	{0x1135d, 0x11361, 1},
	{0x11366, 0x1136c, 0},
	{0x11370, 0x11374, 0},
	{0x11400, 0x11434, 1},
	{0x11438, 0x1143f, 0},
	{0x11442, 0x11444, 0},
	{0x11446, 0x11446, 0},
	{0x11447, 0x1145b, 1},
	{0x1145d, 0x1145d, 1},
	{0x1145e, 0x1145e, 0},
	{0x1145f, 0x11461, 1},
	{0x11480, 0x114af, 1},
	{0x114b3, 0x114b8, 0},
	{0x114ba, 0x114ba, 0},
	{0x114bf, 0x114c0, 0},
	{0x114c2, 0x114c3, 0},
	{0x114c4, 0x114c7, 1},
	{0x114d0, 0x114d9, 1},
	{0x11580, 0x115ae, 1},
	{0x115b2, 0x115b5, 0},
	{0x115bc, 0x115bd, 0},
	{0x115bf, 0x115c0, 0},
	{0x115c1, 0x115db, 1},
	{0x115dc, 0x115dd, 0},
	{0x11600, 0x1162f, 1},
	{0x11633, 0x1163a, 0},
	{0x1163d, 0x1163d, 0},
	{0x1163f, 0x11640, 0},
	{0x11641, 0x11644, 1},
	{0x11650, 0x11659, 1},
	{0x11660, 0x1166c, 1},
	{0x11680, 0x116aa, 1},
	{0x116ab, 0x116ab, 0},
	{0x116ad, 0x116ad, 0},
	{0x116b0, 0x116b5, 0},
	{0x116b7, 0x116b7, 0},
	{0x116b8, 0x116b9, 1},
	{0x116c0, 0x116c9, 1},
	{0x11700, 0x1171a, 1},
	{0x1171d, 0x1171f, 0},
	{0x11722, 0x11725, 0},
	{0x11727, 0x1172b, 0},
	{0x11730, 0x11746, 1},
	{0x11800, 0x1182b, 1},
	{0x1182f, 0x11837, 0},
	{0x11839, 0x1183a, 0},
	{0x1183b, 0x1183b, 1},
	{0x118a0, 0x118f2, 1},
	{0x118ff, 0x11906, 1},
	{0x11909, 0x11909, 1},
	{0x1190c, 0x11913, 1},
	{0x11915, 0x11916, 1},
	{0x11918, 0x1192f, 1},
	{0x1193b, 0x1193c, 0},
	{0x1193e, 0x1193e, 0},
	{0x1193f, 0x1193f, 1},
	{0x11941, 0x11941, 1},
	{0x11943, 0x11943, 0},
	{0x11944, 0x11946, 1},
	{0x11950, 0x11959, 1},
	{0x119a0, 0x119a7, 1},
	{0x119aa, 0x119d0, 1},
	{0x119d4, 0x119d7, 0},
	{0x119da, 0x119db, 0},
	{0x119e0, 0x119e0, 0},
	{0x119e1, 0x119e3, 1},
	{0x11a00, 0x11a00, 1},
	{0x11a01, 0x11a0a, 0},
	{0x11a0b, 0x11a32, 1},
	{0x11a33, 0x11a38, 0},
	{0x11a3a, 0x11a3a, 1},
	{0x11a3b, 0x11a3e, 0},
	{0x11a3f, 0x11a46, 1},
	{0x11a47, 0x11a47, 0},
	{0x11a50, 0x11a50, 1},
	{0x11a51, 0x11a56, 0},
	{0x11a59, 0x11a5b, 0},
	{0x11a5c, 0x11a89, 1},
	{0x11a8a, 0x11a96, 0},
	{0x11a98, 0x11a99, 0},
	{0x11a9a, 0x11aa2, 1},
	{0x11ab0, 0x11af8, 1},
	{0x11b00, 0x11b09, 1},
	{0x11c00, 0x11c08, 1},
	{0x11c0a, 0x11c2e, 1},
	{0x11c30, 0x11c36, 0},
	{0x11c38, 0x11c3d, 0},
	{0x11c3f, 0x11c3f, 0},
	{0x11c40, 0x11c45, 1},
	{0x11c50, 0x11c6c, 1},
	{0x11c70, 0x11c8f, 1},
	{0x11c92, 0x11ca7, 0},
	{0x11caa, 0x11cb0, 0},
	{0x11cb2, 0x11cb3, 0},
	{0x11cb5, 0x11cb6, 0},
	{0x11d00, 0x11d06, 1},
	{0x11d08, 0x11d09, 1},
	{0x11d0b, 0x11d30, 1},
	{0x11d31, 0x11d36, 0},
	{0x11d3a, 0x11d3a, 0},
	{0x11d3c, 0x11d3d, 0},
	{0x11d3f, 0x11d45, 0},
	{0x11d46, 0x11d46, 1},
	{0x11d47, 0x11d47, 0},
	{0x11d50, 0x11d59, 1},
	{0x11d60, 0x11d65, 1},
	{0x11d67, 0x11d68, 1},
	{0x11d6a, 0x11d89, 1},
	{0x11d90, 0x11d91, 0},
	{0x11d95, 0x11d95, 0},
	{0x11d97, 0x11d97, 0},
	{0x11d98, 0x11d98, 1},
	{0x11da0, 0x11da9, 1},
	{0x11ee0, 0x11ef2, 1},
	{0x11ef3, 0x11ef4, 0},
	{0x11ef7, 0x11ef8, 1},
	{0x11f00, 0x11f01, 0},
	{0x11f02, 0x11f02, 1},
	{0x11f04, 0x11f10, 1},
	{0x11f12, 0x11f33, 1},
	{0x11f36, 0x11f3a, 0},
	{0x11f40, 0x11f40, 0},
	{0x11f42, 0x11f42, 0},
	{0x11f43, 0x11f59, 1},
	{0x11fb0, 0x11fb0, 1},
	{0x11fc0, 0x11ff1, 1},
	{0x11fff, 0x12399, 1},
	{0x12400, 0x1246e, 1},
	{0x12470, 0x12474, 1},
	{0x12480, 0x12543, 1},
	{0x12f90, 0x12ff2, 1},
	{0x13000, 0x1342f, 1},
	{0x13440, 0x13440, 0},
	{0x13441, 0x13446, 1},
	{0x13447, 0x13455, 0},
	{0x14400, 0x14646, 1},
	{0x16800, 0x16a38, 1},
	{0x16a40, 0x16a5e, 1},
	{0x16a60, 0x16a69, 1},
	{0x16a6e, 0x16abe, 1},
	{0x16ac0, 0x16ac9, 1},
	{0x16ad0, 0x16aed, 1},
	{0x16af0, 0x16af4, 0},
	{0x16af5, 0x16af5, 1},
	{0x16b00, 0x16b2f, 1},
	{0x16b30, 0x16b36, 0},
	{0x16b37, 0x16b45, 1},
	{0x16b50, 0x16b59, 1},
	{0x16b5b, 0x16b61, 1},
	{0x16b63, 0x16b77, 1},
	{0x16b7d, 0x16b8f, 1},
	{0x16e40, 0x16e9a, 1},
	{0x16f00, 0x16f4a, 1},
	{0x16f4f, 0x16f4f, 0},
	{0x16f50, 0x16f50, 1},
	{0x16f8f, 0x16f92, 0},
	{0x16f93, 0x16f9f, 1},
	{0x16fe0, 0x16fe3, 2},
	{0x16fe4, 0x16fe4, 0},
	{0x17000, 0x187f7, 2},
	{0x18800, 0x18cd5, 2},
	{0x18d00, 0x18d08, 2},
	{0x1aff0, 0x1aff3, 2},
	{0x1aff5, 0x1affb, 2},
	{0x1affd, 0x1affe, 2},
	{0x1b000, 0x1b122, 2},
	{0x1b132, 0x1b132, 2},
	{0x1b150, 0x1b152, 2},
	{0x1b155, 0x1b155, 2},
	{0x1b164, 0x1b167, 2},
	{0x1b170, 0x1b2fb, 2},
	{0x1bc00, 0x1bc6a, 1},
	{0x1bc70, 0x1bc7c, 1},
	{0x1bc80, 0x1bc88, 1},
	{0x1bc90, 0x1bc99, 1},
	{0x1bc9c, 0x1bc9c, 1},
	{0x1bc9d, 0x1bc9e, 0},
	{0x1bc9f, 0x1bc9f, 1},
	{0x1cf00, 0x1cf2d, 0},
	{0x1cf30, 0x1cf46, 0},
	{0x1cf50, 0x1cfc3, 1},
	{0x1d000, 0x1d0f5, 1},
	{0x1d100, 0x1d126, 1},
	{0x1d129, 0x1d164, 1},
	{0x1d167, 0x1d169, 0},
	{0x1d16a, 0x1d16c, 1},
	{0x1d173, 0x1d182, 0},
	{0x1d183, 0x1d184, 1},
	{0x1d185, 0x1d18b, 0},
	{0x1d18c, 0x1d1a9, 1},
	{0x1d1aa, 0x1d1ad, 0},
	{0x1d1ae, 0x1d1ea, 1},
	{0x1d200, 0x1d241, 1},
	{0x1d242, 0x1d244, 0},
	{0x1d245, 0x1d245, 1},
	{0x1d2c0, 0x1d2d3, 1},
	{0x1d2e0, 0x1d2f3, 1},
	{0x1d377, 0x1d378, 1},
	{0x1d400, 0x1d454, 1},
	{0x1d456, 0x1d49c, 1},
	{0x1d49e, 0x1d49f, 1},
	{0x1d4a2, 0x1d4a2, 1},
	{0x1d4a5, 0x1d4a6, 1},
	{0x1d4a9, 0x1d4ac, 1},
	{0x1d4ae, 0x1d4b9, 1},
	{0x1d4bb, 0x1d4bb, 1},
	{0x1d4bd, 0x1d4c3, 1},
	{0x1d4c5, 0x1d505, 1},
	{0x1d507, 0x1d50a, 1},
	{0x1d50d, 0x1d514, 1},
	{0x1d516, 0x1d51c, 1},
	{0x1d51e, 0x1d539, 1},
	{0x1d53b, 0x1d53e, 1},
	{0x1d540, 0x1d544, 1},
	{0x1d546, 0x1d546, 1},
	{0x1d54a, 0x1d550, 1},
	{0x1d552, 0x1d6a5, 1},
	{0x1d6a8, 0x1d7cb, 1},
	{0x1d7ce, 0x1d9ff, 1},
	{0x1da00, 0x1da36, 0},
	{0x1da37, 0x1da3a, 1},
	{0x1da3b, 0x1da6c, 0},
	{0x1da6d, 0x1da74, 1},
	{0x1da75, 0x1da75, 0},
	{0x1da76, 0x1da83, 1},
	{0x1da84, 0x1da84, 0},
	{0x1da85, 0x1da8b, 1},
	{0x1da9b, 0x1da9f, 0},
	{0x1daa1, 0x1daaf, 0},
	{0x1df00, 0x1df1e, 1},
	{0x1df25, 0x1df2a, 1},
	{0x1e000, 0x1e006, 0},
	{0x1e008, 0x1e018, 0},
	{0x1e01b, 0x1e021, 0},
	{0x1e023, 0x1e024, 0},
	{0x1e026, 0x1e02a, 0},
	{0x1e030, 0x1e06d, 1},
	{0x1e08f, 0x1e08f, 0},
	{0x1e100, 0x1e12c, 1},
	{0x1e130, 0x1e136, 0},
	{0x1e137, 0x1e13d, 1},
	{0x1e140, 0x1e149, 1},
	{0x1e14e, 0x1e14f, 1},
	{0x1e290, 0x1e2ad, 1},
	{0x1e2ae, 0x1e2ae, 0},
	{0x1e2c0, 0x1e2eb, 1},
	{0x1e2ec, 0x1e2ef, 0},
	{0x1e2f0, 0x1e2f9, 1},
	{0x1e2ff, 0x1e2ff, 1},
	{0x1e4d0, 0x1e4eb, 1},
	{0x1e4ec, 0x1e4ef, 0},
	{0x1e4f0, 0x1e4f9, 1},
	{0x1e7e0, 0x1e7e6, 1},
	{0x1e7e8, 0x1e7eb, 1},
	{0x1e7ed, 0x1e7ee, 1},
	{0x1e7f0, 0x1e7fe, 1},
	{0x1e800, 0x1e8c4, 1},
	{0x1e8c7, 0x1e8cf, 1},
	{0x1e8d0, 0x1e8d6, 0},
	{0x1e900, 0x1e943, 1},
	{0x1e944, 0x1e94a, 0},
	{0x1e94b, 0x1e94b, 1},
	{0x1e950, 0x1e959, 1},
	{0x1e95e, 0x1e95f, 1},
	{0x1ec71, 0x1ecb4, 1},
	{0x1ed01, 0x1ed3d, 1},
	{0x1ee00, 0x1ee03, 1},
	{0x1ee05, 0x1ee1f, 1},
	{0x1ee21, 0x1ee22, 1},
	{0x1ee24, 0x1ee24, 1},
	{0x1ee27, 0x1ee27, 1},
	{0x1ee29, 0x1ee32, 1},
	{0x1ee34, 0x1ee37, 1},
	{0x1ee39, 0x1ee39, 1},
	{0x1ee3b, 0x1ee3b, 1},
	{0x1ee42, 0x1ee42, 1},
	{0x1ee47, 0x1ee47, 1},
	{0x1ee49, 0x1ee49, 1},
	{0x1ee4b, 0x1ee4b, 1},
	{0x1ee4d, 0x1ee4f, 1},
	{0x1ee51, 0x1ee52, 1},
	{0x1ee54, 0x1ee54, 1},
	{0x1ee57, 0x1ee57, 1},
	{0x1ee59, 0x1ee59, 1},
	{0x1ee5b, 0x1ee5b, 1},
	{0x1ee5d, 0x1ee5d, 1},
	{0x1ee5f, 0x1ee5f, 1},
	{0x1ee61, 0x1ee62, 1},
	{0x1ee64, 0x1ee64, 1},
	{0x1ee67, 0x1ee6a, 1},
	{0x1ee6c, 0x1ee72, 1},
	{0x1ee74, 0x1ee77, 1},
	{0x1ee79, 0x1ee7c, 1},
	{0x1ee7e, 0x1ee7e, 1},
	{0x1ee80, 0x1ee89, 1},
	{0x1ee8b, 0x1ee9b, 1},
	{0x1eea1, 0x1eea3, 1},
	{0x1eea5, 0x1eea9, 1},
	{0x1eeab, 0x1eebb, 1},
	{0x1eef0, 0x1eef1, 1},
	{0x1f000, 0x1f003, 1},
	{0x1f004, 0x1f004, 2},
	{0x1f005, 0x1f02b, 1},
	{0x1f030, 0x1f093, 1},
	{0x1f0a0, 0x1f0ae, 1},
	{0x1f0b1, 0x1f0bf, 1},
	{0x1f0c1, 0x1f0ce, 1},
	{0x1f0cf, 0x1f0cf, 2},
	{0x1f0d1, 0x1f0f5, 1},
	{0x1f100, 0x1f16f, 1},
	{0x1f172, 0x1f17d, 1},
	{0x1f180, 0x1f18d, 1},
	{0x1f18e, 0x1f18e, 2},
	{0x1f18f, 0x1f190, 1},
	{0x1f191, 0x1f19a, 2},
	{0x1f19b, 0x1f1ad, 1},
	{0x1f200, 0x1f202, 2},
	{0x1f210, 0x1f23b, 2},
	{0x1f240, 0x1f248, 2},
	{0x1f250, 0x1f251, 2},
	{0x1f260, 0x1f265, 2},
	{0x1f300, 0x1f320, 2},
	{0x1f32d, 0x1f335, 2},
	{0x1f337, 0x1f37c, 2},
	{0x1f37e, 0x1f393, 2},
	{0x1f3a0, 0x1f3ca, 2},
	{0x1f3cf, 0x1f3d3, 2},
	{0x1f3e0, 0x1f3f0, 2},
	{0x1f3f4, 0x1f3f4, 2},
	{0x1f3f8, 0x1f43e, 2},
	{0x1f440, 0x1f440, 2},
	{0x1f442, 0x1f4fc, 2},
	{0x1f4ff, 0x1f53d, 2},
	{0x1f54b, 0x1f54e, 2},
	{0x1f550, 0x1f567, 2},
	{0x1f57a, 0x1f57a, 2},
	{0x1f595, 0x1f596, 2},
	{0x1f5a4, 0x1f5a4, 2},
	{0x1f5fb, 0x1f64f, 2},
	{0x1f650, 0x1f67f, 1},
	{0x1f680, 0x1f6c5, 2},
	{0x1f6cc, 0x1f6cc, 2},
	{0x1f6d0, 0x1f6d2, 2},
	{0x1f6d5, 0x1f6d7, 2},
	{0x1f6dc, 0x1f6df, 2},
	{0x1f6eb, 0x1f6ec, 2},
	{0x1f6f4, 0x1f6fc, 2},
	{0x1f700, 0x1f776, 1},
	{0x1f77b, 0x1f7d9, 1},
	{0x1f7e0, 0x1f7eb, 2},
	{0x1f7f0, 0x1f7f0, 2},
	{0x1f800, 0x1f80b, 1},
	{0x1f810, 0x1f847, 1},
	{0x1f850, 0x1f859, 1},
	{0x1f860, 0x1f887, 1},
	{0x1f890, 0x1f8ad, 1},
	{0x1f8b0, 0x1f8b1, 1},
	{0x1f90c, 0x1f93a, 2},
	{0x1f93c, 0x1f945, 2},
	{0x1f947, 0x1f9ff, 2},
	{0x1fa00, 0x1fa53, 1},
	{0x1fa60, 0x1fa6d, 1},
	{0x1fa70, 0x1fa7c, 2},
	{0x1fa80, 0x1fa88, 2},
	{0x1fa90, 0x1fabd, 2},
	{0x1fabf, 0x1fac5, 2},
	{0x1face, 0x1fadb, 2},
	{0x1fae0, 0x1fae8, 2},
	{0x1faf0, 0x1faf8, 2},
	{0x1fb00, 0x1fb92, 1},
	{0x1fb94, 0x1fbca, 1},
	{0x1fbf0, 0x1fbf9, 1},
	{0x20000, 0x2a6df, 2},
	{0x2a700, 0x2b739, 2},
	{0x2b740, 0x2b81d, 2},
	{0x2b820, 0x2cea1, 2},
	{0x2ceb0, 0x2ebe0, 2},
	{0x2f800, 0x2fa1d, 2},
	{0x30000, 0x3134a, 2},
	{0x31350, 0x323af, 2},
	{0xe0001, 0xe0001, 0},
	{0xe0020, 0xe007f, 0},
	{0xe0100, 0xe01ef, 0},
}
