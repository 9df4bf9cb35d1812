// Generated by tools/mkxid.py from the unicode database of Python.
#pragma once
struct XidRange { unsigned lo, hi; int kind; }; // kind: 2 = may start a name, 1 = may continue a name, 0 = neither
static const XidRange xid_ranges[] = {
    {0x80, 0x84, 0}, {0x86, 0xa9, 0}, {0xaa, 0xaa, 2}, {0xab, 0xb4, 0}, {0xb5, 0xb5, 2}, {0xb6, 0xb6, 0}, {0xb7, 0xb7, 1}, {0xb8, 0xb9, 0},
    {0xba, 0xba, 2}, {0xbb, 0xbf, 0}, {0xc0, 0xd6, 2}, {0xd7, 0xd7, 0}, {0xd8, 0xf6, 2}, {0xf7, 0xf7, 0}, {0xf8, 0x220, 2}, {0x222, 0x233, 2},
    {0x250, 0x2ad, 2}, {0x2b0, 0x2c1, 2}, {0x2c2, 0x2c5, 0}, {0x2c6, 0x2d1, 2}, {0x2d2, 0x2df, 0}, {0x2e0, 0x2e4, 2}, {0x2e5, 0x2eb, 0}, {0x2ec, 0x2ec, 2},
    {0x2ed, 0x2ed, 0}, {0x2ee, 0x2ee, 2}, {0x300, 0x34f, 1}, {0x360, 0x36f, 1}, {0x374, 0x374, 2}, {0x375, 0x375, 0}, {0x37a, 0x37a, 0}, {0x37e, 0x37e, 0},
    {0x384, 0x385, 0}, {0x386, 0x386, 2}, {0x387, 0x387, 1}, {0x388, 0x38a, 2}, {0x38c, 0x38c, 2}, {0x38e, 0x3a1, 2}, {0x3a3, 0x3ce, 2}, {0x3d0, 0x3f5, 2},
    {0x3f6, 0x3f6, 0}, {0x400, 0x481, 2}, {0x482, 0x482, 0}, {0x483, 0x486, 1}, {0x488, 0x489, 0}, {0x48a, 0x4ce, 2}, {0x4d0, 0x4f5, 2}, {0x4f8, 0x4f9, 2},
    {0x500, 0x50f, 2}, {0x531, 0x556, 2}, {0x559, 0x559, 2}, {0x55a, 0x55f, 0}, {0x561, 0x587, 2}, {0x589, 0x58a, 0}, {0x591, 0x5a1, 1}, {0x5a3, 0x5b9, 1},
    {0x5bb, 0x5bd, 1}, {0x5be, 0x5be, 0}, {0x5bf, 0x5bf, 1}, {0x5c0, 0x5c0, 0}, {0x5c1, 0x5c2, 1}, {0x5c3, 0x5c3, 0}, {0x5c4, 0x5c4, 1}, {0x5d0, 0x5ea, 2},
    {0x5f0, 0x5f2, 2}, {0x5f3, 0x5f4, 0}, {0x60c, 0x60c, 0}, {0x61b, 0x61b, 0}, {0x61f, 0x61f, 0}, {0x621, 0x63a, 2}, {0x640, 0x64a, 2}, {0x64b, 0x655, 1},
    {0x660, 0x669, 1}, {0x66a, 0x66d, 0}, {0x66e, 0x66f, 2}, {0x670, 0x670, 1}, {0x671, 0x6d3, 2}, {0x6d4, 0x6d4, 0}, {0x6d5, 0x6d5, 2}, {0x6d6, 0x6dc, 1},
    {0x6dd, 0x6de, 0}, {0x6df, 0x6e4, 1}, {0x6e5, 0x6e6, 2}, {0x6e7, 0x6e8, 1}, {0x6e9, 0x6e9, 0}, {0x6ea, 0x6ed, 1}, {0x6f0, 0x6f9, 1}, {0x6fa, 0x6fc, 2},
    {0x6fd, 0x6fe, 0}, {0x700, 0x70d, 0}, {0x70f, 0x70f, 0}, {0x710, 0x710, 2}, {0x711, 0x711, 1}, {0x712, 0x72c, 2}, {0x730, 0x74a, 1}, {0x780, 0x7a5, 2},
    {0x7a6, 0x7b0, 1}, {0x7b1, 0x7b1, 2}, {0x901, 0x903, 1}, {0x905, 0x939, 2}, {0x93c, 0x93c, 1}, {0x93d, 0x93d, 2}, {0x93e, 0x94d, 1}, {0x950, 0x950, 2},
    {0x951, 0x954, 1}, {0x958, 0x961, 2}, {0x962, 0x963, 1}, {0x964, 0x965, 0}, {0x966, 0x96f, 1}, {0x970, 0x970, 0}, {0x981, 0x983, 1}, {0x985, 0x98c, 2},
    {0x98f, 0x990, 2}, {0x993, 0x9a8, 2}, {0x9aa, 0x9b0, 2}, {0x9b2, 0x9b2, 2}, {0x9b6, 0x9b9, 2}, {0x9bc, 0x9bc, 1}, {0x9be, 0x9c4, 1}, {0x9c7, 0x9c8, 1},
    {0x9cb, 0x9cd, 1}, {0x9d7, 0x9d7, 1}, {0x9dc, 0x9dd, 2}, {0x9df, 0x9e1, 2}, {0x9e2, 0x9e3, 1}, {0x9e6, 0x9ef, 1}, {0x9f0, 0x9f1, 2}, {0x9f2, 0x9fa, 0},
    {0xa02, 0xa02, 1}, {0xa05, 0xa0a, 2}, {0xa0f, 0xa10, 2}, {0xa13, 0xa28, 2}, {0xa2a, 0xa30, 2}, {0xa32, 0xa33, 2}, {0xa35, 0xa36, 2}, {0xa38, 0xa39, 2},
    {0xa3c, 0xa3c, 1}, {0xa3e, 0xa42, 1}, {0xa47, 0xa48, 1}, {0xa4b, 0xa4d, 1}, {0xa59, 0xa5c, 2}, {0xa5e, 0xa5e, 2}, {0xa66, 0xa71, 1}, {0xa72, 0xa74, 2},
    {0xa81, 0xa83, 1}, {0xa85, 0xa8b, 2}, {0xa8d, 0xa8d, 2}, {0xa8f, 0xa91, 2}, {0xa93, 0xaa8, 2}, {0xaaa, 0xab0, 2}, {0xab2, 0xab3, 2}, {0xab5, 0xab9, 2},
    {0xabc, 0xabc, 1}, {0xabd, 0xabd, 2}, {0xabe, 0xac5, 1}, {0xac7, 0xac9, 1}, {0xacb, 0xacd, 1}, {0xad0, 0xad0, 2}, {0xae0, 0xae0, 2}, {0xae6, 0xaef, 1},
    {0xb01, 0xb03, 1}, {0xb05, 0xb0c, 2}, {0xb0f, 0xb10, 2}, {0xb13, 0xb28, 2}, {0xb2a, 0xb30, 2}, {0xb32, 0xb33, 2}, {0xb36, 0xb39, 2}, {0xb3c, 0xb3c, 1},
    {0xb3d, 0xb3d, 2}, {0xb3e, 0xb43, 1}, {0xb47, 0xb48, 1}, {0xb4b, 0xb4d, 1}, {0xb56, 0xb57, 1}, {0xb5c, 0xb5d, 2}, {0xb5f, 0xb61, 2}, {0xb66, 0xb6f, 1},
    {0xb70, 0xb70, 0}, {0xb82, 0xb82, 1}, {0xb83, 0xb83, 2}, {0xb85, 0xb8a, 2}, {0xb8e, 0xb90, 2}, {0xb92, 0xb95, 2}, {0xb99, 0xb9a, 2}, {0xb9c, 0xb9c, 2},
    {0xb9e, 0xb9f, 2}, {0xba3, 0xba4, 2}, {0xba8, 0xbaa, 2}, {0xbae, 0xbb5, 2}, {0xbb7, 0xbb9, 2}, {0xbbe, 0xbc2, 1}, {0xbc6, 0xbc8, 1}, {0xbca, 0xbcd, 1},
    {0xbd7, 0xbd7, 1}, {0xbe7, 0xbef, 1}, {0xbf0, 0xbf2, 0}, {0xc01, 0xc03, 1}, {0xc05, 0xc0c, 2}, {0xc0e, 0xc10, 2}, {0xc12, 0xc28, 2}, {0xc2a, 0xc33, 2},
    {0xc35, 0xc39, 2}, {0xc3e, 0xc44, 1}, {0xc46, 0xc48, 1}, {0xc4a, 0xc4d, 1}, {0xc55, 0xc56, 1}, {0xc60, 0xc61, 2}, {0xc66, 0xc6f, 1}, {0xc82, 0xc83, 1},
    {0xc85, 0xc8c, 2}, {0xc8e, 0xc90, 2}, {0xc92, 0xca8, 2}, {0xcaa, 0xcb3, 2}, {0xcb5, 0xcb9, 2}, {0xcbe, 0xcc4, 1}, {0xcc6, 0xcc8, 1}, {0xcca, 0xccd, 1},
    {0xcd5, 0xcd6, 1}, {0xcde, 0xcde, 2}, {0xce0, 0xce1, 2}, {0xce6, 0xcef, 1}, {0xd02, 0xd03, 1}, {0xd05, 0xd0c, 2}, {0xd0e, 0xd10, 2}, {0xd12, 0xd28, 2},
    {0xd2a, 0xd39, 2}, {0xd3e, 0xd43, 1}, {0xd46, 0xd48, 1}, {0xd4a, 0xd4d, 1}, {0xd57, 0xd57, 1}, {0xd60, 0xd61, 2}, {0xd66, 0xd6f, 1}, {0xd82, 0xd83, 1},
    {0xd85, 0xd96, 2}, {0xd9a, 0xdb1, 2}, {0xdb3, 0xdbb, 2}, {0xdbd, 0xdbd, 2}, {0xdc0, 0xdc6, 2}, {0xdca, 0xdca, 1}, {0xdcf, 0xdd4, 1}, {0xdd6, 0xdd6, 1},
    {0xdd8, 0xddf, 1}, {0xdf2, 0xdf3, 1}, {0xdf4, 0xdf4, 0}, {0xe01, 0xe30, 2}, {0xe31, 0xe31, 1}, {0xe32, 0xe32, 2}, {0xe33, 0xe3a, 1}, {0xe3f, 0xe3f, 0},
    {0xe40, 0xe46, 2}, {0xe47, 0xe4e, 1}, {0xe4f, 0xe4f, 0}, {0xe50, 0xe59, 1}, {0xe5a, 0xe5b, 0}, {0xe81, 0xe82, 2}, {0xe84, 0xe84, 2}, {0xe87, 0xe88, 2},
    {0xe8a, 0xe8a, 2}, {0xe8d, 0xe8d, 2}, {0xe94, 0xe97, 2}, {0xe99, 0xe9f, 2}, {0xea1, 0xea3, 2}, {0xea5, 0xea5, 2}, {0xea7, 0xea7, 2}, {0xeaa, 0xeab, 2},
    {0xead, 0xeb0, 2}, {0xeb1, 0xeb1, 1}, {0xeb2, 0xeb2, 2}, {0xeb3, 0xeb9, 1}, {0xebb, 0xebc, 1}, {0xebd, 0xebd, 2}, {0xec0, 0xec4, 2}, {0xec6, 0xec6, 2},
    {0xec8, 0xecd, 1}, {0xed0, 0xed9, 1}, {0xedc, 0xedd, 2}, {0xf00, 0xf00, 2}, {0xf01, 0xf17, 0}, {0xf18, 0xf19, 1}, {0xf1a, 0xf1f, 0}, {0xf20, 0xf29, 1},
    {0xf2a, 0xf34, 0}, {0xf35, 0xf35, 1}, {0xf36, 0xf36, 0}, {0xf37, 0xf37, 1}, {0xf38, 0xf38, 0}, {0xf39, 0xf39, 1}, {0xf3a, 0xf3d, 0}, {0xf3e, 0xf3f, 1},
    {0xf40, 0xf47, 2}, {0xf49, 0xf6a, 2}, {0xf71, 0xf84, 1}, {0xf85, 0xf85, 0}, {0xf86, 0xf87, 1}, {0xf88, 0xf8b, 2}, {0xf90, 0xf97, 1}, {0xf99, 0xfbc, 1},
    {0xfbe, 0xfc5, 0}, {0xfc6, 0xfc6, 1}, {0xfc7, 0xfcc, 0}, {0xfcf, 0xfcf, 0}, {0x1000, 0x1021, 2}, {0x1023, 0x1027, 2}, {0x1029, 0x102a, 2}, {0x102c, 0x1032, 1},
    {0x1036, 0x1039, 1}, {0x1040, 0x1049, 1}, {0x104a, 0x104f, 0}, {0x1050, 0x1055, 2}, {0x1056, 0x1059, 1}, {0x10a0, 0x10c5, 2}, {0x10d0, 0x10f8, 2}, {0x10fb, 0x10fb, 0},
    {0x1100, 0x1159, 2}, {0x115f, 0x11a2, 2}, {0x11a8, 0x11f9, 2}, {0x1200, 0x1206, 2}, {0x1208, 0x1246, 2}, {0x1248, 0x1248, 2}, {0x124a, 0x124d, 2}, {0x1250, 0x1256, 2},
    {0x1258, 0x1258, 2}, {0x125a, 0x125d, 2}, {0x1260, 0x1286, 2}, {0x1288, 0x1288, 2}, {0x128a, 0x128d, 2}, {0x1290, 0x12ae, 2}, {0x12b0, 0x12b0, 2}, {0x12b2, 0x12b5, 2},
    {0x12b8, 0x12be, 2}, {0x12c0, 0x12c0, 2}, {0x12c2, 0x12c5, 2}, {0x12c8, 0x12ce, 2}, {0x12d0, 0x12d6, 2}, {0x12d8, 0x12ee, 2}, {0x12f0, 0x130e, 2}, {0x1310, 0x1310, 2},
    {0x1312, 0x1315, 2}, {0x1318, 0x131e, 2}, {0x1320, 0x1346, 2}, {0x1348, 0x135a, 2}, {0x1361, 0x1368, 0}, {0x1369, 0x1371, 1}, {0x1372, 0x137c, 0}, {0x13a0, 0x13f4, 2},
    {0x1401, 0x166c, 2}, {0x166d, 0x166e, 0}, {0x166f, 0x1676, 2}, {0x1680, 0x1680, 0}, {0x1681, 0x169a, 2}, {0x169b, 0x169c, 0}, {0x16a0, 0x16ea, 2}, {0x16eb, 0x16ed, 0},
    {0x16ee, 0x16f0, 2}, {0x1700, 0x170c, 2}, {0x170e, 0x1711, 2}, {0x1712, 0x1714, 1}, {0x1720, 0x1731, 2}, {0x1732, 0x1734, 1}, {0x1735, 0x1736, 0}, {0x1740, 0x1751, 2},
    {0x1752, 0x1753, 1}, {0x1760, 0x176c, 2}, {0x176e, 0x1770, 2}, {0x1772, 0x1773, 1}, {0x1780, 0x17b3, 2}, {0x17b4, 0x17d3, 1}, {0x17d4, 0x17d6, 0}, {0x17d7, 0x17d7, 2},
    {0x17d8, 0x17db, 0}, {0x17dc, 0x17dc, 2}, {0x17e0, 0x17e9, 1}, {0x1800, 0x180a, 0}, {0x180b, 0x180d, 1}, {0x180e, 0x180e, 0}, {0x1810, 0x1819, 1}, {0x1820, 0x1877, 2},
    {0x1880, 0x18a8, 2}, {0x18a9, 0x18a9, 1}, {0x1e00, 0x1e9b, 2}, {0x1ea0, 0x1ef9, 2}, {0x1f00, 0x1f15, 2}, {0x1f18, 0x1f1d, 2}, {0x1f20, 0x1f45, 2}, {0x1f48, 0x1f4d, 2},
    {0x1f50, 0x1f57, 2}, {0x1f59, 0x1f59, 2}, {0x1f5b, 0x1f5b, 2}, {0x1f5d, 0x1f5d, 2}, {0x1f5f, 0x1f7d, 2}, {0x1f80, 0x1fb4, 2}, {0x1fb6, 0x1fbc, 2}, {0x1fbd, 0x1fbd, 0},
    {0x1fbe, 0x1fbe, 2}, {0x1fbf, 0x1fc1, 0}, {0x1fc2, 0x1fc4, 2}, {0x1fc6, 0x1fcc, 2}, {0x1fcd, 0x1fcf, 0}, {0x1fd0, 0x1fd3, 2}, {0x1fd6, 0x1fdb, 2}, {0x1fdd, 0x1fdf, 0},
    {0x1fe0, 0x1fec, 2}, {0x1fed, 0x1fef, 0}, {0x1ff2, 0x1ff4, 2}, {0x1ff6, 0x1ffc, 2}, {0x1ffd, 0x1ffe, 0}, {0x2000, 0x200d, 0}, {0x2010, 0x2027, 0}, {0x202a, 0x203e, 0},
    {0x203f, 0x2040, 1}, {0x2041, 0x2052, 0}, {0x2057, 0x2057, 0}, {0x205f, 0x2063, 0}, {0x206a, 0x2070, 0}, {0x2071, 0x2071, 2}, {0x2074, 0x207e, 0}, {0x207f, 0x207f, 2},
    {0x2080, 0x208e, 0}, {0x20a0, 0x20b1, 0}, {0x20d0, 0x20dc, 1}, {0x20dd, 0x20e0, 0}, {0x20e1, 0x20e1, 1}, {0x20e2, 0x20e4, 0}, {0x20e5, 0x20ea, 1}, {0x2100, 0x2101, 0},
    {0x2102, 0x2102, 2}, {0x2103, 0x2106, 0}, {0x2107, 0x2107, 2}, {0x2108, 0x2109, 0}, {0x210a, 0x2113, 2}, {0x2114, 0x2114, 0}, {0x2115, 0x2115, 2}, {0x2116, 0x2117, 0},
    {0x2118, 0x211d, 2}, {0x211e, 0x2123, 0}, {0x2124, 0x2124, 2}, {0x2125, 0x2125, 0}, {0x2126, 0x2126, 2}, {0x2127, 0x2127, 0}, {0x2128, 0x2128, 2}, {0x2129, 0x2129, 0},
    {0x212a, 0x2139, 2}, {0x213a, 0x213a, 0}, {0x213d, 0x213f, 2}, {0x2140, 0x2144, 0}, {0x2145, 0x2149, 2}, {0x214a, 0x214b, 0}, {0x2153, 0x215f, 0}, {0x2160, 0x2183, 2},
    {0x2190, 0x23ce, 0}, {0x2400, 0x2426, 0}, {0x2440, 0x244a, 0}, {0x2460, 0x24fe, 0}, {0x2500, 0x2613, 0}, {0x2616, 0x2617, 0}, {0x2619, 0x267d, 0}, {0x2680, 0x2689, 0},
    {0x2701, 0x2704, 0}, {0x2706, 0x2709, 0}, {0x270c, 0x2727, 0}, {0x2729, 0x274b, 0}, {0x274d, 0x274d, 0}, {0x274f, 0x2752, 0}, {0x2756, 0x2756, 0}, {0x2758, 0x275e, 0},
    {0x2761, 0x2794, 0}, {0x2798, 0x27af, 0}, {0x27b1, 0x27be, 0}, {0x27d0, 0x27eb, 0}, {0x27f0, 0x2aff, 0}, {0x2e80, 0x2e99, 0}, {0x2e9b, 0x2ef3, 0}, {0x2f00, 0x2fd5, 0},
    {0x2ff0, 0x2ffb, 0}, {0x3000, 0x3004, 0}, {0x3005, 0x3007, 2}, {0x3008, 0x3020, 0}, {0x3021, 0x3029, 2}, {0x302a, 0x302f, 1}, {0x3030, 0x3030, 0}, {0x3031, 0x3035, 2},
    {0x3036, 0x3037, 0}, {0x3038, 0x303c, 2}, {0x303d, 0x303f, 0}, {0x3041, 0x3096, 2}, {0x3099, 0x309a, 1}, {0x309b, 0x309c, 0}, {0x309d, 0x309f, 2}, {0x30a0, 0x30a0, 0},
    {0x30a1, 0x30fa, 2}, {0x30fb, 0x30fb, 0}, {0x30fc, 0x30ff, 2}, {0x3105, 0x312c, 2}, {0x3131, 0x318e, 2}, {0x3190, 0x319f, 0}, {0x31a0, 0x31b7, 2}, {0x31f0, 0x31ff, 2},
    {0x3200, 0x321c, 0}, {0x3220, 0x3243, 0}, {0x3251, 0x327b, 0}, {0x327f, 0x32cb, 0}, {0x32d0, 0x32fe, 0}, {0x3300, 0x3376, 0}, {0x337b, 0x33dd, 0}, {0x33e0, 0x33fe, 0},
    {0x3400, 0x4db5, 2}, {0x4e00, 0x9fa5, 2}, {0xa000, 0xa48c, 2}, {0xa490, 0xa4c6, 0}, {0xac00, 0xd7a3, 2}, {0xe000, 0xf8ff, 0}, {0xf900, 0xfa2d, 2}, {0xfa30, 0xfa6a, 2},
    {0xfb00, 0xfb06, 2}, {0xfb13, 0xfb17, 2}, {0xfb1d, 0xfb1d, 2}, {0xfb1e, 0xfb1e, 1}, {0xfb1f, 0xfb28, 2}, {0xfb29, 0xfb29, 0}, {0xfb2a, 0xfb36, 2}, {0xfb38, 0xfb3c, 2},
    {0xfb3e, 0xfb3e, 2}, {0xfb40, 0xfb41, 2}, {0xfb43, 0xfb44, 2}, {0xfb46, 0xfbb1, 2}, {0xfbd3, 0xfc5d, 2}, {0xfc5e, 0xfc63, 0}, {0xfc64, 0xfd3d, 2}, {0xfd3e, 0xfd3f, 0},
    {0xfd50, 0xfd8f, 2}, {0xfd92, 0xfdc7, 2}, {0xfdf0, 0xfdf9, 2}, {0xfdfa, 0xfdfc, 0}, {0xfe00, 0xfe0f, 1}, {0xfe20, 0xfe23, 1}, {0xfe30, 0xfe32, 0}, {0xfe33, 0xfe34, 1},
    {0xfe35, 0xfe46, 0}, {0xfe49, 0xfe4c, 0}, {0xfe4d, 0xfe4f, 1}, {0xfe50, 0xfe52, 0}, {0xfe54, 0xfe66, 0}, {0xfe68, 0xfe6b, 0}, {0xfe70, 0xfe70, 0}, {0xfe71, 0xfe71, 2},
    {0xfe72, 0xfe72, 0}, {0xfe73, 0xfe73, 2}, {0xfe74, 0xfe74, 0}, {0xfe76, 0xfe76, 0}, {0xfe77, 0xfe77, 2}, {0xfe78, 0xfe78, 0}, {0xfe79, 0xfe79, 2}, {0xfe7a, 0xfe7a, 0},
    {0xfe7b, 0xfe7b, 2}, {0xfe7c, 0xfe7c, 0}, {0xfe7d, 0xfe7d, 2}, {0xfe7e, 0xfe7e, 0}, {0xfe7f, 0xfefc, 2}, {0xfeff, 0xfeff, 0}, {0xff01, 0xff0f, 0}, {0xff10, 0xff19, 1},
    {0xff1a, 0xff20, 0}, {0xff21, 0xff3a, 2}, {0xff3b, 0xff3e, 0}, {0xff3f, 0xff3f, 1}, {0xff40, 0xff40, 0}, {0xff41, 0xff5a, 2}, {0xff5b, 0xff65, 0}, {0xff66, 0xff9d, 2},
    {0xff9e, 0xff9f, 1}, {0xffa0, 0xffbe, 2}, {0xffc2, 0xffc7, 2}, {0xffca, 0xffcf, 2}, {0xffd2, 0xffd7, 2}, {0xffda, 0xffdc, 2}, {0xffe0, 0xffe6, 0}, {0xffe8, 0xffee, 0},
    {0xfff9, 0xfffd, 0}, {0x10300, 0x1031e, 2}, {0x10320, 0x10323, 0}, {0x10330, 0x1034a, 2}, {0x10400, 0x10425, 2}, {0x10428, 0x1044d, 2}, {0x1d000, 0x1d0f5, 0}, {0x1d100, 0x1d126, 0},
    {0x1d12a, 0x1d164, 0}, {0x1d165, 0x1d169, 1}, {0x1d16a, 0x1d16c, 0}, {0x1d16d, 0x1d172, 1}, {0x1d173, 0x1d17a, 0}, {0x1d17b, 0x1d182, 1}, {0x1d183, 0x1d184, 0}, {0x1d185, 0x1d18b, 1},
    {0x1d18c, 0x1d1a9, 0}, {0x1d1aa, 0x1d1ad, 1}, {0x1d1ae, 0x1d1dd, 0}, {0x1d400, 0x1d454, 2}, {0x1d456, 0x1d49c, 2}, {0x1d49e, 0x1d49f, 2}, {0x1d4a2, 0x1d4a2, 2}, {0x1d4a5, 0x1d4a6, 2},
    {0x1d4a9, 0x1d4ac, 2}, {0x1d4ae, 0x1d4b9, 2}, {0x1d4bb, 0x1d4bb, 2}, {0x1d4bd, 0x1d4c0, 2}, {0x1d4c2, 0x1d4c3, 2}, {0x1d4c5, 0x1d505, 2}, {0x1d507, 0x1d50a, 2}, {0x1d50d, 0x1d514, 2},
    {0x1d516, 0x1d51c, 2}, {0x1d51e, 0x1d539, 2}, {0x1d53b, 0x1d53e, 2}, {0x1d540, 0x1d544, 2}, {0x1d546, 0x1d546, 2}, {0x1d54a, 0x1d550, 2}, {0x1d552, 0x1d6a3, 2}, {0x1d6a8, 0x1d6c0, 2},
    {0x1d6c1, 0x1d6c1, 0}, {0x1d6c2, 0x1d6da, 2}, {0x1d6db, 0x1d6db, 0}, {0x1d6dc, 0x1d6fa, 2}, {0x1d6fb, 0x1d6fb, 0}, {0x1d6fc, 0x1d714, 2}, {0x1d715, 0x1d715, 0}, {0x1d716, 0x1d734, 2},
    {0x1d735, 0x1d735, 0}, {0x1d736, 0x1d74e, 2}, {0x1d74f, 0x1d74f, 0}, {0x1d750, 0x1d76e, 2}, {0x1d76f, 0x1d76f, 0}, {0x1d770, 0x1d788, 2}, {0x1d789, 0x1d789, 0}, {0x1d78a, 0x1d7a8, 2},
    {0x1d7a9, 0x1d7a9, 0}, {0x1d7aa, 0x1d7c2, 2}, {0x1d7c3, 0x1d7c3, 0}, {0x1d7c4, 0x1d7c9, 2}, {0x1d7ce, 0x1d7ff, 1}, {0x20000, 0x2a6d6, 2}, {0x2f800, 0x2fa1d, 2}, {0xe0001, 0xe0001, 0},
    {0xe0020, 0xe007f, 0}, {0xf0000, 0xffffd, 0}, {0x100000, 0x10fffd, 0},
};
