// General categories of the code points on which Unicode 15.0 and 17.0 agree. Generated from Python's unicodedata and Node's ICU.
#pragma once
struct UcRange { int from, to; char cat[3]; };
static const UcRange uc_ranges[] = {
{0x0,0x1f,"Cc"},{0x20,0x20,"Zs"},{0x21,0x23,"Po"},{0x24,0x24,"Sc"},{0x25,0x27,"Po"},{0x28,0x28,"Ps"},{0x29,0x29,"Pe"},{0x2a,0x2a,"Po"},
{0x2b,0x2b,"Sm"},{0x2c,0x2c,"Po"},{0x2d,0x2d,"Pd"},{0x2e,0x2f,"Po"},{0x30,0x39,"Nd"},{0x3a,0x3b,"Po"},{0x3c,0x3e,"Sm"},{0x3f,0x40,"Po"},
{0x41,0x5a,"Lu"},{0x5b,0x5b,"Ps"},{0x5c,0x5c,"Po"},{0x5d,0x5d,"Pe"},{0x5e,0x5e,"Sk"},{0x5f,0x5f,"Pc"},{0x60,0x60,"Sk"},{0x61,0x7a,"Ll"},
{0x7b,0x7b,"Ps"},{0x7c,0x7c,"Sm"},{0x7d,0x7d,"Pe"},{0x7e,0x7e,"Sm"},{0x7f,0x9f,"Cc"},{0xa0,0xa0,"Zs"},{0xa1,0xa1,"Po"},{0xa2,0xa5,"Sc"},
{0xa6,0xa6,"So"},{0xa7,0xa7,"Po"},{0xa8,0xa8,"Sk"},{0xa9,0xa9,"So"},{0xaa,0xaa,"Lo"},{0xab,0xab,"Pi"},{0xac,0xac,"Sm"},{0xad,0xad,"Cf"},
{0xae,0xae,"So"},{0xaf,0xaf,"Sk"},{0xb0,0xb0,"So"},{0xb1,0xb1,"Sm"},{0xb2,0xb3,"No"},{0xb4,0xb4,"Sk"},{0xb5,0xb5,"Ll"},{0xb6,0xb7,"Po"},
{0xb8,0xb8,"Sk"},{0xb9,0xb9,"No"},{0xba,0xba,"Lo"},{0xbb,0xbb,"Pf"},{0xbc,0xbe,"No"},{0xbf,0xbf,"Po"},{0xc0,0xd6,"Lu"},{0xd7,0xd7,"Sm"},
{0xd8,0xde,"Lu"},{0xdf,0xf6,"Ll"},{0xf7,0xf7,"Sm"},{0xf8,0xff,"Ll"},{0x100,0x100,"Lu"},{0x101,0x101,"Ll"},{0x102,0x102,"Lu"},{0x103,0x103,"Ll"},
{0x104,0x104,"Lu"},{0x105,0x105,"Ll"},{0x106,0x106,"Lu"},{0x107,0x107,"Ll"},{0x108,0x108,"Lu"},{0x109,0x109,"Ll"},{0x10a,0x10a,"Lu"},
{0x10b,0x10b,"Ll"},{0x10c,0x10c,"Lu"},{0x10d,0x10d,"Ll"},{0x10e,0x10e,"Lu"},{0x10f,0x10f,"Ll"},{0x110,0x110,"Lu"},{0x111,0x111,"Ll"},
{0x112,0x112,"Lu"},{0x113,0x113,"Ll"},{0x114,0x114,"Lu"},{0x115,0x115,"Ll"},{0x116,0x116,"Lu"},{0x117,0x117,"Ll"},{0x118,0x118,"Lu"},
{0x119,0x119,"Ll"},{0x11a,0x11a,"Lu"},{0x11b,0x11b,"Ll"},{0x11c,0x11c,"Lu"},{0x11d,0x11d,"Ll"},{0x11e,0x11e,"Lu"},{0x11f,0x11f,"Ll"},
{0x120,0x120,"Lu"},{0x121,0x121,"Ll"},{0x122,0x122,"Lu"},{0x123,0x123,"Ll"},{0x124,0x124,"Lu"},{0x125,0x125,"Ll"},{0x126,0x126,"Lu"},
{0x127,0x127,"Ll"},{0x128,0x128,"Lu"},{0x129,0x129,"Ll"},{0x12a,0x12a,"Lu"},{0x12b,0x12b,"Ll"},{0x12c,0x12c,"Lu"},{0x12d,0x12d,"Ll"},
{0x12e,0x12e,"Lu"},{0x12f,0x12f,"Ll"},{0x130,0x130,"Lu"},{0x131,0x131,"Ll"},{0x132,0x132,"Lu"},{0x133,0x133,"Ll"},{0x134,0x134,"Lu"},
{0x135,0x135,"Ll"},{0x136,0x136,"Lu"},{0x137,0x138,"Ll"},{0x139,0x139,"Lu"},{0x13a,0x13a,"Ll"},{0x13b,0x13b,"Lu"},{0x13c,0x13c,"Ll"},
{0x13d,0x13d,"Lu"},{0x13e,0x13e,"Ll"},{0x13f,0x13f,"Lu"},{0x140,0x140,"Ll"},{0x141,0x141,"Lu"},{0x142,0x142,"Ll"},{0x143,0x143,"Lu"},
{0x144,0x144,"Ll"},{0x145,0x145,"Lu"},{0x146,0x146,"Ll"},{0x147,0x147,"Lu"},{0x148,0x149,"Ll"},{0x14a,0x14a,"Lu"},{0x14b,0x14b,"Ll"},
{0x14c,0x14c,"Lu"},{0x14d,0x14d,"Ll"},{0x14e,0x14e,"Lu"},{0x14f,0x14f,"Ll"},{0x150,0x150,"Lu"},{0x151,0x151,"Ll"},{0x152,0x152,"Lu"},
{0x153,0x153,"Ll"},{0x154,0x154,"Lu"},{0x155,0x155,"Ll"},{0x156,0x156,"Lu"},{0x157,0x157,"Ll"},{0x158,0x158,"Lu"},{0x159,0x159,"Ll"},
{0x15a,0x15a,"Lu"},{0x15b,0x15b,"Ll"},{0x15c,0x15c,"Lu"},{0x15d,0x15d,"Ll"},{0x15e,0x15e,"Lu"},{0x15f,0x15f,"Ll"},{0x160,0x160,"Lu"},
{0x161,0x161,"Ll"},{0x162,0x162,"Lu"},{0x163,0x163,"Ll"},{0x164,0x164,"Lu"},{0x165,0x165,"Ll"},{0x166,0x166,"Lu"},{0x167,0x167,"Ll"},
{0x168,0x168,"Lu"},{0x169,0x169,"Ll"},{0x16a,0x16a,"Lu"},{0x16b,0x16b,"Ll"},{0x16c,0x16c,"Lu"},{0x16d,0x16d,"Ll"},{0x16e,0x16e,"Lu"},
{0x16f,0x16f,"Ll"},{0x170,0x170,"Lu"},{0x171,0x171,"Ll"},{0x172,0x172,"Lu"},{0x173,0x173,"Ll"},{0x174,0x174,"Lu"},{0x175,0x175,"Ll"},
{0x176,0x176,"Lu"},{0x177,0x177,"Ll"},{0x178,0x179,"Lu"},{0x17a,0x17a,"Ll"},{0x17b,0x17b,"Lu"},{0x17c,0x17c,"Ll"},{0x17d,0x17d,"Lu"},
{0x17e,0x180,"Ll"},{0x181,0x182,"Lu"},{0x183,0x183,"Ll"},{0x184,0x184,"Lu"},{0x185,0x185,"Ll"},{0x186,0x187,"Lu"},{0x188,0x188,"Ll"},
{0x189,0x18b,"Lu"},{0x18c,0x18d,"Ll"},{0x18e,0x191,"Lu"},{0x192,0x192,"Ll"},{0x193,0x194,"Lu"},{0x195,0x195,"Ll"},{0x196,0x198,"Lu"},
{0x199,0x19b,"Ll"},{0x19c,0x19d,"Lu"},{0x19e,0x19e,"Ll"},{0x19f,0x1a0,"Lu"},{0x1a1,0x1a1,"Ll"},{0x1a2,0x1a2,"Lu"},{0x1a3,0x1a3,"Ll"},
{0x1a4,0x1a4,"Lu"},{0x1a5,0x1a5,"Ll"},{0x1a6,0x1a7,"Lu"},{0x1a8,0x1a8,"Ll"},{0x1a9,0x1a9,"Lu"},{0x1aa,0x1ab,"Ll"},{0x1ac,0x1ac,"Lu"},
{0x1ad,0x1ad,"Ll"},{0x1ae,0x1af,"Lu"},{0x1b0,0x1b0,"Ll"},{0x1b1,0x1b3,"Lu"},{0x1b4,0x1b4,"Ll"},{0x1b5,0x1b5,"Lu"},{0x1b6,0x1b6,"Ll"},
{0x1b7,0x1b8,"Lu"},{0x1b9,0x1ba,"Ll"},{0x1bb,0x1bb,"Lo"},{0x1bc,0x1bc,"Lu"},{0x1bd,0x1bf,"Ll"},{0x1c0,0x1c3,"Lo"},{0x1c4,0x1c4,"Lu"},
{0x1c5,0x1c5,"Lt"},{0x1c6,0x1c6,"Ll"},{0x1c7,0x1c7,"Lu"},{0x1c8,0x1c8,"Lt"},{0x1c9,0x1c9,"Ll"},{0x1ca,0x1ca,"Lu"},{0x1cb,0x1cb,"Lt"},
{0x1cc,0x1cc,"Ll"},{0x1cd,0x1cd,"Lu"},{0x1ce,0x1ce,"Ll"},{0x1cf,0x1cf,"Lu"},{0x1d0,0x1d0,"Ll"},{0x1d1,0x1d1,"Lu"},{0x1d2,0x1d2,"Ll"},
{0x1d3,0x1d3,"Lu"},{0x1d4,0x1d4,"Ll"},{0x1d5,0x1d5,"Lu"},{0x1d6,0x1d6,"Ll"},{0x1d7,0x1d7,"Lu"},{0x1d8,0x1d8,"Ll"},{0x1d9,0x1d9,"Lu"},
{0x1da,0x1da,"Ll"},{0x1db,0x1db,"Lu"},{0x1dc,0x1dd,"Ll"},{0x1de,0x1de,"Lu"},{0x1df,0x1df,"Ll"},{0x1e0,0x1e0,"Lu"},{0x1e1,0x1e1,"Ll"},
{0x1e2,0x1e2,"Lu"},{0x1e3,0x1e3,"Ll"},{0x1e4,0x1e4,"Lu"},{0x1e5,0x1e5,"Ll"},{0x1e6,0x1e6,"Lu"},{0x1e7,0x1e7,"Ll"},{0x1e8,0x1e8,"Lu"},
{0x1e9,0x1e9,"Ll"},{0x1ea,0x1ea,"Lu"},{0x1eb,0x1eb,"Ll"},{0x1ec,0x1ec,"Lu"},{0x1ed,0x1ed,"Ll"},{0x1ee,0x1ee,"Lu"},{0x1ef,0x1f0,"Ll"},
{0x1f1,0x1f1,"Lu"},{0x1f2,0x1f2,"Lt"},{0x1f3,0x1f3,"Ll"},{0x1f4,0x1f4,"Lu"},{0x1f5,0x1f5,"Ll"},{0x1f6,0x1f8,"Lu"},{0x1f9,0x1f9,"Ll"},
{0x1fa,0x1fa,"Lu"},{0x1fb,0x1fb,"Ll"},{0x1fc,0x1fc,"Lu"},{0x1fd,0x1fd,"Ll"},{0x1fe,0x1fe,"Lu"},{0x1ff,0x1ff,"Ll"},{0x200,0x200,"Lu"},
{0x201,0x201,"Ll"},{0x202,0x202,"Lu"},{0x203,0x203,"Ll"},{0x204,0x204,"Lu"},{0x205,0x205,"Ll"},{0x206,0x206,"Lu"},{0x207,0x207,"Ll"},
{0x208,0x208,"Lu"},{0x209,0x209,"Ll"},{0x20a,0x20a,"Lu"},{0x20b,0x20b,"Ll"},{0x20c,0x20c,"Lu"},{0x20d,0x20d,"Ll"},{0x20e,0x20e,"Lu"},
{0x20f,0x20f,"Ll"},{0x210,0x210,"Lu"},{0x211,0x211,"Ll"},{0x212,0x212,"Lu"},{0x213,0x213,"Ll"},{0x214,0x214,"Lu"},{0x215,0x215,"Ll"},
{0x216,0x216,"Lu"},{0x217,0x217,"Ll"},{0x218,0x218,"Lu"},{0x219,0x219,"Ll"},{0x21a,0x21a,"Lu"},{0x21b,0x21b,"Ll"},{0x21c,0x21c,"Lu"},
{0x21d,0x21d,"Ll"},{0x21e,0x21e,"Lu"},{0x21f,0x21f,"Ll"},{0x220,0x220,"Lu"},{0x221,0x221,"Ll"},{0x222,0x222,"Lu"},{0x223,0x223,"Ll"},
{0x224,0x224,"Lu"},{0x225,0x225,"Ll"},{0x226,0x226,"Lu"},{0x227,0x227,"Ll"},{0x228,0x228,"Lu"},{0x229,0x229,"Ll"},{0x22a,0x22a,"Lu"},
{0x22b,0x22b,"Ll"},{0x22c,0x22c,"Lu"},{0x22d,0x22d,"Ll"},{0x22e,0x22e,"Lu"},{0x22f,0x22f,"Ll"},{0x230,0x230,"Lu"},{0x231,0x231,"Ll"},
{0x232,0x232,"Lu"},{0x233,0x239,"Ll"},{0x23a,0x23b,"Lu"},{0x23c,0x23c,"Ll"},{0x23d,0x23e,"Lu"},{0x23f,0x240,"Ll"},{0x241,0x241,"Lu"},
{0x242,0x242,"Ll"},{0x243,0x246,"Lu"},{0x247,0x247,"Ll"},{0x248,0x248,"Lu"},{0x249,0x249,"Ll"},{0x24a,0x24a,"Lu"},{0x24b,0x24b,"Ll"},
{0x24c,0x24c,"Lu"},{0x24d,0x24d,"Ll"},{0x24e,0x24e,"Lu"},{0x24f,0x293,"Ll"},{0x294,0x294,"Lo"},{0x296,0x2af,"Ll"},{0x2b0,0x2c1,"Lm"},
{0x2c2,0x2c5,"Sk"},{0x2c6,0x2d1,"Lm"},{0x2d2,0x2df,"Sk"},{0x2e0,0x2e4,"Lm"},{0x2e5,0x2eb,"Sk"},{0x2ec,0x2ec,"Lm"},{0x2ed,0x2ed,"Sk"},
{0x2ee,0x2ee,"Lm"},{0x2ef,0x2ff,"Sk"},{0x300,0x36f,"Mn"},{0x370,0x370,"Lu"},{0x371,0x371,"Ll"},{0x372,0x372,"Lu"},{0x373,0x373,"Ll"},
{0x374,0x374,"Lm"},{0x375,0x375,"Sk"},{0x376,0x376,"Lu"},{0x377,0x377,"Ll"},{0x378,0x379,"Cn"},{0x37a,0x37a,"Lm"},{0x37b,0x37d,"Ll"},
{0x37e,0x37e,"Po"},{0x37f,0x37f,"Lu"},{0x380,0x383,"Cn"},{0x384,0x385,"Sk"},{0x386,0x386,"Lu"},{0x387,0x387,"Po"},{0x388,0x38a,"Lu"},
{0x38b,0x38b,"Cn"},{0x38c,0x38c,"Lu"},{0x38d,0x38d,"Cn"},{0x38e,0x38f,"Lu"},{0x390,0x390,"Ll"},{0x391,0x3a1,"Lu"},{0x3a2,0x3a2,"Cn"},
{0x3a3,0x3ab,"Lu"},{0x3ac,0x3ce,"Ll"},{0x3cf,0x3cf,"Lu"},{0x3d0,0x3d1,"Ll"},{0x3d2,0x3d4,"Lu"},{0x3d5,0x3d7,"Ll"},{0x3d8,0x3d8,"Lu"},
{0x3d9,0x3d9,"Ll"},{0x3da,0x3da,"Lu"},{0x3db,0x3db,"Ll"},{0x3dc,0x3dc,"Lu"},{0x3dd,0x3dd,"Ll"},{0x3de,0x3de,"Lu"},{0x3df,0x3df,"Ll"},
{0x3e0,0x3e0,"Lu"},{0x3e1,0x3e1,"Ll"},{0x3e2,0x3e2,"Lu"},{0x3e3,0x3e3,"Ll"},{0x3e4,0x3e4,"Lu"},{0x3e5,0x3e5,"Ll"},{0x3e6,0x3e6,"Lu"},
{0x3e7,0x3e7,"Ll"},{0x3e8,0x3e8,"Lu"},{0x3e9,0x3e9,"Ll"},{0x3ea,0x3ea,"Lu"},{0x3eb,0x3eb,"Ll"},{0x3ec,0x3ec,"Lu"},{0x3ed,0x3ed,"Ll"},
{0x3ee,0x3ee,"Lu"},{0x3ef,0x3f3,"Ll"},{0x3f4,0x3f4,"Lu"},{0x3f5,0x3f5,"Ll"},{0x3f6,0x3f6,"Sm"},{0x3f7,0x3f7,"Lu"},{0x3f8,0x3f8,"Ll"},
{0x3f9,0x3fa,"Lu"},{0x3fb,0x3fc,"Ll"},{0x3fd,0x42f,"Lu"},{0x430,0x45f,"Ll"},{0x460,0x460,"Lu"},{0x461,0x461,"Ll"},{0x462,0x462,"Lu"},
{0x463,0x463,"Ll"},{0x464,0x464,"Lu"},{0x465,0x465,"Ll"},{0x466,0x466,"Lu"},{0x467,0x467,"Ll"},{0x468,0x468,"Lu"},{0x469,0x469,"Ll"},
{0x46a,0x46a,"Lu"},{0x46b,0x46b,"Ll"},{0x46c,0x46c,"Lu"},{0x46d,0x46d,"Ll"},{0x46e,0x46e,"Lu"},{0x46f,0x46f,"Ll"},{0x470,0x470,"Lu"},
{0x471,0x471,"Ll"},{0x472,0x472,"Lu"},{0x473,0x473,"Ll"},{0x474,0x474,"Lu"},{0x475,0x475,"Ll"},{0x476,0x476,"Lu"},{0x477,0x477,"Ll"},
{0x478,0x478,"Lu"},{0x479,0x479,"Ll"},{0x47a,0x47a,"Lu"},{0x47b,0x47b,"Ll"},{0x47c,0x47c,"Lu"},{0x47d,0x47d,"Ll"},{0x47e,0x47e,"Lu"},
{0x47f,0x47f,"Ll"},{0x480,0x480,"Lu"},{0x481,0x481,"Ll"},{0x482,0x482,"So"},{0x483,0x487,"Mn"},{0x488,0x489,"Me"},{0x48a,0x48a,"Lu"},
{0x48b,0x48b,"Ll"},{0x48c,0x48c,"Lu"},{0x48d,0x48d,"Ll"},{0x48e,0x48e,"Lu"},{0x48f,0x48f,"Ll"},{0x490,0x490,"Lu"},{0x491,0x491,"Ll"},
{0x492,0x492,"Lu"},{0x493,0x493,"Ll"},{0x494,0x494,"Lu"},{0x495,0x495,"Ll"},{0x496,0x496,"Lu"},{0x497,0x497,"Ll"},{0x498,0x498,"Lu"},
{0x499,0x499,"Ll"},{0x49a,0x49a,"Lu"},{0x49b,0x49b,"Ll"},{0x49c,0x49c,"Lu"},{0x49d,0x49d,"Ll"},{0x49e,0x49e,"Lu"},{0x49f,0x49f,"Ll"},
{0x4a0,0x4a0,"Lu"},{0x4a1,0x4a1,"Ll"},{0x4a2,0x4a2,"Lu"},{0x4a3,0x4a3,"Ll"},{0x4a4,0x4a4,"Lu"},{0x4a5,0x4a5,"Ll"},{0x4a6,0x4a6,"Lu"},
{0x4a7,0x4a7,"Ll"},{0x4a8,0x4a8,"Lu"},{0x4a9,0x4a9,"Ll"},{0x4aa,0x4aa,"Lu"},{0x4ab,0x4ab,"Ll"},{0x4ac,0x4ac,"Lu"},{0x4ad,0x4ad,"Ll"},
{0x4ae,0x4ae,"Lu"},{0x4af,0x4af,"Ll"},{0x4b0,0x4b0,"Lu"},{0x4b1,0x4b1,"Ll"},{0x4b2,0x4b2,"Lu"},{0x4b3,0x4b3,"Ll"},{0x4b4,0x4b4,"Lu"},
{0x4b5,0x4b5,"Ll"},{0x4b6,0x4b6,"Lu"},{0x4b7,0x4b7,"Ll"},{0x4b8,0x4b8,"Lu"},{0x4b9,0x4b9,"Ll"},{0x4ba,0x4ba,"Lu"},{0x4bb,0x4bb,"Ll"},
{0x4bc,0x4bc,"Lu"},{0x4bd,0x4bd,"Ll"},{0x4be,0x4be,"Lu"},{0x4bf,0x4bf,"Ll"},{0x4c0,0x4c1,"Lu"},{0x4c2,0x4c2,"Ll"},{0x4c3,0x4c3,"Lu"},
{0x4c4,0x4c4,"Ll"},{0x4c5,0x4c5,"Lu"},{0x4c6,0x4c6,"Ll"},{0x4c7,0x4c7,"Lu"},{0x4c8,0x4c8,"Ll"},{0x4c9,0x4c9,"Lu"},{0x4ca,0x4ca,"Ll"},
{0x4cb,0x4cb,"Lu"},{0x4cc,0x4cc,"Ll"},{0x4cd,0x4cd,"Lu"},{0x4ce,0x4cf,"Ll"},{0x4d0,0x4d0,"Lu"},{0x4d1,0x4d1,"Ll"},{0x4d2,0x4d2,"Lu"},
{0x4d3,0x4d3,"Ll"},{0x4d4,0x4d4,"Lu"},{0x4d5,0x4d5,"Ll"},{0x4d6,0x4d6,"Lu"},{0x4d7,0x4d7,"Ll"},{0x4d8,0x4d8,"Lu"},{0x4d9,0x4d9,"Ll"},
{0x4da,0x4da,"Lu"},{0x4db,0x4db,"Ll"},{0x4dc,0x4dc,"Lu"},{0x4dd,0x4dd,"Ll"},{0x4de,0x4de,"Lu"},{0x4df,0x4df,"Ll"},{0x4e0,0x4e0,"Lu"},
{0x4e1,0x4e1,"Ll"},{0x4e2,0x4e2,"Lu"},{0x4e3,0x4e3,"Ll"},{0x4e4,0x4e4,"Lu"},{0x4e5,0x4e5,"Ll"},{0x4e6,0x4e6,"Lu"},{0x4e7,0x4e7,"Ll"},
{0x4e8,0x4e8,"Lu"},{0x4e9,0x4e9,"Ll"},{0x4ea,0x4ea,"Lu"},{0x4eb,0x4eb,"Ll"},{0x4ec,0x4ec,"Lu"},{0x4ed,0x4ed,"Ll"},{0x4ee,0x4ee,"Lu"},
{0x4ef,0x4ef,"Ll"},{0x4f0,0x4f0,"Lu"},{0x4f1,0x4f1,"Ll"},{0x4f2,0x4f2,"Lu"},{0x4f3,0x4f3,"Ll"},{0x4f4,0x4f4,"Lu"},{0x4f5,0x4f5,"Ll"},
{0x4f6,0x4f6,"Lu"},{0x4f7,0x4f7,"Ll"},{0x4f8,0x4f8,"Lu"},{0x4f9,0x4f9,"Ll"},{0x4fa,0x4fa,"Lu"},{0x4fb,0x4fb,"Ll"},{0x4fc,0x4fc,"Lu"},
{0x4fd,0x4fd,"Ll"},{0x4fe,0x4fe,"Lu"},{0x4ff,0x4ff,"Ll"},{0x500,0x500,"Lu"},{0x501,0x501,"Ll"},{0x502,0x502,"Lu"},{0x503,0x503,"Ll"},
{0x504,0x504,"Lu"},{0x505,0x505,"Ll"},{0x506,0x506,"Lu"},{0x507,0x507,"Ll"},{0x508,0x508,"Lu"},{0x509,0x509,"Ll"},{0x50a,0x50a,"Lu"},
{0x50b,0x50b,"Ll"},{0x50c,0x50c,"Lu"},{0x50d,0x50d,"Ll"},{0x50e,0x50e,"Lu"},{0x50f,0x50f,"Ll"},{0x510,0x510,"Lu"},{0x511,0x511,"Ll"},
{0x512,0x512,"Lu"},{0x513,0x513,"Ll"},{0x514,0x514,"Lu"},{0x515,0x515,"Ll"},{0x516,0x516,"Lu"},{0x517,0x517,"Ll"},{0x518,0x518,"Lu"},
{0x519,0x519,"Ll"},{0x51a,0x51a,"Lu"},{0x51b,0x51b,"Ll"},{0x51c,0x51c,"Lu"},{0x51d,0x51d,"Ll"},{0x51e,0x51e,"Lu"},{0x51f,0x51f,"Ll"},
{0x520,0x520,"Lu"},{0x521,0x521,"Ll"},{0x522,0x522,"Lu"},{0x523,0x523,"Ll"},{0x524,0x524,"Lu"},{0x525,0x525,"Ll"},{0x526,0x526,"Lu"},
{0x527,0x527,"Ll"},{0x528,0x528,"Lu"},{0x529,0x529,"Ll"},{0x52a,0x52a,"Lu"},{0x52b,0x52b,"Ll"},{0x52c,0x52c,"Lu"},{0x52d,0x52d,"Ll"},
{0x52e,0x52e,"Lu"},{0x52f,0x52f,"Ll"},{0x530,0x530,"Cn"},{0x531,0x556,"Lu"},{0x557,0x558,"Cn"},{0x559,0x559,"Lm"},{0x55a,0x55f,"Po"},
{0x560,0x588,"Ll"},{0x589,0x589,"Po"},{0x58a,0x58a,"Pd"},{0x58b,0x58c,"Cn"},{0x58d,0x58e,"So"},{0x58f,0x58f,"Sc"},{0x590,0x590,"Cn"},
{0x591,0x5bd,"Mn"},{0x5be,0x5be,"Pd"},{0x5bf,0x5bf,"Mn"},{0x5c0,0x5c0,"Po"},{0x5c1,0x5c2,"Mn"},{0x5c3,0x5c3,"Po"},{0x5c4,0x5c5,"Mn"},
{0x5c6,0x5c6,"Po"},{0x5c7,0x5c7,"Mn"},{0x5c8,0x5cf,"Cn"},{0x5d0,0x5ea,"Lo"},{0x5eb,0x5ee,"Cn"},{0x5ef,0x5f2,"Lo"},{0x5f3,0x5f4,"Po"},
{0x5f5,0x5ff,"Cn"},{0x600,0x605,"Cf"},{0x606,0x608,"Sm"},{0x609,0x60a,"Po"},{0x60b,0x60b,"Sc"},{0x60c,0x60d,"Po"},{0x60e,0x60f,"So"},
{0x610,0x61a,"Mn"},{0x61b,0x61b,"Po"},{0x61c,0x61c,"Cf"},{0x61d,0x61f,"Po"},{0x620,0x63f,"Lo"},{0x640,0x640,"Lm"},{0x641,0x64a,"Lo"},
{0x64b,0x65f,"Mn"},{0x660,0x669,"Nd"},{0x66a,0x66d,"Po"},{0x66e,0x66f,"Lo"},{0x670,0x670,"Mn"},{0x671,0x6d3,"Lo"},{0x6d4,0x6d4,"Po"},
{0x6d5,0x6d5,"Lo"},{0x6d6,0x6dc,"Mn"},{0x6dd,0x6dd,"Cf"},{0x6de,0x6de,"So"},{0x6df,0x6e4,"Mn"},{0x6e5,0x6e6,"Lm"},{0x6e7,0x6e8,"Mn"},
{0x6e9,0x6e9,"So"},{0x6ea,0x6ed,"Mn"},{0x6ee,0x6ef,"Lo"},{0x6f0,0x6f9,"Nd"},{0x6fa,0x6fc,"Lo"},{0x6fd,0x6fe,"So"},{0x6ff,0x6ff,"Lo"},
{0x700,0x70d,"Po"},{0x70e,0x70e,"Cn"},{0x70f,0x70f,"Cf"},{0x710,0x710,"Lo"},{0x711,0x711,"Mn"},{0x712,0x72f,"Lo"},{0x730,0x74a,"Mn"},
{0x74b,0x74c,"Cn"},{0x74d,0x7a5,"Lo"},{0x7a6,0x7b0,"Mn"},{0x7b1,0x7b1,"Lo"},{0x7b2,0x7bf,"Cn"},{0x7c0,0x7c9,"Nd"},{0x7ca,0x7ea,"Lo"},
{0x7eb,0x7f3,"Mn"},{0x7f4,0x7f5,"Lm"},{0x7f6,0x7f6,"So"},{0x7f7,0x7f9,"Po"},{0x7fa,0x7fa,"Lm"},{0x7fb,0x7fc,"Cn"},{0x7fd,0x7fd,"Mn"},
{0x7fe,0x7ff,"Sc"},{0x800,0x815,"Lo"},{0x816,0x819,"Mn"},{0x81a,0x81a,"Lm"},{0x81b,0x823,"Mn"},{0x824,0x824,"Lm"},{0x825,0x827,"Mn"},
{0x828,0x828,"Lm"},{0x829,0x82d,"Mn"},{0x82e,0x82f,"Cn"},{0x830,0x83e,"Po"},{0x83f,0x83f,"Cn"},{0x840,0x858,"Lo"},{0x859,0x85b,"Mn"},
{0x85c,0x85d,"Cn"},{0x85e,0x85e,"Po"},{0x85f,0x85f,"Cn"},{0x860,0x86a,"Lo"},{0x86b,0x86f,"Cn"},{0x870,0x887,"Lo"},{0x888,0x888,"Sk"},
{0x889,0x88e,"Lo"},{0x890,0x891,"Cf"},{0x892,0x896,"Cn"},{0x898,0x89f,"Mn"},{0x8a0,0x8c8,"Lo"},{0x8c9,0x8c9,"Lm"},{0x8ca,0x8e1,"Mn"},
{0x8e2,0x8e2,"Cf"},{0x8e3,0x902,"Mn"},{0x903,0x903,"Mc"},{0x904,0x939,"Lo"},{0x93a,0x93a,"Mn"},{0x93b,0x93b,"Mc"},{0x93c,0x93c,"Mn"},
{0x93d,0x93d,"Lo"},{0x93e,0x940,"Mc"},{0x941,0x948,"Mn"},{0x949,0x94c,"Mc"},{0x94d,0x94d,"Mn"},{0x94e,0x94f,"Mc"},{0x950,0x950,"Lo"},
{0x951,0x957,"Mn"},{0x958,0x961,"Lo"},{0x962,0x963,"Mn"},{0x964,0x965,"Po"},{0x966,0x96f,"Nd"},{0x970,0x970,"Po"},{0x971,0x971,"Lm"},
{0x972,0x980,"Lo"},{0x981,0x981,"Mn"},{0x982,0x983,"Mc"},{0x984,0x984,"Cn"},{0x985,0x98c,"Lo"},{0x98d,0x98e,"Cn"},{0x98f,0x990,"Lo"},
{0x991,0x992,"Cn"},{0x993,0x9a8,"Lo"},{0x9a9,0x9a9,"Cn"},{0x9aa,0x9b0,"Lo"},{0x9b1,0x9b1,"Cn"},{0x9b2,0x9b2,"Lo"},{0x9b3,0x9b5,"Cn"},
{0x9b6,0x9b9,"Lo"},{0x9ba,0x9bb,"Cn"},{0x9bc,0x9bc,"Mn"},{0x9bd,0x9bd,"Lo"},{0x9be,0x9c0,"Mc"},{0x9c1,0x9c4,"Mn"},{0x9c5,0x9c6,"Cn"},
{0x9c7,0x9c8,"Mc"},{0x9c9,0x9ca,"Cn"},{0x9cb,0x9cc,"Mc"},{0x9cd,0x9cd,"Mn"},{0x9ce,0x9ce,"Lo"},{0x9cf,0x9d6,"Cn"},{0x9d7,0x9d7,"Mc"},
{0x9d8,0x9db,"Cn"},{0x9dc,0x9dd,"Lo"},{0x9de,0x9de,"Cn"},{0x9df,0x9e1,"Lo"},{0x9e2,0x9e3,"Mn"},{0x9e4,0x9e5,"Cn"},{0x9e6,0x9ef,"Nd"},
{0x9f0,0x9f1,"Lo"},{0x9f2,0x9f3,"Sc"},{0x9f4,0x9f9,"No"},{0x9fa,0x9fa,"So"},{0x9fb,0x9fb,"Sc"},{0x9fc,0x9fc,"Lo"},{0x9fd,0x9fd,"Po"},
{0x9fe,0x9fe,"Mn"},{0x9ff,0xa00,"Cn"},{0xa01,0xa02,"Mn"},{0xa03,0xa03,"Mc"},{0xa04,0xa04,"Cn"},{0xa05,0xa0a,"Lo"},{0xa0b,0xa0e,"Cn"},
{0xa0f,0xa10,"Lo"},{0xa11,0xa12,"Cn"},{0xa13,0xa28,"Lo"},{0xa29,0xa29,"Cn"},{0xa2a,0xa30,"Lo"},{0xa31,0xa31,"Cn"},{0xa32,0xa33,"Lo"},
{0xa34,0xa34,"Cn"},{0xa35,0xa36,"Lo"},{0xa37,0xa37,"Cn"},{0xa38,0xa39,"Lo"},{0xa3a,0xa3b,"Cn"},{0xa3c,0xa3c,"Mn"},{0xa3d,0xa3d,"Cn"},
{0xa3e,0xa40,"Mc"},{0xa41,0xa42,"Mn"},{0xa43,0xa46,"Cn"},{0xa47,0xa48,"Mn"},{0xa49,0xa4a,"Cn"},{0xa4b,0xa4d,"Mn"},{0xa4e,0xa50,"Cn"},
{0xa51,0xa51,"Mn"},{0xa52,0xa58,"Cn"},{0xa59,0xa5c,"Lo"},{0xa5d,0xa5d,"Cn"},{0xa5e,0xa5e,"Lo"},{0xa5f,0xa65,"Cn"},{0xa66,0xa6f,"Nd"},
{0xa70,0xa71,"Mn"},{0xa72,0xa74,"Lo"},{0xa75,0xa75,"Mn"},{0xa76,0xa76,"Po"},{0xa77,0xa80,"Cn"},{0xa81,0xa82,"Mn"},{0xa83,0xa83,"Mc"},
{0xa84,0xa84,"Cn"},{0xa85,0xa8d,"Lo"},{0xa8e,0xa8e,"Cn"},{0xa8f,0xa91,"Lo"},{0xa92,0xa92,"Cn"},{0xa93,0xaa8,"Lo"},{0xaa9,0xaa9,"Cn"},
{0xaaa,0xab0,"Lo"},{0xab1,0xab1,"Cn"},{0xab2,0xab3,"Lo"},{0xab4,0xab4,"Cn"},{0xab5,0xab9,"Lo"},{0xaba,0xabb,"Cn"},{0xabc,0xabc,"Mn"},
{0xabd,0xabd,"Lo"},{0xabe,0xac0,"Mc"},{0xac1,0xac5,"Mn"},{0xac6,0xac6,"Cn"},{0xac7,0xac8,"Mn"},{0xac9,0xac9,"Mc"},{0xaca,0xaca,"Cn"},
{0xacb,0xacc,"Mc"},{0xacd,0xacd,"Mn"},{0xace,0xacf,"Cn"},{0xad0,0xad0,"Lo"},{0xad1,0xadf,"Cn"},{0xae0,0xae1,"Lo"},{0xae2,0xae3,"Mn"},
{0xae4,0xae5,"Cn"},{0xae6,0xaef,"Nd"},{0xaf0,0xaf0,"Po"},{0xaf1,0xaf1,"Sc"},{0xaf2,0xaf8,"Cn"},{0xaf9,0xaf9,"Lo"},{0xafa,0xaff,"Mn"},
{0xb00,0xb00,"Cn"},{0xb01,0xb01,"Mn"},{0xb02,0xb03,"Mc"},{0xb04,0xb04,"Cn"},{0xb05,0xb0c,"Lo"},{0xb0d,0xb0e,"Cn"},{0xb0f,0xb10,"Lo"},
{0xb11,0xb12,"Cn"},{0xb13,0xb28,"Lo"},{0xb29,0xb29,"Cn"},{0xb2a,0xb30,"Lo"},{0xb31,0xb31,"Cn"},{0xb32,0xb33,"Lo"},{0xb34,0xb34,"Cn"},
{0xb35,0xb39,"Lo"},{0xb3a,0xb3b,"Cn"},{0xb3c,0xb3c,"Mn"},{0xb3d,0xb3d,"Lo"},{0xb3e,0xb3e,"Mc"},{0xb3f,0xb3f,"Mn"},{0xb40,0xb40,"Mc"},
{0xb41,0xb44,"Mn"},{0xb45,0xb46,"Cn"},{0xb47,0xb48,"Mc"},{0xb49,0xb4a,"Cn"},{0xb4b,0xb4c,"Mc"},{0xb4d,0xb4d,"Mn"},{0xb4e,0xb54,"Cn"},
{0xb55,0xb56,"Mn"},{0xb57,0xb57,"Mc"},{0xb58,0xb5b,"Cn"},{0xb5c,0xb5d,"Lo"},{0xb5e,0xb5e,"Cn"},{0xb5f,0xb61,"Lo"},{0xb62,0xb63,"Mn"},
{0xb64,0xb65,"Cn"},{0xb66,0xb6f,"Nd"},{0xb70,0xb70,"So"},{0xb71,0xb71,"Lo"},{0xb72,0xb77,"No"},{0xb78,0xb81,"Cn"},{0xb82,0xb82,"Mn"},
{0xb83,0xb83,"Lo"},{0xb84,0xb84,"Cn"},{0xb85,0xb8a,"Lo"},{0xb8b,0xb8d,"Cn"},{0xb8e,0xb90,"Lo"},{0xb91,0xb91,"Cn"},{0xb92,0xb95,"Lo"},
{0xb96,0xb98,"Cn"},{0xb99,0xb9a,"Lo"},{0xb9b,0xb9b,"Cn"},{0xb9c,0xb9c,"Lo"},{0xb9d,0xb9d,"Cn"},{0xb9e,0xb9f,"Lo"},{0xba0,0xba2,"Cn"},
{0xba3,0xba4,"Lo"},{0xba5,0xba7,"Cn"},{0xba8,0xbaa,"Lo"},{0xbab,0xbad,"Cn"},{0xbae,0xbb9,"Lo"},{0xbba,0xbbd,"Cn"},{0xbbe,0xbbf,"Mc"},
{0xbc0,0xbc0,"Mn"},{0xbc1,0xbc2,"Mc"},{0xbc3,0xbc5,"Cn"},{0xbc6,0xbc8,"Mc"},{0xbc9,0xbc9,"Cn"},{0xbca,0xbcc,"Mc"},{0xbcd,0xbcd,"Mn"},
{0xbce,0xbcf,"Cn"},{0xbd0,0xbd0,"Lo"},{0xbd1,0xbd6,"Cn"},{0xbd7,0xbd7,"Mc"},{0xbd8,0xbe5,"Cn"},{0xbe6,0xbef,"Nd"},{0xbf0,0xbf2,"No"},
{0xbf3,0xbf8,"So"},{0xbf9,0xbf9,"Sc"},{0xbfa,0xbfa,"So"},{0xbfb,0xbff,"Cn"},{0xc00,0xc00,"Mn"},{0xc01,0xc03,"Mc"},{0xc04,0xc04,"Mn"},
{0xc05,0xc0c,"Lo"},{0xc0d,0xc0d,"Cn"},{0xc0e,0xc10,"Lo"},{0xc11,0xc11,"Cn"},{0xc12,0xc28,"Lo"},{0xc29,0xc29,"Cn"},{0xc2a,0xc39,"Lo"},
{0xc3a,0xc3b,"Cn"},{0xc3c,0xc3c,"Mn"},{0xc3d,0xc3d,"Lo"},{0xc3e,0xc40,"Mn"},{0xc41,0xc44,"Mc"},{0xc45,0xc45,"Cn"},{0xc46,0xc48,"Mn"},
{0xc49,0xc49,"Cn"},{0xc4a,0xc4d,"Mn"},{0xc4e,0xc54,"Cn"},{0xc55,0xc56,"Mn"},{0xc57,0xc57,"Cn"},{0xc58,0xc5a,"Lo"},{0xc5b,0xc5b,"Cn"},
{0xc5d,0xc5d,"Lo"},{0xc5e,0xc5f,"Cn"},{0xc60,0xc61,"Lo"},{0xc62,0xc63,"Mn"},{0xc64,0xc65,"Cn"},{0xc66,0xc6f,"Nd"},{0xc70,0xc76,"Cn"},
{0xc77,0xc77,"Po"},{0xc78,0xc7e,"No"},{0xc7f,0xc7f,"So"},{0xc80,0xc80,"Lo"},{0xc81,0xc81,"Mn"},{0xc82,0xc83,"Mc"},{0xc84,0xc84,"Po"},
{0xc85,0xc8c,"Lo"},{0xc8d,0xc8d,"Cn"},{0xc8e,0xc90,"Lo"},{0xc91,0xc91,"Cn"},{0xc92,0xca8,"Lo"},{0xca9,0xca9,"Cn"},{0xcaa,0xcb3,"Lo"},
{0xcb4,0xcb4,"Cn"},{0xcb5,0xcb9,"Lo"},{0xcba,0xcbb,"Cn"},{0xcbc,0xcbc,"Mn"},{0xcbd,0xcbd,"Lo"},{0xcbe,0xcbe,"Mc"},{0xcbf,0xcbf,"Mn"},
{0xcc0,0xcc4,"Mc"},{0xcc5,0xcc5,"Cn"},{0xcc6,0xcc6,"Mn"},{0xcc7,0xcc8,"Mc"},{0xcc9,0xcc9,"Cn"},{0xcca,0xccb,"Mc"},{0xccc,0xccd,"Mn"},
{0xcce,0xcd4,"Cn"},{0xcd5,0xcd6,"Mc"},{0xcd7,0xcdb,"Cn"},{0xcdd,0xcde,"Lo"},{0xcdf,0xcdf,"Cn"},{0xce0,0xce1,"Lo"},{0xce2,0xce3,"Mn"},
{0xce4,0xce5,"Cn"},{0xce6,0xcef,"Nd"},{0xcf0,0xcf0,"Cn"},{0xcf1,0xcf2,"Lo"},{0xcf3,0xcf3,"Mc"},{0xcf4,0xcff,"Cn"},{0xd00,0xd01,"Mn"},
{0xd02,0xd03,"Mc"},{0xd04,0xd0c,"Lo"},{0xd0d,0xd0d,"Cn"},{0xd0e,0xd10,"Lo"},{0xd11,0xd11,"Cn"},{0xd12,0xd3a,"Lo"},{0xd3b,0xd3c,"Mn"},
{0xd3d,0xd3d,"Lo"},{0xd3e,0xd40,"Mc"},{0xd41,0xd44,"Mn"},{0xd45,0xd45,"Cn"},{0xd46,0xd48,"Mc"},{0xd49,0xd49,"Cn"},{0xd4a,0xd4c,"Mc"},
{0xd4d,0xd4d,"Mn"},{0xd4e,0xd4e,"Lo"},{0xd4f,0xd4f,"So"},{0xd50,0xd53,"Cn"},{0xd54,0xd56,"Lo"},{0xd57,0xd57,"Mc"},{0xd58,0xd5e,"No"},
{0xd5f,0xd61,"Lo"},{0xd62,0xd63,"Mn"},{0xd64,0xd65,"Cn"},{0xd66,0xd6f,"Nd"},{0xd70,0xd78,"No"},{0xd79,0xd79,"So"},{0xd7a,0xd7f,"Lo"},
{0xd80,0xd80,"Cn"},{0xd81,0xd81,"Mn"},{0xd82,0xd83,"Mc"},{0xd84,0xd84,"Cn"},{0xd85,0xd96,"Lo"},{0xd97,0xd99,"Cn"},{0xd9a,0xdb1,"Lo"},
{0xdb2,0xdb2,"Cn"},{0xdb3,0xdbb,"Lo"},{0xdbc,0xdbc,"Cn"},{0xdbd,0xdbd,"Lo"},{0xdbe,0xdbf,"Cn"},{0xdc0,0xdc6,"Lo"},{0xdc7,0xdc9,"Cn"},
{0xdca,0xdca,"Mn"},{0xdcb,0xdce,"Cn"},{0xdcf,0xdd1,"Mc"},{0xdd2,0xdd4,"Mn"},{0xdd5,0xdd5,"Cn"},{0xdd6,0xdd6,"Mn"},{0xdd7,0xdd7,"Cn"},
{0xdd8,0xddf,"Mc"},{0xde0,0xde5,"Cn"},{0xde6,0xdef,"Nd"},{0xdf0,0xdf1,"Cn"},{0xdf2,0xdf3,"Mc"},{0xdf4,0xdf4,"Po"},{0xdf5,0xe00,"Cn"},
{0xe01,0xe30,"Lo"},{0xe31,0xe31,"Mn"},{0xe32,0xe33,"Lo"},{0xe34,0xe3a,"Mn"},{0xe3b,0xe3e,"Cn"},{0xe3f,0xe3f,"Sc"},{0xe40,0xe45,"Lo"},
{0xe46,0xe46,"Lm"},{0xe47,0xe4e,"Mn"},{0xe4f,0xe4f,"Po"},{0xe50,0xe59,"Nd"},{0xe5a,0xe5b,"Po"},{0xe5c,0xe80,"Cn"},{0xe81,0xe82,"Lo"},
{0xe83,0xe83,"Cn"},{0xe84,0xe84,"Lo"},{0xe85,0xe85,"Cn"},{0xe86,0xe8a,"Lo"},{0xe8b,0xe8b,"Cn"},{0xe8c,0xea3,"Lo"},{0xea4,0xea4,"Cn"},
{0xea5,0xea5,"Lo"},{0xea6,0xea6,"Cn"},{0xea7,0xeb0,"Lo"},{0xeb1,0xeb1,"Mn"},{0xeb2,0xeb3,"Lo"},{0xeb4,0xebc,"Mn"},{0xebd,0xebd,"Lo"},
{0xebe,0xebf,"Cn"},{0xec0,0xec4,"Lo"},{0xec5,0xec5,"Cn"},{0xec6,0xec6,"Lm"},{0xec7,0xec7,"Cn"},{0xec8,0xece,"Mn"},{0xecf,0xecf,"Cn"},
{0xed0,0xed9,"Nd"},{0xeda,0xedb,"Cn"},{0xedc,0xedf,"Lo"},{0xee0,0xeff,"Cn"},{0xf00,0xf00,"Lo"},{0xf01,0xf03,"So"},{0xf04,0xf12,"Po"},
{0xf13,0xf13,"So"},{0xf14,0xf14,"Po"},{0xf15,0xf17,"So"},{0xf18,0xf19,"Mn"},{0xf1a,0xf1f,"So"},{0xf20,0xf29,"Nd"},{0xf2a,0xf33,"No"},
{0xf34,0xf34,"So"},{0xf35,0xf35,"Mn"},{0xf36,0xf36,"So"},{0xf37,0xf37,"Mn"},{0xf38,0xf38,"So"},{0xf39,0xf39,"Mn"},{0xf3a,0xf3a,"Ps"},
{0xf3b,0xf3b,"Pe"},{0xf3c,0xf3c,"Ps"},{0xf3d,0xf3d,"Pe"},{0xf3e,0xf3f,"Mc"},{0xf40,0xf47,"Lo"},{0xf48,0xf48,"Cn"},{0xf49,0xf6c,"Lo"},
{0xf6d,0xf70,"Cn"},{0xf71,0xf7e,"Mn"},{0xf7f,0xf7f,"Mc"},{0xf80,0xf84,"Mn"},{0xf85,0xf85,"Po"},{0xf86,0xf87,"Mn"},{0xf88,0xf8c,"Lo"},
{0xf8d,0xf97,"Mn"},{0xf98,0xf98,"Cn"},{0xf99,0xfbc,"Mn"},{0xfbd,0xfbd,"Cn"},{0xfbe,0xfc5,"So"},{0xfc6,0xfc6,"Mn"},{0xfc7,0xfcc,"So"},
{0xfcd,0xfcd,"Cn"},{0xfce,0xfcf,"So"},{0xfd0,0xfd4,"Po"},{0xfd5,0xfd8,"So"},{0xfd9,0xfda,"Po"},{0xfdb,0xfff,"Cn"},{0x1000,0x102a,"Lo"},
{0x102b,0x102c,"Mc"},{0x102d,0x1030,"Mn"},{0x1031,0x1031,"Mc"},{0x1032,0x1037,"Mn"},{0x1038,0x1038,"Mc"},{0x1039,0x103a,"Mn"},{0x103b,0x103c,"Mc"},
{0x103d,0x103e,"Mn"},{0x103f,0x103f,"Lo"},{0x1040,0x1049,"Nd"},{0x104a,0x104f,"Po"},{0x1050,0x1055,"Lo"},{0x1056,0x1057,"Mc"},{0x1058,0x1059,"Mn"},
{0x105a,0x105d,"Lo"},{0x105e,0x1060,"Mn"},{0x1061,0x1061,"Lo"},{0x1062,0x1064,"Mc"},{0x1065,0x1066,"Lo"},{0x1067,0x106d,"Mc"},{0x106e,0x1070,"Lo"},
{0x1071,0x1074,"Mn"},{0x1075,0x1081,"Lo"},{0x1082,0x1082,"Mn"},{0x1083,0x1084,"Mc"},{0x1085,0x1086,"Mn"},{0x1087,0x108c,"Mc"},{0x108d,0x108d,"Mn"},
{0x108e,0x108e,"Lo"},{0x108f,0x108f,"Mc"},{0x1090,0x1099,"Nd"},{0x109a,0x109c,"Mc"},{0x109d,0x109d,"Mn"},{0x109e,0x109f,"So"},{0x10a0,0x10c5,"Lu"},
{0x10c6,0x10c6,"Cn"},{0x10c7,0x10c7,"Lu"},{0x10c8,0x10cc,"Cn"},{0x10cd,0x10cd,"Lu"},{0x10ce,0x10cf,"Cn"},{0x10d0,0x10fa,"Ll"},{0x10fb,0x10fb,"Po"},
{0x10fc,0x10fc,"Lm"},{0x10fd,0x10ff,"Ll"},{0x1100,0x1248,"Lo"},{0x1249,0x1249,"Cn"},{0x124a,0x124d,"Lo"},{0x124e,0x124f,"Cn"},{0x1250,0x1256,"Lo"},
{0x1257,0x1257,"Cn"},{0x1258,0x1258,"Lo"},{0x1259,0x1259,"Cn"},{0x125a,0x125d,"Lo"},{0x125e,0x125f,"Cn"},{0x1260,0x1288,"Lo"},{0x1289,0x1289,"Cn"},
{0x128a,0x128d,"Lo"},{0x128e,0x128f,"Cn"},{0x1290,0x12b0,"Lo"},{0x12b1,0x12b1,"Cn"},{0x12b2,0x12b5,"Lo"},{0x12b6,0x12b7,"Cn"},{0x12b8,0x12be,"Lo"},
{0x12bf,0x12bf,"Cn"},{0x12c0,0x12c0,"Lo"},{0x12c1,0x12c1,"Cn"},{0x12c2,0x12c5,"Lo"},{0x12c6,0x12c7,"Cn"},{0x12c8,0x12d6,"Lo"},{0x12d7,0x12d7,"Cn"},
{0x12d8,0x1310,"Lo"},{0x1311,0x1311,"Cn"},{0x1312,0x1315,"Lo"},{0x1316,0x1317,"Cn"},{0x1318,0x135a,"Lo"},{0x135b,0x135c,"Cn"},{0x135d,0x135f,"Mn"},
{0x1360,0x1368,"Po"},{0x1369,0x137c,"No"},{0x137d,0x137f,"Cn"},{0x1380,0x138f,"Lo"},{0x1390,0x1399,"So"},{0x139a,0x139f,"Cn"},{0x13a0,0x13f5,"Lu"},
{0x13f6,0x13f7,"Cn"},{0x13f8,0x13fd,"Ll"},{0x13fe,0x13ff,"Cn"},{0x1400,0x1400,"Pd"},{0x1401,0x166c,"Lo"},{0x166d,0x166d,"So"},{0x166e,0x166e,"Po"},
{0x166f,0x167f,"Lo"},{0x1680,0x1680,"Zs"},{0x1681,0x169a,"Lo"},{0x169b,0x169b,"Ps"},{0x169c,0x169c,"Pe"},{0x169d,0x169f,"Cn"},{0x16a0,0x16ea,"Lo"},
{0x16eb,0x16ed,"Po"},{0x16ee,0x16f0,"Nl"},{0x16f1,0x16f8,"Lo"},{0x16f9,0x16ff,"Cn"},{0x1700,0x1711,"Lo"},{0x1712,0x1714,"Mn"},{0x1715,0x1715,"Mc"},
{0x1716,0x171e,"Cn"},{0x171f,0x1731,"Lo"},{0x1732,0x1733,"Mn"},{0x1734,0x1734,"Mc"},{0x1735,0x1736,"Po"},{0x1737,0x173f,"Cn"},{0x1740,0x1751,"Lo"},
{0x1752,0x1753,"Mn"},{0x1754,0x175f,"Cn"},{0x1760,0x176c,"Lo"},{0x176d,0x176d,"Cn"},{0x176e,0x1770,"Lo"},{0x1771,0x1771,"Cn"},{0x1772,0x1773,"Mn"},
{0x1774,0x177f,"Cn"},{0x1780,0x17b3,"Lo"},{0x17b4,0x17b5,"Mn"},{0x17b6,0x17b6,"Mc"},{0x17b7,0x17bd,"Mn"},{0x17be,0x17c5,"Mc"},{0x17c6,0x17c6,"Mn"},
{0x17c7,0x17c8,"Mc"},{0x17c9,0x17d3,"Mn"},{0x17d4,0x17d6,"Po"},{0x17d7,0x17d7,"Lm"},{0x17d8,0x17da,"Po"},{0x17db,0x17db,"Sc"},{0x17dc,0x17dc,"Lo"},
{0x17dd,0x17dd,"Mn"},{0x17de,0x17df,"Cn"},{0x17e0,0x17e9,"Nd"},{0x17ea,0x17ef,"Cn"},{0x17f0,0x17f9,"No"},{0x17fa,0x17ff,"Cn"},{0x1800,0x1805,"Po"},
{0x1806,0x1806,"Pd"},{0x1807,0x180a,"Po"},{0x180b,0x180d,"Mn"},{0x180e,0x180e,"Cf"},{0x180f,0x180f,"Mn"},{0x1810,0x1819,"Nd"},{0x181a,0x181f,"Cn"},
{0x1820,0x1842,"Lo"},{0x1843,0x1843,"Lm"},{0x1844,0x1878,"Lo"},{0x1879,0x187f,"Cn"},{0x1880,0x1884,"Lo"},{0x1885,0x1886,"Mn"},{0x1887,0x18a8,"Lo"},
{0x18a9,0x18a9,"Mn"},{0x18aa,0x18aa,"Lo"},{0x18ab,0x18af,"Cn"},{0x18b0,0x18f5,"Lo"},{0x18f6,0x18ff,"Cn"},{0x1900,0x191e,"Lo"},{0x191f,0x191f,"Cn"},
{0x1920,0x1922,"Mn"},{0x1923,0x1926,"Mc"},{0x1927,0x1928,"Mn"},{0x1929,0x192b,"Mc"},{0x192c,0x192f,"Cn"},{0x1930,0x1931,"Mc"},{0x1932,0x1932,"Mn"},
{0x1933,0x1938,"Mc"},{0x1939,0x193b,"Mn"},{0x193c,0x193f,"Cn"},{0x1940,0x1940,"So"},{0x1941,0x1943,"Cn"},{0x1944,0x1945,"Po"},{0x1946,0x194f,"Nd"},
{0x1950,0x196d,"Lo"},{0x196e,0x196f,"Cn"},{0x1970,0x1974,"Lo"},{0x1975,0x197f,"Cn"},{0x1980,0x19ab,"Lo"},{0x19ac,0x19af,"Cn"},{0x19b0,0x19c9,"Lo"},
{0x19ca,0x19cf,"Cn"},{0x19d0,0x19d9,"Nd"},{0x19da,0x19da,"No"},{0x19db,0x19dd,"Cn"},{0x19de,0x19ff,"So"},{0x1a00,0x1a16,"Lo"},{0x1a17,0x1a18,"Mn"},
{0x1a19,0x1a1a,"Mc"},{0x1a1b,0x1a1b,"Mn"},{0x1a1c,0x1a1d,"Cn"},{0x1a1e,0x1a1f,"Po"},{0x1a20,0x1a54,"Lo"},{0x1a55,0x1a55,"Mc"},{0x1a56,0x1a56,"Mn"},
{0x1a57,0x1a57,"Mc"},{0x1a58,0x1a5e,"Mn"},{0x1a5f,0x1a5f,"Cn"},{0x1a60,0x1a60,"Mn"},{0x1a61,0x1a61,"Mc"},{0x1a62,0x1a62,"Mn"},{0x1a63,0x1a64,"Mc"},
{0x1a65,0x1a6c,"Mn"},{0x1a6d,0x1a72,"Mc"},{0x1a73,0x1a7c,"Mn"},{0x1a7d,0x1a7e,"Cn"},{0x1a7f,0x1a7f,"Mn"},{0x1a80,0x1a89,"Nd"},{0x1a8a,0x1a8f,"Cn"},
{0x1a90,0x1a99,"Nd"},{0x1a9a,0x1a9f,"Cn"},{0x1aa0,0x1aa6,"Po"},{0x1aa7,0x1aa7,"Lm"},{0x1aa8,0x1aad,"Po"},{0x1aae,0x1aaf,"Cn"},{0x1ab0,0x1abd,"Mn"},
{0x1abe,0x1abe,"Me"},{0x1abf,0x1ace,"Mn"},{0x1ade,0x1adf,"Cn"},{0x1aec,0x1aff,"Cn"},{0x1b00,0x1b03,"Mn"},{0x1b04,0x1b04,"Mc"},{0x1b05,0x1b33,"Lo"},
{0x1b34,0x1b34,"Mn"},{0x1b35,0x1b35,"Mc"},{0x1b36,0x1b3a,"Mn"},{0x1b3b,0x1b3b,"Mc"},{0x1b3c,0x1b3c,"Mn"},{0x1b3d,0x1b41,"Mc"},{0x1b42,0x1b42,"Mn"},
{0x1b43,0x1b44,"Mc"},{0x1b45,0x1b4c,"Lo"},{0x1b4d,0x1b4d,"Cn"},{0x1b50,0x1b59,"Nd"},{0x1b5a,0x1b60,"Po"},{0x1b61,0x1b6a,"So"},{0x1b6b,0x1b73,"Mn"},
{0x1b74,0x1b7c,"So"},{0x1b7d,0x1b7e,"Po"},{0x1b80,0x1b81,"Mn"},{0x1b82,0x1b82,"Mc"},{0x1b83,0x1ba0,"Lo"},{0x1ba1,0x1ba1,"Mc"},{0x1ba2,0x1ba5,"Mn"},
{0x1ba6,0x1ba7,"Mc"},{0x1ba8,0x1ba9,"Mn"},{0x1baa,0x1baa,"Mc"},{0x1bab,0x1bad,"Mn"},{0x1bae,0x1baf,"Lo"},{0x1bb0,0x1bb9,"Nd"},{0x1bba,0x1be5,"Lo"},
{0x1be6,0x1be6,"Mn"},{0x1be7,0x1be7,"Mc"},{0x1be8,0x1be9,"Mn"},{0x1bea,0x1bec,"Mc"},{0x1bed,0x1bed,"Mn"},{0x1bee,0x1bee,"Mc"},{0x1bef,0x1bf1,"Mn"},
{0x1bf2,0x1bf3,"Mc"},{0x1bf4,0x1bfb,"Cn"},{0x1bfc,0x1bff,"Po"},{0x1c00,0x1c23,"Lo"},{0x1c24,0x1c2b,"Mc"},{0x1c2c,0x1c33,"Mn"},{0x1c34,0x1c35,"Mc"},
{0x1c36,0x1c37,"Mn"},{0x1c38,0x1c3a,"Cn"},{0x1c3b,0x1c3f,"Po"},{0x1c40,0x1c49,"Nd"},{0x1c4a,0x1c4c,"Cn"},{0x1c4d,0x1c4f,"Lo"},{0x1c50,0x1c59,"Nd"},
{0x1c5a,0x1c77,"Lo"},{0x1c78,0x1c7d,"Lm"},{0x1c7e,0x1c7f,"Po"},{0x1c80,0x1c88,"Ll"},{0x1c8b,0x1c8f,"Cn"},{0x1c90,0x1cba,"Lu"},{0x1cbb,0x1cbc,"Cn"},
{0x1cbd,0x1cbf,"Lu"},{0x1cc0,0x1cc7,"Po"},{0x1cc8,0x1ccf,"Cn"},{0x1cd0,0x1cd2,"Mn"},{0x1cd3,0x1cd3,"Po"},{0x1cd4,0x1ce0,"Mn"},{0x1ce1,0x1ce1,"Mc"},
{0x1ce2,0x1ce8,"Mn"},{0x1ce9,0x1cec,"Lo"},{0x1ced,0x1ced,"Mn"},{0x1cee,0x1cf3,"Lo"},{0x1cf4,0x1cf4,"Mn"},{0x1cf5,0x1cf6,"Lo"},{0x1cf7,0x1cf7,"Mc"},
{0x1cf8,0x1cf9,"Mn"},{0x1cfa,0x1cfa,"Lo"},{0x1cfb,0x1cff,"Cn"},{0x1d00,0x1d2b,"Ll"},{0x1d2c,0x1d6a,"Lm"},{0x1d6b,0x1d77,"Ll"},{0x1d78,0x1d78,"Lm"},
{0x1d79,0x1d9a,"Ll"},{0x1d9b,0x1dbf,"Lm"},{0x1dc0,0x1dff,"Mn"},{0x1e00,0x1e00,"Lu"},{0x1e01,0x1e01,"Ll"},{0x1e02,0x1e02,"Lu"},{0x1e03,0x1e03,"Ll"},
{0x1e04,0x1e04,"Lu"},{0x1e05,0x1e05,"Ll"},{0x1e06,0x1e06,"Lu"},{0x1e07,0x1e07,"Ll"},{0x1e08,0x1e08,"Lu"},{0x1e09,0x1e09,"Ll"},{0x1e0a,0x1e0a,"Lu"},
{0x1e0b,0x1e0b,"Ll"},{0x1e0c,0x1e0c,"Lu"},{0x1e0d,0x1e0d,"Ll"},{0x1e0e,0x1e0e,"Lu"},{0x1e0f,0x1e0f,"Ll"},{0x1e10,0x1e10,"Lu"},{0x1e11,0x1e11,"Ll"},
{0x1e12,0x1e12,"Lu"},{0x1e13,0x1e13,"Ll"},{0x1e14,0x1e14,"Lu"},{0x1e15,0x1e15,"Ll"},{0x1e16,0x1e16,"Lu"},{0x1e17,0x1e17,"Ll"},{0x1e18,0x1e18,"Lu"},
{0x1e19,0x1e19,"Ll"},{0x1e1a,0x1e1a,"Lu"},{0x1e1b,0x1e1b,"Ll"},{0x1e1c,0x1e1c,"Lu"},{0x1e1d,0x1e1d,"Ll"},{0x1e1e,0x1e1e,"Lu"},{0x1e1f,0x1e1f,"Ll"},
{0x1e20,0x1e20,"Lu"},{0x1e21,0x1e21,"Ll"},{0x1e22,0x1e22,"Lu"},{0x1e23,0x1e23,"Ll"},{0x1e24,0x1e24,"Lu"},{0x1e25,0x1e25,"Ll"},{0x1e26,0x1e26,"Lu"},
{0x1e27,0x1e27,"Ll"},{0x1e28,0x1e28,"Lu"},{0x1e29,0x1e29,"Ll"},{0x1e2a,0x1e2a,"Lu"},{0x1e2b,0x1e2b,"Ll"},{0x1e2c,0x1e2c,"Lu"},{0x1e2d,0x1e2d,"Ll"},
{0x1e2e,0x1e2e,"Lu"},{0x1e2f,0x1e2f,"Ll"},{0x1e30,0x1e30,"Lu"},{0x1e31,0x1e31,"Ll"},{0x1e32,0x1e32,"Lu"},{0x1e33,0x1e33,"Ll"},{0x1e34,0x1e34,"Lu"},
{0x1e35,0x1e35,"Ll"},{0x1e36,0x1e36,"Lu"},{0x1e37,0x1e37,"Ll"},{0x1e38,0x1e38,"Lu"},{0x1e39,0x1e39,"Ll"},{0x1e3a,0x1e3a,"Lu"},{0x1e3b,0x1e3b,"Ll"},
{0x1e3c,0x1e3c,"Lu"},{0x1e3d,0x1e3d,"Ll"},{0x1e3e,0x1e3e,"Lu"},{0x1e3f,0x1e3f,"Ll"},{0x1e40,0x1e40,"Lu"},{0x1e41,0x1e41,"Ll"},{0x1e42,0x1e42,"Lu"},
{0x1e43,0x1e43,"Ll"},{0x1e44,0x1e44,"Lu"},{0x1e45,0x1e45,"Ll"},{0x1e46,0x1e46,"Lu"},{0x1e47,0x1e47,"Ll"},{0x1e48,0x1e48,"Lu"},{0x1e49,0x1e49,"Ll"},
{0x1e4a,0x1e4a,"Lu"},{0x1e4b,0x1e4b,"Ll"},{0x1e4c,0x1e4c,"Lu"},{0x1e4d,0x1e4d,"Ll"},{0x1e4e,0x1e4e,"Lu"},{0x1e4f,0x1e4f,"Ll"},{0x1e50,0x1e50,"Lu"},
{0x1e51,0x1e51,"Ll"},{0x1e52,0x1e52,"Lu"},{0x1e53,0x1e53,"Ll"},{0x1e54,0x1e54,"Lu"},{0x1e55,0x1e55,"Ll"},{0x1e56,0x1e56,"Lu"},{0x1e57,0x1e57,"Ll"},
{0x1e58,0x1e58,"Lu"},{0x1e59,0x1e59,"Ll"},{0x1e5a,0x1e5a,"Lu"},{0x1e5b,0x1e5b,"Ll"},{0x1e5c,0x1e5c,"Lu"},{0x1e5d,0x1e5d,"Ll"},{0x1e5e,0x1e5e,"Lu"},
{0x1e5f,0x1e5f,"Ll"},{0x1e60,0x1e60,"Lu"},{0x1e61,0x1e61,"Ll"},{0x1e62,0x1e62,"Lu"},{0x1e63,0x1e63,"Ll"},{0x1e64,0x1e64,"Lu"},{0x1e65,0x1e65,"Ll"},
{0x1e66,0x1e66,"Lu"},{0x1e67,0x1e67,"Ll"},{0x1e68,0x1e68,"Lu"},{0x1e69,0x1e69,"Ll"},{0x1e6a,0x1e6a,"Lu"},{0x1e6b,0x1e6b,"Ll"},{0x1e6c,0x1e6c,"Lu"},
{0x1e6d,0x1e6d,"Ll"},{0x1e6e,0x1e6e,"Lu"},{0x1e6f,0x1e6f,"Ll"},{0x1e70,0x1e70,"Lu"},{0x1e71,0x1e71,"Ll"},{0x1e72,0x1e72,"Lu"},{0x1e73,0x1e73,"Ll"},
{0x1e74,0x1e74,"Lu"},{0x1e75,0x1e75,"Ll"},{0x1e76,0x1e76,"Lu"},{0x1e77,0x1e77,"Ll"},{0x1e78,0x1e78,"Lu"},{0x1e79,0x1e79,"Ll"},{0x1e7a,0x1e7a,"Lu"},
{0x1e7b,0x1e7b,"Ll"},{0x1e7c,0x1e7c,"Lu"},{0x1e7d,0x1e7d,"Ll"},{0x1e7e,0x1e7e,"Lu"},{0x1e7f,0x1e7f,"Ll"},{0x1e80,0x1e80,"Lu"},{0x1e81,0x1e81,"Ll"},
{0x1e82,0x1e82,"Lu"},{0x1e83,0x1e83,"Ll"},{0x1e84,0x1e84,"Lu"},{0x1e85,0x1e85,"Ll"},{0x1e86,0x1e86,"Lu"},{0x1e87,0x1e87,"Ll"},{0x1e88,0x1e88,"Lu"},
{0x1e89,0x1e89,"Ll"},{0x1e8a,0x1e8a,"Lu"},{0x1e8b,0x1e8b,"Ll"},{0x1e8c,0x1e8c,"Lu"},{0x1e8d,0x1e8d,"Ll"},{0x1e8e,0x1e8e,"Lu"},{0x1e8f,0x1e8f,"Ll"},
{0x1e90,0x1e90,"Lu"},{0x1e91,0x1e91,"Ll"},{0x1e92,0x1e92,"Lu"},{0x1e93,0x1e93,"Ll"},{0x1e94,0x1e94,"Lu"},{0x1e95,0x1e9d,"Ll"},{0x1e9e,0x1e9e,"Lu"},
{0x1e9f,0x1e9f,"Ll"},{0x1ea0,0x1ea0,"Lu"},{0x1ea1,0x1ea1,"Ll"},{0x1ea2,0x1ea2,"Lu"},{0x1ea3,0x1ea3,"Ll"},{0x1ea4,0x1ea4,"Lu"},{0x1ea5,0x1ea5,"Ll"},
{0x1ea6,0x1ea6,"Lu"},{0x1ea7,0x1ea7,"Ll"},{0x1ea8,0x1ea8,"Lu"},{0x1ea9,0x1ea9,"Ll"},{0x1eaa,0x1eaa,"Lu"},{0x1eab,0x1eab,"Ll"},{0x1eac,0x1eac,"Lu"},
{0x1ead,0x1ead,"Ll"},{0x1eae,0x1eae,"Lu"},{0x1eaf,0x1eaf,"Ll"},{0x1eb0,0x1eb0,"Lu"},{0x1eb1,0x1eb1,"Ll"},{0x1eb2,0x1eb2,"Lu"},{0x1eb3,0x1eb3,"Ll"},
{0x1eb4,0x1eb4,"Lu"},{0x1eb5,0x1eb5,"Ll"},{0x1eb6,0x1eb6,"Lu"},{0x1eb7,0x1eb7,"Ll"},{0x1eb8,0x1eb8,"Lu"},{0x1eb9,0x1eb9,"Ll"},{0x1eba,0x1eba,"Lu"},
{0x1ebb,0x1ebb,"Ll"},{0x1ebc,0x1ebc,"Lu"},{0x1ebd,0x1ebd,"Ll"},{0x1ebe,0x1ebe,"Lu"},{0x1ebf,0x1ebf,"Ll"},{0x1ec0,0x1ec0,"Lu"},{0x1ec1,0x1ec1,"Ll"},
{0x1ec2,0x1ec2,"Lu"},{0x1ec3,0x1ec3,"Ll"},{0x1ec4,0x1ec4,"Lu"},{0x1ec5,0x1ec5,"Ll"},{0x1ec6,0x1ec6,"Lu"},{0x1ec7,0x1ec7,"Ll"},{0x1ec8,0x1ec8,"Lu"},
{0x1ec9,0x1ec9,"Ll"},{0x1eca,0x1eca,"Lu"},{0x1ecb,0x1ecb,"Ll"},{0x1ecc,0x1ecc,"Lu"},{0x1ecd,0x1ecd,"Ll"},{0x1ece,0x1ece,"Lu"},{0x1ecf,0x1ecf,"Ll"},
{0x1ed0,0x1ed0,"Lu"},{0x1ed1,0x1ed1,"Ll"},{0x1ed2,0x1ed2,"Lu"},{0x1ed3,0x1ed3,"Ll"},{0x1ed4,0x1ed4,"Lu"},{0x1ed5,0x1ed5,"Ll"},{0x1ed6,0x1ed6,"Lu"},
{0x1ed7,0x1ed7,"Ll"},{0x1ed8,0x1ed8,"Lu"},{0x1ed9,0x1ed9,"Ll"},{0x1eda,0x1eda,"Lu"},{0x1edb,0x1edb,"Ll"},{0x1edc,0x1edc,"Lu"},{0x1edd,0x1edd,"Ll"},
{0x1ede,0x1ede,"Lu"},{0x1edf,0x1edf,"Ll"},{0x1ee0,0x1ee0,"Lu"},{0x1ee1,0x1ee1,"Ll"},{0x1ee2,0x1ee2,"Lu"},{0x1ee3,0x1ee3,"Ll"},{0x1ee4,0x1ee4,"Lu"},
{0x1ee5,0x1ee5,"Ll"},{0x1ee6,0x1ee6,"Lu"},{0x1ee7,0x1ee7,"Ll"},{0x1ee8,0x1ee8,"Lu"},{0x1ee9,0x1ee9,"Ll"},{0x1eea,0x1eea,"Lu"},{0x1eeb,0x1eeb,"Ll"},
{0x1eec,0x1eec,"Lu"},{0x1eed,0x1eed,"Ll"},{0x1eee,0x1eee,"Lu"},{0x1eef,0x1eef,"Ll"},{0x1ef0,0x1ef0,"Lu"},{0x1ef1,0x1ef1,"Ll"},{0x1ef2,0x1ef2,"Lu"},
{0x1ef3,0x1ef3,"Ll"},{0x1ef4,0x1ef4,"Lu"},{0x1ef5,0x1ef5,"Ll"},{0x1ef6,0x1ef6,"Lu"},{0x1ef7,0x1ef7,"Ll"},{0x1ef8,0x1ef8,"Lu"},{0x1ef9,0x1ef9,"Ll"},
{0x1efa,0x1efa,"Lu"},{0x1efb,0x1efb,"Ll"},{0x1efc,0x1efc,"Lu"},{0x1efd,0x1efd,"Ll"},{0x1efe,0x1efe,"Lu"},{0x1eff,0x1f07,"Ll"},{0x1f08,0x1f0f,"Lu"},
{0x1f10,0x1f15,"Ll"},{0x1f16,0x1f17,"Cn"},{0x1f18,0x1f1d,"Lu"},{0x1f1e,0x1f1f,"Cn"},{0x1f20,0x1f27,"Ll"},{0x1f28,0x1f2f,"Lu"},{0x1f30,0x1f37,"Ll"},
{0x1f38,0x1f3f,"Lu"},{0x1f40,0x1f45,"Ll"},{0x1f46,0x1f47,"Cn"},{0x1f48,0x1f4d,"Lu"},{0x1f4e,0x1f4f,"Cn"},{0x1f50,0x1f57,"Ll"},{0x1f58,0x1f58,"Cn"},
{0x1f59,0x1f59,"Lu"},{0x1f5a,0x1f5a,"Cn"},{0x1f5b,0x1f5b,"Lu"},{0x1f5c,0x1f5c,"Cn"},{0x1f5d,0x1f5d,"Lu"},{0x1f5e,0x1f5e,"Cn"},{0x1f5f,0x1f5f,"Lu"},
{0x1f60,0x1f67,"Ll"},{0x1f68,0x1f6f,"Lu"},{0x1f70,0x1f7d,"Ll"},{0x1f7e,0x1f7f,"Cn"},{0x1f80,0x1f87,"Ll"},{0x1f88,0x1f8f,"Lt"},{0x1f90,0x1f97,"Ll"},
{0x1f98,0x1f9f,"Lt"},{0x1fa0,0x1fa7,"Ll"},{0x1fa8,0x1faf,"Lt"},{0x1fb0,0x1fb4,"Ll"},{0x1fb5,0x1fb5,"Cn"},{0x1fb6,0x1fb7,"Ll"},{0x1fb8,0x1fbb,"Lu"},
{0x1fbc,0x1fbc,"Lt"},{0x1fbd,0x1fbd,"Sk"},{0x1fbe,0x1fbe,"Ll"},{0x1fbf,0x1fc1,"Sk"},{0x1fc2,0x1fc4,"Ll"},{0x1fc5,0x1fc5,"Cn"},{0x1fc6,0x1fc7,"Ll"},
{0x1fc8,0x1fcb,"Lu"},{0x1fcc,0x1fcc,"Lt"},{0x1fcd,0x1fcf,"Sk"},{0x1fd0,0x1fd3,"Ll"},{0x1fd4,0x1fd5,"Cn"},{0x1fd6,0x1fd7,"Ll"},{0x1fd8,0x1fdb,"Lu"},
{0x1fdc,0x1fdc,"Cn"},{0x1fdd,0x1fdf,"Sk"},{0x1fe0,0x1fe7,"Ll"},{0x1fe8,0x1fec,"Lu"},{0x1fed,0x1fef,"Sk"},{0x1ff0,0x1ff1,"Cn"},{0x1ff2,0x1ff4,"Ll"},
{0x1ff5,0x1ff5,"Cn"},{0x1ff6,0x1ff7,"Ll"},{0x1ff8,0x1ffb,"Lu"},{0x1ffc,0x1ffc,"Lt"},{0x1ffd,0x1ffe,"Sk"},{0x1fff,0x1fff,"Cn"},{0x2000,0x200a,"Zs"},
{0x200b,0x200f,"Cf"},{0x2010,0x2015,"Pd"},{0x2016,0x2017,"Po"},{0x2018,0x2018,"Pi"},{0x2019,0x2019,"Pf"},{0x201a,0x201a,"Ps"},{0x201b,0x201c,"Pi"},
{0x201d,0x201d,"Pf"},{0x201e,0x201e,"Ps"},{0x201f,0x201f,"Pi"},{0x2020,0x2027,"Po"},{0x2028,0x2028,"Zl"},{0x2029,0x2029,"Zp"},{0x202a,0x202e,"Cf"},
{0x202f,0x202f,"Zs"},{0x2030,0x2038,"Po"},{0x2039,0x2039,"Pi"},{0x203a,0x203a,"Pf"},{0x203b,0x203e,"Po"},{0x203f,0x2040,"Pc"},{0x2041,0x2043,"Po"},
{0x2044,0x2044,"Sm"},{0x2045,0x2045,"Ps"},{0x2046,0x2046,"Pe"},{0x2047,0x2051,"Po"},{0x2052,0x2052,"Sm"},{0x2053,0x2053,"Po"},{0x2054,0x2054,"Pc"},
{0x2055,0x205e,"Po"},{0x205f,0x205f,"Zs"},{0x2060,0x2064,"Cf"},{0x2065,0x2065,"Cn"},{0x2066,0x206f,"Cf"},{0x2070,0x2070,"No"},{0x2071,0x2071,"Lm"},
{0x2072,0x2073,"Cn"},{0x2074,0x2079,"No"},{0x207a,0x207c,"Sm"},{0x207d,0x207d,"Ps"},{0x207e,0x207e,"Pe"},{0x207f,0x207f,"Lm"},{0x2080,0x2089,"No"},
{0x208a,0x208c,"Sm"},{0x208d,0x208d,"Ps"},{0x208e,0x208e,"Pe"},{0x208f,0x208f,"Cn"},{0x2090,0x209c,"Lm"},{0x209d,0x209f,"Cn"},{0x20a0,0x20c0,"Sc"},
{0x20c2,0x20cf,"Cn"},{0x20d0,0x20dc,"Mn"},{0x20dd,0x20e0,"Me"},{0x20e1,0x20e1,"Mn"},{0x20e2,0x20e4,"Me"},{0x20e5,0x20f0,"Mn"},{0x20f1,0x20ff,"Cn"},
{0x2100,0x2101,"So"},{0x2102,0x2102,"Lu"},{0x2103,0x2106,"So"},{0x2107,0x2107,"Lu"},{0x2108,0x2109,"So"},{0x210a,0x210a,"Ll"},{0x210b,0x210d,"Lu"},
{0x210e,0x210f,"Ll"},{0x2110,0x2112,"Lu"},{0x2113,0x2113,"Ll"},{0x2114,0x2114,"So"},{0x2115,0x2115,"Lu"},{0x2116,0x2117,"So"},{0x2118,0x2118,"Sm"},
{0x2119,0x211d,"Lu"},{0x211e,0x2123,"So"},{0x2124,0x2124,"Lu"},{0x2125,0x2125,"So"},{0x2126,0x2126,"Lu"},{0x2127,0x2127,"So"},{0x2128,0x2128,"Lu"},
{0x2129,0x2129,"So"},{0x212a,0x212d,"Lu"},{0x212e,0x212e,"So"},{0x212f,0x212f,"Ll"},{0x2130,0x2133,"Lu"},{0x2134,0x2134,"Ll"},{0x2135,0x2138,"Lo"},
{0x2139,0x2139,"Ll"},{0x213a,0x213b,"So"},{0x213c,0x213d,"Ll"},{0x213e,0x213f,"Lu"},{0x2140,0x2144,"Sm"},{0x2145,0x2145,"Lu"},{0x2146,0x2149,"Ll"},
{0x214a,0x214a,"So"},{0x214b,0x214b,"Sm"},{0x214c,0x214d,"So"},{0x214e,0x214e,"Ll"},{0x214f,0x214f,"So"},{0x2150,0x215f,"No"},{0x2160,0x2182,"Nl"},
{0x2183,0x2183,"Lu"},{0x2184,0x2184,"Ll"},{0x2185,0x2188,"Nl"},{0x2189,0x2189,"No"},{0x218a,0x218b,"So"},{0x218c,0x218f,"Cn"},{0x2190,0x2194,"Sm"},
{0x2195,0x2199,"So"},{0x219a,0x219b,"Sm"},{0x219c,0x219f,"So"},{0x21a0,0x21a0,"Sm"},{0x21a1,0x21a2,"So"},{0x21a3,0x21a3,"Sm"},{0x21a4,0x21a5,"So"},
{0x21a6,0x21a6,"Sm"},{0x21a7,0x21ad,"So"},{0x21ae,0x21ae,"Sm"},{0x21af,0x21cd,"So"},{0x21ce,0x21cf,"Sm"},{0x21d0,0x21d1,"So"},{0x21d2,0x21d2,"Sm"},
{0x21d3,0x21d3,"So"},{0x21d4,0x21d4,"Sm"},{0x21d5,0x21f3,"So"},{0x21f4,0x22ff,"Sm"},{0x2300,0x2307,"So"},{0x2308,0x2308,"Ps"},{0x2309,0x2309,"Pe"},
{0x230a,0x230a,"Ps"},{0x230b,0x230b,"Pe"},{0x230c,0x231f,"So"},{0x2320,0x2321,"Sm"},{0x2322,0x2328,"So"},{0x2329,0x2329,"Ps"},{0x232a,0x232a,"Pe"},
{0x232b,0x237b,"So"},{0x237c,0x237c,"Sm"},{0x237d,0x239a,"So"},{0x239b,0x23b3,"Sm"},{0x23b4,0x23db,"So"},{0x23dc,0x23e1,"Sm"},{0x23e2,0x2426,"So"},
{0x242a,0x243f,"Cn"},{0x2440,0x244a,"So"},{0x244b,0x245f,"Cn"},{0x2460,0x249b,"No"},{0x249c,0x24e9,"So"},{0x24ea,0x24ff,"No"},{0x2500,0x25b6,"So"},
{0x25b7,0x25b7,"Sm"},{0x25b8,0x25c0,"So"},{0x25c1,0x25c1,"Sm"},{0x25c2,0x25f7,"So"},{0x25f8,0x25ff,"Sm"},{0x2600,0x266e,"So"},{0x266f,0x266f,"Sm"},
{0x2670,0x2767,"So"},{0x2768,0x2768,"Ps"},{0x2769,0x2769,"Pe"},{0x276a,0x276a,"Ps"},{0x276b,0x276b,"Pe"},{0x276c,0x276c,"Ps"},{0x276d,0x276d,"Pe"},
{0x276e,0x276e,"Ps"},{0x276f,0x276f,"Pe"},{0x2770,0x2770,"Ps"},{0x2771,0x2771,"Pe"},{0x2772,0x2772,"Ps"},{0x2773,0x2773,"Pe"},{0x2774,0x2774,"Ps"},
{0x2775,0x2775,"Pe"},{0x2776,0x2793,"No"},{0x2794,0x27bf,"So"},{0x27c0,0x27c4,"Sm"},{0x27c5,0x27c5,"Ps"},{0x27c6,0x27c6,"Pe"},{0x27c7,0x27e5,"Sm"},
{0x27e6,0x27e6,"Ps"},{0x27e7,0x27e7,"Pe"},{0x27e8,0x27e8,"Ps"},{0x27e9,0x27e9,"Pe"},{0x27ea,0x27ea,"Ps"},{0x27eb,0x27eb,"Pe"},{0x27ec,0x27ec,"Ps"},
{0x27ed,0x27ed,"Pe"},{0x27ee,0x27ee,"Ps"},{0x27ef,0x27ef,"Pe"},{0x27f0,0x27ff,"Sm"},{0x2800,0x28ff,"So"},{0x2900,0x2982,"Sm"},{0x2983,0x2983,"Ps"},
{0x2984,0x2984,"Pe"},{0x2985,0x2985,"Ps"},{0x2986,0x2986,"Pe"},{0x2987,0x2987,"Ps"},{0x2988,0x2988,"Pe"},{0x2989,0x2989,"Ps"},{0x298a,0x298a,"Pe"},
{0x298b,0x298b,"Ps"},{0x298c,0x298c,"Pe"},{0x298d,0x298d,"Ps"},{0x298e,0x298e,"Pe"},{0x298f,0x298f,"Ps"},{0x2990,0x2990,"Pe"},{0x2991,0x2991,"Ps"},
{0x2992,0x2992,"Pe"},{0x2993,0x2993,"Ps"},{0x2994,0x2994,"Pe"},{0x2995,0x2995,"Ps"},{0x2996,0x2996,"Pe"},{0x2997,0x2997,"Ps"},{0x2998,0x2998,"Pe"},
{0x2999,0x29d7,"Sm"},{0x29d8,0x29d8,"Ps"},{0x29d9,0x29d9,"Pe"},{0x29da,0x29da,"Ps"},{0x29db,0x29db,"Pe"},{0x29dc,0x29fb,"Sm"},{0x29fc,0x29fc,"Ps"},
{0x29fd,0x29fd,"Pe"},{0x29fe,0x2aff,"Sm"},{0x2b00,0x2b2f,"So"},{0x2b30,0x2b44,"Sm"},{0x2b45,0x2b46,"So"},{0x2b47,0x2b4c,"Sm"},{0x2b4d,0x2b73,"So"},
{0x2b74,0x2b75,"Cn"},{0x2b76,0x2b95,"So"},{0x2b97,0x2bff,"So"},{0x2c00,0x2c2f,"Lu"},{0x2c30,0x2c5f,"Ll"},{0x2c60,0x2c60,"Lu"},{0x2c61,0x2c61,"Ll"},
{0x2c62,0x2c64,"Lu"},{0x2c65,0x2c66,"Ll"},{0x2c67,0x2c67,"Lu"},{0x2c68,0x2c68,"Ll"},{0x2c69,0x2c69,"Lu"},{0x2c6a,0x2c6a,"Ll"},{0x2c6b,0x2c6b,"Lu"},
{0x2c6c,0x2c6c,"Ll"},{0x2c6d,0x2c70,"Lu"},{0x2c71,0x2c71,"Ll"},{0x2c72,0x2c72,"Lu"},{0x2c73,0x2c74,"Ll"},{0x2c75,0x2c75,"Lu"},{0x2c76,0x2c7b,"Ll"},
{0x2c7c,0x2c7d,"Lm"},{0x2c7e,0x2c80,"Lu"},{0x2c81,0x2c81,"Ll"},{0x2c82,0x2c82,"Lu"},{0x2c83,0x2c83,"Ll"},{0x2c84,0x2c84,"Lu"},{0x2c85,0x2c85,"Ll"},
{0x2c86,0x2c86,"Lu"},{0x2c87,0x2c87,"Ll"},{0x2c88,0x2c88,"Lu"},{0x2c89,0x2c89,"Ll"},{0x2c8a,0x2c8a,"Lu"},{0x2c8b,0x2c8b,"Ll"},{0x2c8c,0x2c8c,"Lu"},
{0x2c8d,0x2c8d,"Ll"},{0x2c8e,0x2c8e,"Lu"},{0x2c8f,0x2c8f,"Ll"},{0x2c90,0x2c90,"Lu"},{0x2c91,0x2c91,"Ll"},{0x2c92,0x2c92,"Lu"},{0x2c93,0x2c93,"Ll"},
{0x2c94,0x2c94,"Lu"},{0x2c95,0x2c95,"Ll"},{0x2c96,0x2c96,"Lu"},{0x2c97,0x2c97,"Ll"},{0x2c98,0x2c98,"Lu"},{0x2c99,0x2c99,"Ll"},{0x2c9a,0x2c9a,"Lu"},
{0x2c9b,0x2c9b,"Ll"},{0x2c9c,0x2c9c,"Lu"},{0x2c9d,0x2c9d,"Ll"},{0x2c9e,0x2c9e,"Lu"},{0x2c9f,0x2c9f,"Ll"},{0x2ca0,0x2ca0,"Lu"},{0x2ca1,0x2ca1,"Ll"},
{0x2ca2,0x2ca2,"Lu"},{0x2ca3,0x2ca3,"Ll"},{0x2ca4,0x2ca4,"Lu"},{0x2ca5,0x2ca5,"Ll"},{0x2ca6,0x2ca6,"Lu"},{0x2ca7,0x2ca7,"Ll"},{0x2ca8,0x2ca8,"Lu"},
{0x2ca9,0x2ca9,"Ll"},{0x2caa,0x2caa,"Lu"},{0x2cab,0x2cab,"Ll"},{0x2cac,0x2cac,"Lu"},{0x2cad,0x2cad,"Ll"},{0x2cae,0x2cae,"Lu"},{0x2caf,0x2caf,"Ll"},
{0x2cb0,0x2cb0,"Lu"},{0x2cb1,0x2cb1,"Ll"},{0x2cb2,0x2cb2,"Lu"},{0x2cb3,0x2cb3,"Ll"},{0x2cb4,0x2cb4,"Lu"},{0x2cb5,0x2cb5,"Ll"},{0x2cb6,0x2cb6,"Lu"},
{0x2cb7,0x2cb7,"Ll"},{0x2cb8,0x2cb8,"Lu"},{0x2cb9,0x2cb9,"Ll"},{0x2cba,0x2cba,"Lu"},{0x2cbb,0x2cbb,"Ll"},{0x2cbc,0x2cbc,"Lu"},{0x2cbd,0x2cbd,"Ll"},
{0x2cbe,0x2cbe,"Lu"},{0x2cbf,0x2cbf,"Ll"},{0x2cc0,0x2cc0,"Lu"},{0x2cc1,0x2cc1,"Ll"},{0x2cc2,0x2cc2,"Lu"},{0x2cc3,0x2cc3,"Ll"},{0x2cc4,0x2cc4,"Lu"},
{0x2cc5,0x2cc5,"Ll"},{0x2cc6,0x2cc6,"Lu"},{0x2cc7,0x2cc7,"Ll"},{0x2cc8,0x2cc8,"Lu"},{0x2cc9,0x2cc9,"Ll"},{0x2cca,0x2cca,"Lu"},{0x2ccb,0x2ccb,"Ll"},
{0x2ccc,0x2ccc,"Lu"},{0x2ccd,0x2ccd,"Ll"},{0x2cce,0x2cce,"Lu"},{0x2ccf,0x2ccf,"Ll"},{0x2cd0,0x2cd0,"Lu"},{0x2cd1,0x2cd1,"Ll"},{0x2cd2,0x2cd2,"Lu"},
{0x2cd3,0x2cd3,"Ll"},{0x2cd4,0x2cd4,"Lu"},{0x2cd5,0x2cd5,"Ll"},{0x2cd6,0x2cd6,"Lu"},{0x2cd7,0x2cd7,"Ll"},{0x2cd8,0x2cd8,"Lu"},{0x2cd9,0x2cd9,"Ll"},
{0x2cda,0x2cda,"Lu"},{0x2cdb,0x2cdb,"Ll"},{0x2cdc,0x2cdc,"Lu"},{0x2cdd,0x2cdd,"Ll"},{0x2cde,0x2cde,"Lu"},{0x2cdf,0x2cdf,"Ll"},{0x2ce0,0x2ce0,"Lu"},
{0x2ce1,0x2ce1,"Ll"},{0x2ce2,0x2ce2,"Lu"},{0x2ce3,0x2ce4,"Ll"},{0x2ce5,0x2cea,"So"},{0x2ceb,0x2ceb,"Lu"},{0x2cec,0x2cec,"Ll"},{0x2ced,0x2ced,"Lu"},
{0x2cee,0x2cee,"Ll"},{0x2cef,0x2cf1,"Mn"},{0x2cf2,0x2cf2,"Lu"},{0x2cf3,0x2cf3,"Ll"},{0x2cf4,0x2cf8,"Cn"},{0x2cf9,0x2cfc,"Po"},{0x2cfd,0x2cfd,"No"},
{0x2cfe,0x2cff,"Po"},{0x2d00,0x2d25,"Ll"},{0x2d26,0x2d26,"Cn"},{0x2d27,0x2d27,"Ll"},{0x2d28,0x2d2c,"Cn"},{0x2d2d,0x2d2d,"Ll"},{0x2d2e,0x2d2f,"Cn"},
{0x2d30,0x2d67,"Lo"},{0x2d68,0x2d6e,"Cn"},{0x2d6f,0x2d6f,"Lm"},{0x2d70,0x2d70,"Po"},{0x2d71,0x2d7e,"Cn"},{0x2d7f,0x2d7f,"Mn"},{0x2d80,0x2d96,"Lo"},
{0x2d97,0x2d9f,"Cn"},{0x2da0,0x2da6,"Lo"},{0x2da7,0x2da7,"Cn"},{0x2da8,0x2dae,"Lo"},{0x2daf,0x2daf,"Cn"},{0x2db0,0x2db6,"Lo"},{0x2db7,0x2db7,"Cn"},
{0x2db8,0x2dbe,"Lo"},{0x2dbf,0x2dbf,"Cn"},{0x2dc0,0x2dc6,"Lo"},{0x2dc7,0x2dc7,"Cn"},{0x2dc8,0x2dce,"Lo"},{0x2dcf,0x2dcf,"Cn"},{0x2dd0,0x2dd6,"Lo"},
{0x2dd7,0x2dd7,"Cn"},{0x2dd8,0x2dde,"Lo"},{0x2ddf,0x2ddf,"Cn"},{0x2de0,0x2dff,"Mn"},{0x2e00,0x2e01,"Po"},{0x2e02,0x2e02,"Pi"},{0x2e03,0x2e03,"Pf"},
{0x2e04,0x2e04,"Pi"},{0x2e05,0x2e05,"Pf"},{0x2e06,0x2e08,"Po"},{0x2e09,0x2e09,"Pi"},{0x2e0a,0x2e0a,"Pf"},{0x2e0b,0x2e0b,"Po"},{0x2e0c,0x2e0c,"Pi"},
{0x2e0d,0x2e0d,"Pf"},{0x2e0e,0x2e16,"Po"},{0x2e17,0x2e17,"Pd"},{0x2e18,0x2e19,"Po"},{0x2e1a,0x2e1a,"Pd"},{0x2e1b,0x2e1b,"Po"},{0x2e1c,0x2e1c,"Pi"},
{0x2e1d,0x2e1d,"Pf"},{0x2e1e,0x2e1f,"Po"},{0x2e20,0x2e20,"Pi"},{0x2e21,0x2e21,"Pf"},{0x2e22,0x2e22,"Ps"},{0x2e23,0x2e23,"Pe"},{0x2e24,0x2e24,"Ps"},
{0x2e25,0x2e25,"Pe"},{0x2e26,0x2e26,"Ps"},{0x2e27,0x2e27,"Pe"},{0x2e28,0x2e28,"Ps"},{0x2e29,0x2e29,"Pe"},{0x2e2a,0x2e2e,"Po"},{0x2e2f,0x2e2f,"Lm"},
{0x2e30,0x2e39,"Po"},{0x2e3a,0x2e3b,"Pd"},{0x2e3c,0x2e3f,"Po"},{0x2e40,0x2e40,"Pd"},{0x2e41,0x2e41,"Po"},{0x2e42,0x2e42,"Ps"},{0x2e43,0x2e4f,"Po"},
{0x2e50,0x2e51,"So"},{0x2e52,0x2e54,"Po"},{0x2e55,0x2e55,"Ps"},{0x2e56,0x2e56,"Pe"},{0x2e57,0x2e57,"Ps"},{0x2e58,0x2e58,"Pe"},{0x2e59,0x2e59,"Ps"},
{0x2e5a,0x2e5a,"Pe"},{0x2e5b,0x2e5b,"Ps"},{0x2e5c,0x2e5c,"Pe"},{0x2e5d,0x2e5d,"Pd"},{0x2e5e,0x2e7f,"Cn"},{0x2e80,0x2e99,"So"},{0x2e9a,0x2e9a,"Cn"},
{0x2e9b,0x2ef3,"So"},{0x2ef4,0x2eff,"Cn"},{0x2f00,0x2fd5,"So"},{0x2fd6,0x2fef,"Cn"},{0x2ff0,0x2ffb,"So"},{0x3000,0x3000,"Zs"},{0x3001,0x3003,"Po"},
{0x3004,0x3004,"So"},{0x3005,0x3005,"Lm"},{0x3006,0x3006,"Lo"},{0x3007,0x3007,"Nl"},{0x3008,0x3008,"Ps"},{0x3009,0x3009,"Pe"},{0x300a,0x300a,"Ps"},
{0x300b,0x300b,"Pe"},{0x300c,0x300c,"Ps"},{0x300d,0x300d,"Pe"},{0x300e,0x300e,"Ps"},{0x300f,0x300f,"Pe"},{0x3010,0x3010,"Ps"},{0x3011,0x3011,"Pe"},
{0x3012,0x3013,"So"},{0x3014,0x3014,"Ps"},{0x3015,0x3015,"Pe"},{0x3016,0x3016,"Ps"},{0x3017,0x3017,"Pe"},{0x3018,0x3018,"Ps"},{0x3019,0x3019,"Pe"},
{0x301a,0x301a,"Ps"},{0x301b,0x301b,"Pe"},{0x301c,0x301c,"Pd"},{0x301d,0x301d,"Ps"},{0x301e,0x301f,"Pe"},{0x3020,0x3020,"So"},{0x3021,0x3029,"Nl"},
{0x302a,0x302d,"Mn"},{0x302e,0x302f,"Mc"},{0x3030,0x3030,"Pd"},{0x3031,0x3035,"Lm"},{0x3036,0x3037,"So"},{0x3038,0x303a,"Nl"},{0x303b,0x303b,"Lm"},
{0x303c,0x303c,"Lo"},{0x303d,0x303d,"Po"},{0x303e,0x303f,"So"},{0x3040,0x3040,"Cn"},{0x3041,0x3096,"Lo"},{0x3097,0x3098,"Cn"},{0x3099,0x309a,"Mn"},
{0x309b,0x309c,"Sk"},{0x309d,0x309e,"Lm"},{0x309f,0x309f,"Lo"},{0x30a0,0x30a0,"Pd"},{0x30a1,0x30fa,"Lo"},{0x30fb,0x30fb,"Po"},{0x30fc,0x30fe,"Lm"},
{0x30ff,0x30ff,"Lo"},{0x3100,0x3104,"Cn"},{0x3105,0x312f,"Lo"},{0x3130,0x3130,"Cn"},{0x3131,0x318e,"Lo"},{0x318f,0x318f,"Cn"},{0x3190,0x3191,"So"},
{0x3192,0x3195,"No"},{0x3196,0x319f,"So"},{0x31a0,0x31bf,"Lo"},{0x31c0,0x31e3,"So"},{0x31e6,0x31ee,"Cn"},{0x31f0,0x31ff,"Lo"},{0x3200,0x321e,"So"},
{0x321f,0x321f,"Cn"},{0x3220,0x3229,"No"},{0x322a,0x3247,"So"},{0x3248,0x324f,"No"},{0x3250,0x3250,"So"},{0x3251,0x325f,"No"},{0x3260,0x327f,"So"},
{0x3280,0x3289,"No"},{0x328a,0x32b0,"So"},{0x32b1,0x32bf,"No"},{0x32c0,0x33ff,"So"},{0x3400,0x4dbf,"Lo"},{0x4dc0,0x4dff,"So"},{0x4e00,0xa014,"Lo"},
{0xa015,0xa015,"Lm"},{0xa016,0xa48c,"Lo"},{0xa48d,0xa48f,"Cn"},{0xa490,0xa4c6,"So"},{0xa4c7,0xa4cf,"Cn"},{0xa4d0,0xa4f7,"Lo"},{0xa4f8,0xa4fd,"Lm"},
{0xa4fe,0xa4ff,"Po"},{0xa500,0xa60b,"Lo"},{0xa60c,0xa60c,"Lm"},{0xa60d,0xa60f,"Po"},{0xa610,0xa61f,"Lo"},{0xa620,0xa629,"Nd"},{0xa62a,0xa62b,"Lo"},
{0xa62c,0xa63f,"Cn"},{0xa640,0xa640,"Lu"},{0xa641,0xa641,"Ll"},{0xa642,0xa642,"Lu"},{0xa643,0xa643,"Ll"},{0xa644,0xa644,"Lu"},{0xa645,0xa645,"Ll"},
{0xa646,0xa646,"Lu"},{0xa647,0xa647,"Ll"},{0xa648,0xa648,"Lu"},{0xa649,0xa649,"Ll"},{0xa64a,0xa64a,"Lu"},{0xa64b,0xa64b,"Ll"},{0xa64c,0xa64c,"Lu"},
{0xa64d,0xa64d,"Ll"},{0xa64e,0xa64e,"Lu"},{0xa64f,0xa64f,"Ll"},{0xa650,0xa650,"Lu"},{0xa651,0xa651,"Ll"},{0xa652,0xa652,"Lu"},{0xa653,0xa653,"Ll"},
{0xa654,0xa654,"Lu"},{0xa655,0xa655,"Ll"},{0xa656,0xa656,"Lu"},{0xa657,0xa657,"Ll"},{0xa658,0xa658,"Lu"},{0xa659,0xa659,"Ll"},{0xa65a,0xa65a,"Lu"},
{0xa65b,0xa65b,"Ll"},{0xa65c,0xa65c,"Lu"},{0xa65d,0xa65d,"Ll"},{0xa65e,0xa65e,"Lu"},{0xa65f,0xa65f,"Ll"},{0xa660,0xa660,"Lu"},{0xa661,0xa661,"Ll"},
{0xa662,0xa662,"Lu"},{0xa663,0xa663,"Ll"},{0xa664,0xa664,"Lu"},{0xa665,0xa665,"Ll"},{0xa666,0xa666,"Lu"},{0xa667,0xa667,"Ll"},{0xa668,0xa668,"Lu"},
{0xa669,0xa669,"Ll"},{0xa66a,0xa66a,"Lu"},{0xa66b,0xa66b,"Ll"},{0xa66c,0xa66c,"Lu"},{0xa66d,0xa66d,"Ll"},{0xa66e,0xa66e,"Lo"},{0xa66f,0xa66f,"Mn"},
{0xa670,0xa672,"Me"},{0xa673,0xa673,"Po"},{0xa674,0xa67d,"Mn"},{0xa67e,0xa67e,"Po"},{0xa67f,0xa67f,"Lm"},{0xa680,0xa680,"Lu"},{0xa681,0xa681,"Ll"},
{0xa682,0xa682,"Lu"},{0xa683,0xa683,"Ll"},{0xa684,0xa684,"Lu"},{0xa685,0xa685,"Ll"},{0xa686,0xa686,"Lu"},{0xa687,0xa687,"Ll"},{0xa688,0xa688,"Lu"},
{0xa689,0xa689,"Ll"},{0xa68a,0xa68a,"Lu"},{0xa68b,0xa68b,"Ll"},{0xa68c,0xa68c,"Lu"},{0xa68d,0xa68d,"Ll"},{0xa68e,0xa68e,"Lu"},{0xa68f,0xa68f,"Ll"},
{0xa690,0xa690,"Lu"},{0xa691,0xa691,"Ll"},{0xa692,0xa692,"Lu"},{0xa693,0xa693,"Ll"},{0xa694,0xa694,"Lu"},{0xa695,0xa695,"Ll"},{0xa696,0xa696,"Lu"},
{0xa697,0xa697,"Ll"},{0xa698,0xa698,"Lu"},{0xa699,0xa699,"Ll"},{0xa69a,0xa69a,"Lu"},{0xa69b,0xa69b,"Ll"},{0xa69c,0xa69d,"Lm"},{0xa69e,0xa69f,"Mn"},
{0xa6a0,0xa6e5,"Lo"},{0xa6e6,0xa6ef,"Nl"},{0xa6f0,0xa6f1,"Mn"},{0xa6f2,0xa6f7,"Po"},{0xa6f8,0xa6ff,"Cn"},{0xa700,0xa716,"Sk"},{0xa717,0xa71f,"Lm"},
{0xa720,0xa721,"Sk"},{0xa722,0xa722,"Lu"},{0xa723,0xa723,"Ll"},{0xa724,0xa724,"Lu"},{0xa725,0xa725,"Ll"},{0xa726,0xa726,"Lu"},{0xa727,0xa727,"Ll"},
{0xa728,0xa728,"Lu"},{0xa729,0xa729,"Ll"},{0xa72a,0xa72a,"Lu"},{0xa72b,0xa72b,"Ll"},{0xa72c,0xa72c,"Lu"},{0xa72d,0xa72d,"Ll"},{0xa72e,0xa72e,"Lu"},
{0xa72f,0xa731,"Ll"},{0xa732,0xa732,"Lu"},{0xa733,0xa733,"Ll"},{0xa734,0xa734,"Lu"},{0xa735,0xa735,"Ll"},{0xa736,0xa736,"Lu"},{0xa737,0xa737,"Ll"},
{0xa738,0xa738,"Lu"},{0xa739,0xa739,"Ll"},{0xa73a,0xa73a,"Lu"},{0xa73b,0xa73b,"Ll"},{0xa73c,0xa73c,"Lu"},{0xa73d,0xa73d,"Ll"},{0xa73e,0xa73e,"Lu"},
{0xa73f,0xa73f,"Ll"},{0xa740,0xa740,"Lu"},{0xa741,0xa741,"Ll"},{0xa742,0xa742,"Lu"},{0xa743,0xa743,"Ll"},{0xa744,0xa744,"Lu"},{0xa745,0xa745,"Ll"},
{0xa746,0xa746,"Lu"},{0xa747,0xa747,"Ll"},{0xa748,0xa748,"Lu"},{0xa749,0xa749,"Ll"},{0xa74a,0xa74a,"Lu"},{0xa74b,0xa74b,"Ll"},{0xa74c,0xa74c,"Lu"},
{0xa74d,0xa74d,"Ll"},{0xa74e,0xa74e,"Lu"},{0xa74f,0xa74f,"Ll"},{0xa750,0xa750,"Lu"},{0xa751,0xa751,"Ll"},{0xa752,0xa752,"Lu"},{0xa753,0xa753,"Ll"},
{0xa754,0xa754,"Lu"},{0xa755,0xa755,"Ll"},{0xa756,0xa756,"Lu"},{0xa757,0xa757,"Ll"},{0xa758,0xa758,"Lu"},{0xa759,0xa759,"Ll"},{0xa75a,0xa75a,"Lu"},
{0xa75b,0xa75b,"Ll"},{0xa75c,0xa75c,"Lu"},{0xa75d,0xa75d,"Ll"},{0xa75e,0xa75e,"Lu"},{0xa75f,0xa75f,"Ll"},{0xa760,0xa760,"Lu"},{0xa761,0xa761,"Ll"},
{0xa762,0xa762,"Lu"},{0xa763,0xa763,"Ll"},{0xa764,0xa764,"Lu"},{0xa765,0xa765,"Ll"},{0xa766,0xa766,"Lu"},{0xa767,0xa767,"Ll"},{0xa768,0xa768,"Lu"},
{0xa769,0xa769,"Ll"},{0xa76a,0xa76a,"Lu"},{0xa76b,0xa76b,"Ll"},{0xa76c,0xa76c,"Lu"},{0xa76d,0xa76d,"Ll"},{0xa76e,0xa76e,"Lu"},{0xa76f,0xa76f,"Ll"},
{0xa770,0xa770,"Lm"},{0xa771,0xa778,"Ll"},{0xa779,0xa779,"Lu"},{0xa77a,0xa77a,"Ll"},{0xa77b,0xa77b,"Lu"},{0xa77c,0xa77c,"Ll"},{0xa77d,0xa77e,"Lu"},
{0xa77f,0xa77f,"Ll"},{0xa780,0xa780,"Lu"},{0xa781,0xa781,"Ll"},{0xa782,0xa782,"Lu"},{0xa783,0xa783,"Ll"},{0xa784,0xa784,"Lu"},{0xa785,0xa785,"Ll"},
{0xa786,0xa786,"Lu"},{0xa787,0xa787,"Ll"},{0xa788,0xa788,"Lm"},{0xa789,0xa78a,"Sk"},{0xa78b,0xa78b,"Lu"},{0xa78c,0xa78c,"Ll"},{0xa78d,0xa78d,"Lu"},
{0xa78e,0xa78e,"Ll"},{0xa78f,0xa78f,"Lo"},{0xa790,0xa790,"Lu"},{0xa791,0xa791,"Ll"},{0xa792,0xa792,"Lu"},{0xa793,0xa795,"Ll"},{0xa796,0xa796,"Lu"},
{0xa797,0xa797,"Ll"},{0xa798,0xa798,"Lu"},{0xa799,0xa799,"Ll"},{0xa79a,0xa79a,"Lu"},{0xa79b,0xa79b,"Ll"},{0xa79c,0xa79c,"Lu"},{0xa79d,0xa79d,"Ll"},
{0xa79e,0xa79e,"Lu"},{0xa79f,0xa79f,"Ll"},{0xa7a0,0xa7a0,"Lu"},{0xa7a1,0xa7a1,"Ll"},{0xa7a2,0xa7a2,"Lu"},{0xa7a3,0xa7a3,"Ll"},{0xa7a4,0xa7a4,"Lu"},
{0xa7a5,0xa7a5,"Ll"},{0xa7a6,0xa7a6,"Lu"},{0xa7a7,0xa7a7,"Ll"},{0xa7a8,0xa7a8,"Lu"},{0xa7a9,0xa7a9,"Ll"},{0xa7aa,0xa7ae,"Lu"},{0xa7af,0xa7af,"Ll"},
{0xa7b0,0xa7b4,"Lu"},{0xa7b5,0xa7b5,"Ll"},{0xa7b6,0xa7b6,"Lu"},{0xa7b7,0xa7b7,"Ll"},{0xa7b8,0xa7b8,"Lu"},{0xa7b9,0xa7b9,"Ll"},{0xa7ba,0xa7ba,"Lu"},
{0xa7bb,0xa7bb,"Ll"},{0xa7bc,0xa7bc,"Lu"},{0xa7bd,0xa7bd,"Ll"},{0xa7be,0xa7be,"Lu"},{0xa7bf,0xa7bf,"Ll"},{0xa7c0,0xa7c0,"Lu"},{0xa7c1,0xa7c1,"Ll"},
{0xa7c2,0xa7c2,"Lu"},{0xa7c3,0xa7c3,"Ll"},{0xa7c4,0xa7c7,"Lu"},{0xa7c8,0xa7c8,"Ll"},{0xa7c9,0xa7c9,"Lu"},{0xa7ca,0xa7ca,"Ll"},{0xa7d0,0xa7d0,"Lu"},
{0xa7d1,0xa7d1,"Ll"},{0xa7d3,0xa7d3,"Ll"},{0xa7d5,0xa7d5,"Ll"},{0xa7d6,0xa7d6,"Lu"},{0xa7d7,0xa7d7,"Ll"},{0xa7d8,0xa7d8,"Lu"},{0xa7d9,0xa7d9,"Ll"},
{0xa7dd,0xa7f0,"Cn"},{0xa7f2,0xa7f4,"Lm"},{0xa7f5,0xa7f5,"Lu"},{0xa7f6,0xa7f6,"Ll"},{0xa7f7,0xa7f7,"Lo"},{0xa7f8,0xa7f9,"Lm"},{0xa7fa,0xa7fa,"Ll"},
{0xa7fb,0xa801,"Lo"},{0xa802,0xa802,"Mn"},{0xa803,0xa805,"Lo"},{0xa806,0xa806,"Mn"},{0xa807,0xa80a,"Lo"},{0xa80b,0xa80b,"Mn"},{0xa80c,0xa822,"Lo"},
{0xa823,0xa824,"Mc"},{0xa825,0xa826,"Mn"},{0xa827,0xa827,"Mc"},{0xa828,0xa82b,"So"},{0xa82c,0xa82c,"Mn"},{0xa82d,0xa82f,"Cn"},{0xa830,0xa835,"No"},
{0xa836,0xa837,"So"},{0xa838,0xa838,"Sc"},{0xa839,0xa839,"So"},{0xa83a,0xa83f,"Cn"},{0xa840,0xa873,"Lo"},{0xa874,0xa877,"Po"},{0xa878,0xa87f,"Cn"},
{0xa880,0xa881,"Mc"},{0xa882,0xa8b3,"Lo"},{0xa8b4,0xa8c3,"Mc"},{0xa8c4,0xa8c5,"Mn"},{0xa8c6,0xa8cd,"Cn"},{0xa8ce,0xa8cf,"Po"},{0xa8d0,0xa8d9,"Nd"},
{0xa8da,0xa8df,"Cn"},{0xa8e0,0xa8f1,"Mn"},{0xa8f2,0xa8f7,"Lo"},{0xa8f8,0xa8fa,"Po"},{0xa8fb,0xa8fb,"Lo"},{0xa8fc,0xa8fc,"Po"},{0xa8fd,0xa8fe,"Lo"},
{0xa8ff,0xa8ff,"Mn"},{0xa900,0xa909,"Nd"},{0xa90a,0xa925,"Lo"},{0xa926,0xa92d,"Mn"},{0xa92e,0xa92f,"Po"},{0xa930,0xa946,"Lo"},{0xa947,0xa951,"Mn"},
{0xa952,0xa953,"Mc"},{0xa954,0xa95e,"Cn"},{0xa95f,0xa95f,"Po"},{0xa960,0xa97c,"Lo"},{0xa97d,0xa97f,"Cn"},{0xa980,0xa982,"Mn"},{0xa983,0xa983,"Mc"},
{0xa984,0xa9b2,"Lo"},{0xa9b3,0xa9b3,"Mn"},{0xa9b4,0xa9b5,"Mc"},{0xa9b6,0xa9b9,"Mn"},{0xa9ba,0xa9bb,"Mc"},{0xa9bc,0xa9bd,"Mn"},{0xa9be,0xa9c0,"Mc"},
{0xa9c1,0xa9cd,"Po"},{0xa9ce,0xa9ce,"Cn"},{0xa9cf,0xa9cf,"Lm"},{0xa9d0,0xa9d9,"Nd"},{0xa9da,0xa9dd,"Cn"},{0xa9de,0xa9df,"Po"},{0xa9e0,0xa9e4,"Lo"},
{0xa9e5,0xa9e5,"Mn"},{0xa9e6,0xa9e6,"Lm"},{0xa9e7,0xa9ef,"Lo"},{0xa9f0,0xa9f9,"Nd"},{0xa9fa,0xa9fe,"Lo"},{0xa9ff,0xa9ff,"Cn"},{0xaa00,0xaa28,"Lo"},
{0xaa29,0xaa2e,"Mn"},{0xaa2f,0xaa30,"Mc"},{0xaa31,0xaa32,"Mn"},{0xaa33,0xaa34,"Mc"},{0xaa35,0xaa36,"Mn"},{0xaa37,0xaa3f,"Cn"},{0xaa40,0xaa42,"Lo"},
{0xaa43,0xaa43,"Mn"},{0xaa44,0xaa4b,"Lo"},{0xaa4c,0xaa4c,"Mn"},{0xaa4d,0xaa4d,"Mc"},{0xaa4e,0xaa4f,"Cn"},{0xaa50,0xaa59,"Nd"},{0xaa5a,0xaa5b,"Cn"},
{0xaa5c,0xaa5f,"Po"},{0xaa60,0xaa6f,"Lo"},{0xaa70,0xaa70,"Lm"},{0xaa71,0xaa76,"Lo"},{0xaa77,0xaa79,"So"},{0xaa7a,0xaa7a,"Lo"},{0xaa7b,0xaa7b,"Mc"},
{0xaa7c,0xaa7c,"Mn"},{0xaa7d,0xaa7d,"Mc"},{0xaa7e,0xaaaf,"Lo"},{0xaab0,0xaab0,"Mn"},{0xaab1,0xaab1,"Lo"},{0xaab2,0xaab4,"Mn"},{0xaab5,0xaab6,"Lo"},
{0xaab7,0xaab8,"Mn"},{0xaab9,0xaabd,"Lo"},{0xaabe,0xaabf,"Mn"},{0xaac0,0xaac0,"Lo"},{0xaac1,0xaac1,"Mn"},{0xaac2,0xaac2,"Lo"},{0xaac3,0xaada,"Cn"},
{0xaadb,0xaadc,"Lo"},{0xaadd,0xaadd,"Lm"},{0xaade,0xaadf,"Po"},{0xaae0,0xaaea,"Lo"},{0xaaeb,0xaaeb,"Mc"},{0xaaec,0xaaed,"Mn"},{0xaaee,0xaaef,"Mc"},
{0xaaf0,0xaaf1,"Po"},{0xaaf2,0xaaf2,"Lo"},{0xaaf3,0xaaf4,"Lm"},{0xaaf5,0xaaf5,"Mc"},{0xaaf6,0xaaf6,"Mn"},{0xaaf7,0xab00,"Cn"},{0xab01,0xab06,"Lo"},
{0xab07,0xab08,"Cn"},{0xab09,0xab0e,"Lo"},{0xab0f,0xab10,"Cn"},{0xab11,0xab16,"Lo"},{0xab17,0xab1f,"Cn"},{0xab20,0xab26,"Lo"},{0xab27,0xab27,"Cn"},
{0xab28,0xab2e,"Lo"},{0xab2f,0xab2f,"Cn"},{0xab30,0xab5a,"Ll"},{0xab5b,0xab5b,"Sk"},{0xab5c,0xab5f,"Lm"},{0xab60,0xab68,"Ll"},{0xab69,0xab69,"Lm"},
{0xab6a,0xab6b,"Sk"},{0xab6c,0xab6f,"Cn"},{0xab70,0xabbf,"Ll"},{0xabc0,0xabe2,"Lo"},{0xabe3,0xabe4,"Mc"},{0xabe5,0xabe5,"Mn"},{0xabe6,0xabe7,"Mc"},
{0xabe8,0xabe8,"Mn"},{0xabe9,0xabea,"Mc"},{0xabeb,0xabeb,"Po"},{0xabec,0xabec,"Mc"},{0xabed,0xabed,"Mn"},{0xabee,0xabef,"Cn"},{0xabf0,0xabf9,"Nd"},
{0xabfa,0xabff,"Cn"},{0xac00,0xd7a3,"Lo"},{0xd7a4,0xd7af,"Cn"},{0xd7b0,0xd7c6,"Lo"},{0xd7c7,0xd7ca,"Cn"},{0xd7cb,0xd7fb,"Lo"},{0xd7fc,0xd7ff,"Cn"},
{0xd800,0xdfff,"Cs"},{0xe000,0xf8ff,"Co"},{0xf900,0xfa6d,"Lo"},{0xfa6e,0xfa6f,"Cn"},{0xfa70,0xfad9,"Lo"},{0xfada,0xfaff,"Cn"},{0xfb00,0xfb06,"Ll"},
{0xfb07,0xfb12,"Cn"},{0xfb13,0xfb17,"Ll"},{0xfb18,0xfb1c,"Cn"},{0xfb1d,0xfb1d,"Lo"},{0xfb1e,0xfb1e,"Mn"},{0xfb1f,0xfb28,"Lo"},{0xfb29,0xfb29,"Sm"},
{0xfb2a,0xfb36,"Lo"},{0xfb37,0xfb37,"Cn"},{0xfb38,0xfb3c,"Lo"},{0xfb3d,0xfb3d,"Cn"},{0xfb3e,0xfb3e,"Lo"},{0xfb3f,0xfb3f,"Cn"},{0xfb40,0xfb41,"Lo"},
{0xfb42,0xfb42,"Cn"},{0xfb43,0xfb44,"Lo"},{0xfb45,0xfb45,"Cn"},{0xfb46,0xfbb1,"Lo"},{0xfbb2,0xfbc2,"Sk"},{0xfbd3,0xfd3d,"Lo"},{0xfd3e,0xfd3e,"Pe"},
{0xfd3f,0xfd3f,"Ps"},{0xfd40,0xfd4f,"So"},{0xfd50,0xfd8f,"Lo"},{0xfd92,0xfdc7,"Lo"},{0xfdcf,0xfdcf,"So"},{0xfdd0,0xfdef,"Cn"},{0xfdf0,0xfdfb,"Lo"},
{0xfdfc,0xfdfc,"Sc"},{0xfdfd,0xfdff,"So"},{0xfe00,0xfe0f,"Mn"},{0xfe10,0xfe16,"Po"},{0xfe17,0xfe17,"Ps"},{0xfe18,0xfe18,"Pe"},{0xfe19,0xfe19,"Po"},
{0xfe1a,0xfe1f,"Cn"},{0xfe20,0xfe2f,"Mn"},{0xfe30,0xfe30,"Po"},{0xfe31,0xfe32,"Pd"},{0xfe33,0xfe34,"Pc"},{0xfe35,0xfe35,"Ps"},{0xfe36,0xfe36,"Pe"},
{0xfe37,0xfe37,"Ps"},{0xfe38,0xfe38,"Pe"},{0xfe39,0xfe39,"Ps"},{0xfe3a,0xfe3a,"Pe"},{0xfe3b,0xfe3b,"Ps"},{0xfe3c,0xfe3c,"Pe"},{0xfe3d,0xfe3d,"Ps"},
{0xfe3e,0xfe3e,"Pe"},{0xfe3f,0xfe3f,"Ps"},{0xfe40,0xfe40,"Pe"},{0xfe41,0xfe41,"Ps"},{0xfe42,0xfe42,"Pe"},{0xfe43,0xfe43,"Ps"},{0xfe44,0xfe44,"Pe"},
{0xfe45,0xfe46,"Po"},{0xfe47,0xfe47,"Ps"},{0xfe48,0xfe48,"Pe"},{0xfe49,0xfe4c,"Po"},{0xfe4d,0xfe4f,"Pc"},{0xfe50,0xfe52,"Po"},{0xfe53,0xfe53,"Cn"},
{0xfe54,0xfe57,"Po"},{0xfe58,0xfe58,"Pd"},{0xfe59,0xfe59,"Ps"},{0xfe5a,0xfe5a,"Pe"},{0xfe5b,0xfe5b,"Ps"},{0xfe5c,0xfe5c,"Pe"},{0xfe5d,0xfe5d,"Ps"},
{0xfe5e,0xfe5e,"Pe"},{0xfe5f,0xfe61,"Po"},{0xfe62,0xfe62,"Sm"},{0xfe63,0xfe63,"Pd"},{0xfe64,0xfe66,"Sm"},{0xfe67,0xfe67,"Cn"},{0xfe68,0xfe68,"Po"},
{0xfe69,0xfe69,"Sc"},{0xfe6a,0xfe6b,"Po"},{0xfe6c,0xfe6f,"Cn"},{0xfe70,0xfe74,"Lo"},{0xfe75,0xfe75,"Cn"},{0xfe76,0xfefc,"Lo"},{0xfefd,0xfefe,"Cn"},
{0xfeff,0xfeff,"Cf"},{0xff00,0xff00,"Cn"},{0xff01,0xff03,"Po"},{0xff04,0xff04,"Sc"},{0xff05,0xff07,"Po"},{0xff08,0xff08,"Ps"},{0xff09,0xff09,"Pe"},
{0xff0a,0xff0a,"Po"},{0xff0b,0xff0b,"Sm"},{0xff0c,0xff0c,"Po"},{0xff0d,0xff0d,"Pd"},{0xff0e,0xff0f,"Po"},{0xff10,0xff19,"Nd"},{0xff1a,0xff1b,"Po"},
{0xff1c,0xff1e,"Sm"},{0xff1f,0xff20,"Po"},{0xff21,0xff3a,"Lu"},{0xff3b,0xff3b,"Ps"},{0xff3c,0xff3c,"Po"},{0xff3d,0xff3d,"Pe"},{0xff3e,0xff3e,"Sk"},
{0xff3f,0xff3f,"Pc"},{0xff40,0xff40,"Sk"},{0xff41,0xff5a,"Ll"},{0xff5b,0xff5b,"Ps"},{0xff5c,0xff5c,"Sm"},{0xff5d,0xff5d,"Pe"},{0xff5e,0xff5e,"Sm"},
{0xff5f,0xff5f,"Ps"},{0xff60,0xff60,"Pe"},{0xff61,0xff61,"Po"},{0xff62,0xff62,"Ps"},{0xff63,0xff63,"Pe"},{0xff64,0xff65,"Po"},{0xff66,0xff6f,"Lo"},
{0xff70,0xff70,"Lm"},{0xff71,0xff9d,"Lo"},{0xff9e,0xff9f,"Lm"},{0xffa0,0xffbe,"Lo"},{0xffbf,0xffc1,"Cn"},{0xffc2,0xffc7,"Lo"},{0xffc8,0xffc9,"Cn"},
{0xffca,0xffcf,"Lo"},{0xffd0,0xffd1,"Cn"},{0xffd2,0xffd7,"Lo"},{0xffd8,0xffd9,"Cn"},{0xffda,0xffdc,"Lo"},{0xffdd,0xffdf,"Cn"},{0xffe0,0xffe1,"Sc"},
{0xffe2,0xffe2,"Sm"},{0xffe3,0xffe3,"Sk"},{0xffe4,0xffe4,"So"},{0xffe5,0xffe6,"Sc"},{0xffe7,0xffe7,"Cn"},{0xffe8,0xffe8,"So"},{0xffe9,0xffec,"Sm"},
{0xffed,0xffee,"So"},{0xffef,0xfff8,"Cn"},{0xfff9,0xfffb,"Cf"},{0xfffc,0xfffd,"So"},{0xfffe,0xffff,"Cn"},{0x10000,0x1000b,"Lo"},
{0x1000c,0x1000c,"Cn"},{0x1000d,0x10026,"Lo"},{0x10027,0x10027,"Cn"},{0x10028,0x1003a,"Lo"},{0x1003b,0x1003b,"Cn"},{0x1003c,0x1003d,"Lo"},
{0x1003e,0x1003e,"Cn"},{0x1003f,0x1004d,"Lo"},{0x1004e,0x1004f,"Cn"},{0x10050,0x1005d,"Lo"},{0x1005e,0x1007f,"Cn"},{0x10080,0x100fa,"Lo"},
{0x100fb,0x100ff,"Cn"},{0x10100,0x10102,"Po"},{0x10103,0x10106,"Cn"},{0x10107,0x10133,"No"},{0x10134,0x10136,"Cn"},{0x10137,0x1013f,"So"},
{0x10140,0x10174,"Nl"},{0x10175,0x10178,"No"},{0x10179,0x10189,"So"},{0x1018a,0x1018b,"No"},{0x1018c,0x1018e,"So"},{0x1018f,0x1018f,"Cn"},
{0x10190,0x1019c,"So"},{0x1019d,0x1019f,"Cn"},{0x101a0,0x101a0,"So"},{0x101a1,0x101cf,"Cn"},{0x101d0,0x101fc,"So"},{0x101fd,0x101fd,"Mn"},
{0x101fe,0x1027f,"Cn"},{0x10280,0x1029c,"Lo"},{0x1029d,0x1029f,"Cn"},{0x102a0,0x102d0,"Lo"},{0x102d1,0x102df,"Cn"},{0x102e0,0x102e0,"Mn"},
{0x102e1,0x102fb,"No"},{0x102fc,0x102ff,"Cn"},{0x10300,0x1031f,"Lo"},{0x10320,0x10323,"No"},{0x10324,0x1032c,"Cn"},{0x1032d,0x10340,"Lo"},
{0x10341,0x10341,"Nl"},{0x10342,0x10349,"Lo"},{0x1034a,0x1034a,"Nl"},{0x1034b,0x1034f,"Cn"},{0x10350,0x10375,"Lo"},{0x10376,0x1037a,"Mn"},
{0x1037b,0x1037f,"Cn"},{0x10380,0x1039d,"Lo"},{0x1039e,0x1039e,"Cn"},{0x1039f,0x1039f,"Po"},{0x103a0,0x103c3,"Lo"},{0x103c4,0x103c7,"Cn"},
{0x103c8,0x103cf,"Lo"},{0x103d0,0x103d0,"Po"},{0x103d1,0x103d5,"Nl"},{0x103d6,0x103ff,"Cn"},{0x10400,0x10427,"Lu"},{0x10428,0x1044f,"Ll"},
{0x10450,0x1049d,"Lo"},{0x1049e,0x1049f,"Cn"},{0x104a0,0x104a9,"Nd"},{0x104aa,0x104af,"Cn"},{0x104b0,0x104d3,"Lu"},{0x104d4,0x104d7,"Cn"},
{0x104d8,0x104fb,"Ll"},{0x104fc,0x104ff,"Cn"},{0x10500,0x10527,"Lo"},{0x10528,0x1052f,"Cn"},{0x10530,0x10563,"Lo"},{0x10564,0x1056e,"Cn"},
{0x1056f,0x1056f,"Po"},{0x10570,0x1057a,"Lu"},{0x1057b,0x1057b,"Cn"},{0x1057c,0x1058a,"Lu"},{0x1058b,0x1058b,"Cn"},{0x1058c,0x10592,"Lu"},
{0x10593,0x10593,"Cn"},{0x10594,0x10595,"Lu"},{0x10596,0x10596,"Cn"},{0x10597,0x105a1,"Ll"},{0x105a2,0x105a2,"Cn"},{0x105a3,0x105b1,"Ll"},
{0x105b2,0x105b2,"Cn"},{0x105b3,0x105b9,"Ll"},{0x105ba,0x105ba,"Cn"},{0x105bb,0x105bc,"Ll"},{0x105bd,0x105bf,"Cn"},{0x105f4,0x105ff,"Cn"},
{0x10600,0x10736,"Lo"},{0x10737,0x1073f,"Cn"},{0x10740,0x10755,"Lo"},{0x10756,0x1075f,"Cn"},{0x10760,0x10767,"Lo"},{0x10768,0x1077f,"Cn"},
{0x10780,0x10785,"Lm"},{0x10786,0x10786,"Cn"},{0x10787,0x107b0,"Lm"},{0x107b1,0x107b1,"Cn"},{0x107b2,0x107ba,"Lm"},{0x107bb,0x107ff,"Cn"},
{0x10800,0x10805,"Lo"},{0x10806,0x10807,"Cn"},{0x10808,0x10808,"Lo"},{0x10809,0x10809,"Cn"},{0x1080a,0x10835,"Lo"},{0x10836,0x10836,"Cn"},
{0x10837,0x10838,"Lo"},{0x10839,0x1083b,"Cn"},{0x1083c,0x1083c,"Lo"},{0x1083d,0x1083e,"Cn"},{0x1083f,0x10855,"Lo"},{0x10856,0x10856,"Cn"},
{0x10857,0x10857,"Po"},{0x10858,0x1085f,"No"},{0x10860,0x10876,"Lo"},{0x10877,0x10878,"So"},{0x10879,0x1087f,"No"},{0x10880,0x1089e,"Lo"},
{0x1089f,0x108a6,"Cn"},{0x108a7,0x108af,"No"},{0x108b0,0x108df,"Cn"},{0x108e0,0x108f2,"Lo"},{0x108f3,0x108f3,"Cn"},{0x108f4,0x108f5,"Lo"},
{0x108f6,0x108fa,"Cn"},{0x108fb,0x108ff,"No"},{0x10900,0x10915,"Lo"},{0x10916,0x1091b,"No"},{0x1091c,0x1091e,"Cn"},{0x1091f,0x1091f,"Po"},
{0x10920,0x10939,"Lo"},{0x1093a,0x1093e,"Cn"},{0x1093f,0x1093f,"Po"},{0x1095a,0x1097f,"Cn"},{0x10980,0x109b7,"Lo"},{0x109b8,0x109bb,"Cn"},
{0x109bc,0x109bd,"No"},{0x109be,0x109bf,"Lo"},{0x109c0,0x109cf,"No"},{0x109d0,0x109d1,"Cn"},{0x109d2,0x109ff,"No"},{0x10a00,0x10a00,"Lo"},
{0x10a01,0x10a03,"Mn"},{0x10a04,0x10a04,"Cn"},{0x10a05,0x10a06,"Mn"},{0x10a07,0x10a0b,"Cn"},{0x10a0c,0x10a0f,"Mn"},{0x10a10,0x10a13,"Lo"},
{0x10a14,0x10a14,"Cn"},{0x10a15,0x10a17,"Lo"},{0x10a18,0x10a18,"Cn"},{0x10a19,0x10a35,"Lo"},{0x10a36,0x10a37,"Cn"},{0x10a38,0x10a3a,"Mn"},
{0x10a3b,0x10a3e,"Cn"},{0x10a3f,0x10a3f,"Mn"},{0x10a40,0x10a48,"No"},{0x10a49,0x10a4f,"Cn"},{0x10a50,0x10a58,"Po"},{0x10a59,0x10a5f,"Cn"},
{0x10a60,0x10a7c,"Lo"},{0x10a7d,0x10a7e,"No"},{0x10a7f,0x10a7f,"Po"},{0x10a80,0x10a9c,"Lo"},{0x10a9d,0x10a9f,"No"},{0x10aa0,0x10abf,"Cn"},
{0x10ac0,0x10ac7,"Lo"},{0x10ac8,0x10ac8,"So"},{0x10ac9,0x10ae4,"Lo"},{0x10ae5,0x10ae6,"Mn"},{0x10ae7,0x10aea,"Cn"},{0x10aeb,0x10aef,"No"},
{0x10af0,0x10af6,"Po"},{0x10af7,0x10aff,"Cn"},{0x10b00,0x10b35,"Lo"},{0x10b36,0x10b38,"Cn"},{0x10b39,0x10b3f,"Po"},{0x10b40,0x10b55,"Lo"},
{0x10b56,0x10b57,"Cn"},{0x10b58,0x10b5f,"No"},{0x10b60,0x10b72,"Lo"},{0x10b73,0x10b77,"Cn"},{0x10b78,0x10b7f,"No"},{0x10b80,0x10b91,"Lo"},
{0x10b92,0x10b98,"Cn"},{0x10b99,0x10b9c,"Po"},{0x10b9d,0x10ba8,"Cn"},{0x10ba9,0x10baf,"No"},{0x10bb0,0x10bff,"Cn"},{0x10c00,0x10c48,"Lo"},
{0x10c49,0x10c7f,"Cn"},{0x10c80,0x10cb2,"Lu"},{0x10cb3,0x10cbf,"Cn"},{0x10cc0,0x10cf2,"Ll"},{0x10cf3,0x10cf9,"Cn"},{0x10cfa,0x10cff,"No"},
{0x10d00,0x10d23,"Lo"},{0x10d24,0x10d27,"Mn"},{0x10d28,0x10d2f,"Cn"},{0x10d30,0x10d39,"Nd"},{0x10d3a,0x10d3f,"Cn"},{0x10d66,0x10d68,"Cn"},
{0x10d86,0x10d8d,"Cn"},{0x10d90,0x10e5f,"Cn"},{0x10e60,0x10e7e,"No"},{0x10e7f,0x10e7f,"Cn"},{0x10e80,0x10ea9,"Lo"},{0x10eaa,0x10eaa,"Cn"},
{0x10eab,0x10eac,"Mn"},{0x10ead,0x10ead,"Pd"},{0x10eae,0x10eaf,"Cn"},{0x10eb0,0x10eb1,"Lo"},{0x10eb2,0x10ec1,"Cn"},{0x10ec8,0x10ecf,"Cn"},
{0x10ed9,0x10ef9,"Cn"},{0x10efd,0x10eff,"Mn"},{0x10f00,0x10f1c,"Lo"},{0x10f1d,0x10f26,"No"},{0x10f27,0x10f27,"Lo"},{0x10f28,0x10f2f,"Cn"},
{0x10f30,0x10f45,"Lo"},{0x10f46,0x10f50,"Mn"},{0x10f51,0x10f54,"No"},{0x10f55,0x10f59,"Po"},{0x10f5a,0x10f6f,"Cn"},{0x10f70,0x10f81,"Lo"},
{0x10f82,0x10f85,"Mn"},{0x10f86,0x10f89,"Po"},{0x10f8a,0x10faf,"Cn"},{0x10fb0,0x10fc4,"Lo"},{0x10fc5,0x10fcb,"No"},{0x10fcc,0x10fdf,"Cn"},
{0x10fe0,0x10ff6,"Lo"},{0x10ff7,0x10fff,"Cn"},{0x11000,0x11000,"Mc"},{0x11001,0x11001,"Mn"},{0x11002,0x11002,"Mc"},{0x11003,0x11037,"Lo"},
{0x11038,0x11046,"Mn"},{0x11047,0x1104d,"Po"},{0x1104e,0x11051,"Cn"},{0x11052,0x11065,"No"},{0x11066,0x1106f,"Nd"},{0x11070,0x11070,"Mn"},
{0x11071,0x11072,"Lo"},{0x11073,0x11074,"Mn"},{0x11075,0x11075,"Lo"},{0x11076,0x1107e,"Cn"},{0x1107f,0x11081,"Mn"},{0x11082,0x11082,"Mc"},
{0x11083,0x110af,"Lo"},{0x110b0,0x110b2,"Mc"},{0x110b3,0x110b6,"Mn"},{0x110b7,0x110b8,"Mc"},{0x110b9,0x110ba,"Mn"},{0x110bb,0x110bc,"Po"},
{0x110bd,0x110bd,"Cf"},{0x110be,0x110c1,"Po"},{0x110c2,0x110c2,"Mn"},{0x110c3,0x110cc,"Cn"},{0x110cd,0x110cd,"Cf"},{0x110ce,0x110cf,"Cn"},
{0x110d0,0x110e8,"Lo"},{0x110e9,0x110ef,"Cn"},{0x110f0,0x110f9,"Nd"},{0x110fa,0x110ff,"Cn"},{0x11100,0x11102,"Mn"},{0x11103,0x11126,"Lo"},
{0x11127,0x1112b,"Mn"},{0x1112c,0x1112c,"Mc"},{0x1112d,0x11134,"Mn"},{0x11135,0x11135,"Cn"},{0x11136,0x1113f,"Nd"},{0x11140,0x11143,"Po"},
{0x11144,0x11144,"Lo"},{0x11145,0x11146,"Mc"},{0x11147,0x11147,"Lo"},{0x11148,0x1114f,"Cn"},{0x11150,0x11172,"Lo"},{0x11173,0x11173,"Mn"},
{0x11174,0x11175,"Po"},{0x11176,0x11176,"Lo"},{0x11177,0x1117f,"Cn"},{0x11180,0x11181,"Mn"},{0x11182,0x11182,"Mc"},{0x11183,0x111b2,"Lo"},
{0x111b3,0x111b5,"Mc"},{0x111b6,0x111be,"Mn"},{0x111bf,0x111c0,"Mc"},{0x111c1,0x111c4,"Lo"},{0x111c5,0x111c8,"Po"},{0x111c9,0x111cc,"Mn"},
{0x111cd,0x111cd,"Po"},{0x111ce,0x111ce,"Mc"},{0x111cf,0x111cf,"Mn"},{0x111d0,0x111d9,"Nd"},{0x111da,0x111da,"Lo"},{0x111db,0x111db,"Po"},
{0x111dc,0x111dc,"Lo"},{0x111dd,0x111df,"Po"},{0x111e0,0x111e0,"Cn"},{0x111e1,0x111f4,"No"},{0x111f5,0x111ff,"Cn"},{0x11200,0x11211,"Lo"},
{0x11212,0x11212,"Cn"},{0x11213,0x1122b,"Lo"},{0x1122c,0x1122e,"Mc"},{0x1122f,0x11231,"Mn"},{0x11232,0x11233,"Mc"},{0x11234,0x11234,"Mn"},
{0x11235,0x11235,"Mc"},{0x11236,0x11237,"Mn"},{0x11238,0x1123d,"Po"},{0x1123e,0x1123e,"Mn"},{0x1123f,0x11240,"Lo"},{0x11241,0x11241,"Mn"},
{0x11242,0x1127f,"Cn"},{0x11280,0x11286,"Lo"},{0x11287,0x11287,"Cn"},{0x11288,0x11288,"Lo"},{0x11289,0x11289,"Cn"},{0x1128a,0x1128d,"Lo"},
{0x1128e,0x1128e,"Cn"},{0x1128f,0x1129d,"Lo"},{0x1129e,0x1129e,"Cn"},{0x1129f,0x112a8,"Lo"},{0x112a9,0x112a9,"Po"},{0x112aa,0x112af,"Cn"},
{0x112b0,0x112de,"Lo"},{0x112df,0x112df,"Mn"},{0x112e0,0x112e2,"Mc"},{0x112e3,0x112ea,"Mn"},{0x112eb,0x112ef,"Cn"},{0x112f0,0x112f9,"Nd"},
{0x112fa,0x112ff,"Cn"},{0x11300,0x11301,"Mn"},{0x11302,0x11303,"Mc"},{0x11304,0x11304,"Cn"},{0x11305,0x1130c,"Lo"},{0x1130d,0x1130e,"Cn"},
{0x1130f,0x11310,"Lo"},{0x11311,0x11312,"Cn"},{0x11313,0x11328,"Lo"},{0x11329,0x11329,"Cn"},{0x1132a,0x11330,"Lo"},{0x11331,0x11331,"Cn"},
{0x11332,0x11333,"Lo"},{0x11334,0x11334,"Cn"},{0x11335,0x11339,"Lo"},{0x1133a,0x1133a,"Cn"},{0x1133b,0x1133c,"Mn"},{0x1133d,0x1133d,"Lo"},
{0x1133e,0x1133f,"Mc"},{0x11340,0x11340,"Mn"},{0x11341,0x11344,"Mc"},{0x11345,0x11346,"Cn"},{0x11347,0x11348,"Mc"},{0x11349,0x1134a,"Cn"},
{0x1134b,0x1134d,"Mc"},{0x1134e,0x1134f,"Cn"},{0x11350,0x11350,"Lo"},{0x11351,0x11356,"Cn"},{0x11357,0x11357,"Mc"},{0x11358,0x1135c,"Cn"},
{0x1135d,0x11361,"Lo"},{0x11362,0x11363,"Mc"},{0x11364,0x11365,"Cn"},{0x11366,0x1136c,"Mn"},{0x1136d,0x1136f,"Cn"},{0x11370,0x11374,"Mn"},
{0x11375,0x1137f,"Cn"},{0x1138a,0x1138a,"Cn"},{0x1138c,0x1138d,"Cn"},{0x1138f,0x1138f,"Cn"},{0x113b6,0x113b6,"Cn"},{0x113c1,0x113c1,"Cn"},
{0x113c3,0x113c4,"Cn"},{0x113c6,0x113c6,"Cn"},{0x113cb,0x113cb,"Cn"},{0x113d6,0x113d6,"Cn"},{0x113d9,0x113e0,"Cn"},{0x113e3,0x113ff,"Cn"},
{0x11400,0x11434,"Lo"},{0x11435,0x11437,"Mc"},{0x11438,0x1143f,"Mn"},{0x11440,0x11441,"Mc"},{0x11442,0x11444,"Mn"},{0x11445,0x11445,"Mc"},
{0x11446,0x11446,"Mn"},{0x11447,0x1144a,"Lo"},{0x1144b,0x1144f,"Po"},{0x11450,0x11459,"Nd"},{0x1145a,0x1145b,"Po"},{0x1145c,0x1145c,"Cn"},
{0x1145d,0x1145d,"Po"},{0x1145e,0x1145e,"Mn"},{0x1145f,0x11461,"Lo"},{0x11462,0x1147f,"Cn"},{0x11480,0x114af,"Lo"},{0x114b0,0x114b2,"Mc"},
{0x114b3,0x114b8,"Mn"},{0x114b9,0x114b9,"Mc"},{0x114ba,0x114ba,"Mn"},{0x114bb,0x114be,"Mc"},{0x114bf,0x114c0,"Mn"},{0x114c1,0x114c1,"Mc"},
{0x114c2,0x114c3,"Mn"},{0x114c4,0x114c5,"Lo"},{0x114c6,0x114c6,"Po"},{0x114c7,0x114c7,"Lo"},{0x114c8,0x114cf,"Cn"},{0x114d0,0x114d9,"Nd"},
{0x114da,0x1157f,"Cn"},{0x11580,0x115ae,"Lo"},{0x115af,0x115b1,"Mc"},{0x115b2,0x115b5,"Mn"},{0x115b6,0x115b7,"Cn"},{0x115b8,0x115bb,"Mc"},
{0x115bc,0x115bd,"Mn"},{0x115be,0x115be,"Mc"},{0x115bf,0x115c0,"Mn"},{0x115c1,0x115d7,"Po"},{0x115d8,0x115db,"Lo"},{0x115dc,0x115dd,"Mn"},
{0x115de,0x115ff,"Cn"},{0x11600,0x1162f,"Lo"},{0x11630,0x11632,"Mc"},{0x11633,0x1163a,"Mn"},{0x1163b,0x1163c,"Mc"},{0x1163d,0x1163d,"Mn"},
{0x1163e,0x1163e,"Mc"},{0x1163f,0x11640,"Mn"},{0x11641,0x11643,"Po"},{0x11644,0x11644,"Lo"},{0x11645,0x1164f,"Cn"},{0x11650,0x11659,"Nd"},
{0x1165a,0x1165f,"Cn"},{0x11660,0x1166c,"Po"},{0x1166d,0x1167f,"Cn"},{0x11680,0x116aa,"Lo"},{0x116ab,0x116ab,"Mn"},{0x116ac,0x116ac,"Mc"},
{0x116ad,0x116ad,"Mn"},{0x116ae,0x116af,"Mc"},{0x116b0,0x116b5,"Mn"},{0x116b6,0x116b6,"Mc"},{0x116b7,0x116b7,"Mn"},{0x116b8,0x116b8,"Lo"},
{0x116b9,0x116b9,"Po"},{0x116ba,0x116bf,"Cn"},{0x116c0,0x116c9,"Nd"},{0x116ca,0x116cf,"Cn"},{0x116e4,0x116ff,"Cn"},{0x11700,0x1171a,"Lo"},
{0x1171b,0x1171c,"Cn"},{0x1171d,0x1171d,"Mn"},{0x1171f,0x1171f,"Mn"},{0x11720,0x11721,"Mc"},{0x11722,0x11725,"Mn"},{0x11726,0x11726,"Mc"},
{0x11727,0x1172b,"Mn"},{0x1172c,0x1172f,"Cn"},{0x11730,0x11739,"Nd"},{0x1173a,0x1173b,"No"},{0x1173c,0x1173e,"Po"},{0x1173f,0x1173f,"So"},
{0x11740,0x11746,"Lo"},{0x11747,0x117ff,"Cn"},{0x11800,0x1182b,"Lo"},{0x1182c,0x1182e,"Mc"},{0x1182f,0x11837,"Mn"},{0x11838,0x11838,"Mc"},
{0x11839,0x1183a,"Mn"},{0x1183b,0x1183b,"Po"},{0x1183c,0x1189f,"Cn"},{0x118a0,0x118bf,"Lu"},{0x118c0,0x118df,"Ll"},{0x118e0,0x118e9,"Nd"},
{0x118ea,0x118f2,"No"},{0x118f3,0x118fe,"Cn"},{0x118ff,0x11906,"Lo"},{0x11907,0x11908,"Cn"},{0x11909,0x11909,"Lo"},{0x1190a,0x1190b,"Cn"},
{0x1190c,0x11913,"Lo"},{0x11914,0x11914,"Cn"},{0x11915,0x11916,"Lo"},{0x11917,0x11917,"Cn"},{0x11918,0x1192f,"Lo"},{0x11930,0x11935,"Mc"},
{0x11936,0x11936,"Cn"},{0x11937,0x11938,"Mc"},{0x11939,0x1193a,"Cn"},{0x1193b,0x1193c,"Mn"},{0x1193d,0x1193d,"Mc"},{0x1193e,0x1193e,"Mn"},
{0x1193f,0x1193f,"Lo"},{0x11940,0x11940,"Mc"},{0x11941,0x11941,"Lo"},{0x11942,0x11942,"Mc"},{0x11943,0x11943,"Mn"},{0x11944,0x11946,"Po"},
{0x11947,0x1194f,"Cn"},{0x11950,0x11959,"Nd"},{0x1195a,0x1199f,"Cn"},{0x119a0,0x119a7,"Lo"},{0x119a8,0x119a9,"Cn"},{0x119aa,0x119d0,"Lo"},
{0x119d1,0x119d3,"Mc"},{0x119d4,0x119d7,"Mn"},{0x119d8,0x119d9,"Cn"},{0x119da,0x119db,"Mn"},{0x119dc,0x119df,"Mc"},{0x119e0,0x119e0,"Mn"},
{0x119e1,0x119e1,"Lo"},{0x119e2,0x119e2,"Po"},{0x119e3,0x119e3,"Lo"},{0x119e4,0x119e4,"Mc"},{0x119e5,0x119ff,"Cn"},{0x11a00,0x11a00,"Lo"},
{0x11a01,0x11a0a,"Mn"},{0x11a0b,0x11a32,"Lo"},{0x11a33,0x11a38,"Mn"},{0x11a39,0x11a39,"Mc"},{0x11a3a,0x11a3a,"Lo"},{0x11a3b,0x11a3e,"Mn"},
{0x11a3f,0x11a46,"Po"},{0x11a47,0x11a47,"Mn"},{0x11a48,0x11a4f,"Cn"},{0x11a50,0x11a50,"Lo"},{0x11a51,0x11a56,"Mn"},{0x11a57,0x11a58,"Mc"},
{0x11a59,0x11a5b,"Mn"},{0x11a5c,0x11a89,"Lo"},{0x11a8a,0x11a96,"Mn"},{0x11a97,0x11a97,"Mc"},{0x11a98,0x11a99,"Mn"},{0x11a9a,0x11a9c,"Po"},
{0x11a9d,0x11a9d,"Lo"},{0x11a9e,0x11aa2,"Po"},{0x11aa3,0x11aaf,"Cn"},{0x11ab0,0x11af8,"Lo"},{0x11af9,0x11aff,"Cn"},{0x11b00,0x11b09,"Po"},
{0x11b0a,0x11b5f,"Cn"},{0x11b68,0x11bbf,"Cn"},{0x11be2,0x11bef,"Cn"},{0x11bfa,0x11bff,"Cn"},{0x11c00,0x11c08,"Lo"},{0x11c09,0x11c09,"Cn"},
{0x11c0a,0x11c2e,"Lo"},{0x11c2f,0x11c2f,"Mc"},{0x11c30,0x11c36,"Mn"},{0x11c37,0x11c37,"Cn"},{0x11c38,0x11c3d,"Mn"},{0x11c3e,0x11c3e,"Mc"},
{0x11c3f,0x11c3f,"Mn"},{0x11c40,0x11c40,"Lo"},{0x11c41,0x11c45,"Po"},{0x11c46,0x11c4f,"Cn"},{0x11c50,0x11c59,"Nd"},{0x11c5a,0x11c6c,"No"},
{0x11c6d,0x11c6f,"Cn"},{0x11c70,0x11c71,"Po"},{0x11c72,0x11c8f,"Lo"},{0x11c90,0x11c91,"Cn"},{0x11c92,0x11ca7,"Mn"},{0x11ca8,0x11ca8,"Cn"},
{0x11ca9,0x11ca9,"Mc"},{0x11caa,0x11cb0,"Mn"},{0x11cb1,0x11cb1,"Mc"},{0x11cb2,0x11cb3,"Mn"},{0x11cb4,0x11cb4,"Mc"},{0x11cb5,0x11cb6,"Mn"},
{0x11cb7,0x11cff,"Cn"},{0x11d00,0x11d06,"Lo"},{0x11d07,0x11d07,"Cn"},{0x11d08,0x11d09,"Lo"},{0x11d0a,0x11d0a,"Cn"},{0x11d0b,0x11d30,"Lo"},
{0x11d31,0x11d36,"Mn"},{0x11d37,0x11d39,"Cn"},{0x11d3a,0x11d3a,"Mn"},{0x11d3b,0x11d3b,"Cn"},{0x11d3c,0x11d3d,"Mn"},{0x11d3e,0x11d3e,"Cn"},
{0x11d3f,0x11d45,"Mn"},{0x11d46,0x11d46,"Lo"},{0x11d47,0x11d47,"Mn"},{0x11d48,0x11d4f,"Cn"},{0x11d50,0x11d59,"Nd"},{0x11d5a,0x11d5f,"Cn"},
{0x11d60,0x11d65,"Lo"},{0x11d66,0x11d66,"Cn"},{0x11d67,0x11d68,"Lo"},{0x11d69,0x11d69,"Cn"},{0x11d6a,0x11d89,"Lo"},{0x11d8a,0x11d8e,"Mc"},
{0x11d8f,0x11d8f,"Cn"},{0x11d90,0x11d91,"Mn"},{0x11d92,0x11d92,"Cn"},{0x11d93,0x11d94,"Mc"},{0x11d95,0x11d95,"Mn"},{0x11d96,0x11d96,"Mc"},
{0x11d97,0x11d97,"Mn"},{0x11d98,0x11d98,"Lo"},{0x11d99,0x11d9f,"Cn"},{0x11da0,0x11da9,"Nd"},{0x11daa,0x11daf,"Cn"},{0x11ddc,0x11ddf,"Cn"},
{0x11dea,0x11edf,"Cn"},{0x11ee0,0x11ef2,"Lo"},{0x11ef3,0x11ef4,"Mn"},{0x11ef5,0x11ef6,"Mc"},{0x11ef7,0x11ef8,"Po"},{0x11ef9,0x11eff,"Cn"},
{0x11f00,0x11f01,"Mn"},{0x11f02,0x11f02,"Lo"},{0x11f03,0x11f03,"Mc"},{0x11f04,0x11f10,"Lo"},{0x11f11,0x11f11,"Cn"},{0x11f12,0x11f33,"Lo"},
{0x11f34,0x11f35,"Mc"},{0x11f36,0x11f3a,"Mn"},{0x11f3b,0x11f3d,"Cn"},{0x11f3e,0x11f3f,"Mc"},{0x11f40,0x11f40,"Mn"},{0x11f41,0x11f41,"Mc"},
{0x11f42,0x11f42,"Mn"},{0x11f43,0x11f4f,"Po"},{0x11f50,0x11f59,"Nd"},{0x11f5b,0x11faf,"Cn"},{0x11fb0,0x11fb0,"Lo"},{0x11fb1,0x11fbf,"Cn"},
{0x11fc0,0x11fd4,"No"},{0x11fd5,0x11fdc,"So"},{0x11fdd,0x11fe0,"Sc"},{0x11fe1,0x11ff1,"So"},{0x11ff2,0x11ffe,"Cn"},{0x11fff,0x11fff,"Po"},
{0x12000,0x12399,"Lo"},{0x1239a,0x123ff,"Cn"},{0x12400,0x1246e,"Nl"},{0x1246f,0x1246f,"Cn"},{0x12470,0x12474,"Po"},{0x12475,0x1247f,"Cn"},
{0x12480,0x12543,"Lo"},{0x12544,0x12f8f,"Cn"},{0x12f90,0x12ff0,"Lo"},{0x12ff1,0x12ff2,"Po"},{0x12ff3,0x12fff,"Cn"},{0x13000,0x1342f,"Lo"},
{0x13430,0x1343f,"Cf"},{0x13440,0x13440,"Mn"},{0x13441,0x13446,"Lo"},{0x13447,0x13455,"Mn"},{0x13456,0x1345f,"Cn"},{0x143fb,0x143ff,"Cn"},
{0x14400,0x14646,"Lo"},{0x14647,0x160ff,"Cn"},{0x1613a,0x167ff,"Cn"},{0x16800,0x16a38,"Lo"},{0x16a39,0x16a3f,"Cn"},{0x16a40,0x16a5e,"Lo"},
{0x16a5f,0x16a5f,"Cn"},{0x16a60,0x16a69,"Nd"},{0x16a6a,0x16a6d,"Cn"},{0x16a6e,0x16a6f,"Po"},{0x16a70,0x16abe,"Lo"},{0x16abf,0x16abf,"Cn"},
{0x16ac0,0x16ac9,"Nd"},{0x16aca,0x16acf,"Cn"},{0x16ad0,0x16aed,"Lo"},{0x16aee,0x16aef,"Cn"},{0x16af0,0x16af4,"Mn"},{0x16af5,0x16af5,"Po"},
{0x16af6,0x16aff,"Cn"},{0x16b00,0x16b2f,"Lo"},{0x16b30,0x16b36,"Mn"},{0x16b37,0x16b3b,"Po"},{0x16b3c,0x16b3f,"So"},{0x16b40,0x16b43,"Lm"},
{0x16b44,0x16b44,"Po"},{0x16b45,0x16b45,"So"},{0x16b46,0x16b4f,"Cn"},{0x16b50,0x16b59,"Nd"},{0x16b5a,0x16b5a,"Cn"},{0x16b5b,0x16b61,"No"},
{0x16b62,0x16b62,"Cn"},{0x16b63,0x16b77,"Lo"},{0x16b78,0x16b7c,"Cn"},{0x16b7d,0x16b8f,"Lo"},{0x16b90,0x16d3f,"Cn"},{0x16d7a,0x16e3f,"Cn"},
{0x16e40,0x16e5f,"Lu"},{0x16e60,0x16e7f,"Ll"},{0x16e80,0x16e96,"No"},{0x16e97,0x16e9a,"Po"},{0x16e9b,0x16e9f,"Cn"},{0x16eb9,0x16eba,"Cn"},
{0x16ed4,0x16eff,"Cn"},{0x16f00,0x16f4a,"Lo"},{0x16f4b,0x16f4e,"Cn"},{0x16f4f,0x16f4f,"Mn"},{0x16f50,0x16f50,"Lo"},{0x16f51,0x16f87,"Mc"},
{0x16f88,0x16f8e,"Cn"},{0x16f8f,0x16f92,"Mn"},{0x16f93,0x16f9f,"Lm"},{0x16fa0,0x16fdf,"Cn"},{0x16fe0,0x16fe1,"Lm"},{0x16fe2,0x16fe2,"Po"},
{0x16fe3,0x16fe3,"Lm"},{0x16fe4,0x16fe4,"Mn"},{0x16fe5,0x16fef,"Cn"},{0x16ff0,0x16ff1,"Mc"},{0x16ff7,0x16fff,"Cn"},{0x17000,0x187f7,"Lo"},
{0x18800,0x18cd5,"Lo"},{0x18cd6,0x18cfe,"Cn"},{0x18d00,0x18d08,"Lo"},{0x18d1f,0x18d7f,"Cn"},{0x18df3,0x1afef,"Cn"},{0x1aff0,0x1aff3,"Lm"},
{0x1aff4,0x1aff4,"Cn"},{0x1aff5,0x1affb,"Lm"},{0x1affc,0x1affc,"Cn"},{0x1affd,0x1affe,"Lm"},{0x1afff,0x1afff,"Cn"},{0x1b000,0x1b122,"Lo"},
{0x1b123,0x1b131,"Cn"},{0x1b132,0x1b132,"Lo"},{0x1b133,0x1b14f,"Cn"},{0x1b150,0x1b152,"Lo"},{0x1b153,0x1b154,"Cn"},{0x1b155,0x1b155,"Lo"},
{0x1b156,0x1b163,"Cn"},{0x1b164,0x1b167,"Lo"},{0x1b168,0x1b16f,"Cn"},{0x1b170,0x1b2fb,"Lo"},{0x1b2fc,0x1bbff,"Cn"},{0x1bc00,0x1bc6a,"Lo"},
{0x1bc6b,0x1bc6f,"Cn"},{0x1bc70,0x1bc7c,"Lo"},{0x1bc7d,0x1bc7f,"Cn"},{0x1bc80,0x1bc88,"Lo"},{0x1bc89,0x1bc8f,"Cn"},{0x1bc90,0x1bc99,"Lo"},
{0x1bc9a,0x1bc9b,"Cn"},{0x1bc9c,0x1bc9c,"So"},{0x1bc9d,0x1bc9e,"Mn"},{0x1bc9f,0x1bc9f,"Po"},{0x1bca0,0x1bca3,"Cf"},{0x1bca4,0x1cbff,"Cn"},
{0x1ccfd,0x1ccff,"Cn"},{0x1ceb4,0x1ceb9,"Cn"},{0x1ced1,0x1cedf,"Cn"},{0x1cef1,0x1ceff,"Cn"},{0x1cf00,0x1cf2d,"Mn"},{0x1cf2e,0x1cf2f,"Cn"},
{0x1cf30,0x1cf46,"Mn"},{0x1cf47,0x1cf4f,"Cn"},{0x1cf50,0x1cfc3,"So"},{0x1cfc4,0x1cfff,"Cn"},{0x1d000,0x1d0f5,"So"},{0x1d0f6,0x1d0ff,"Cn"},
{0x1d100,0x1d126,"So"},{0x1d127,0x1d128,"Cn"},{0x1d129,0x1d164,"So"},{0x1d165,0x1d166,"Mc"},{0x1d167,0x1d169,"Mn"},{0x1d16a,0x1d16c,"So"},
{0x1d16d,0x1d172,"Mc"},{0x1d173,0x1d17a,"Cf"},{0x1d17b,0x1d182,"Mn"},{0x1d183,0x1d184,"So"},{0x1d185,0x1d18b,"Mn"},{0x1d18c,0x1d1a9,"So"},
{0x1d1aa,0x1d1ad,"Mn"},{0x1d1ae,0x1d1ea,"So"},{0x1d1eb,0x1d1ff,"Cn"},{0x1d200,0x1d241,"So"},{0x1d242,0x1d244,"Mn"},{0x1d245,0x1d245,"So"},
{0x1d246,0x1d2bf,"Cn"},{0x1d2c0,0x1d2d3,"No"},{0x1d2d4,0x1d2df,"Cn"},{0x1d2e0,0x1d2f3,"No"},{0x1d2f4,0x1d2ff,"Cn"},{0x1d300,0x1d356,"So"},
{0x1d357,0x1d35f,"Cn"},{0x1d360,0x1d378,"No"},{0x1d379,0x1d3ff,"Cn"},{0x1d400,0x1d419,"Lu"},{0x1d41a,0x1d433,"Ll"},{0x1d434,0x1d44d,"Lu"},
{0x1d44e,0x1d454,"Ll"},{0x1d455,0x1d455,"Cn"},{0x1d456,0x1d467,"Ll"},{0x1d468,0x1d481,"Lu"},{0x1d482,0x1d49b,"Ll"},{0x1d49c,0x1d49c,"Lu"},
{0x1d49d,0x1d49d,"Cn"},{0x1d49e,0x1d49f,"Lu"},{0x1d4a0,0x1d4a1,"Cn"},{0x1d4a2,0x1d4a2,"Lu"},{0x1d4a3,0x1d4a4,"Cn"},{0x1d4a5,0x1d4a6,"Lu"},
{0x1d4a7,0x1d4a8,"Cn"},{0x1d4a9,0x1d4ac,"Lu"},{0x1d4ad,0x1d4ad,"Cn"},{0x1d4ae,0x1d4b5,"Lu"},{0x1d4b6,0x1d4b9,"Ll"},{0x1d4ba,0x1d4ba,"Cn"},
{0x1d4bb,0x1d4bb,"Ll"},{0x1d4bc,0x1d4bc,"Cn"},{0x1d4bd,0x1d4c3,"Ll"},{0x1d4c4,0x1d4c4,"Cn"},{0x1d4c5,0x1d4cf,"Ll"},{0x1d4d0,0x1d4e9,"Lu"},
{0x1d4ea,0x1d503,"Ll"},{0x1d504,0x1d505,"Lu"},{0x1d506,0x1d506,"Cn"},{0x1d507,0x1d50a,"Lu"},{0x1d50b,0x1d50c,"Cn"},{0x1d50d,0x1d514,"Lu"},
{0x1d515,0x1d515,"Cn"},{0x1d516,0x1d51c,"Lu"},{0x1d51d,0x1d51d,"Cn"},{0x1d51e,0x1d537,"Ll"},{0x1d538,0x1d539,"Lu"},{0x1d53a,0x1d53a,"Cn"},
{0x1d53b,0x1d53e,"Lu"},{0x1d53f,0x1d53f,"Cn"},{0x1d540,0x1d544,"Lu"},{0x1d545,0x1d545,"Cn"},{0x1d546,0x1d546,"Lu"},{0x1d547,0x1d549,"Cn"},
{0x1d54a,0x1d550,"Lu"},{0x1d551,0x1d551,"Cn"},{0x1d552,0x1d56b,"Ll"},{0x1d56c,0x1d585,"Lu"},{0x1d586,0x1d59f,"Ll"},{0x1d5a0,0x1d5b9,"Lu"},
{0x1d5ba,0x1d5d3,"Ll"},{0x1d5d4,0x1d5ed,"Lu"},{0x1d5ee,0x1d607,"Ll"},{0x1d608,0x1d621,"Lu"},{0x1d622,0x1d63b,"Ll"},{0x1d63c,0x1d655,"Lu"},
{0x1d656,0x1d66f,"Ll"},{0x1d670,0x1d689,"Lu"},{0x1d68a,0x1d6a5,"Ll"},{0x1d6a6,0x1d6a7,"Cn"},{0x1d6a8,0x1d6c0,"Lu"},{0x1d6c1,0x1d6c1,"Sm"},
{0x1d6c2,0x1d6da,"Ll"},{0x1d6db,0x1d6db,"Sm"},{0x1d6dc,0x1d6e1,"Ll"},{0x1d6e2,0x1d6fa,"Lu"},{0x1d6fb,0x1d6fb,"Sm"},{0x1d6fc,0x1d714,"Ll"},
{0x1d715,0x1d715,"Sm"},{0x1d716,0x1d71b,"Ll"},{0x1d71c,0x1d734,"Lu"},{0x1d735,0x1d735,"Sm"},{0x1d736,0x1d74e,"Ll"},{0x1d74f,0x1d74f,"Sm"},
{0x1d750,0x1d755,"Ll"},{0x1d756,0x1d76e,"Lu"},{0x1d76f,0x1d76f,"Sm"},{0x1d770,0x1d788,"Ll"},{0x1d789,0x1d789,"Sm"},{0x1d78a,0x1d78f,"Ll"},
{0x1d790,0x1d7a8,"Lu"},{0x1d7a9,0x1d7a9,"Sm"},{0x1d7aa,0x1d7c2,"Ll"},{0x1d7c3,0x1d7c3,"Sm"},{0x1d7c4,0x1d7c9,"Ll"},{0x1d7ca,0x1d7ca,"Lu"},
{0x1d7cb,0x1d7cb,"Ll"},{0x1d7cc,0x1d7cd,"Cn"},{0x1d7ce,0x1d7ff,"Nd"},{0x1d800,0x1d9ff,"So"},{0x1da00,0x1da36,"Mn"},{0x1da37,0x1da3a,"So"},
{0x1da3b,0x1da6c,"Mn"},{0x1da6d,0x1da74,"So"},{0x1da75,0x1da75,"Mn"},{0x1da76,0x1da83,"So"},{0x1da84,0x1da84,"Mn"},{0x1da85,0x1da86,"So"},
{0x1da87,0x1da8b,"Po"},{0x1da8c,0x1da9a,"Cn"},{0x1da9b,0x1da9f,"Mn"},{0x1daa0,0x1daa0,"Cn"},{0x1daa1,0x1daaf,"Mn"},{0x1dab0,0x1deff,"Cn"},
{0x1df00,0x1df09,"Ll"},{0x1df0a,0x1df0a,"Lo"},{0x1df0b,0x1df1e,"Ll"},{0x1df1f,0x1df24,"Cn"},{0x1df25,0x1df2a,"Ll"},{0x1df2b,0x1dfff,"Cn"},
{0x1e000,0x1e006,"Mn"},{0x1e007,0x1e007,"Cn"},{0x1e008,0x1e018,"Mn"},{0x1e019,0x1e01a,"Cn"},{0x1e01b,0x1e021,"Mn"},{0x1e022,0x1e022,"Cn"},
{0x1e023,0x1e024,"Mn"},{0x1e025,0x1e025,"Cn"},{0x1e026,0x1e02a,"Mn"},{0x1e02b,0x1e02f,"Cn"},{0x1e030,0x1e06d,"Lm"},{0x1e06e,0x1e08e,"Cn"},
{0x1e08f,0x1e08f,"Mn"},{0x1e090,0x1e0ff,"Cn"},{0x1e100,0x1e12c,"Lo"},{0x1e12d,0x1e12f,"Cn"},{0x1e130,0x1e136,"Mn"},{0x1e137,0x1e13d,"Lm"},
{0x1e13e,0x1e13f,"Cn"},{0x1e140,0x1e149,"Nd"},{0x1e14a,0x1e14d,"Cn"},{0x1e14e,0x1e14e,"Lo"},{0x1e14f,0x1e14f,"So"},{0x1e150,0x1e28f,"Cn"},
{0x1e290,0x1e2ad,"Lo"},{0x1e2ae,0x1e2ae,"Mn"},{0x1e2af,0x1e2bf,"Cn"},{0x1e2c0,0x1e2eb,"Lo"},{0x1e2ec,0x1e2ef,"Mn"},{0x1e2f0,0x1e2f9,"Nd"},
{0x1e2fa,0x1e2fe,"Cn"},{0x1e2ff,0x1e2ff,"Sc"},{0x1e300,0x1e4cf,"Cn"},{0x1e4d0,0x1e4ea,"Lo"},{0x1e4eb,0x1e4eb,"Lm"},{0x1e4ec,0x1e4ef,"Mn"},
{0x1e4f0,0x1e4f9,"Nd"},{0x1e4fa,0x1e5cf,"Cn"},{0x1e5fb,0x1e5fe,"Cn"},{0x1e600,0x1e6bf,"Cn"},{0x1e6df,0x1e6df,"Cn"},{0x1e6f6,0x1e6fd,"Cn"},
{0x1e700,0x1e7df,"Cn"},{0x1e7e0,0x1e7e6,"Lo"},{0x1e7e7,0x1e7e7,"Cn"},{0x1e7e8,0x1e7eb,"Lo"},{0x1e7ec,0x1e7ec,"Cn"},{0x1e7ed,0x1e7ee,"Lo"},
{0x1e7ef,0x1e7ef,"Cn"},{0x1e7f0,0x1e7fe,"Lo"},{0x1e7ff,0x1e7ff,"Cn"},{0x1e800,0x1e8c4,"Lo"},{0x1e8c5,0x1e8c6,"Cn"},{0x1e8c7,0x1e8cf,"No"},
{0x1e8d0,0x1e8d6,"Mn"},{0x1e8d7,0x1e8ff,"Cn"},{0x1e900,0x1e921,"Lu"},{0x1e922,0x1e943,"Ll"},{0x1e944,0x1e94a,"Mn"},{0x1e94b,0x1e94b,"Lm"},
{0x1e94c,0x1e94f,"Cn"},{0x1e950,0x1e959,"Nd"},{0x1e95a,0x1e95d,"Cn"},{0x1e95e,0x1e95f,"Po"},{0x1e960,0x1ec70,"Cn"},{0x1ec71,0x1ecab,"No"},
{0x1ecac,0x1ecac,"So"},{0x1ecad,0x1ecaf,"No"},{0x1ecb0,0x1ecb0,"Sc"},{0x1ecb1,0x1ecb4,"No"},{0x1ecb5,0x1ed00,"Cn"},{0x1ed01,0x1ed2d,"No"},
{0x1ed2e,0x1ed2e,"So"},{0x1ed2f,0x1ed3d,"No"},{0x1ed3e,0x1edff,"Cn"},{0x1ee00,0x1ee03,"Lo"},{0x1ee04,0x1ee04,"Cn"},{0x1ee05,0x1ee1f,"Lo"},
{0x1ee20,0x1ee20,"Cn"},{0x1ee21,0x1ee22,"Lo"},{0x1ee23,0x1ee23,"Cn"},{0x1ee24,0x1ee24,"Lo"},{0x1ee25,0x1ee26,"Cn"},{0x1ee27,0x1ee27,"Lo"},
{0x1ee28,0x1ee28,"Cn"},{0x1ee29,0x1ee32,"Lo"},{0x1ee33,0x1ee33,"Cn"},{0x1ee34,0x1ee37,"Lo"},{0x1ee38,0x1ee38,"Cn"},{0x1ee39,0x1ee39,"Lo"},
{0x1ee3a,0x1ee3a,"Cn"},{0x1ee3b,0x1ee3b,"Lo"},{0x1ee3c,0x1ee41,"Cn"},{0x1ee42,0x1ee42,"Lo"},{0x1ee43,0x1ee46,"Cn"},{0x1ee47,0x1ee47,"Lo"},
{0x1ee48,0x1ee48,"Cn"},{0x1ee49,0x1ee49,"Lo"},{0x1ee4a,0x1ee4a,"Cn"},{0x1ee4b,0x1ee4b,"Lo"},{0x1ee4c,0x1ee4c,"Cn"},{0x1ee4d,0x1ee4f,"Lo"},
{0x1ee50,0x1ee50,"Cn"},{0x1ee51,0x1ee52,"Lo"},{0x1ee53,0x1ee53,"Cn"},{0x1ee54,0x1ee54,"Lo"},{0x1ee55,0x1ee56,"Cn"},{0x1ee57,0x1ee57,"Lo"},
{0x1ee58,0x1ee58,"Cn"},{0x1ee59,0x1ee59,"Lo"},{0x1ee5a,0x1ee5a,"Cn"},{0x1ee5b,0x1ee5b,"Lo"},{0x1ee5c,0x1ee5c,"Cn"},{0x1ee5d,0x1ee5d,"Lo"},
{0x1ee5e,0x1ee5e,"Cn"},{0x1ee5f,0x1ee5f,"Lo"},{0x1ee60,0x1ee60,"Cn"},{0x1ee61,0x1ee62,"Lo"},{0x1ee63,0x1ee63,"Cn"},{0x1ee64,0x1ee64,"Lo"},
{0x1ee65,0x1ee66,"Cn"},{0x1ee67,0x1ee6a,"Lo"},{0x1ee6b,0x1ee6b,"Cn"},{0x1ee6c,0x1ee72,"Lo"},{0x1ee73,0x1ee73,"Cn"},{0x1ee74,0x1ee77,"Lo"},
{0x1ee78,0x1ee78,"Cn"},{0x1ee79,0x1ee7c,"Lo"},{0x1ee7d,0x1ee7d,"Cn"},{0x1ee7e,0x1ee7e,"Lo"},{0x1ee7f,0x1ee7f,"Cn"},{0x1ee80,0x1ee89,"Lo"},
{0x1ee8a,0x1ee8a,"Cn"},{0x1ee8b,0x1ee9b,"Lo"},{0x1ee9c,0x1eea0,"Cn"},{0x1eea1,0x1eea3,"Lo"},{0x1eea4,0x1eea4,"Cn"},{0x1eea5,0x1eea9,"Lo"},
{0x1eeaa,0x1eeaa,"Cn"},{0x1eeab,0x1eebb,"Lo"},{0x1eebc,0x1eeef,"Cn"},{0x1eef0,0x1eef1,"Sm"},{0x1eef2,0x1efff,"Cn"},{0x1f000,0x1f02b,"So"},
{0x1f02c,0x1f02f,"Cn"},{0x1f030,0x1f093,"So"},{0x1f094,0x1f09f,"Cn"},{0x1f0a0,0x1f0ae,"So"},{0x1f0af,0x1f0b0,"Cn"},{0x1f0b1,0x1f0bf,"So"},
{0x1f0c0,0x1f0c0,"Cn"},{0x1f0c1,0x1f0cf,"So"},{0x1f0d0,0x1f0d0,"Cn"},{0x1f0d1,0x1f0f5,"So"},{0x1f0f6,0x1f0ff,"Cn"},{0x1f100,0x1f10c,"No"},
{0x1f10d,0x1f1ad,"So"},{0x1f1ae,0x1f1e5,"Cn"},{0x1f1e6,0x1f202,"So"},{0x1f203,0x1f20f,"Cn"},{0x1f210,0x1f23b,"So"},{0x1f23c,0x1f23f,"Cn"},
{0x1f240,0x1f248,"So"},{0x1f249,0x1f24f,"Cn"},{0x1f250,0x1f251,"So"},{0x1f252,0x1f25f,"Cn"},{0x1f260,0x1f265,"So"},{0x1f266,0x1f2ff,"Cn"},
{0x1f300,0x1f3fa,"So"},{0x1f3fb,0x1f3ff,"Sk"},{0x1f400,0x1f6d7,"So"},{0x1f6d9,0x1f6db,"Cn"},{0x1f6dc,0x1f6ec,"So"},{0x1f6ed,0x1f6ef,"Cn"},
{0x1f6f0,0x1f6fc,"So"},{0x1f6fd,0x1f6ff,"Cn"},{0x1f700,0x1f776,"So"},{0x1f77b,0x1f7d9,"So"},{0x1f7da,0x1f7df,"Cn"},{0x1f7e0,0x1f7eb,"So"},
{0x1f7ec,0x1f7ef,"Cn"},{0x1f7f0,0x1f7f0,"So"},{0x1f7f1,0x1f7ff,"Cn"},{0x1f800,0x1f80b,"So"},{0x1f80c,0x1f80f,"Cn"},{0x1f810,0x1f847,"So"},
{0x1f848,0x1f84f,"Cn"},{0x1f850,0x1f859,"So"},{0x1f85a,0x1f85f,"Cn"},{0x1f860,0x1f887,"So"},{0x1f888,0x1f88f,"Cn"},{0x1f890,0x1f8ad,"So"},
{0x1f8ae,0x1f8af,"Cn"},{0x1f8b0,0x1f8b1,"So"},{0x1f8bc,0x1f8bf,"Cn"},{0x1f8c2,0x1f8cf,"Cn"},{0x1f8d9,0x1f8ff,"Cn"},{0x1f900,0x1fa53,"So"},
{0x1fa58,0x1fa5f,"Cn"},{0x1fa60,0x1fa6d,"So"},{0x1fa6e,0x1fa6f,"Cn"},{0x1fa70,0x1fa7c,"So"},{0x1fa7d,0x1fa7f,"Cn"},{0x1fa80,0x1fa88,"So"},
{0x1fa8b,0x1fa8d,"Cn"},{0x1fa90,0x1fabd,"So"},{0x1fabf,0x1fac5,"So"},{0x1fac7,0x1fac7,"Cn"},{0x1fac9,0x1facc,"Cn"},{0x1face,0x1fadb,"So"},
{0x1fadd,0x1fade,"Cn"},{0x1fae0,0x1fae8,"So"},{0x1faeb,0x1faee,"Cn"},{0x1faf0,0x1faf8,"So"},{0x1faf9,0x1faff,"Cn"},{0x1fb00,0x1fb92,"So"},
{0x1fb93,0x1fb93,"Cn"},{0x1fb94,0x1fbca,"So"},{0x1fbf0,0x1fbf9,"Nd"},{0x1fbfb,0x1ffff,"Cn"},{0x20000,0x2a6df,"Lo"},{0x2a6e0,0x2a6ff,"Cn"},
{0x2a700,0x2b739,"Lo"},{0x2b740,0x2b81d,"Lo"},{0x2b81e,0x2b81f,"Cn"},{0x2b820,0x2cea1,"Lo"},{0x2ceae,0x2ceaf,"Cn"},{0x2ceb0,0x2ebe0,"Lo"},
{0x2ebe1,0x2ebef,"Cn"},{0x2ee5e,0x2f7ff,"Cn"},{0x2f800,0x2fa1d,"Lo"},{0x2fa1e,0x2ffff,"Cn"},{0x30000,0x3134a,"Lo"},{0x3134b,0x3134f,"Cn"},
{0x31350,0x323af,"Lo"},{0x3347a,0xe0000,"Cn"},{0xe0001,0xe0001,"Cf"},{0xe0002,0xe001f,"Cn"},{0xe0020,0xe007f,"Cf"},{0xe0080,0xe00ff,"Cn"},
{0xe0100,0xe01ef,"Mn"},{0xe01f0,0xeffff,"Cn"},{0xf0000,0xffffd,"Co"},{0xffffe,0xfffff,"Cn"},{0x100000,0x10fffd,"Co"},{0x10fffe,0x10ffff,"Cn"},
};
