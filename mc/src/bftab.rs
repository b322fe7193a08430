//! Generated by tools/gen_bftab.py: (function, x, y, mantissa high, low, exponent), numbers as bits.
pub const TABLE: &[(&str, u64, u64, u64, u64, i64)] = &[
    ("exp", 0x1a56e1fc2f8f359, 0x0, 0x3ff0000000000000, 0x1a56e1fc2f8f359, 0),
    ("sinh", 0x1a56e1fc2f8f359, 0x0, 0x3ff56e1fc2f8f359, 0x0, -997),
    ("cosh", 0x1a56e1fc2f8f359, 0x0, 0x3ff0000000000000, 0x0, 0),
    ("sin", 0x1a56e1fc2f8f359, 0x0, 0x3ff56e1fc2f8f359, 0x0, -997),
    ("cos", 0x1a56e1fc2f8f359, 0x0, 0x3ff0000000000000, 0x0, 0),
    ("tan", 0x1a56e1fc2f8f359, 0x0, 0x3ff56e1fc2f8f359, 0x0, -997),
    ("exp", 0x81a56e1fc2f8f359, 0x0, 0x4000000000000000, 0x81b56e1fc2f8f359, -1),
    ("sinh", 0x81a56e1fc2f8f359, 0x0, 0xbff56e1fc2f8f359, 0x0, -997),
    ("cosh", 0x81a56e1fc2f8f359, 0x0, 0x3ff0000000000000, 0x0, 0),
    ("sin", 0x81a56e1fc2f8f359, 0x0, 0xbff56e1fc2f8f359, 0x0, -997),
    ("cos", 0x81a56e1fc2f8f359, 0x0, 0x3ff0000000000000, 0x0, 0),
    ("tan", 0x81a56e1fc2f8f359, 0x0, 0xbff56e1fc2f8f359, 0x0, -997),
    ("asin", 0x1a56e1fc2f8f359, 0x0, 0x3ff56e1fc2f8f359, 0x0, -997),
    ("asin", 0x81a56e1fc2f8f359, 0x0, 0xbff56e1fc2f8f359, 0x0, -997),
    ("ln", 0x1a56e1fc2f8f359, 0x0, 0xbff5963447f87fb5, 0xbc8aa670d35324e6, 9),
    ("sqrt", 0x1a56e1fc2f8f359, 0x0, 0x3ffa2fe76a3f9475, 0x3c67871024a1f7d2, -499),
    ("exp", 0x2b2bff2ee48e0530, 0x0, 0x3ff0000000000000, 0x2b2bff2ee48e0530, 0),
    ("sinh", 0x2b2bff2ee48e0530, 0x0, 0x3ffbff2ee48e0530, 0x164c92d503f699cc, -333),
    ("cosh", 0x2b2bff2ee48e0530, 0x0, 0x3ff0000000000000, 0x16587e92154ef7ac, 0),
    ("sin", 0x2b2bff2ee48e0530, 0x0, 0x3ffbff2ee48e0530, 0x964c92d503f699cc, -333),
    ("cos", 0x2b2bff2ee48e0530, 0x0, 0x4000000000000000, 0x96687e92154ef7ac, -1),
    ("tan", 0x2b2bff2ee48e0530, 0x0, 0x3ffbff2ee48e0530, 0x165c92d503f699cc, -333),
    ("exp", 0xab2bff2ee48e0530, 0x0, 0x4000000000000000, 0xab3bff2ee48e0530, -1),
    ("sinh", 0xab2bff2ee48e0530, 0x0, 0xbffbff2ee48e0530, 0x964c92d503f699cc, -333),
    ("cosh", 0xab2bff2ee48e0530, 0x0, 0x3ff0000000000000, 0x16587e92154ef7ac, 0),
    ("sin", 0xab2bff2ee48e0530, 0x0, 0xbffbff2ee48e0530, 0x164c92d503f699cc, -333),
    ("cos", 0xab2bff2ee48e0530, 0x0, 0x4000000000000000, 0x96687e92154ef7ac, -1),
    ("tan", 0xab2bff2ee48e0530, 0x0, 0xbffbff2ee48e0530, 0x965c92d503f699cc, -333),
    ("asin", 0x2b2bff2ee48e0530, 0x0, 0x3ffbff2ee48e0530, 0x164c92d503f699cc, -333),
    ("asin", 0xab2bff2ee48e0530, 0x0, 0xbffbff2ee48e0530, 0x964c92d503f699cc, -333),
    ("ln", 0x2b2bff2ee48e0530, 0x0, 0xbffcc845b54b54f2, 0x3c98ed150b29b629, 7),
    ("sqrt", 0x2b2bff2ee48e0530, 0x0, 0x3ffdee7a4ad4b81f, 0x3c5487c3eafd6a9e, -167),
    ("exp", 0x3bc79ca10c924223, 0x0, 0x3ff0000000000000, 0x3bc79ca10c924223, 0),
    ("sinh", 0x3bc79ca10c924223, 0x0, 0x3ff79ca10c924223, 0x378124031c73196e, -67),
    ("cosh", 0x3bc79ca10c924223, 0x0, 0x3ff0000000000000, 0x37916c262777579c, 0),
    ("sin", 0x3bc79ca10c924223, 0x0, 0x3ff79ca10c924223, 0xb78124031c73196e, -67),
    ("cos", 0x3bc79ca10c924223, 0x0, 0x4000000000000000, 0xb7a16c262777579c, -1),
    ("tan", 0x3bc79ca10c924223, 0x0, 0x3ff79ca10c924223, 0x379124031c73196e, -67),
    ("exp", 0xbbc79ca10c924223, 0x0, 0x4000000000000000, 0xbbd79ca10c924223, -1),
    ("sinh", 0xbbc79ca10c924223, 0x0, 0xbff79ca10c924223, 0xb78124031c73196e, -67),
    ("cosh", 0xbbc79ca10c924223, 0x0, 0x3ff0000000000000, 0x37916c262777579c, 0),
    ("sin", 0xbbc79ca10c924223, 0x0, 0xbff79ca10c924223, 0x378124031c73196e, -67),
    ("cos", 0xbbc79ca10c924223, 0x0, 0x4000000000000000, 0xb7a16c262777579c, -1),
    ("tan", 0xbbc79ca10c924223, 0x0, 0xbff79ca10c924223, 0xb79124031c73196e, -67),
    ("asin", 0x3bc79ca10c924223, 0x0, 0x3ff79ca10c924223, 0x378124031c73196e, -67),
    ("asin", 0xbbc79ca10c924223, 0x0, 0xbff79ca10c924223, 0xb78124031c73196e, -67),
    ("ln", 0x3bc79ca10c924223, 0x0, 0xbff7069e2aa2aa5b, 0x3c7a71834167debf, 5),
    ("sqrt", 0x3bc79ca10c924223, 0x0, 0x3ffb7cdfd9d7bdbb, 0xbc9f9ea772efc696, -34),
    ("exp", 0x3bfd83c94fb6d2ac, 0x0, 0x3ff0000000000000, 0x3bfd83c94fb6d2ac, 0),
    ("sinh", 0x3bfd83c94fb6d2ac, 0x0, 0x3ffd83c94fb6d2ac, 0x37f0bd2b09c866d6, -64),
    ("cosh", 0x3bfd83c94fb6d2ac, 0x0, 0x3ff0000000000000, 0x37fb38fb9daa78e4, 0),
    ("sin", 0x3bfd83c94fb6d2ac, 0x0, 0x3ffd83c94fb6d2ac, 0xb7f0bd2b09c866d6, -64),
    ("cos", 0x3bfd83c94fb6d2ac, 0x0, 0x4000000000000000, 0xb80b38fb9daa78e4, -1),
    ("tan", 0x3bfd83c94fb6d2ac, 0x0, 0x3ffd83c94fb6d2ac, 0x3800bd2b09c866d6, -64),
    ("exp", 0xbbfd83c94fb6d2ac, 0x0, 0x4000000000000000, 0xbc0d83c94fb6d2ac, -1),
    ("sinh", 0xbbfd83c94fb6d2ac, 0x0, 0xbffd83c94fb6d2ac, 0xb7f0bd2b09c866d6, -64),
    ("cosh", 0xbbfd83c94fb6d2ac, 0x0, 0x3ff0000000000000, 0x37fb38fb9daa78e4, 0),
    ("sin", 0xbbfd83c94fb6d2ac, 0x0, 0xbffd83c94fb6d2ac, 0x37f0bd2b09c866d6, -64),
    ("cos", 0xbbfd83c94fb6d2ac, 0x0, 0x4000000000000000, 0xb80b38fb9daa78e4, -1),
    ("tan", 0xbbfd83c94fb6d2ac, 0x0, 0xbffd83c94fb6d2ac, 0xb800bd2b09c866d6, -64),
    ("asin", 0x3bfd83c94fb6d2ac, 0x0, 0x3ffd83c94fb6d2ac, 0x37f0bd2b09c866d6, -64),
    ("asin", 0xbbfd83c94fb6d2ac, 0x0, 0xbffd83c94fb6d2ac, 0xb7f0bd2b09c866d6, -64),
    ("ln", 0x3bfd83c94fb6d2ac, 0x0, 0xbff5dfe30ee7550a, 0x3c9ced398d475265, 5),
    ("sqrt", 0x3bfd83c94fb6d2ac, 0x0, 0x3ff5bb233fcb6a90, 0xbc9c5dd1997a846b, -32),
    ("exp", 0x3c30000000000000, 0x0, 0x3ff0000000000000, 0x3c30000000000000, 0),
    ("sinh", 0x3c30000000000000, 0x0, 0x3ff0000000000000, 0x3845555555555555, -60),
    ("cosh", 0x3c30000000000000, 0x0, 0x3ff0000000000000, 0x3860000000000000, 0),
    ("sin", 0x3c30000000000000, 0x0, 0x4000000000000000, 0xb855555555555555, -61),
    ("cos", 0x3c30000000000000, 0x0, 0x4000000000000000, 0xb870000000000000, -1),
    ("tan", 0x3c30000000000000, 0x0, 0x3ff0000000000000, 0x3855555555555555, -60),
    ("exp", 0xbc30000000000000, 0x0, 0x4000000000000000, 0xbc40000000000000, -1),
    ("sinh", 0xbc30000000000000, 0x0, 0xbff0000000000000, 0xb845555555555555, -60),
    ("cosh", 0xbc30000000000000, 0x0, 0x3ff0000000000000, 0x3860000000000000, 0),
    ("sin", 0xbc30000000000000, 0x0, 0xc000000000000000, 0x3855555555555555, -61),
    ("cos", 0xbc30000000000000, 0x0, 0x4000000000000000, 0xb870000000000000, -1),
    ("tan", 0xbc30000000000000, 0x0, 0xbff0000000000000, 0xb855555555555555, -60),
    ("asin", 0x3c30000000000000, 0x0, 0x3ff0000000000000, 0x3845555555555555, -60),
    ("asin", 0xbc30000000000000, 0x0, 0xbff0000000000000, 0xb845555555555555, -60),
    ("ln", 0x3c30000000000000, 0x0, 0xbff4cb5ecf0a9650, 0xbc90886a2bc2f41e, 5),
    ("sqrt", 0x3c30000000000000, 0x0, 0x3ff0000000000000, 0x0, -30),
    ("exp", 0x3e00000000000000, 0x0, 0x3ff0000000200000, 0x3c000000000aaaab, 0),
    ("sinh", 0x3e00000000000000, 0x0, 0x3ff0000000000000, 0x3be5555555555555, -31),
    ("cosh", 0x3e00000000000000, 0x0, 0x3ff0000000000000, 0x3c00000000000000, 0),
    ("sin", 0x3e00000000000000, 0x0, 0x4000000000000000, 0xbbf5555555555555, -32),
    ("cos", 0x3e00000000000000, 0x0, 0x4000000000000000, 0xbc10000000000000, -1),
    ("tan", 0x3e00000000000000, 0x0, 0x3ff0000000000000, 0x3bf5555555555555, -31),
    ("exp", 0xbe00000000000000, 0x0, 0x3fffffffffc00000, 0x3c0fffffffeaaaab, -1),
    ("sinh", 0xbe00000000000000, 0x0, 0xbff0000000000000, 0xbbe5555555555555, -31),
    ("cosh", 0xbe00000000000000, 0x0, 0x3ff0000000000000, 0x3c00000000000000, 0),
    ("sin", 0xbe00000000000000, 0x0, 0xc000000000000000, 0x3bf5555555555555, -32),
    ("cos", 0xbe00000000000000, 0x0, 0x4000000000000000, 0xbc10000000000000, -1),
    ("tan", 0xbe00000000000000, 0x0, 0xbff0000000000000, 0xbbf5555555555555, -31),
    ("asin", 0x3e00000000000000, 0x0, 0x3ff0000000000000, 0x3be5555555555555, -31),
    ("asin", 0xbe00000000000000, 0x0, 0xbff0000000000000, 0xbbe5555555555555, -31),
    ("ln", 0x3e00000000000000, 0x0, 0xbff57cd0e7026820, 0x3c910ca35b5025e1, 4),
    ("sqrt", 0x3e00000000000000, 0x0, 0x3ff6a09e667f3bcd, 0xbc9bdd3413b26456, -16),
    ("exp", 0x3e10000000000000, 0x0, 0x3ff0000000400000, 0x3c20000000155555, 0),
    ("sinh", 0x3e10000000000000, 0x0, 0x3ff0000000000000, 0x3c05555555555555, -30),
    ("cosh", 0x3e10000000000000, 0x0, 0x3ff0000000000000, 0x3c20000000000000, 0),
    ("sin", 0x3e10000000000000, 0x0, 0x4000000000000000, 0xbc15555555555555, -31),
    ("cos", 0x3e10000000000000, 0x0, 0x4000000000000000, 0xbc30000000000000, -1),
    ("tan", 0x3e10000000000000, 0x0, 0x3ff0000000000000, 0x3c15555555555555, -30),
    ("exp", 0xbe10000000000000, 0x0, 0x3fffffffff800000, 0x3c2fffffffd55555, -1),
    ("sinh", 0xbe10000000000000, 0x0, 0xbff0000000000000, 0xbc05555555555555, -30),
    ("cosh", 0xbe10000000000000, 0x0, 0x3ff0000000000000, 0x3c20000000000000, 0),
    ("sin", 0xbe10000000000000, 0x0, 0xc000000000000000, 0x3c15555555555555, -31),
    ("cos", 0xbe10000000000000, 0x0, 0x4000000000000000, 0xbc30000000000000, -1),
    ("tan", 0xbe10000000000000, 0x0, 0xbff0000000000000, 0xbc15555555555555, -30),
    ("asin", 0x3e10000000000000, 0x0, 0x3ff0000000000000, 0x3c05555555555555, -30),
    ("asin", 0xbe10000000000000, 0x0, 0xbff0000000000000, 0xbc05555555555555, -30),
    ("ln", 0x3e10000000000000, 0x0, 0xbff4cb5ecf0a9650, 0xbc90886a2bc2f41e, 4),
    ("sqrt", 0x3e10000000000000, 0x0, 0x3ff0000000000000, 0x0, -15),
    ("exp", 0x3e20000000000000, 0x0, 0x3ff0000000800000, 0x3c400000002aaaab, 0),
    ("sinh", 0x3e20000000000000, 0x0, 0x3ff0000000000000, 0x3c25555555555555, -29),
    ("cosh", 0x3e20000000000000, 0x0, 0x3ff0000000000000, 0x3c40000000000000, 0),
    ("sin", 0x3e20000000000000, 0x0, 0x4000000000000000, 0xbc35555555555555, -30),
    ("cos", 0x3e20000000000000, 0x0, 0x4000000000000000, 0xbc50000000000000, -1),
    ("tan", 0x3e20000000000000, 0x0, 0x3ff0000000000000, 0x3c35555555555555, -29),
    ("exp", 0xbe20000000000000, 0x0, 0x3fffffffff000000, 0x3c4fffffffaaaaab, -1),
    ("sinh", 0xbe20000000000000, 0x0, 0xbff0000000000000, 0xbc25555555555555, -29),
    ("cosh", 0xbe20000000000000, 0x0, 0x3ff0000000000000, 0x3c40000000000000, 0),
    ("sin", 0xbe20000000000000, 0x0, 0xc000000000000000, 0x3c35555555555555, -30),
    ("cos", 0xbe20000000000000, 0x0, 0x4000000000000000, 0xbc50000000000000, -1),
    ("tan", 0xbe20000000000000, 0x0, 0xbff0000000000000, 0xbc35555555555555, -29),
    ("asin", 0x3e20000000000000, 0x0, 0x3ff0000000000000, 0x3c25555555555555, -29),
    ("asin", 0xbe20000000000000, 0x0, 0xbff0000000000000, 0xbc25555555555555, -29),
    ("ln", 0x3e20000000000000, 0x0, 0xbff419ecb712c481, 0x3c8bc5109a53e3c7, 4),
    ("sqrt", 0x3e20000000000000, 0x0, 0x3ff6a09e667f3bcd, 0xbc9bdd3413b26456, -15),
    ("exp", 0x3e45798ee2308c3a, 0x0, 0x3ff0000002af31dc, 0x3c9fedbb1cba97a5, 0),
    ("sinh", 0x3e45798ee2308c3a, 0x0, 0x3ff5798ee2308c3a, 0x3c79ca58cce0be35, -27),
    ("cosh", 0x3e45798ee2308c3a, 0x0, 0x3ff0000000000000, 0x3c8cd2b297d889bd, 0),
    ("sin", 0x3e45798ee2308c3a, 0x0, 0x3ff5798ee2308c3a, 0xbc79ca58cce0be35, -27),
    ("cos", 0x3e45798ee2308c3a, 0x0, 0x4000000000000000, 0xbc9cd2b297d889bc, -1),
    ("tan", 0x3e45798ee2308c3a, 0x0, 0x3ff5798ee2308c3a, 0x3c89ca58cce0be35, -27),
    ("exp", 0xbe45798ee2308c3a, 0x0, 0x3ffffffffaa19c48, 0xbc78d84427106f41, -1),
    ("sinh", 0xbe45798ee2308c3a, 0x0, 0xbff5798ee2308c3a, 0xbc79ca58cce0be35, -27),
    ("cosh", 0xbe45798ee2308c3a, 0x0, 0x3ff0000000000000, 0x3c8cd2b297d889bd, 0),
    ("sin", 0xbe45798ee2308c3a, 0x0, 0xbff5798ee2308c3a, 0x3c79ca58cce0be35, -27),
    ("cos", 0xbe45798ee2308c3a, 0x0, 0x4000000000000000, 0xbc9cd2b297d889bc, -1),
    ("tan", 0xbe45798ee2308c3a, 0x0, 0xbff5798ee2308c3a, 0xbc89ca58cce0be35, -27),
    ("asin", 0x3e45798ee2308c3a, 0x0, 0x3ff5798ee2308c3a, 0x3c79ca58cce0be35, -27),
    ("asin", 0xbe45798ee2308c3a, 0x0, 0xbff5798ee2308c3a, 0xbc79ca58cce0be35, -27),
    ("ln", 0x3e45798ee2308c3a, 0x0, 0xbff26bb1bbb55516, 0x3c9fa92a494ea3e9, 4),
    ("sqrt", 0x3e45798ee2308c3a, 0x0, 0x3ffa36e2eb1c432d, 0xbc91b0b0f27bb2ff, -14),
    ("exp", 0x3ee4f8b588e368f1, 0x0, 0x3ff0000a7c5e340e, 0x3c9bf6ba1f2a2657, 0),
    ("sinh", 0x3ee4f8b588e368f1, 0x0, 0x3ff4f8b588e4e940, 0xbc975b2c24ab6696, -17),
    ("cosh", 0x3ee4f8b588e368f1, 0x0, 0x3ff0000000036f9c, 0xbc5313a333fc7532, 0),
    ("sin", 0x3ee4f8b588e368f1, 0x0, 0x3ff4f8b588e1e8a2, 0x3c975b30450b875e, -17),
    ("cos", 0x3ee4f8b588e368f1, 0x0, 0x3ffffffffff920c8, 0x3c63149f1007a5f5, -1),
    ("tan", 0x3ee4f8b588e368f1, 0x0, 0x3ff4f8b588e6698e, 0x3c9149c4994a1850, -17),
    ("exp", 0xbee4f8b588e368f1, 0x0, 0x3fffffeb07515653, 0x3c6a6d17a564b029, -1),
    ("sinh", 0xbee4f8b588e368f1, 0x0, 0xbff4f8b588e4e940, 0x3c975b2c24ab6696, -17),
    ("cosh", 0xbee4f8b588e368f1, 0x0, 0x3ff0000000036f9c, 0xbc5313a333fc7532, 0),
    ("sin", 0xbee4f8b588e368f1, 0x0, 0xbff4f8b588e1e8a2, 0xbc975b30450b875e, -17),
    ("cos", 0xbee4f8b588e368f1, 0x0, 0x3ffffffffff920c8, 0x3c63149f1007a5f5, -1),
    ("tan", 0xbee4f8b588e368f1, 0x0, 0xbff4f8b588e6698e, 0xbc9149c4994a1850, -17),
    ("asin", 0x3ee4f8b588e368f1, 0x0, 0x3ff4f8b588e4e940, 0xbc975b1ba32ae372, -17),
    ("asin", 0xbee4f8b588e368f1, 0x0, 0xbff4f8b588e4e940, 0x3c975b1ba32ae372, -17),
    ("ln", 0x3ee4f8b588e368f1, 0x0, 0xbff7069e2aa2aa5b, 0x3c841ab1374499c7, 3),
    ("sqrt", 0x3ee4f8b588e368f1, 0x0, 0x3ff9e7c6e43390b7, 0x3c83c095e6621a1d, -9),
    ("exp", 0x3f847ae147ae147b, 0x0, 0x3ff0292a5d2f2226, 0x3c9f4f1ab959f6ad, 0),
    ("sinh", 0x3f847ae147ae147b, 0x0, 0x3ff47af7a654e9ef, 0xbc94d3238a109780, -7),
    ("cosh", 0x3f847ae147ae147b, 0x0, 0x3ff000346de27853, 0xbc98073eff91e824, 0),
    ("sin", 0x3f847ae147ae147b, 0x0, 0x3ff47acae915e807, 0x3c8f79834254ba99, -7),
    ("cos", 0x3f847ae147ae147b, 0x0, 0x3fffff9724ad97aa, 0x3c809fe8b9c7414e, -1),
    ("tan", 0x3f847ae147ae147b, 0x0, 0x3ff47b0e05625f97, 0xbc98166fdc0e1ddd, -7),
    ("exp", 0xbf847ae147ae147b, 0x0, 0x3fffae7cfd2b9cfe, 0xbc9ebb3170fb8de9, -1),
    ("sinh", 0xbf847ae147ae147b, 0x0, 0xbff47af7a654e9ef, 0x3c94d3238a109780, -7),
    ("cosh", 0xbf847ae147ae147b, 0x0, 0x3ff000346de27853, 0xbc98073eff91e824, 0),
    ("sin", 0xbf847ae147ae147b, 0x0, 0xbff47acae915e807, 0xbc8f79834254ba99, -7),
    ("cos", 0xbf847ae147ae147b, 0x0, 0x3fffff9724ad97aa, 0x3c809fe8b9c7414e, -1),
    ("tan", 0xbf847ae147ae147b, 0x0, 0xbff47b0e05625f97, 0x3c98166fdc0e1ddd, -7),
    ("asin", 0x3f847ae147ae147b, 0x0, 0x3ff47af7a68f8eef, 0xbc9af2d6279d1fde, -7),
    ("asin", 0xbf847ae147ae147b, 0x0, 0xbff47af7a68f8eef, 0x3c9af2d6279d1fde, -7),
    ("ln", 0x3f847ae147ae147b, 0x0, 0xbff26bb1bbb55515, 0xbc9f3752b6b15c17, 2),
    ("sqrt", 0x3f847ae147ae147b, 0x0, 0x3ff999999999999a, 0xbc94cccccccccccd, -4),
    ("exp", 0x3fb999999999999a, 0x0, 0x3ff1aec7b35a00d4, 0xbc977d498b0e382a, 0),
    ("sinh", 0x3fb999999999999a, 0x0, 0x3ff9a487337b59b3, 0x3c8f00df48f66e57, -4),
    ("cosh", 0x3fb999999999999a, 0x0, 0x3ff0147f40224b38, 0x3c9b8aaf7aaa1464, 0),
    ("sin", 0x3fb999999999999a, 0x0, 0x3ff98eaecb8bcb2c, 0x3c8c687ae84515dd, -4),
    ("cos", 0x3fb999999999999a, 0x0, 0x3fffd712f9a817c1, 0xbc9fb7ab33ee2672, -1),
    ("tan", 0x3fb999999999999a, 0x0, 0x3ff9af8877430b80, 0x3c7bbc144a47eb26, -4),
    ("exp", 0xbfb999999999999a, 0x0, 0x3ffcf46d99d52b3a, 0x3c9d255100c4c1e2, -1),
    ("sinh", 0xbfb999999999999a, 0x0, 0xbff9a487337b59b3, 0xbc8f00df48f66e57, -4),
    ("cosh", 0xbfb999999999999a, 0x0, 0x3ff0147f40224b38, 0x3c9b8aaf7aaa1464, 0),
    ("sin", 0xbfb999999999999a, 0x0, 0xbff98eaecb8bcb2c, 0xbc8c687ae84515dd, -4),
    ("cos", 0xbfb999999999999a, 0x0, 0x3fffd712f9a817c1, 0xbc9fb7ab33ee2672, -1),
    ("tan", 0xbfb999999999999a, 0x0, 0xbff9af8877430b80, 0xbc7bbc144a47eb26, -4),
    ("asin", 0x3fb999999999999a, 0x0, 0x3ff9a49276037884, 0x3c83925d6f4efa80, -4),
    ("asin", 0xbfb999999999999a, 0x0, 0xbff9a49276037884, 0xbc83925d6f4efa80, -4),
    ("ln", 0x3fb999999999999a, 0x0, 0xbff26bb1bbb55515, 0xbc98b752b6b15c17, 1),
    ("sqrt", 0x3fb999999999999a, 0x0, 0x3ff43d136248490f, 0x3c4d887adafe7cc4, -2),
    ("exp", 0x3fd0000000000000, 0x0, 0x3ff48b5e3c3e8186, 0x3c99d9ef0eda6eab, 0),
    ("sinh", 0x3fd0000000000000, 0x0, 0x3ff02accd9d08102, 0xbc7998b320c03715, -2),
    ("cosh", 0x3fd0000000000000, 0x0, 0x3ff080ab05ca6146, 0xbc723216fc66378f, 0),
    ("sin", 0x3fd0000000000000, 0x0, 0x3fffaaeed4f31577, 0xbc915d88508e32b8, -3),
    ("cos", 0x3fd0000000000000, 0x0, 0x3fff01549f7deea1, 0x3c9d3c1e99e5cafd, -1),
    ("tan", 0x3fd0000000000000, 0x0, 0x3ff05785a43c4c56, 0xbc79c6bfe7769a3d, -2),
    ("exp", 0xbfd0000000000000, 0x0, 0x3ff8ebef9eac820b, 0xbc7797d4686c5393, -1),
    ("sinh", 0xbfd0000000000000, 0x0, 0xbff02accd9d08102, 0x3c7998b320c03715, -2),
    ("cosh", 0xbfd0000000000000, 0x0, 0x3ff080ab05ca6146, 0xbc723216fc66378f, 0),
    ("sin", 0xbfd0000000000000, 0x0, 0xbfffaaeed4f31577, 0x3c915d88508e32b8, -3),
    ("cos", 0xbfd0000000000000, 0x0, 0x3fff01549f7deea1, 0x3c9d3c1e99e5cafd, -1),
    ("tan", 0xbfd0000000000000, 0x0, 0xbff05785a43c4c56, 0x3c79c6bfe7769a3d, -2),
    ("asin", 0x3fd0000000000000, 0x0, 0x3ff02be9ce0b87cd, 0x3c7e5d09da2e0f04, -2),
    ("asin", 0xbfd0000000000000, 0x0, 0xbff02be9ce0b87cd, 0xbc7e5d09da2e0f04, -2),
    ("ln", 0x3fd0000000000000, 0x0, 0xbff62e42fefa39ef, 0xbc8abc9e3b39803f, 0),
    ("sqrt", 0x3fd0000000000000, 0x0, 0x3ff0000000000000, 0x0, -1),
    ("exp", 0x3fe0000000000000, 0x0, 0x3ffa61298e1e069c, 0xbc8b4690082a4906, 0),
    ("sinh", 0x3fe0000000000000, 0x0, 0x3ff0acd00fe63b97, 0xbc8ae543b544f28d, -1),
    ("cosh", 0x3fe0000000000000, 0x0, 0x3ff20ac1862ae8d0, 0x3c991608e93c1820, 0),
    ("sin", 0x3fe0000000000000, 0x0, 0x3ffeaee8744b05f0, 0xbc7789b43c9b027d, -2),
    ("cos", 0x3fe0000000000000, 0x0, 0x3ffc1528065b7d50, 0xbc9892111312e828, -1),
    ("tan", 0x3fe0000000000000, 0x0, 0x3ff17b4f5bf3474a, 0x3c90c5e59201e209, -1),
    ("exp", 0xbfe0000000000000, 0x0, 0x3ff368b2fc6f960a, 0xbc385314b9559e64, -1),
    ("sinh", 0xbfe0000000000000, 0x0, 0xbff0acd00fe63b97, 0x3c8ae543b544f28d, -1),
    ("cosh", 0xbfe0000000000000, 0x0, 0x3ff20ac1862ae8d0, 0x3c991608e93c1820, 0),
    ("sin", 0xbfe0000000000000, 0x0, 0xbffeaee8744b05f0, 0x3c7789b43c9b027d, -2),
    ("cos", 0xbfe0000000000000, 0x0, 0x3ffc1528065b7d50, 0xbc9892111312e828, -1),
    ("tan", 0xbfe0000000000000, 0x0, 0xbff17b4f5bf3474a, 0xbc90c5e59201e209, -1),
    ("asin", 0x3fe0000000000000, 0x0, 0x3ff0c152382d7366, 0xbc9ee6913347c2a6, -1),
    ("asin", 0xbfe0000000000000, 0x0, 0xbff0c152382d7366, 0x3c9ee6913347c2a6, -1),
    ("ln", 0x3fe0000000000000, 0x0, 0xbff62e42fefa39ef, 0xbc8abc9e3b39803f, -1),
    ("sqrt", 0x3fe0000000000000, 0x0, 0x3ff6a09e667f3bcd, 0xbc9bdd3413b26456, -1),
    ("exp", 0x3fe6666666666666, 0x0, 0x3ff01c2a61268987, 0xbc9ce82f8a77f530, 1),
    ("sinh", 0x3fe6666666666666, 0x0, 0x3ff8465153d5bdbd, 0xbc9ca58441c829ee, -1),
    ("cosh", 0x3fe6666666666666, 0x0, 0x3ff4152c1862342f, 0xbc86fb39e817aad1, 0),
    ("sin", 0x3fe6666666666666, 0x0, 0x3ff49d6e694619b8, 0x3c5a822cbb5cf8f0, -1),
    ("cos", 0x3fe6666666666666, 0x0, 0x3ff87996529f9d93, 0xbc97234b60138711, -1),
    ("tan", 0x3fe6666666666666, 0x0, 0x3ffaf406c2fc78ae, 0xbc968e6608993265, -1),
    ("exp", 0xbfe6666666666666, 0x0, 0x3fffc80db9dd5542, 0x3c86a92966c1fc73, -2),
    ("sinh", 0xbfe6666666666666, 0x0, 0xbff8465153d5bdbd, 0x3c9ca58441c829ee, -1),
    ("cosh", 0xbfe6666666666666, 0x0, 0x3ff4152c1862342f, 0xbc86fb39e817aad1, 0),
    ("sin", 0xbfe6666666666666, 0x0, 0xbff49d6e694619b8, 0xbc5a822cbb5cf8f0, -1),
    ("cos", 0xbfe6666666666666, 0x0, 0x3ff87996529f9d93, 0xbc97234b60138711, -1),
    ("tan", 0xbfe6666666666666, 0x0, 0xbffaf406c2fc78ae, 0x3c968e6608993265, -1),
    ("asin", 0x3fe6666666666666, 0x0, 0x3ff8d00e692afd95, 0x3c93922d1ae3b05e, -1),
    ("asin", 0xbfe6666666666666, 0x0, 0xbff8d00e692afd95, 0xbc93922d1ae3b05e, -1),
    ("ln", 0x3fe6666666666666, 0x0, 0xbff6d3c324e13f50, 0x3c7641052af5fd8d, -2),
    ("sqrt", 0x3fe6666666666666, 0x0, 0x3ffac5eb3f7ab2f8, 0xbc97c3f630ca87e2, -1),
    ("exp", 0x3fe8f5c28f5c28f6, 0x0, 0x3ff173a7bb2b9101, 0x3c90e7a1bc48ee42, 1),
    ("sinh", 0x3fe8f5c28f5c28f6, 0x0, 0x3ffb91adeba999da, 0x3c9cb8c5f6103fc6, -1),
    ("cosh", 0x3fe8f5c28f5c28f6, 0x0, 0x3ff51e7880825515, 0x3c9372e07d89bca1, 0),
    ("sin", 0x3fe8f5c28f5c28f6, 0x0, 0x3ff68143d72d4ce4, 0x3c9eebd481200604, -1),
    ("cos", 0x3fe8f5c28f5c28f6, 0x0, 0x3ff6bfcdbf817bfa, 0x3c95242555683f8b, -1),
    ("tan", 0x3fe8f5c28f5c28f6, 0x0, 0x3fffa807cf826c45, 0xbc99065ad79ec0be, -1),
    ("exp", 0xbfe8f5c28f5c28f6, 0x0, 0x3ffd56862ab620a0, 0x3c9459f60a0672f7, -2),
    ("sinh", 0xbfe8f5c28f5c28f6, 0x0, 0xbffb91adeba999da, 0xbc9cb8c5f6103fc6, -1),
    ("cosh", 0xbfe8f5c28f5c28f6, 0x0, 0x3ff51e7880825515, 0x3c9372e07d89bca1, 0),
    ("sin", 0xbfe8f5c28f5c28f6, 0x0, 0xbff68143d72d4ce4, 0xbc9eebd481200604, -1),
    ("cos", 0xbfe8f5c28f5c28f6, 0x0, 0x3ff6bfcdbf817bfa, 0x3c95242555683f8b, -1),
    ("tan", 0xbfe8f5c28f5c28f6, 0x0, 0xbfffa807cf826c45, 0x3c99065ad79ec0be, -1),
    ("asin", 0x3fe8f5c28f5c28f6, 0x0, 0x3ffca11a353bd84c, 0x3c9467d94280ae43, -1),
    ("asin", 0xbfe8f5c28f5c28f6, 0x0, 0xbffca11a353bd84c, 0xbc9467d94280ae43, -1),
    ("ln", 0x3fe8f5c28f5c28f6, 0x0, 0xbfffcd94f240dd8e, 0x3c96424c5c999a97, -3),
    ("sqrt", 0x3fe8f5c28f5c28f6, 0x0, 0x3ffc42fa7f164e6c, 0x3c8220c5c353eb63, -1),
    ("exp", 0x3fe91eb851eb851f, 0x0, 0x3ff18a0ca66fc7d4, 0xbc743e6a742ebd01, 1),
    ("sinh", 0x3fe91eb851eb851f, 0x0, 0x3ffbc7d520bbdf25, 0x3c92250b7a345ae5, -1),
    ("cosh", 0x3fe91eb851eb851f, 0x0, 0x3ff5302ebc81a015, 0x3c899c8a119ce81a, 0),
    ("sin", 0x3fe91eb851eb851f, 0x0, 0x3ff69e4fd79ac743, 0xbc83a831ffc5c93c, -1),
    ("cos", 0x3fe91eb851eb851f, 0x0, 0x3ff6a2ecb934b59a, 0xbc8f3738e2bed1bc, -1),
    ("tan", 0x3fe91eb851eb851f, 0x0, 0x3ffff97aa571156e, 0x3c94ec783dab5f0f, -1),
    ("exp", 0xbfe91eb851eb851f, 0x0, 0x3ffd3110b08ec20a, 0x3c8dddfa5da234d3, -2),
    ("sinh", 0xbfe91eb851eb851f, 0x0, 0xbffbc7d520bbdf25, 0xbc92250b7a345ae5, -1),
    ("cosh", 0xbfe91eb851eb851f, 0x0, 0x3ff5302ebc81a015, 0x3c899c8a119ce81a, 0),
    ("sin", 0xbfe91eb851eb851f, 0x0, 0xbff69e4fd79ac743, 0x3c83a831ffc5c93c, -1),
    ("cos", 0xbfe91eb851eb851f, 0x0, 0x3ff6a2ecb934b59a, 0xbc8f3738e2bed1bc, -1),
    ("tan", 0xbfe91eb851eb851f, 0x0, 0xbffff97aa571156e, 0xbc94ec783dab5f0f, -1),
    ("asin", 0x3fe91eb851eb851f, 0x0, 0x3ffce2e2fcfb4e35, 0x3c92e977462de12f, -1),
    ("asin", 0xbfe91eb851eb851f, 0x0, 0xbffce2e2fcfb4e35, 0xbc92e977462de12f, -1),
    ("ln", 0x3fe91eb851eb851f, 0x0, 0xbffefc336f527edf, 0x3c87157c8ba25a17, -3),
    ("sqrt", 0x3fe91eb851eb851f, 0x0, 0x3ffc5a2167edbdcd, 0x3c9ad020cfac262f, -1),
    ("exp", 0x3fe921fb54442d18, 0x0, 0x3ff18bd669471caa, 0x3c956171c730ca9e, 1),
    ("sinh", 0x3fe921fb54442d18, 0x0, 0x3ffbcc270b522736, 0x3c96e1790ecd8e5d, -1),
    ("cosh", 0x3fe921fb54442d18, 0x0, 0x3ff531994ce525b9, 0x3c9f522706face0e, 0),
    ("sin", 0x3fe921fb54442d18, 0x0, 0x3ff6a09e667f3bcc, 0x3c97a7fb8d4bd43f, -1),
    ("cos", 0x3fe921fb54442d18, 0x0, 0x3ff6a09e667f3bcd, 0xbc8ec4c7696139d5, -1),
    ("tan", 0x3fe921fb54442d18, 0x0, 0x3fffffffffffffff, 0x3c9cb3b399d747f3, -1),
    ("exp", 0xbfe921fb54442d18, 0x0, 0x3ffd2e171cf04879, 0x3c8f0b53fca03700, -2),
    ("sinh", 0xbfe921fb54442d18, 0x0, 0xbffbcc270b522736, 0xbc96e1790ecd8e5d, -1),
    ("cosh", 0xbfe921fb54442d18, 0x0, 0x3ff531994ce525b9, 0x3c9f522706face0e, 0),
    ("sin", 0xbfe921fb54442d18, 0x0, 0xbff6a09e667f3bcc, 0xbc97a7fb8d4bd43f, -1),
    ("cos", 0xbfe921fb54442d18, 0x0, 0x3ff6a09e667f3bcd, 0xbc8ec4c7696139d5, -1),
    ("tan", 0xbfe921fb54442d18, 0x0, 0xbfffffffffffffff, 0xbc9cb3b399d747f3, -1),
    ("asin", 0x3fe921fb54442d18, 0x0, 0x3ffce8276c3e139c, 0x3c9fbaae0dbf1375, -1),
    ("asin", 0xbfe921fb54442d18, 0x0, 0xbffce8276c3e139c, 0xbc9fbaae0dbf1375, -1),
    ("ln", 0x3fe921fb54442d18, 0x0, 0xbffeeb95b094c193, 0x3c92d6bb07d01847, -3),
    ("sqrt", 0x3fe921fb54442d18, 0x0, 0x3ffc5bf891b4ef6a, 0x3c9ff1f704733e55, -1),
    ("exp", 0x3fe947ae147ae148, 0x0, 0x3ff1a08e4e3723e4, 0xbc97af0a52001dd5, 1),
    ("sinh", 0x3fe947ae147ae148, 0x0, 0x3ffbfe29d9db1eaf, 0xbc98e3b4c294a6c5, -1),
    ("cosh", 0x3fe947ae147ae148, 0x0, 0x3ff54207af80b870, 0xbc6761d215af423f, 0),
    ("sin", 0x3fe947ae147ae148, 0x0, 0x3ff6bb36c9347c8e, 0x3c8442c1cebb6cc1, -1),
    ("cos", 0x3fe947ae147ae148, 0x0, 0x3ff685e69c8569af, 0x3c50c29e067fdd67, -1),
    ("tan", 0x3fe947ae147ae148, 0x0, 0x3ff025df6fa369bf, 0x3c968067375e8937, 0),
    ("exp", 0xbfe947ae147ae148, 0x0, 0x3ffd0bcb0a4ca463, 0xbc99e97f85ae5395, -2),
    ("sinh", 0xbfe947ae147ae148, 0x0, 0xbffbfe29d9db1eaf, 0x3c98e3b4c294a6c5, -1),
    ("cosh", 0xbfe947ae147ae148, 0x0, 0x3ff54207af80b870, 0xbc6761d215af423f, 0),
    ("sin", 0xbfe947ae147ae148, 0x0, 0xbff6bb36c9347c8e, 0xbc8442c1cebb6cc1, -1),
    ("cos", 0xbfe947ae147ae148, 0x0, 0x3ff685e69c8569af, 0x3c50c29e067fdd67, -1),
    ("tan", 0xbfe947ae147ae148, 0x0, 0xbff025df6fa369bf, 0xbc968067375e8937, 0),
    ("asin", 0x3fe947ae147ae148, 0x0, 0x3ffd2558e9188dec, 0xbc99290d35a8431c, -1),
    ("asin", 0xbfe947ae147ae148, 0x0, 0xbffd2558e9188dec, 0x3c99290d35a8431c, -1),
    ("ln", 0x3fe947ae147ae148, 0x0, 0xbffe2c2640b4744f, 0x3c7f4b992c550b12, -3),
    ("sqrt", 0x3fe947ae147ae148, 0x0, 0x3ffc71357849271a, 0xbc7120d057b9e8ce, -1),
    ("exp", 0x3fefae147ae147ae, 0x0, 0x3ff587a5f064dcf9, 0x3c9eaaab0cf83e98, 1),
    ("sinh", 0x3fefae147ae147ae, 0x0, 0x3ff28ea8bd25b2d2, 0x3c571731234d8879, 0),
    ("cosh", 0x3fefae147ae147ae, 0x0, 0x3ff880a323a40721, 0xbc707073e1116d5d, 0),
    ("sin", 0x3fefae147ae147ae, 0x0, 0x3ffac0b98d96429d, 0xbc7e7eeb17ff7855, -1),
    ("cos", 0x3fefae147ae147ae, 0x0, 0x3ff18ede09db07ee, 0x3c9ea4fe6eaabd64, -1),
    ("tan", 0x3fefae147ae147ae, 0x0, 0x3ff860fadcc59064, 0x3c91e4b4fd692533, 0),
    ("exp", 0xbfefae147ae147ae, 0x0, 0x3ff7c7e999f9513c, 0xbc96364029e4cf7b, -2),
    ("sinh", 0xbfefae147ae147ae, 0x0, 0xbff28ea8bd25b2d2, 0xbc571731234d8879, 0),
    ("cosh", 0xbfefae147ae147ae, 0x0, 0x3ff880a323a40721, 0xbc707073e1116d5d, 0),
    ("sin", 0xbfefae147ae147ae, 0x0, 0xbffac0b98d96429d, 0x3c7e7eeb17ff7855, -1),
    ("cos", 0xbfefae147ae147ae, 0x0, 0x3ff18ede09db07ee, 0x3c9ea4fe6eaabd64, -1),
    ("tan", 0xbfefae147ae147ae, 0x0, 0xbff860fadcc59064, 0xbc91e4b4fd692533, 0),
    ("asin", 0x3fefae147ae147ae, 0x0, 0x3ff6de3c6f33d51d, 0x3c93ea3fef97267d, 0),
    ("asin", 0xbfefae147ae147ae, 0x0, 0xbff6de3c6f33d51d, 0xbc93ea3fef97267d, 0),
    ("ln", 0x3fefae147ae147ae, 0x0, 0xbff495453e6fd4bc, 0x3c9004bec099ed61, -7),
    ("sqrt", 0x3fefae147ae147ae, 0x0, 0x3fffd6efe4c9b8a5, 0xbc8135f48b7eecd4, -1),
    ("exp", 0x3ff0000000000000, 0x0, 0x3ff5bf0a8b145769, 0x3c94d57ee2b1013a, 1),
    ("sinh", 0x3ff0000000000000, 0x0, 0x3ff2cd9fc44eb982, 0x3c96a0092521fc19, 0),
    ("cosh", 0x3ff0000000000000, 0x0, 0x3ff8b07551d9f550, 0x3c930af4a040065b, 0),
    ("sin", 0x3ff0000000000000, 0x0, 0x3ffaed548f090cee, 0x3c506374f484e288, -1),
    ("cos", 0x3ff0000000000000, 0x0, 0x3ff14a280fb5068c, 0xbc9b71edcc9344bc, -1),
    ("tan", 0x3ff0000000000000, 0x0, 0x3ff8eb245cbee3a6, 0xbc91d4ce0afb373b, 0),
    ("exp", 0xbff0000000000000, 0x0, 0x3ff78b56362cef38, 0xbc8ca8a4270fadf5, -2),
    ("sinh", 0xbff0000000000000, 0x0, 0xbff2cd9fc44eb982, 0xbc96a0092521fc19, 0),
    ("cosh", 0xbff0000000000000, 0x0, 0x3ff8b07551d9f550, 0x3c930af4a040065b, 0),
    ("sin", 0xbff0000000000000, 0x0, 0xbffaed548f090cee, 0xbc506374f484e288, -1),
    ("cos", 0xbff0000000000000, 0x0, 0x3ff14a280fb5068c, 0xbc9b71edcc9344bc, -1),
    ("tan", 0xbff0000000000000, 0x0, 0xbff8eb245cbee3a6, 0x3c91d4ce0afb373b, 0),
    ("asin", 0x3ff0000000000000, 0x0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("asin", 0xbff0000000000000, 0x0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("ln", 0x3ff0000000000000, 0x0, 0x0, 0x0, 0),
    ("sqrt", 0x3ff0000000000000, 0x0, 0x3ff0000000000000, 0x0, 0),
    ("exp", 0x3ff000001ad7f29b, 0x0, 0x3ff5bf0aaf904984, 0xbc8cd1710bdb2003, 1),
    ("sinh", 0x3ff000001ad7f29b, 0x0, 0x3ff2cd9fedbab1c6, 0x3c9ac243cadf68e3, 0),
    ("cosh", 0x3ff000001ad7f29b, 0x0, 0x3ff8b0757165e141, 0x3c80d896528aee33, 0),
    ("sin", 0x3ff000001ad7f29b, 0x0, 0x3ffaed54ac0ae885, 0x3c7425a7d2a7a349, -1),
    ("cos", 0x3ff000001ad7f29b, 0x0, 0x3ff14a27e287efa0, 0x3c72203a7b157f8a, -1),
    ("tan", 0x3ff000001ad7f29b, 0x0, 0x3ff8eb24b8b2e107, 0x3c9886df46034868, 0),
    ("exp", 0xbff000001ad7f29b, 0x0, 0x3ff78b560eacbdeb, 0xbc82afc50ccf8e4e, -2),
    ("sinh", 0xbff000001ad7f29b, 0x0, 0xbff2cd9fedbab1c6, 0xbc9ac243cadf68e3, 0),
    ("cosh", 0xbff000001ad7f29b, 0x0, 0x3ff8b0757165e141, 0x3c80d896528aee33, 0),
    ("sin", 0xbff000001ad7f29b, 0x0, 0xbffaed54ac0ae885, 0xbc7425a7d2a7a349, -1),
    ("cos", 0xbff000001ad7f29b, 0x0, 0x3ff14a27e287efa0, 0x3c72203a7b157f8a, -1),
    ("tan", 0xbff000001ad7f29b, 0x0, 0xbff8eb24b8b2e107, 0xbc9886df46034868, 0),
    ("ln", 0x3ff000001ad7f29b, 0x0, 0x3ffad7f2847b6492, 0x3c7d7f4a57fcf3dd, -24),
    ("sqrt", 0x3ff000001ad7f29b, 0x0, 0x3ff000000d6bf948, 0xbc80936e85cceaff, 0),
    ("exp", 0x3ff6666666666666, 0x0, 0x3ff0388657115a47, 0xbc96acdf2d8190ab, 2),
    ("sinh", 0x3ff6666666666666, 0x0, 0x3ffe7804d9e7541c, 0xbc657c0217c4c715, 0),
    ("cosh", 0x3ff6666666666666, 0x0, 0x3ff1350a412f0a7f, 0x3c93fe01c6792b1b, 1),
    ("sin", 0x3ff6666666666666, 0x0, 0x3fff88cddf44e102, 0x3c895e70f85399ea, -1),
    ("cos", 0x3ff6666666666666, 0x0, 0x3ff5c17bbc13570b, 0xbc96fa764a9798a1, -3),
    ("tan", 0x3ff6666666666666, 0x0, 0x3ff731086dc00a35, 0xbc932648716c79ca, 2),
    ("exp", 0xbff6666666666666, 0x0, 0x3fff907d43b60715, 0x3c955c1e7f5778c0, -3),
    ("sinh", 0xbff6666666666666, 0x0, 0xbffe7804d9e7541c, 0x3c657c0217c4c715, 0),
    ("cosh", 0xbff6666666666666, 0x0, 0x3ff1350a412f0a7f, 0x3c93fe01c6792b1b, 1),
    ("sin", 0xbff6666666666666, 0x0, 0xbfff88cddf44e102, 0xbc895e70f85399ea, -1),
    ("cos", 0xbff6666666666666, 0x0, 0x3ff5c17bbc13570b, 0xbc96fa764a9798a1, -3),
    ("tan", 0xbff6666666666666, 0x0, 0xbff731086dc00a35, 0x3c932648716c79ca, 2),
    ("ln", 0x3ff6666666666666, 0x0, 0x3ff588c2d913348f, 0xbc9fb3207a09005e, -2),
    ("sqrt", 0x3ff6666666666666, 0x0, 0x3ff2ee73dadc9b57, 0xbc683c91cb9f560c, 0),
    ("exp", 0x3ff6a09e65dc27df, 0x0, 0x3ff073f7e79cd58a, 0x3c9b5bb520ef1466, 2),
    ("sinh", 0x3ff6a09e65dc27df, 0x0, 0x3ffef6089f69cd7c, 0x3c5b5b37d9168bf7, 0),
    ("cosh", 0x3ff6a09e65dc27df, 0x0, 0x3ff16ceb7f84c457, 0xbc8446def9d51726, 1),
    ("sin", 0x3ff6a09e65dc27df, 0x0, 0x3fff9bc75411a8e3, 0x3c989a9fc22ebea1, -1),
    ("cos", 0x3ff6a09e65dc27df, 0x0, 0x3ff3f5f68b8d1a2b, 0xbc97811b161d70f6, -3),
    ("tan", 0x3ff6a09e65dc27df, 0x0, 0x3ff956234f312b12, 0xbc7396d255d71921, 2),
    ("exp", 0xbff6a09e65dc27df, 0x0, 0x3fff1e72fcfdd98d, 0x3c901b6c44cc00d4, -3),
    ("sinh", 0xbff6a09e65dc27df, 0x0, 0xbffef6089f69cd7c, 0xbc5b5b37d9168bf7, 0),
    ("cosh", 0xbff6a09e65dc27df, 0x0, 0x3ff16ceb7f84c457, 0xbc8446def9d51726, 1),
    ("sin", 0xbff6a09e65dc27df, 0x0, 0xbfff9bc75411a8e3, 0xbc989a9fc22ebea1, -1),
    ("cos", 0xbff6a09e65dc27df, 0x0, 0x3ff3f5f68b8d1a2b, 0xbc97811b161d70f6, -3),
    ("tan", 0xbff6a09e65dc27df, 0x0, 0xbff956234f312b12, 0x3c7396d255d71921, 2),
    ("ln", 0x3ff6a09e65dc27df, 0x0, 0x3ff62e42fd2cf8f6, 0x3c97cf761af23b56, -2),
    ("sqrt", 0x3ff6a09e65dc27df, 0x0, 0x3ff306fe09ed263e, 0xbc8f5e3f7813a17c, 0),
    ("exp", 0x3ff6b851eb851eb8, 0x0, 0x3ff08c694cf9f8ae, 0x3c968ac4d13e4d33, 2),
    ("sinh", 0x3ff6b851eb851eb8, 0x0, 0x3fff29cad7c77b79, 0x3c7d075db4e65635, 0),
    ("cosh", 0x3ff6b851eb851eb8, 0x0, 0x3ff183ed2e1033a0, 0x3c82e93bd7bf9f40, 1),
    ("sin", 0x3ff6b851eb851eb8, 0x0, 0x3fffa3090592969a, 0x3c985cd494f96f59, -1),
    ("cos", 0x3ff6b851eb851eb8, 0x0, 0x3ff33a9694260190, 0x3c8912e53fd95f74, -3),
    ("tan", 0x3ff6b851eb851eb8, 0x0, 0x3ffa5310fa8db1c8, 0xbc9221211897cbe1, 2),
    ("exp", 0xbff6b851eb851eb8, 0x0, 0x3ffef07c22c75e39, 0x3c9d3b2354304d96, -3),
    ("sinh", 0xbff6b851eb851eb8, 0x0, 0xbfff29cad7c77b79, 0xbc7d075db4e65635, 0),
    ("cosh", 0xbff6b851eb851eb8, 0x0, 0x3ff183ed2e1033a0, 0x3c82e93bd7bf9f40, 1),
    ("sin", 0xbff6b851eb851eb8, 0x0, 0xbfffa3090592969a, 0xbc985cd494f96f59, -1),
    ("cos", 0xbff6b851eb851eb8, 0x0, 0x3ff33a9694260190, 0x3c8912e53fd95f74, -3),
    ("tan", 0xbff6b851eb851eb8, 0x0, 0xbffa5310fa8db1c8, 0x3c9221211897cbe1, 2),
    ("ln", 0x3ff6b851eb851eb8, 0x0, 0x3ff6712984ec8f15, 0xbc93acc7bbe0b21b, -2),
    ("sqrt", 0x3ff6b851eb851eb8, 0x0, 0x3ff310f2836cd4ba, 0x3c9e368215cee39c, 0),
    ("exp", 0x3ff8000000000000, 0x0, 0x3ff1ed3fe64fc541, 0x3c95f6e4658d43ea, 2),
    ("sinh", 0x3ff8000000000000, 0x0, 0x3ff108c3aabd6a60, 0x3c9b2e0c934155c9, 1),
    ("cosh", 0x3ff8000000000000, 0x0, 0x3ff2d1bc21e22022, 0x3c90bfbc37d9320b, 1),
    ("sin", 0x3ff8000000000000, 0x0, 0x3fffeb7a9b2c6d8b, 0xbc80c8f40129a886, -1),
    ("cos", 0x3ff8000000000000, 0x0, 0x3ff21bd54fc5f9a7, 0x3c90fcb936b1ce7e, -4),
    ("tan", 0x3ff8000000000000, 0x0, 0x3ffc33ed50b88777, 0x3c9697584f023122, 3),
    ("exp", 0xbff8000000000000, 0x0, 0x3ffc8f87724b5c1d, 0x3c991afa497dc416, -3),
    ("sinh", 0xbff8000000000000, 0x0, 0xbff108c3aabd6a60, 0xbc9b2e0c934155c9, 1),
    ("cosh", 0xbff8000000000000, 0x0, 0x3ff2d1bc21e22022, 0x3c90bfbc37d9320b, 1),
    ("sin", 0xbff8000000000000, 0x0, 0xbfffeb7a9b2c6d8b, 0x3c80c8f40129a886, -1),
    ("cos", 0xbff8000000000000, 0x0, 0x3ff21bd54fc5f9a7, 0x3c90fcb936b1ce7e, -4),
    ("tan", 0xbff8000000000000, 0x0, 0xbffc33ed50b88777, 0xbc9697584f023122, 3),
    ("ln", 0x3ff8000000000000, 0x0, 0x3ff9f323ecbf984c, 0xbc6a92e513217f5c, -2),
    ("sqrt", 0x3ff8000000000000, 0x0, 0x3ff3988e1409212e, 0x3c9f40c86450c869, 0),
    ("exp", 0x3ff921fb54442d18, 0x0, 0x3ff33dedc855935f, 0xbc55542a1cc4b01f, 2),
    ("sinh", 0x3ff921fb54442d18, 0x0, 0x3ff2690f661dd820, 0xbc46dd8fea35ad1d, 1),
    ("cosh", 0x3ff921fb54442d18, 0x0, 0x3ff412cc2a8d4e9e, 0xbc5f398c446e89b0, 1),
    ("sin", 0x3ff921fb54442d18, 0x0, 0x4000000000000000, 0xb93377ce858a5d48, -1),
    ("cos", 0x3ff921fb54442d18, 0x0, 0x3ff1a62633145c07, 0xbc7f1976b7ed8fbc, -54),
    ("tan", 0x3ff921fb54442d18, 0x0, 0x3ffd02967c31cdb5, 0xbc7f3c72fe49aa2a, 53),
    ("exp", 0xbff921fb54442d18, 0x0, 0x3ffa9bcc46f767e0, 0xbc93cac44f53b321, -3),
    ("sinh", 0xbff921fb54442d18, 0x0, 0xbff2690f661dd820, 0x3c46dd8fea35ad1d, 1),
    ("cosh", 0xbff921fb54442d18, 0x0, 0x3ff412cc2a8d4e9e, 0xbc5f398c446e89b0, 1),
    ("sin", 0xbff921fb54442d18, 0x0, 0xc000000000000000, 0x393377ce858a5d48, -1),
    ("cos", 0xbff921fb54442d18, 0x0, 0x3ff1a62633145c07, 0xbc7f1976b7ed8fbc, -54),
    ("tan", 0xbff921fb54442d18, 0x0, 0xbffd02967c31cdb5, 0x3c7f3c72fe49aa2a, 53),
    ("ln", 0x3ff921fb54442d18, 0x0, 0x3ffce6bb25aa1315, 0x3c709feefc86318b, -2),
    ("sqrt", 0x3ff921fb54442d18, 0x0, 0x3ff40d931ff62705, 0x3c9e8b777df21fb7, 0),
    ("exp", 0x4000000000000000, 0x0, 0x3ffd8e64b8d4ddae, 0xbc89e62e22efca4c, 2),
    ("sinh", 0x4000000000000000, 0x0, 0x3ffd03cf63b6e19f, 0x3c9bcd3200b25880, 1),
    ("cosh", 0x4000000000000000, 0x0, 0x3ffe18fa0df2d9bc, 0x3c84993fb8bbba68, 1),
    ("sin", 0x4000000000000000, 0x0, 0x3ffd18f6ead1b446, 0xbc802a3dbf3bffb2, -1),
    ("cos", 0x4000000000000000, 0x0, 0xbffaa22657537205, 0x3c96f3341d4d1235, -2),
    ("tan", 0x4000000000000000, 0x0, 0xbff17af62e0950f8, 0xbc8da84c843d57b4, 1),
    ("exp", 0xc000000000000000, 0x0, 0x3ff152aaa3bf81cc, 0xbc9809224547b4bf, -3),
    ("sinh", 0xc000000000000000, 0x0, 0xbffd03cf63b6e19f, 0xbc9bcd3200b25880, 1),
    ("cosh", 0xc000000000000000, 0x0, 0x3ffe18fa0df2d9bc, 0x3c84993fb8bbba68, 1),
    ("sin", 0xc000000000000000, 0x0, 0xbffd18f6ead1b446, 0x3c802a3dbf3bffb2, -1),
    ("cos", 0xc000000000000000, 0x0, 0xbffaa22657537205, 0x3c96f3341d4d1235, -2),
    ("tan", 0xc000000000000000, 0x0, 0x3ff17af62e0950f8, 0x3c8da84c843d57b4, 1),
    ("ln", 0x4000000000000000, 0x0, 0x3ff62e42fefa39ef, 0x3c8abc9e3b39803f, -1),
    ("sqrt", 0x4000000000000000, 0x0, 0x3ff6a09e667f3bcd, 0xbc9bdd3413b26456, 0),
    ("exp", 0x4004000000000000, 0x0, 0x3ff85d6fd931e0bb, 0x3c7d4dec34de84a0, 3),
    ("sinh", 0x4004000000000000, 0x0, 0x3ff83368cdb0b6d3, 0xbc8600682dc56987, 2),
    ("cosh", 0x4004000000000000, 0x0, 0x3ff88776e4b30aa3, 0x3c99a72a3151f713, 2),
    ("sin", 0x4004000000000000, 0x0, 0x3ff326af0dcfcab1, 0xbc9fd42734161659, -1),
    ("cos", 0x4004000000000000, 0x0, 0xbff9a2f7ef858b7d, 0xbc8587cfaa17e973, -1),
    ("tan", 0x4004000000000000, 0x0, 0xbff7e79b4e00bb15, 0x3c94d92ddff31690, -1),
    ("exp", 0xc004000000000000, 0x0, 0x3ff50385c094f425, 0xbc96286df2d50a3f, -4),
    ("sinh", 0xc004000000000000, 0x0, 0xbff83368cdb0b6d3, 0x3c8600682dc56987, 2),
    ("cosh", 0xc004000000000000, 0x0, 0x3ff88776e4b30aa3, 0x3c99a72a3151f713, 2),
    ("sin", 0xc004000000000000, 0x0, 0xbff326af0dcfcab1, 0x3c9fd42734161659, -1),
    ("cos", 0xc004000000000000, 0x0, 0xbff9a2f7ef858b7d, 0xbc8587cfaa17e973, -1),
    ("tan", 0xc004000000000000, 0x0, 0x3ff7e79b4e00bb15, 0xbc94d92ddff31690, -1),
    ("ln", 0x4004000000000000, 0x0, 0x3ffd5240f0e0e078, 0xbc97df5360740fe5, -1),
    ("sqrt", 0x4004000000000000, 0x0, 0x3ff94c583ada5b53, 0xbc9b7ed750df3cca, 0),
    ("exp", 0x4008000000000000, 0x0, 0x3ff415e5bf6fb106, 0xbc6a568407591768, 4),
    ("sinh", 0x4008000000000000, 0x0, 0x3ff40926e70949ae, 0xbc9923f985ab875f, 3),
    ("cosh", 0x4008000000000000, 0x0, 0x3ff422a497d6185e, 0x3c928e5883d54185, 3),
    ("sin", 0x4008000000000000, 0x0, 0x3ff210386db6d55b, 0x3c93c7205d08d063, -3),
    ("cos", 0x4008000000000000, 0x0, 0xbfffae04be85e5d2, 0xbc983effc17efb54, -1),
    ("tan", 0x4008000000000000, 0x0, 0xbff23ef71254b86f, 0xbc6996164fbff0a8, -3),
    ("exp", 0xc008000000000000, 0x0, 0x3ff97db0ccceb0af, 0xbc8b5becfe6e37bf, -5),
    ("sinh", 0xc008000000000000, 0x0, 0xbff40926e70949ae, 0x3c9923f985ab875f, 3),
    ("cosh", 0xc008000000000000, 0x0, 0x3ff422a497d6185e, 0x3c928e5883d54185, 3),
    ("sin", 0xc008000000000000, 0x0, 0xbff210386db6d55b, 0xbc93c7205d08d063, -3),
    ("cos", 0xc008000000000000, 0x0, 0xbfffae04be85e5d2, 0xbc983effc17efb54, -1),
    ("tan", 0xc008000000000000, 0x0, 0x3ff23ef71254b86f, 0x3c6996164fbff0a8, -3),
    ("ln", 0x4008000000000000, 0x0, 0x3ff193ea7aad030b, 0xbc9a256f99caabeb, 0),
    ("sqrt", 0x4008000000000000, 0x0, 0x3ffbb67ae8584caa, 0x3c9cec95d0b5c1e3, 0),
    ("exp", 0x400921fb54442d18, 0x0, 0x3ff724046eb09339, 0xbc86b372e7bb60c0, 4),
    ("sinh", 0x400921fb54442d18, 0x0, 0x3ff718f45d72e671, 0x3c9573b2c005c5e7, 3),
    ("cosh", 0x400921fb54442d18, 0x0, 0x3ff72f147fee4000, 0x3c93d8da583ed958, 3),
    ("sin", 0x400921fb54442d18, 0x0, 0x3ff1a62633145c07, 0xbc7f1976b7ed8fbd, -53),
    ("cos", 0x400921fb54442d18, 0x0, 0xc000000000000000, 0x395377ce858a5d48, -1),
    ("tan", 0x400921fb54442d18, 0x0, 0xbff1a62633145c07, 0x3c7f1976b7ed8fba, -53),
    ("exp", 0xc00921fb54442d18, 0x0, 0x3ff620227b598efa, 0xbc9ad867c6ec8ee9, -5),
    ("sinh", 0xc00921fb54442d18, 0x0, 0xbff718f45d72e671, 0xbc9573b2c005c5e7, 3),
    ("cosh", 0xc00921fb54442d18, 0x0, 0x3ff72f147fee4000, 0x3c93d8da583ed958, 3),
    ("sin", 0xc00921fb54442d18, 0x0, 0xbff1a62633145c07, 0x3c7f1976b7ed8fbd, -53),
    ("cos", 0xc00921fb54442d18, 0x0, 0xc000000000000000, 0x395377ce858a5d48, -1),
    ("tan", 0xc00921fb54442d18, 0x0, 0x3ff1a62633145c07, 0xbc7f1976b7ed8fba, -53),
    ("ln", 0x400921fb54442d18, 0x0, 0x3ff250d048e7a1bd, 0xbc808db302d279af, 0),
    ("sqrt", 0x400921fb54442d18, 0x0, 0x3ffc5bf891b4ef6a, 0x3c9ff1f704733e55, 0),
    ("exp", 0x4010000000000000, 0x0, 0x3ffb4c902e273a58, 0x3c99e35b4eff6e4f, 5),
    ("sinh", 0x4010000000000000, 0x0, 0x3ffb4a3803703631, 0xbc8b80c7ecf1368d, 4),
    ("cosh", 0x4010000000000000, 0x0, 0x3ffb4ee858de3e80, 0x3c5871a947777e58, 4),
    ("sin", 0x4010000000000000, 0x0, 0xbff837b9dddc1eae, 0xbc9c33a601568391, -1),
    ("cos", 0x4010000000000000, 0x0, 0xbff4eaa606db24c1, 0x3c8dcc92f1e91c23, -1),
    ("tan", 0x4010000000000000, 0x0, 0x3ff2866f9be4de13, 0x3c9c36e41e181c05, 0),
    ("exp", 0xc010000000000000, 0x0, 0x3ff2c155b8213cf4, 0x3c9dfa2bc04cb0ac, -6),
    ("sinh", 0xc010000000000000, 0x0, 0xbffb4a3803703631, 0x3c8b80c7ecf1368d, 4),
    ("cosh", 0xc010000000000000, 0x0, 0x3ffb4ee858de3e80, 0x3c5871a947777e58, 4),
    ("sin", 0xc010000000000000, 0x0, 0x3ff837b9dddc1eae, 0x3c9c33a601568391, -1),
    ("cos", 0xc010000000000000, 0x0, 0xbff4eaa606db24c1, 0x3c8dcc92f1e91c23, -1),
    ("tan", 0xc010000000000000, 0x0, 0xbff2866f9be4de13, 0xbc9c36e41e181c05, 0),
    ("ln", 0x4010000000000000, 0x0, 0x3ff62e42fefa39ef, 0x3c8abc9e3b39803f, 0),
    ("sqrt", 0x4010000000000000, 0x0, 0x3ff0000000000000, 0x0, 1),
    ("exp", 0x4012d97c7f3321d2, 0x0, 0x3ffbd4567b975380, 0xbc919d8f70e011d0, 6),
    ("sinh", 0x4012d97c7f3321d2, 0x0, 0x3ffbd3c34cf00a24, 0x3c9729c3e5333c89, 5),
    ("cosh", 0x4012d97c7f3321d2, 0x0, 0x3ffbd4e9aa3e9cdb, 0x3c766c74e4327f5e, 5),
    ("sin", 0x4012d97c7f3321d2, 0x0, 0xc000000000000000, 0x3965e6c8563ba8f1, -1),
    ("cos", 0x4012d97c7f3321d2, 0x0, 0xbffa79394c9e8a0a, 0xbc9456737b06ea19, -53),
    ("tan", 0x4012d97c7f3321d2, 0x0, 0x3ff3570efd768923, 0x3c90209780490e4d, 52),
    ("exp", 0xc012d97c7f3321d2, 0x0, 0x3ff265d4e92b6b9c, 0x3c95953d9634e4ce, -7),
    ("sinh", 0xc012d97c7f3321d2, 0x0, 0xbffbd3c34cf00a24, 0xbc9729c3e5333c89, 5),
    ("cosh", 0xc012d97c7f3321d2, 0x0, 0x3ffbd4e9aa3e9cdb, 0x3c766c74e4327f5e, 5),
    ("sin", 0xc012d97c7f3321d2, 0x0, 0x4000000000000000, 0xb965e6c8563ba8f1, -1),
    ("cos", 0xc012d97c7f3321d2, 0x0, 0xbffa79394c9e8a0a, 0xbc9456737b06ea19, -53),
    ("tan", 0xc012d97c7f3321d2, 0x0, 0xbff3570efd768923, 0xbc90209780490e4d, 52),
    ("ln", 0x4012d97c7f3321d2, 0x0, 0x3ff8cd99441787d0, 0xbc8236e1540491a5, 0),
    ("sqrt", 0x4012d97c7f3321d2, 0x0, 0x3ff15dce5d1822cc, 0x3c98631693e8aa9c, 1),
    ("exp", 0x4016000000000000, 0x0, 0x3ffe96244f21bbf6, 0x3c8298c834010b39, 7),
    ("sinh", 0x4016000000000000, 0x0, 0x3ffe9602d48d0661, 0x3c8b70532faf0cf9, 6),
    ("cosh", 0x4016000000000000, 0x0, 0x3ffe9645c9b6718b, 0x3c73827a70a612f3, 6),
    ("sin", 0x4016000000000000, 0x0, 0xbff693c94e0ab057, 0x3c849447d34a5e8b, -1),
    ("cos", 0x4016000000000000, 0x0, 0x3ff6ad6c3c07d448, 0x3c7598876a8e32fa, -1),
    ("tan", 0x4016000000000000, 0x0, 0xbfffdbd31615b07a, 0x3c212a7ba1c45004, -1),
    ("exp", 0xc016000000000000, 0x0, 0x3ff0bd4a5aca7728, 0x3c9d41147f900b29, -8),
    ("sinh", 0xc016000000000000, 0x0, 0xbffe9602d48d0661, 0xbc8b70532faf0cf9, 6),
    ("cosh", 0xc016000000000000, 0x0, 0x3ffe9645c9b6718b, 0x3c73827a70a612f3, 6),
    ("sin", 0xc016000000000000, 0x0, 0x3ff693c94e0ab057, 0xbc849447d34a5e8b, -1),
    ("cos", 0xc016000000000000, 0x0, 0x3ff6ad6c3c07d448, 0x3c7598876a8e32fa, -1),
    ("tan", 0xc016000000000000, 0x0, 0x3fffdbd31615b07a, 0xbc212a7ba1c45004, -1),
    ("ln", 0x4016000000000000, 0x0, 0x3ffb46a5ef8151a0, 0xbc85a1f25dd01832, 0),
    ("sqrt", 0x4016000000000000, 0x0, 0x3ff2c2fc595456a7, 0xbc896f60b0fc7e96, 1),
    ("exp", 0x401921fb54442d18, 0x0, 0x3ff0bbeee9177e18, 0xbc65b2c0f596b28e, 9),
    ("sinh", 0x401921fb54442d18, 0x0, 0x3ff0bbeb1603926a, 0x3c8a9d72a9360ba1, 8),
    ("cosh", 0x401921fb54442d18, 0x0, 0x3ff0bbf2bc2b69c6, 0xbc92bb699200b274, 8),
    ("sin", 0x401921fb54442d18, 0x0, 0xbff1a62633145c07, 0x3c7f1976b7ed8fbf, -52),
    ("cos", 0x401921fb54442d18, 0x0, 0x4000000000000000, 0xb97377ce858a5d48, -1),
    ("tan", 0x401921fb54442d18, 0x0, 0xbff1a62633145c07, 0x3c7f1976b7ed8fb5, -52),
    ("exp", 0xc01921fb54442d18, 0x0, 0x3ffe989f5d6dff5e, 0xbc8734ddc223b5eb, -10),
    ("sinh", 0xc01921fb54442d18, 0x0, 0xbff0bbeb1603926a, 0xbc8a9d72a9360ba1, 8),
    ("cosh", 0xc01921fb54442d18, 0x0, 0x3ff0bbf2bc2b69c6, 0xbc92bb699200b274, 8),
    ("sin", 0xc01921fb54442d18, 0x0, 0x3ff1a62633145c07, 0xbc7f1976b7ed8fbf, -52),
    ("cos", 0xc01921fb54442d18, 0x0, 0x4000000000000000, 0xb97377ce858a5d48, -1),
    ("tan", 0xc01921fb54442d18, 0x0, 0x3ff1a62633145c07, 0xbc7f1976b7ed8fb5, -52),
    ("ln", 0x401921fb54442d18, 0x0, 0x3ffd67f1c864beb4, 0x3c9e684e0d652338, 0),
    ("sqrt", 0x401921fb54442d18, 0x0, 0x3ff40d931ff62705, 0x3c9e8b777df21fb7, 1),
    ("exp", 0x401c000000000000, 0x0, 0x3ff122885aaeddaa, 0x3c9bc7e802a24dec, 10),
    ("sinh", 0x401c000000000000, 0x0, 0x3ff122876ba380c9, 0x3c9274caab6f1eee, 9),
    ("cosh", 0x401c000000000000, 0x0, 0x3ff1228949ba3a8c, 0xbc9ae4faa62a8317, 9),
    ("sin", 0x401c000000000000, 0x0, 0x3ff50608c26d0a08, 0x3c90eea221047ebc, -1),
    ("cos", 0x401c000000000000, 0x0, 0x3ff81ff79ed92017, 0x3c957deb462d4ceb, -1),
    ("tan", 0x401c000000000000, 0x0, 0x3ffbe2e6e13eea79, 0xbc99f741d00a75bd, -1),
    ("exp", 0xc01c000000000000, 0x0, 0x3ffde16b9c24a98f, 0xbc95199a20550217, -11),
    ("sinh", 0xc01c000000000000, 0x0, 0xbff122876ba380c9, 0xbc9274caab6f1eee, 9),
    ("cosh", 0xc01c000000000000, 0x0, 0x3ff1228949ba3a8c, 0xbc9ae4faa62a8317, 9),
    ("sin", 0xc01c000000000000, 0x0, 0xbff50608c26d0a08, 0xbc90eea221047ebc, -1),
    ("cos", 0xc01c000000000000, 0x0, 0x3ff81ff79ed92017, 0x3c957deb462d4ceb, -1),
    ("tan", 0xc01c000000000000, 0x0, 0xbffbe2e6e13eea79, 0x3c99f741d00a75bd, -1),
    ("ln", 0x401c000000000000, 0x0, 0x3fff2272ae325a57, 0x3c951bda525b3c98, 0),
    ("sqrt", 0x401c000000000000, 0x0, 0x3ff52a7fa9d2f8ea, 0xbc921c62b033c079, 1),
    ("exp", 0x4024000000000000, 0x0, 0x3ff5829dcf950560, 0xbc983e055cfea4bb, 14),
    ("sinh", 0x4024000000000000, 0x0, 0x3ff5829dced69992, 0xbc6837f491bad821, 13),
    ("cosh", 0x4024000000000000, 0x0, 0x3ff5829dd053712d, 0x3c928af3d83a118e, 13),
    ("sin", 0x4024000000000000, 0x0, 0xbff1689ef5f34f52, 0xbc9673fd915f0127, -1),
    ("cos", 0x4024000000000000, 0x0, 0xbffad9ac890c6b1f, 0xbc804f7e2a0b9995, -1),
    ("tan", 0x4024000000000000, 0x0, 0x3ff4bf5f34be3782, 0x3c977f56897d2448, -1),
    ("exp", 0xc024000000000000, 0x0, 0x3ff7cd79b5647c9b, 0xbc98e936e2abd9de, -15),
    ("sinh", 0xc024000000000000, 0x0, 0xbff5829dced69992, 0x3c6837f491bad821, 13),
    ("cosh", 0xc024000000000000, 0x0, 0x3ff5829dd053712d, 0x3c928af3d83a118e, 13),
    ("sin", 0xc024000000000000, 0x0, 0x3ff1689ef5f34f52, 0x3c9673fd915f0127, -1),
    ("cos", 0xc024000000000000, 0x0, 0xbffad9ac890c6b1f, 0xbc804f7e2a0b9995, -1),
    ("tan", 0xc024000000000000, 0x0, 0xbff4bf5f34be3782, 0xbc977f56897d2448, -1),
    ("ln", 0x4024000000000000, 0x0, 0x3ff26bb1bbb55516, 0xbc9f48ad494ea3e9, 1),
    ("sqrt", 0x4024000000000000, 0x0, 0x3ff94c583ada5b53, 0xbc9b7ed750df3cca, 1),
    ("exp", 0x4026000000000000, 0x0, 0x3ffd3c4488ee4f7f, 0x3c8f7b8937dac77d, 15),
    ("sinh", 0x4026000000000000, 0x0, 0x3ffd3c4488cb48d7, 0xbc604f78b0a409cd, 14),
    ("cosh", 0x4026000000000000, 0x0, 0x3ffd3c4489115628, 0xbc9e7a87b210b74a, 14),
    ("sin", 0x4026000000000000, 0x0, 0xbfffffeb762e93eb, 0x3c8529c783d7cd82, -1),
    ("cos", 0x4026000000000000, 0x0, 0x3ff220ae41ee2fdf, 0x3c97f17841b97bf3, -8),
    ("tan", 0x4026000000000000, 0x0, 0xbffc3e6d558b0924, 0xbc9b829f064ca7f0, 7),
    ("exp", 0xc026000000000000, 0x0, 0x3ff18354238f6764, 0x3c4e4f7e77977d57, -16),
    ("sinh", 0xc026000000000000, 0x0, 0xbffd3c4488cb48d7, 0x3c604f78b0a409cd, 14),
    ("cosh", 0xc026000000000000, 0x0, 0x3ffd3c4489115628, 0xbc9e7a87b210b74a, 14),
    ("sin", 0xc026000000000000, 0x0, 0x3fffffeb762e93eb, 0xbc8529c783d7cd82, -1),
    ("cos", 0xc026000000000000, 0x0, 0x3ff220ae41ee2fdf, 0x3c97f17841b97bf3, -8),
    ("tan", 0xc026000000000000, 0x0, 0x3ffc3e6d558b0924, 0x3c9b829f064ca7f0, 7),
    ("ln", 0x4026000000000000, 0x0, 0x3ff32ee3b77f374c, 0xbc9210e8d00cd605, 1),
    ("sqrt", 0x4026000000000000, 0x0, 0x3ffa887293fd6f34, 0x3c768ef24f198721, 1),
    ("exp", 0x4034000000000000, 0x0, 0x3ffceb088b68e804, 0x3c40c4bcbfcacce6, 28),
    ("sinh", 0x4034000000000000, 0x0, 0x3ffceb088b68e804, 0xbc5b06ae4c017e5b, 27),
    ("cosh", 0x4034000000000000, 0x0, 0x3ffceb088b68e804, 0x3c65e5b585e625a0, 27),
    ("sin", 0x4034000000000000, 0x0, 0x3ffd36d8f55d3ce0, 0xbc7b6a07f5deb70f, -1),
    ("cos", 0x4034000000000000, 0x0, 0x3ffa1e043964a83f, 0x3c9d15713934c5ff, -2),
    ("tan", 0x4034000000000000, 0x0, 0x3ff1e5b4a31aab84, 0x3c80157647dbae68, 1),
    ("exp", 0xc034000000000000, 0x0, 0x3ff1b48655f37267, 0xbc79fb4baeafe811, -29),
    ("sinh", 0xc034000000000000, 0x0, 0xbffceb088b68e804, 0x3c5b06ae4c017e5b, 27),
    ("cosh", 0xc034000000000000, 0x0, 0x3ffceb088b68e804, 0x3c65e5b585e625a0, 27),
    ("sin", 0xc034000000000000, 0x0, 0xbffd36d8f55d3ce0, 0x3c7b6a07f5deb70f, -1),
    ("cos", 0xc034000000000000, 0x0, 0x3ffa1e043964a83f, 0x3c9d15713934c5ff, -2),
    ("tan", 0xc034000000000000, 0x0, 0xbff1e5b4a31aab84, 0xbc80157647dbae68, 1),
    ("ln", 0x4034000000000000, 0x0, 0x3ff7f7427b73e391, 0x3c940ee67e188c1e, 1),
    ("sqrt", 0x4034000000000000, 0x0, 0x3ff1e3779b97f4a8, 0xbc8f506319fcfd19, 2),
    ("exp", 0x4036000000000000, 0x0, 0x3ffab5adb9c43600, 0xbc9f9132e536ac1e, 31),
    ("sinh", 0x4036000000000000, 0x0, 0x3ffab5adb9c43600, 0xbc9f9ac8899634dd, 30),
    ("cosh", 0x4036000000000000, 0x0, 0x3ffab5adb9c43600, 0xbc9f879d40d7235f, 30),
    ("sin", 0x4036000000000000, 0x0, 0xbff220a29f6eb9f4, 0x3c8504b8bc40d505, -7),
    ("cos", 0x4036000000000000, 0x0, 0xbfffffadd8d4acda, 0xbc3f6b2aa0db6ecd, -1),
    ("tan", 0x4036000000000000, 0x0, 0x3ff220d129b73ef8, 0xbc69d695f2680431, -7),
    ("exp", 0xc036000000000000, 0x0, 0x3ff32b48bf117da2, 0x3c94f3bc17da1645, -32),
    ("sinh", 0xc036000000000000, 0x0, 0xbffab5adb9c43600, 0x3c9f9ac8899634dd, 30),
    ("cosh", 0xc036000000000000, 0x0, 0x3ffab5adb9c43600, 0xbc9f879d40d7235f, 30),
    ("sin", 0xc036000000000000, 0x0, 0x3ff220a29f6eb9f4, 0xbc8504b8bc40d505, -7),
    ("cos", 0xc036000000000000, 0x0, 0xbfffffadd8d4acda, 0xbc3f6b2aa0db6ecd, -1),
    ("tan", 0xc036000000000000, 0x0, 0xbff220d129b73ef8, 0x3c69d695f2680431, -7),
    ("ln", 0x4036000000000000, 0x0, 0x3ff8ba74773dc5c8, 0xbc9eb95508a5a5fd, 1),
    ("sqrt", 0x4036000000000000, 0x0, 0x3ff2c2fc595456a7, 0xbc896f60b0fc7e96, 2),
    ("exp", 0x4040a66666666666, 0x0, 0x3ff078401f5a3ec8, 0x3c93933bbaeb7eeb, 48),
    ("sinh", 0x4040a66666666666, 0x0, 0x3ff078401f5a3ec8, 0x3c93933bbaeb7b08, 47),
    ("cosh", 0x4040a66666666666, 0x0, 0x3ff078401f5a3ec8, 0x3c93933bbaeb82cd, 47),
    ("sin", 0x4040a66666666666, 0x0, 0x3ffe7148f79ab16d, 0xbc8985a73fe6c054, -1),
    ("cos", 0x4040a66666666666, 0x0, 0xbff3b92fe29aaf21, 0xbc9f95fe35a3fa0d, -2),
    ("tan", 0x4040a66666666666, 0x0, 0xbff8b210fb4e6f5d, 0x3c7a2176d35f4947, 1),
    ("exp", 0xc040a66666666666, 0x0, 0x3fff165bb9b59d94, 0x3c7b56f661e02463, -49),
    ("sinh", 0xc040a66666666666, 0x0, 0xbff078401f5a3ec8, 0xbc93933bbaeb7b08, 47),
    ("cosh", 0xc040a66666666666, 0x0, 0x3ff078401f5a3ec8, 0x3c93933bbaeb82cd, 47),
    ("sin", 0xc040a66666666666, 0x0, 0xbffe7148f79ab16d, 0x3c8985a73fe6c054, -1),
    ("cos", 0xc040a66666666666, 0x0, 0xbff3b92fe29aaf21, 0xbc9f95fe35a3fa0d, -2),
    ("tan", 0xc040a66666666666, 0x0, 0x3ff8b210fb4e6f5d, 0xbc7a2176d35f4947, 1),
    ("ln", 0x4040a66666666666, 0x0, 0x3ffc0b61ad3275b2, 0x3c7af15e2d2cacce, 1),
    ("sqrt", 0x4040a66666666666, 0x0, 0x3ff7151c27e50dbe, 0x3c86d2dca2af7b84, 2),
    ("exp", 0x4049000000000000, 0x0, 0x3ff19103e4080b45, 0x3c99935dd033e317, 72),
    ("sinh", 0x4049000000000000, 0x0, 0x3ff19103e4080b45, 0x3c99935dd033e317, 71),
    ("cosh", 0x4049000000000000, 0x0, 0x3ff19103e4080b45, 0x3c99935dd033e317, 71),
    ("sin", 0x4049000000000000, 0x0, 0xbff0cabfe5fcdfc8, 0xbc951d2e56b1d1ad, -2),
    ("cos", 0x4049000000000000, 0x0, 0x3ffee1006fc3fcfa, 0xbc9dcb6095d28900, -1),
    ("tan", 0x4049000000000000, 0x0, 0xbff166d1d312b38f, 0x3c9cbe669ccfa7c7, -2),
    ("exp", 0xc049000000000000, 0x0, 0x3ffd257d547e083f, 0xbc847129a7319d46, -73),
    ("sinh", 0xc049000000000000, 0x0, 0xbff19103e4080b45, 0xbc99935dd033e317, 71),
    ("cosh", 0xc049000000000000, 0x0, 0x3ff19103e4080b45, 0x3c99935dd033e317, 71),
    ("sin", 0xc049000000000000, 0x0, 0x3ff0cabfe5fcdfc8, 0x3c951d2e56b1d1ad, -2),
    ("cos", 0xc049000000000000, 0x0, 0x3ffee1006fc3fcfa, 0xbc9dcb6095d28900, -1),
    ("tan", 0xc049000000000000, 0x0, 0x3ff166d1d312b38f, 0xbc9cbe669ccfa7c7, -2),
    ("ln", 0x4049000000000000, 0x0, 0x3fff4bd2b7ac1baf, 0x3c8c2e234bf7104b, 1),
    ("sqrt", 0x4049000000000000, 0x0, 0x3ffc48c6001f0ac0, 0xbc92d481189efd6b, 2),
    ("exp", 0x40562ccccccccccd, 0x0, 0x3fff4705bbffae5c, 0xbc715587b1bf5d2c, 127),
    ("sinh", 0x40562ccccccccccd, 0x0, 0x3fff4705bbffae5c, 0xbc715587b1bf5d2c, 126),
    ("cosh", 0x40562ccccccccccd, 0x0, 0x3fff4705bbffae5c, 0xbc715587b1bf5d2c, 126),
    ("sin", 0x40562ccccccccccd, 0x0, 0x3ff577ea3d0cf63e, 0xbc779f9d9d7fdb6a, -1),
    ("cos", 0x40562ccccccccccd, 0x0, 0x3ff7bad92cf0ac30, 0xbc9b5eac4caebfa2, -1),
    ("tan", 0x40562ccccccccccd, 0x0, 0x3ffcf34d4f7dbf3a, 0x3c7aea48805df900, -1),
    ("exp", 0xc0562ccccccccccd, 0x0, 0x3ff05ea01ebcec78, 0x3c9c22bfffea3f9c, -128),
    ("sinh", 0xc0562ccccccccccd, 0x0, 0xbfff4705bbffae5c, 0x3c715587b1bf5d2c, 126),
    ("cosh", 0xc0562ccccccccccd, 0x0, 0x3fff4705bbffae5c, 0xbc715587b1bf5d2c, 126),
    ("sin", 0xc0562ccccccccccd, 0x0, 0xbff577ea3d0cf63e, 0x3c779f9d9d7fdb6a, -1),
    ("cos", 0xc0562ccccccccccd, 0x0, 0x3ff7bad92cf0ac30, 0xbc9b5eac4caebfa2, -1),
    ("tan", 0xc0562ccccccccccd, 0x0, 0xbffcf34d4f7dbf3a, 0xbc7aea48805df900, -1),
    ("ln", 0x40562ccccccccccd, 0x0, 0x3ff1f0e7f7eaaee6, 0xbc9ac082ee9b08fb, 2),
    ("sqrt", 0x40562ccccccccccd, 0x0, 0x3ff2d60cf9a20ae4, 0xbc9ffe6fa6014ecf, 3),
    ("exp", 0x4059000000000000, 0x0, 0x3ff3494a9b171bf5, 0xbc94cf76bdb3376f, 144),
    ("sinh", 0x4059000000000000, 0x0, 0x3ff3494a9b171bf5, 0xbc94cf76bdb3376f, 143),
    ("cosh", 0x4059000000000000, 0x0, 0x3ff3494a9b171bf5, 0xbc94cf76bdb3376f, 143),
    ("sin", 0x4059000000000000, 0x0, 0xbff03425b78c4db8, 0xbc5c23d8557420fb, -1),
    ("cos", 0x4059000000000000, 0x0, 0x3ffb981dbf665fdf, 0x3c98fd0cdcd985e8, -1),
    ("tan", 0x4059000000000000, 0x0, 0xbff2ca74d62b5d38, 0x3c941bccbb510dee, -1),
    ("exp", 0xc059000000000000, 0x0, 0x3ffa8c1f14e2af5d, 0xbc943089bb228e2c, -145),
    ("sinh", 0xc059000000000000, 0x0, 0xbff3494a9b171bf5, 0x3c94cf76bdb3376f, 143),
    ("cosh", 0xc059000000000000, 0x0, 0x3ff3494a9b171bf5, 0xbc94cf76bdb3376f, 143),
    ("sin", 0xc059000000000000, 0x0, 0x3ff03425b78c4db8, 0x3c5c23d8557420fb, -1),
    ("cos", 0xc059000000000000, 0x0, 0x3ffb981dbf665fdf, 0x3c98fd0cdcd985e8, -1),
    ("tan", 0xc059000000000000, 0x0, 0x3ff2ca74d62b5d38, 0xbc941bccbb510dee, -1),
    ("ln", 0x4059000000000000, 0x0, 0x3ff26bb1bbb55516, 0xbc9f48ad494ea3e9, 2),
    ("sqrt", 0x4059000000000000, 0x0, 0x3ff4000000000000, 0x0, 3),
    ("exp", 0x4076300000000000, 0x0, 0x3ff1d613bf0a8036, 0xbc9f235551f4f849, 512),
    ("sinh", 0x4076300000000000, 0x0, 0x3ff1d613bf0a8036, 0xbc9f235551f4f849, 511),
    ("cosh", 0x4076300000000000, 0x0, 0x3ff1d613bf0a8036, 0xbc9f235551f4f849, 511),
    ("sin", 0x4076300000000000, 0x0, 0xbfff9bd0307d1de3, 0x3c9894874d2528d2, -16),
    ("cos", 0x4076300000000000, 0x0, 0xbfffffffffc18e4c, 0x3c7862265016699c, -1),
    ("tan", 0x4076300000000000, 0x0, 0x3fff9bd030bacc16, 0x3c77ccc31be7b4ad, -16),
    ("exp", 0xc076300000000000, 0x0, 0x3ffcb4a26f3c63f6, 0xbc9fa19ed826e9f0, -513),
    ("sinh", 0xc076300000000000, 0x0, 0xbff1d613bf0a8036, 0x3c9f235551f4f849, 511),
    ("cosh", 0xc076300000000000, 0x0, 0x3ff1d613bf0a8036, 0xbc9f235551f4f849, 511),
    ("sin", 0xc076300000000000, 0x0, 0x3fff9bd0307d1de3, 0xbc9894874d2528d2, -16),
    ("cos", 0xc076300000000000, 0x0, 0xbfffffffffc18e4c, 0x3c7862265016699c, -1),
    ("tan", 0xc076300000000000, 0x0, 0xbfff9bd030bacc16, 0xbc77ccc31be7b4ad, -16),
    ("ln", 0x4076300000000000, 0x0, 0x3ff77d0c72203a16, 0xbc87c8b2bff57b4d, 2),
    ("sqrt", 0x4076300000000000, 0x0, 0x3ff2d768da651c63, 0xbc9e15b13d865754, 4),
    ("exp", 0x407f400000000000, 0x0, 0x3ff45ba2a9f7e439, 0xbc9ae0545c9a7c2c, 721),
    ("sinh", 0x407f400000000000, 0x0, 0x3ff45ba2a9f7e439, 0xbc9ae0545c9a7c2c, 720),
    ("cosh", 0x407f400000000000, 0x0, 0x3ff45ba2a9f7e439, 0xbc9ae0545c9a7c2c, 720),
    ("sin", 0x407f400000000000, 0x0, 0xbffdeff92776755f, 0x3c91eb94baf2955a, -2),
    ("cos", 0x407f400000000000, 0x0, 0xbffc487e457f68f0, 0x3c9c0c1317aa508c, -1),
    ("tan", 0x407f400000000000, 0x0, 0x3ff0ef90d455f543, 0x3c9e6d70a499c5a0, -1),
    ("exp", 0xc07f400000000000, 0x0, 0x3ff9265e78d4438d, 0x3c4e718f4ebe34a6, -722),
    ("sinh", 0xc07f400000000000, 0x0, 0xbff45ba2a9f7e439, 0x3c9ae0545c9a7c2c, 720),
    ("cosh", 0xc07f400000000000, 0x0, 0x3ff45ba2a9f7e439, 0xbc9ae0545c9a7c2c, 720),
    ("sin", 0xc07f400000000000, 0x0, 0x3ffdeff92776755f, 0xbc91eb94baf2955a, -2),
    ("cos", 0xc07f400000000000, 0x0, 0xbffc487e457f68f0, 0x3c9c0c1317aa508c, -1),
    ("tan", 0xc07f400000000000, 0x0, 0xbff0ef90d455f543, 0xbc9e6d70a499c5a0, -1),
    ("ln", 0x407f400000000000, 0x0, 0x3ff8dbc239b0b862, 0x3c9767322e56721e, 2),
    ("sqrt", 0x407f400000000000, 0x0, 0x3ff65c55827df1d2, 0xbc93923df03e1e2f, 4),
    ("exp", 0x4085e00000000000, 0x0, 0x3ffd945df4f8ec8e, 0x3c8183392684a46e, 1009),
    ("sinh", 0x4085e00000000000, 0x0, 0x3ffd945df4f8ec8e, 0x3c8183392684a46e, 1008),
    ("cosh", 0x4085e00000000000, 0x0, 0x3ffd945df4f8ec8e, 0x3c8183392684a46e, 1008),
    ("sin", 0x4085e00000000000, 0x0, 0x3ff16834defaadb0, 0x3c9b2a2fade51bab, -1),
    ("cos", 0x4085e00000000000, 0x0, 0xbffad9f150b2e096, 0x3c9017b28370159e, -1),
    ("tan", 0x4085e00000000000, 0x0, 0xbff4beaba1020051, 0xbc9fdceaa3650406, -1),
    ("exp", 0xc085e00000000000, 0x0, 0x3ff14f2b0fb9307f, 0x3c657961a567de7a, -1010),
    ("sinh", 0xc085e00000000000, 0x0, 0xbffd945df4f8ec8e, 0xbc8183392684a46e, 1008),
    ("cosh", 0xc085e00000000000, 0x0, 0x3ffd945df4f8ec8e, 0x3c8183392684a46e, 1008),
    ("sin", 0xc085e00000000000, 0x0, 0xbff16834defaadb0, 0xbc9b2a2fade51bab, -1),
    ("cos", 0xc085e00000000000, 0x0, 0xbffad9f150b2e096, 0x3c9017b28370159e, -1),
    ("tan", 0xc085e00000000000, 0x0, 0x3ff4beaba1020051, 0x3c9fdceaa3650406, -1),
    ("ln", 0x4085e00000000000, 0x0, 0x3ffa344e6741ebab, 0x3c95fe494b482b3d, 2),
    ("sqrt", 0x4085e00000000000, 0x0, 0x3ffa751f9447b724, 0x3c82b909477e9ed1, 4),
    ("exp", 0x40862d999999999a, 0x0, 0x3ffd75ae7a50ee14, 0xbc8a7242fe782b54, 1023),
    ("sinh", 0x40862d999999999a, 0x0, 0x3ffd75ae7a50ee14, 0xbc8a7242fe782b54, 1022),
    ("cosh", 0x40862d999999999a, 0x0, 0x3ffd75ae7a50ee14, 0xbc8a7242fe782b54, 1022),
    ("sin", 0x40862d999999999a, 0x0, 0xbff2e8dc01eac743, 0xbc98a662d1f3fc3a, -2),
    ("cos", 0x40862d999999999a, 0x0, 0x3ffe9243306dcd79, 0x3c98a1cb1c3498a2, -1),
    ("tan", 0x40862d999999999a, 0x0, 0xbff3cb153553c2fa, 0x3c9156f0ccb5e84e, -2),
    ("exp", 0xc0862d999999999a, 0x0, 0x3ff161329a85e69a, 0xbc73b6c323836ba2, -1024),
    ("sinh", 0xc0862d999999999a, 0x0, 0xbffd75ae7a50ee14, 0x3c8a7242fe782b54, 1022),
    ("cosh", 0xc0862d999999999a, 0x0, 0x3ffd75ae7a50ee14, 0xbc8a7242fe782b54, 1022),
    ("sin", 0xc0862d999999999a, 0x0, 0x3ff2e8dc01eac743, 0x3c98a662d1f3fc3a, -2),
    ("cos", 0xc0862d999999999a, 0x0, 0x3ffe9243306dcd79, 0x3c98a1cb1c3498a2, -1),
    ("tan", 0xc0862d999999999a, 0x0, 0x3ff3cb153553c2fa, 0xbc9156f0ccb5e84e, -2),
    ("ln", 0x40862d999999999a, 0x0, 0x3ffa42660825ce24, 0xbc9d93cff202ecae, 2),
    ("sqrt", 0x40862d999999999a, 0x0, 0x3ffaa3e3d50f592d, 0x3c63408ce92b6244, 4),
    ("exp", 0x4009e818537a890a, 0x0, 0x3ff97db5d9c60afe, 0xbc9627d7abef1d50, 4),
    ("sinh", 0x4009e818537a890a, 0x0, 0x3ff973aae8e3b7b4, 0xbc99c9676f090adb, 3),
    ("cosh", 0x4009e818537a890a, 0x0, 0x3ff987c0caa85e48, 0xbc928647e8d52fc4, 3),
    ("sin", 0x4009e818537a890a, 0x0, 0xbff8b9bded1e228d, 0x3c9aee4e3f047002, -4),
    ("cos", 0x4009e818537a890a, 0x0, 0xbfffd9b36eafa1e7, 0xbc92fcd3ba129a3d, -1),
    ("tan", 0x4009e818537a890a, 0x0, 0x3ff8d7793da60b3f, 0xbc812a59f098ac27, -4),
    ("exp", 0xc009e818537a890a, 0x0, 0x3ff415e1c4a6941d, 0x3c68fc319ed8b353, -5),
    ("sinh", 0xc009e818537a890a, 0x0, 0xbff973aae8e3b7b4, 0x3c99c9676f090adb, 3),
    ("cosh", 0xc009e818537a890a, 0x0, 0x3ff987c0caa85e48, 0xbc928647e8d52fc4, 3),
    ("sin", 0xc009e818537a890a, 0x0, 0x3ff8b9bded1e228d, 0xbc9aee4e3f047002, -4),
    ("cos", 0xc009e818537a890a, 0x0, 0xbfffd9b36eafa1e7, 0xbc92fcd3ba129a3d, -1),
    ("tan", 0xc009e818537a890a, 0x0, 0xbff8d7793da60b3f, 0x3c812a59f098ac27, -4),
    ("ln", 0x4009e818537a890a, 0x0, 0x3ff2cd089bfd5eac, 0xbc92c6e5ba042eed, 0),
    ("sqrt", 0x4009e818537a890a, 0x0, 0x3ffccae5a1204b72, 0x3c91348e37c09d65, 0),
    ("exp", 0x3ff822c83be57f0c, 0x0, 0x3ff21462e1790be5, 0xbc9eef3372da8f43, 2),
    ("sinh", 0x3ff822c83be57f0c, 0x0, 0x3ff131d53ef14aea, 0xbc9489102f001859, 1),
    ("cosh", 0x3ff822c83be57f0c, 0x0, 0x3ff2f6f08400ccdf, 0x3c96aaa9494af9d3, 1),
    ("sin", 0x3ff822c83be57f0c, 0x0, 0x3ffff01ae3be7f95, 0xbc9346a82145258e, -1),
    ("cos", 0x3ff822c83be57f0c, 0x0, 0x3fffe11abdf04a23, 0x3c7e413f07c0199a, -5),
    ("tan", 0x3ff822c83be57f0c, 0x0, 0x3ff0078757b96f2f, 0x3c89a7fc2c1a8b4c, 4),
    ("exp", 0xbff822c83be57f0c, 0x0, 0x3ffc51b450f81f5b, 0xbc8988d0f69dba83, -3),
    ("sinh", 0xbff822c83be57f0c, 0x0, 0xbff131d53ef14aea, 0x3c9489102f001859, 1),
    ("cosh", 0xbff822c83be57f0c, 0x0, 0x3ff2f6f08400ccdf, 0x3c96aaa9494af9d3, 1),
    ("sin", 0xbff822c83be57f0c, 0x0, 0xbffff01ae3be7f95, 0x3c9346a82145258e, -1),
    ("cos", 0xbff822c83be57f0c, 0x0, 0x3fffe11abdf04a23, 0x3c7e413f07c0199a, -5),
    ("tan", 0xbff822c83be57f0c, 0x0, 0xbff0078757b96f2f, 0xbc89a7fc2c1a8b4c, 4),
    ("ln", 0x3ff822c83be57f0c, 0x0, 0x3ffa4fa1971b2544, 0x3c9d1e510eaed734, -2),
    ("sqrt", 0x3ff822c83be57f0c, 0x0, 0x3ff3a6bc16179a1d, 0x3c69af562a913eae, 0),
    ("exp", 0x401a0991aa3dce7f, 0x0, 0x3ff4fb173678a748, 0x3c8469a9f7e84d89, 9),
    ("sinh", 0x401a0991aa3dce7f, 0x0, 0x3ff4fb142991557d, 0x3c7f4d717ee9efe1, 8),
    ("cosh", 0x401a0991aa3dce7f, 0x0, 0x3ff4fb1a435ff913, 0x3c892c9b305ba321, 8),
    ("sin", 0x401a0991aa3dce7f, 0x0, 0x3ffcb3c759927550, 0xbc94259d5a1af1d8, -3),
    ("cos", 0x401a0991aa3dce7f, 0x0, 0x3fff2f638ea211ca, 0x3c91ff25b3061969, -1),
    ("tan", 0x401a0991aa3dce7f, 0x0, 0x3ffd73c7e9c7ea1d, 0x3c7b4315f94d3e0c, -3),
    ("exp", 0xc01a0991aa3dce7f, 0x0, 0x3ff8673a8e584c2f, 0x3c73873559836ac6, -10),
    ("sinh", 0xc01a0991aa3dce7f, 0x0, 0xbff4fb142991557d, 0xbc7f4d717ee9efe1, 8),
    ("cosh", 0xc01a0991aa3dce7f, 0x0, 0x3ff4fb1a435ff913, 0x3c892c9b305ba321, 8),
    ("sin", 0xc01a0991aa3dce7f, 0x0, 0xbffcb3c759927550, 0x3c94259d5a1af1d8, -3),
    ("cos", 0xc01a0991aa3dce7f, 0x0, 0x3fff2f638ea211ca, 0x3c91ff25b3061969, -1),
    ("tan", 0xc01a0991aa3dce7f, 0x0, 0xbffd73c7e9c7ea1d, 0xbc7b4315f94d3e0c, -3),
    ("ln", 0x401a0991aa3dce7f, 0x0, 0x3ffdf8c93e36b311, 0x3c8a90f1ae080266, 0),
    ("sqrt", 0x401a0991aa3dce7f, 0x0, 0x3ff46925dd2bbbda, 0x3c96788af3ad5d2b, 1),
    ("exp", 0x3fe72dfb08d9d940, 0x0, 0x3ff081e040c6bb17, 0x3c9d413922ca9a7f, 1),
    ("sinh", 0x3fe72dfb08d9d940, 0x0, 0x3ff942b1b702185f, 0x3c95fef62751716d, -1),
    ("cosh", 0x3fe72dfb08d9d940, 0x0, 0x3ff46267a60c69ff, 0x3c8f05ee63d8f890, 0),
    ("sin", 0x3fe72dfb08d9d940, 0x0, 0x3ff5347f6b298599, 0x3c99ffd3f58af513, -1),
    ("cos", 0x3fe72dfb08d9d940, 0x0, 0x3ff7f72accbd310b, 0x3c969d30e5e8c3bd, -1),
    ("tan", 0x3fe72dfb08d9d940, 0x0, 0x3ffc506ae35c271d, 0xbc91a4be7c8e1b96, -1),
    ("exp", 0xbfe72dfb08d9d940, 0x0, 0x3fff043b2a2d773e, 0x3c920df0790f0e46, -2),
    ("sinh", 0xbfe72dfb08d9d940, 0x0, 0xbff942b1b702185f, 0xbc95fef62751716d, -1),
    ("cosh", 0xbfe72dfb08d9d940, 0x0, 0x3ff46267a60c69ff, 0x3c8f05ee63d8f890, 0),
    ("sin", 0xbfe72dfb08d9d940, 0x0, 0xbff5347f6b298599, 0xbc99ffd3f58af513, -1),
    ("cos", 0xbfe72dfb08d9d940, 0x0, 0x3ff7f72accbd310b, 0x3c969d30e5e8c3bd, -1),
    ("tan", 0xbfe72dfb08d9d940, 0x0, 0xbffc506ae35c271d, 0x3c91a4be7c8e1b96, -1),
    ("asin", 0x3fe72dfb08d9d940, 0x0, 0x3ff9ec6b5b28bb76, 0xbc8ee7dac06a2ffc, -1),
    ("asin", 0xbfe72dfb08d9d940, 0x0, 0xbff9ec6b5b28bb76, 0x3c8ee7dac06a2ffc, -1),
    ("ln", 0x3fe72dfb08d9d940, 0x0, 0xbff4a33b133eb7b6, 0xbc9e0b06b796f2f5, -2),
    ("sqrt", 0x3fe72dfb08d9d940, 0x0, 0x3ffb3c2bc9b9c0ee, 0x3c3ea361a5a4819b, -1),
    ("exp", 0x40156f6e85787c88, 0x0, 0x3ffa8f2bbb068fab, 0x3c7e7d89a20160df, 7),
    ("sinh", 0x40156f6e85787c88, 0x0, 0x3ffa8f052cdf1a5c, 0x3c8713f2279b680a, 6),
    ("cosh", 0x40156f6e85787c88, 0x0, 0x3ffa8f52492e04fa, 0x3c6da65de997e352, 6),
    ("sin", 0x40156f6e85787c88, 0x0, 0xbff98b2bab34e3b9, 0x3c924e2614ae6f13, -1),
    ("cos", 0x40156f6e85787c88, 0x0, 0x3ff34661705cbd17, 0xbc96a3e75942bbbb, -1),
    ("tan", 0x40156f6e85787c88, 0x0, 0xbff5342068d5ddbd, 0x3c92adb3529a42bd, 0),
    ("exp", 0xc0156f6e85787c88, 0x0, 0x3ff34713baa7782b, 0xbc86ab4d5bcd6608, -8),
    ("sinh", 0xc0156f6e85787c88, 0x0, 0xbffa8f052cdf1a5c, 0xbc8713f2279b680a, 6),
    ("cosh", 0xc0156f6e85787c88, 0x0, 0x3ffa8f52492e04fa, 0x3c6da65de997e352, 6),
    ("sin", 0xc0156f6e85787c88, 0x0, 0x3ff98b2bab34e3b9, 0xbc924e2614ae6f13, -1),
    ("cos", 0xc0156f6e85787c88, 0x0, 0x3ff34661705cbd17, 0xbc96a3e75942bbbb, -1),
    ("tan", 0xc0156f6e85787c88, 0x0, 0x3ff5342068d5ddbd, 0xbc92adb3529a42bd, 0),
    ("ln", 0x40156f6e85787c88, 0x0, 0x3ffadc22780b84c7, 0x3c98e90bc1828dc3, 0),
    ("sqrt", 0x40156f6e85787c88, 0x0, 0x3ff284f0dceb4864, 0xbc7c4c99b27567a3, 1),
    ("exp", 0x400d414f1bd3eff2, 0x0, 0x3ff35ecd47ab3dc6, 0xbc96724f5104d02d, 5),
    ("sinh", 0x400d414f1bd3eff2, 0x0, 0x3ff35b7f73284bf3, 0x3c81cf7d35df421d, 4),
    ("cosh", 0x400d414f1bd3eff2, 0x0, 0x3ff3621b1c2e2f98, 0x3c846745860d7d30, 4),
    ("sin", 0x400d414f1bd3eff2, 0x0, 0xbfff89eb28b79ca6, 0x3c8058de8b43079b, -2),
    ("cos", 0x400d414f1bd3eff2, 0x0, 0xbffbd83dc4163628, 0xbc87e4e5fd6faae2, -1),
    ("tan", 0x400d414f1bd3eff2, 0x0, 0x3ff21f66afc7db41, 0x3c860de334e57dbf, -1),
    ("exp", 0xc00d414f1bd3eff2, 0x0, 0x3ffa6ea4178e9415, 0xbc906f5fa389da88, -6),
    ("sinh", 0xc00d414f1bd3eff2, 0x0, 0xbff35b7f73284bf3, 0xbc81cf7d35df421d, 4),
    ("cosh", 0xc00d414f1bd3eff2, 0x0, 0x3ff3621b1c2e2f98, 0x3c846745860d7d30, 4),
    ("sin", 0xc00d414f1bd3eff2, 0x0, 0x3fff89eb28b79ca6, 0xbc8058de8b43079b, -2),
    ("cos", 0xc00d414f1bd3eff2, 0x0, 0xbffbd83dc4163628, 0xbc87e4e5fd6faae2, -1),
    ("tan", 0xc00d414f1bd3eff2, 0x0, 0xbff21f66afc7db41, 0xbc860de334e57dbf, -1),
    ("ln", 0x400d414f1bd3eff2, 0x0, 0x3ff4beed18de72a0, 0xbc9b25fe14978690, 0),
    ("sqrt", 0x400d414f1bd3eff2, 0x0, 0x3ffe98c74da6e654, 0x3c7223c96ee1dc38, 0),
    ("exp", 0x3fe28f459c635e9c, 0x0, 0x3ffc9388e59a20ae, 0x3c8b303d172893bd, 0),
    ("sinh", 0x3fe28f459c635e9c, 0x0, 0x3ff39e2a983955a3, 0xbc9b3659bc8df767, -1),
    ("cosh", 0x3fe28f459c635e9c, 0x0, 0x3ff2c473997d75dd, 0xbc7332d25892e9b8, 0),
    ("sin", 0x3fe28f459c635e9c, 0x0, 0x3ff18956a22f7f8e, 0xbc94ce04023fbfca, -1),
    ("cos", 0x3fe28f459c635e9c, 0x0, 0x3ffac459ad320b82, 0xbc2ab005f241a4dc, -1),
    ("tan", 0x3fe28f459c635e9c, 0x0, 0x3ff4f703983c2123, 0x3c98d79ad6b73fa0, -1),
    ("exp", 0xbfe28f459c635e9c, 0x0, 0x3ff1eabc9ac19617, 0x3c919cf09044828b, -1),
    ("sinh", 0xbfe28f459c635e9c, 0x0, 0xbff39e2a983955a3, 0x3c9b3659bc8df767, -1),
    ("cosh", 0xbfe28f459c635e9c, 0x0, 0x3ff2c473997d75dd, 0xbc7332d25892e9b8, 0),
    ("sin", 0xbfe28f459c635e9c, 0x0, 0xbff18956a22f7f8e, 0x3c94ce04023fbfca, -1),
    ("cos", 0xbfe28f459c635e9c, 0x0, 0x3ffac459ad320b82, 0xbc2ab005f241a4dc, -1),
    ("tan", 0xbfe28f459c635e9c, 0x0, 0xbff4f703983c2123, 0xbc98d79ad6b73fa0, -1),
    ("asin", 0x3fe28f459c635e9c, 0x0, 0x3ff3cc846e3aec85, 0xbc939771b9883f29, -1),
    ("asin", 0xbfe28f459c635e9c, 0x0, 0xbff3cc846e3aec85, 0x3c939771b9883f29, -1),
    ("ln", 0x3fe28f459c635e9c, 0x0, 0xbff16e8e9045db12, 0x3c98d03e7bca180c, -1),
    ("sqrt", 0x3fe28f459c635e9c, 0x0, 0x3ff85ec8936578e7, 0xbc76480b25219072, -1),
    ("exp", 0x40144c245412d04d, 0x0, 0x3ff3fbd24177913e, 0xbc9205b50e886c4b, 7),
    ("sinh", 0x40144c245412d04d, 0x0, 0x3ff3fb9f038f95cb, 0x3c3d7c5252a25e82, 6),
    ("cosh", 0x40144c245412d04d, 0x0, 0x3ff3fc057f5f8cb0, 0x3c9b7ea499a49def, 6),
    ("sin", 0x40144c245412d04d, 0x0, 0xbffded2bee1d8168, 0xbc9b09e956dfd7e0, -1),
    ("cos", 0x40144c245412d04d, 0x0, 0x3ff6a9d4fef2d6ae, 0xbc9d769351cc332f, -2),
    ("tan", 0x40144c245412d04d, 0x0, 0xbff520a9efca161c, 0x3c852c33430dfbc4, 1),
    ("exp", 0xc0144c245412d04d, 0x0, 0x3ff99ef3fdb95b09, 0xbc932be97ae2b72a, -8),
    ("sinh", 0xc0144c245412d04d, 0x0, 0xbff3fb9f038f95cb, 0xbc3d7c5252a25e82, 6),
    ("cosh", 0xc0144c245412d04d, 0x0, 0x3ff3fc057f5f8cb0, 0x3c9b7ea499a49def, 6),
    ("sin", 0xc0144c245412d04d, 0x0, 0x3ffded2bee1d8168, 0x3c9b09e956dfd7e0, -1),
    ("cos", 0xc0144c245412d04d, 0x0, 0x3ff6a9d4fef2d6ae, 0xbc9d769351cc332f, -2),
    ("tan", 0xc0144c245412d04d, 0x0, 0x3ff520a9efca161c, 0xbc852c33430dfbc4, 1),
    ("ln", 0x40144c245412d04d, 0x0, 0x3ff9fcb9042ca87f, 0x3c50fdc0f198d88d, 0),
    ("sqrt", 0x40144c245412d04d, 0x0, 0x3ff20564abdb8c4a, 0x3c8e15268d0e464f, 1),
    ("exp", 0x3fd7ff49e6e03304, 0x0, 0x3ff74762d7592c68, 0x3c74939e686cabf4, 0),
    ("sinh", 0x3fd7ff49e6e03304, 0x0, 0x3ff8904104b6344d, 0x3c6342021689d01a, -2),
    ("cosh", 0x3fd7ff49e6e03304, 0x0, 0x3ff12352962b9f55, 0xbc86ea50ed324708, 0),
    ("sin", 0x3fd7ff49e6e03304, 0x0, 0x3ff77058e3807d11, 0x3c73de7b08fa7d53, -2),
    ("cos", 0x3fd7ff49e6e03304, 0x0, 0x3ffdc6d9446a0864, 0x3c9300bae6983c99, -1),
    ("tan", 0x3fd7ff49e6e03304, 0x0, 0x3ff9305b3675cd82, 0xbc73f90b30a13708, -2),
    ("exp", 0xbfd7ff49e6e03304, 0x0, 0x3ff5fe84a9fc2483, 0x3c7f863bc5946fdb, -1),
    ("sinh", 0xbfd7ff49e6e03304, 0x0, 0xbff8904104b6344d, 0xbc6342021689d01a, -2),
    ("cosh", 0xbfd7ff49e6e03304, 0x0, 0x3ff12352962b9f55, 0xbc86ea50ed324708, 0),
    ("sin", 0xbfd7ff49e6e03304, 0x0, 0xbff77058e3807d11, 0xbc73de7b08fa7d53, -2),
    ("cos", 0xbfd7ff49e6e03304, 0x0, 0x3ffdc6d9446a0864, 0x3c9300bae6983c99, -1),
    ("tan", 0xbfd7ff49e6e03304, 0x0, 0xbff9305b3675cd82, 0x3c73f90b30a13708, -2),
    ("asin", 0x3fd7ff49e6e03304, 0x0, 0x3ff899307f72f16d, 0xbc734dd30fac04f8, -2),
    ("asin", 0xbfd7ff49e6e03304, 0x0, 0xbff899307f72f16d, 0x3c734dd30fac04f8, -2),
    ("ln", 0x3fd7ff49e6e03304, 0x0, 0xbfff63e6d7583b1d, 0xbc9638afa5a56677, -1),
    ("sqrt", 0x3fd7ff49e6e03304, 0x0, 0x3ff39843bc1f9f2b, 0x3c98c355522cb07c, -1),
    ("exp", 0x40115888241742a6, 0x0, 0x3ff31beb3d7abae3, 0x3c8adec5c174451d, 6),
    ("sinh", 0x40115888241742a6, 0x0, 0x3ff31b14e43c7710, 0x3c8698512156a5d9, 5),
    ("cosh", 0x40115888241742a6, 0x0, 0x3ff31cc196b8feb6, 0x3c8f253a6191e460, 5),
    ("sin", 0x40115888241742a6, 0x0, 0xbffdc3eb10d963fc, 0x3c9e94daa4b24213, -1),
    ("cos", 0x40115888241742a6, 0x0, 0xbff77f37aa8e89ca, 0xbc5759bfebd9ce55, -2),
    ("tan", 0x40115888241742a6, 0x0, 0x3ff444b451a0bf7d, 0xbc95c6a9ad8124ab, 1),
    ("exp", 0xc0115888241742a6, 0x0, 0x3ffacb27c87a6112, 0xbc98b5fe260bca44, -7),
    ("sinh", 0xc0115888241742a6, 0x0, 0xbff31b14e43c7710, 0xbc8698512156a5d9, 5),
    ("cosh", 0xc0115888241742a6, 0x0, 0x3ff31cc196b8feb6, 0x3c8f253a6191e460, 5),
    ("sin", 0xc0115888241742a6, 0x0, 0x3ffdc3eb10d963fc, 0xbc9e94daa4b24213, -1),
    ("cos", 0xc0115888241742a6, 0x0, 0xbff77f37aa8e89ca, 0xbc5759bfebd9ce55, -2),
    ("tan", 0xc0115888241742a6, 0x0, 0xbff444b451a0bf7d, 0x3c95c6a9ad8124ab, 1),
    ("ln", 0x40115888241742a6, 0x0, 0x3ff77911688e2bff, 0xbc73f00586b5367a, 0),
    ("sqrt", 0x40115888241742a6, 0x0, 0x3ff0a8c9c66fc231, 0x3c9e1e094440484a, 1),
    ("exp", 0x3fe65a8e69a06398, 0x0, 0x3ff01635106dd6ed, 0xbc8fc6b2cbc251d5, 1),
    ("sinh", 0x3fe65a8e69a06398, 0x0, 0x3ff83775550a6534, 0x3c84d046d50aaa86, -1),
    ("cosh", 0x3fe65a8e69a06398, 0x0, 0x3ff410af76567b3f, 0x3c9b053b7efb0389, 0),
    ("sin", 0x3fe65a8e69a06398, 0x0, 0x3ff4945e02186dc0, 0x3c9f604d8e11c93f, -1),
    ("cos", 0x3fe65a8e69a06398, 0x0, 0x3ff88135e7d69a83, 0xbc8551c077af4331, -1),
    ("tan", 0x3fe65a8e69a06398, 0x0, 0x3ffadfce083315fa, 0xbc8e30c76f59aaf0, -1),
    ("exp", 0xbfe65a8e69a06398, 0x0, 0x3fffd3d32f452295, 0x3c9744a726e163a0, -2),
    ("sinh", 0xbfe65a8e69a06398, 0x0, 0xbff83775550a6534, 0xbc84d046d50aaa86, -1),
    ("cosh", 0xbfe65a8e69a06398, 0x0, 0x3ff410af76567b3f, 0x3c9b053b7efb0389, 0),
    ("sin", 0xbfe65a8e69a06398, 0x0, 0xbff4945e02186dc0, 0xbc9f604d8e11c93f, -1),
    ("cos", 0xbfe65a8e69a06398, 0x0, 0x3ff88135e7d69a83, 0xbc8551c077af4331, -1),
    ("tan", 0xbfe65a8e69a06398, 0x0, 0xbffadfce083315fa, 0x3c8e30c76f59aaf0, -1),
    ("asin", 0x3fe65a8e69a06398, 0x0, 0x3ff8bf7cfb01f145, 0xbc92089b7026d2a7, -1),
    ("asin", 0xbfe65a8e69a06398, 0x0, 0xbff8bf7cfb01f145, 0x3c92089b7026d2a7, -1),
    ("ln", 0x3fe65a8e69a06398, 0x0, 0xbff6f5a2ec6c6f00, 0xbc70a8ed51b811f0, -2),
    ("sqrt", 0x3fe65a8e69a06398, 0x0, 0x3ffabed65a348794, 0x3c98b9d8013f36c4, -1),
    ("exp", 0x3fed0735c60ab94e, 0x0, 0x3ff3d14fd932c51d, 0xbc94a6dbb302fed8, 1),
    ("sinh", 0x3fed0735c60ab94e, 0x0, 0x3ff09692b49a32cd, 0xbc978c9789b1f6eb, 0),
    ("cosh", 0x3fed0735c60ab94e, 0x0, 0x3ff70c0cfdcb576d, 0xbc91c11fdc5406c5, 0),
    ("sin", 0x3fed0735c60ab94e, 0x0, 0x3ff93528ad1a3203, 0x3c9403b77622a14b, -1),
    ("cos", 0x3fed0735c60ab94e, 0x0, 0x3ff3b6587be50bc5, 0x3c56033640d23217, -1),
    ("tan", 0x3fed0735c60ab94e, 0x0, 0x3ff475e090c47176, 0x3c7f8750923402fd, 0),
    ("exp", 0xbfed0735c60ab94e, 0x0, 0x3ff9d5e924c49280, 0x3c972ddeb577c099, -2),
    ("sinh", 0xbfed0735c60ab94e, 0x0, 0xbff09692b49a32cd, 0x3c978c9789b1f6eb, 0),
    ("cosh", 0xbfed0735c60ab94e, 0x0, 0x3ff70c0cfdcb576d, 0xbc91c11fdc5406c5, 0),
    ("sin", 0xbfed0735c60ab94e, 0x0, 0xbff93528ad1a3203, 0xbc9403b77622a14b, -1),
    ("cos", 0xbfed0735c60ab94e, 0x0, 0x3ff3b6587be50bc5, 0x3c56033640d23217, -1),
    ("tan", 0xbfed0735c60ab94e, 0x0, 0xbff475e090c47176, 0xbc7f8750923402fd, 0),
    ("asin", 0x3fed0735c60ab94e, 0x0, 0x3ff22ec05f4f940f, 0x3c784c5c4ffac0e0, 0),
    ("asin", 0xbfed0735c60ab94e, 0x0, 0xbff22ec05f4f940f, 0xbc784c5c4ffac0e0, 0),
    ("ln", 0x3fed0735c60ab94e, 0x0, 0xbff8f3c08bc864fb, 0xbc78e6b8b6b88635, -4),
    ("sqrt", 0x3fed0735c60ab94e, 0x0, 0x3ffe7a567005e6bf, 0x3c92a4a65c508447, -1),
    ("exp", 0x4010fb13954ba954, 0x0, 0x3ff17139b42c4957, 0xbc7aef5bc1dc1445, 6),
    ("sinh", 0x4010fb13954ba954, 0x0, 0x3ff1704edf48ef6f, 0x3c8fa26dbde3d281, 5),
    ("cosh", 0x4010fb13954ba954, 0x0, 0x3ff17224890fa33f, 0xbc9d48e4bfdff363, 5),
    ("sin", 0x4010fb13954ba954, 0x0, 0xbffc9218fec85566, 0x3c86ffcf50c91b38, -1),
    ("cos", 0x4010fb13954ba954, 0x0, 0xbffcd31dcd04e4cb, 0x3c9f5f335aa235f5, -2),
    ("tan", 0x4010fb13954ba954, 0x0, 0x3fffb7d19a316869, 0x3c940348d7e541c3, 0),
    ("exp", 0xc010fb13954ba954, 0x0, 0x3ffd5a9c6b3cf4b9, 0x3c9e4612e235c689, -7),
    ("sinh", 0xc010fb13954ba954, 0x0, 0xbff1704edf48ef6f, 0xbc8fa26dbde3d281, 5),
    ("cosh", 0xc010fb13954ba954, 0x0, 0x3ff17224890fa33f, 0xbc9d48e4bfdff363, 5),
    ("sin", 0xc010fb13954ba954, 0x0, 0x3ffc9218fec85566, 0xbc86ffcf50c91b38, -1),
    ("cos", 0xc010fb13954ba954, 0x0, 0xbffcd31dcd04e4cb, 0x3c9f5f335aa235f5, -2),
    ("tan", 0xc010fb13954ba954, 0x0, 0xbfffb7d19a316869, 0xbc940348d7e541c3, 0),
    ("ln", 0x4010fb13954ba954, 0x0, 0x3ff721f192c1b5ec, 0xbc9a717cff247fd1, 0),
    ("sqrt", 0x4010fb13954ba954, 0x0, 0x3ff07babd60d8f25, 0xbc85320a83fb2d00, 1),
    ("exp", 0x4020897b9de9e3ef, 0x0, 0x3ffe765b8c1f2d03, 0x3c980434267a4532, 11),
    ("sinh", 0x4020897b9de9e3ef, 0x0, 0x3ffe765b6a81a9cf, 0x3c6560a91248b604, 10),
    ("cosh", 0x4020897b9de9e3ef, 0x0, 0x3ffe765badbcb038, 0xbc92a3acd5548c5c, 10),
    ("sin", 0x4020897b9de9e3ef, 0x0, 0x3ffd4a27195c20b9, 0xbc9d24f3097703a5, -1),
    ("cos", 0x4020897b9de9e3ef, 0x0, 0xbff9c6f5dd810f54, 0x3c8aebfe745be147, -2),
    ("tan", 0x4020897b9de9e3ef, 0x0, 0xbff22e21d26319c7, 0xbc454942839e719d, 1),
    ("exp", 0xc020897b9de9e3ef, 0x0, 0x3ff0cec19a2ab03e, 0x3c60c4b9c6932411, -12),
    ("sinh", 0xc020897b9de9e3ef, 0x0, 0xbffe765b6a81a9cf, 0xbc6560a91248b604, 10),
    ("cosh", 0xc020897b9de9e3ef, 0x0, 0x3ffe765badbcb038, 0xbc92a3acd5548c5c, 10),
    ("sin", 0xc020897b9de9e3ef, 0x0, 0xbffd4a27195c20b9, 0x3c9d24f3097703a5, -1),
    ("cos", 0xc020897b9de9e3ef, 0x0, 0xbff9c6f5dd810f54, 0x3c8aebfe745be147, -2),
    ("tan", 0xc020897b9de9e3ef, 0x0, 0x3ff22e21d26319c7, 0x3c454942839e719d, 1),
    ("ln", 0x4020897b9de9e3ef, 0x0, 0x3ff0e64f2a5e0537, 0xbc86d57efc46fde2, 1),
    ("sqrt", 0x4020897b9de9e3ef, 0x0, 0x3ff701080ee36e16, 0xbc7a3e9f9c9d2034, 1),
    ("exp", 0x3ff3ceeda6f2f145, 0x0, 0x3ffb971847b80f74, 0x3c873860a852ede9, 1),
    ("sinh", 0x3ff3ceeda6f2f145, 0x0, 0x3ff94542d7fd0ecb, 0x3c71e515f495bee8, 0),
    ("cosh", 0x3ff3ceeda6f2f145, 0x0, 0x3ffde8edb773101d, 0x3c92bf1b2b2d7e2f, 0),
    ("sin", 0x3ff3ceeda6f2f145, 0x0, 0x3ffe3e93fb3addbf, 0xbc81475bc856efae, -1),
    ("cos", 0x3ff3ceeda6f2f145, 0x0, 0x3ff4e823b1565766, 0x3c7cf406f2ad1e6f, -2),
    ("tan", 0x3ff3ceeda6f2f145, 0x0, 0x3ff72567f779dc9e, 0x3c83db931ad345eb, 1),
    ("exp", 0xbff3ceeda6f2f145, 0x0, 0x3ff28eab7dd80549, 0xbc7ba2a51f7f18b8, -2),
    ("sinh", 0xbff3ceeda6f2f145, 0x0, 0xbff94542d7fd0ecb, 0xbc71e515f495bee8, 0),
    ("cosh", 0xbff3ceeda6f2f145, 0x0, 0x3ffde8edb773101d, 0x3c92bf1b2b2d7e2f, 0),
    ("sin", 0xbff3ceeda6f2f145, 0x0, 0xbffe3e93fb3addbf, 0x3c81475bc856efae, -1),
    ("cos", 0xbff3ceeda6f2f145, 0x0, 0x3ff4e823b1565766, 0x3c7cf406f2ad1e6f, -2),
    ("tan", 0xbff3ceeda6f2f145, 0x0, 0xbff72567f779dc9e, 0xbc83db931ad345eb, 1),
    ("ln", 0x3ff3ceeda6f2f145, 0x0, 0x3ffb5464fd3a9528, 0xbc82e6f6d6147c34, -3),
    ("sqrt", 0x3ff3ceeda6f2f145, 0x0, 0x3ff1cd7807627bb2, 0x3c8717d8f6fda4de, 0),
    ("exp", 0x4001dbef1a4e66fe, 0x0, 0x3ff2a4ec64d49d27, 0x3c35cf09431ae895, 3),
    ("sinh", 0x4001dbef1a4e66fe, 0x0, 0x3ff26e00111d8659, 0x3c71074f1c17fdf1, 2),
    ("cosh", 0x4001dbef1a4e66fe, 0x0, 0x3ff2dbd8b88bb3f5, 0xbc6c9adbe76941bd, 2),
    ("sin", 0x4001dbef1a4e66fe, 0x0, 0x3ff93f9aff5b64a2, 0x3c8bbd39617bbaca, -1),
    ("cos", 0x4001dbef1a4e66fe, 0x0, 0xbff3a8f54e14c59c, 0xbc81923fb9fe6648, -1),
    ("tan", 0x4001dbef1a4e66fe, 0x0, 0xbff48c4fbdb5a71c, 0xbc7e105b76791db1, 0),
    ("exp", 0xc001dbef1a4e66fe, 0x0, 0x3ffb7629db8b66f8, 0x3c85685e066c260e, -4),
    ("sinh", 0xc001dbef1a4e66fe, 0x0, 0xbff26e00111d8659, 0xbc71074f1c17fdf1, 2),
    ("cosh", 0xc001dbef1a4e66fe, 0x0, 0x3ff2dbd8b88bb3f5, 0xbc6c9adbe76941bd, 2),
    ("sin", 0xc001dbef1a4e66fe, 0x0, 0xbff93f9aff5b64a2, 0xbc8bbd39617bbaca, -1),
    ("cos", 0xc001dbef1a4e66fe, 0x0, 0xbff3a8f54e14c59c, 0xbc81923fb9fe6648, -1),
    ("tan", 0xc001dbef1a4e66fe, 0x0, 0x3ff48c4fbdb5a71c, 0x3c7e105b76791db1, 0),
    ("ln", 0x4001dbef1a4e66fe, 0x0, 0x3ff9b2c5502e800e, 0xbc88bc97120a6284, -1),
    ("sqrt", 0x4001dbef1a4e66fe, 0x0, 0x3ff7e7e8a4cdb4f6, 0x3c85025ac7cc1eb0, 0),
    ("exp", 0x401918ea8bea3c6c, 0x0, 0x3ff0962cb37e5b55, 0xbc8fbe3ffc5cb755, 9),
    ("sinh", 0x401918ea8bea3c6c, 0x0, 0x3ff09628d7b59cff, 0xbc9f3aae00186be7, 8),
    ("cosh", 0x401918ea8bea3c6c, 0x0, 0x3ff096308f4719ab, 0xbc40723f88896db2, 8),
    ("sin", 0x401918ea8bea3c6c, 0x0, 0xbff221812e503cbf, 0x3c79c2bd989403b2, -7),
    ("cos", 0x401918ea8bea3c6c, 0x0, 0x3fffffadd0f332b2, 0x3c97ca429bd283eb, -1),
    ("tan", 0x401918ea8bea3c6c, 0x0, 0xbff221afbf4b5207, 0x3c9bc8a5ffe59bc1, -7),
    ("exp", 0xc01918ea8bea3c6c, 0x0, 0x3ffede45f2b1eb72, 0xbc8fe15efc312707, -10),
    ("sinh", 0xc01918ea8bea3c6c, 0x0, 0xbff09628d7b59cff, 0x3c9f3aae00186be7, 8),
    ("cosh", 0xc01918ea8bea3c6c, 0x0, 0x3ff096308f4719ab, 0xbc40723f88896db2, 8),
    ("sin", 0xc01918ea8bea3c6c, 0x0, 0x3ff221812e503cbf, 0xbc79c2bd989403b2, -7),
    ("cos", 0xc01918ea8bea3c6c, 0x0, 0x3fffffadd0f332b2, 0x3c97ca429bd283eb, -1),
    ("tan", 0xc01918ea8bea3c6c, 0x0, 0x3ff221afbf4b5207, 0xbc9bc8a5ffe59bc1, -7),
    ("ln", 0x401918ea8bea3c6c, 0x0, 0x3ffd622b48ea6d01, 0xbc98975c35a0baae, 0),
    ("sqrt", 0x401918ea8bea3c6c, 0x0, 0x3ff409f4f0af182d, 0xbc8fffa677a8cead, 1),
    ("exp", 0x4022f44510a7977a, 0x0, 0x3ff980904ea3b3f2, 0xbc8f9a29df5db80e, 13),
    ("sinh", 0x4022f44510a7977a, 0x0, 0x3ff980904c213fa3, 0xbc647b04ba454164, 12),
    ("cosh", 0x4022f44510a7977a, 0x0, 0x3ff9809051262841, 0xbc9d0ac948150fe2, 12),
    ("sin", 0x4022f44510a7977a, 0x0, 0xbffac57103528057, 0x3c8f5ddf5145367e, -5),
    ("cos", 0x4022f44510a7977a, 0x0, 0xbffff4cb3cc22c1b, 0xbc85f7eb61e23021, -1),
    ("tan", 0x4022f44510a7977a, 0x0, 0x3ffaced44ff728ce, 0xbc77d5c253fb7c07, -5),
    ("exp", 0xc022f44510a7977a, 0x0, 0x3ff413a276584975, 0xbc698cf6b0aae48b, -14),
    ("sinh", 0xc022f44510a7977a, 0x0, 0xbff980904c213fa3, 0x3c647b04ba454164, 12),
    ("cosh", 0xc022f44510a7977a, 0x0, 0x3ff9809051262841, 0xbc9d0ac948150fe2, 12),
    ("sin", 0xc022f44510a7977a, 0x0, 0x3ffac57103528057, 0xbc8f5ddf5145367e, -5),
    ("cos", 0xc022f44510a7977a, 0x0, 0xbffff4cb3cc22c1b, 0xbc85f7eb61e23021, -1),
    ("tan", 0xc022f44510a7977a, 0x0, 0xbffaced44ff728ce, 0x3c77d5c253fb7c07, -5),
    ("ln", 0x4022f44510a7977a, 0x0, 0x3ff1fdb35a90174b, 0x3c90dd42a4862dfc, 1),
    ("sqrt", 0x4022f44510a7977a, 0x0, 0x3ff8a0be681bb33f, 0xbc991fec7eb53e3e, 1),
    ("exp", 0x40171588c0ed7e36, 0x0, 0x3ff40de2e2703347, 0xbc6b45e41b211f77, 8),
    ("sinh", 0x40171588c0ed7e36, 0x0, 0x3ff40dd61e805f61, 0x3c8ddf5b701c9c38, 7),
    ("cosh", 0x40171588c0ed7e36, 0x0, 0x3ff40defa660072d, 0xbc95c126bed695fa, 7),
    ("sin", 0x40171588c0ed7e36, 0x0, 0xbfff5d1a84a522b2, 0x3c94c07eb05479f8, -2),
    ("cos", 0x40171588c0ed7e36, 0x0, 0x3ffbe4e28c38bc09, 0x3c9169f97f3a7a7c, -1),
    ("tan", 0x40171588c0ed7e36, 0x0, 0xbff1fd7b1366392c, 0x3c92c76a2ebe771e, -1),
    ("exp", 0xc0171588c0ed7e36, 0x0, 0x3ff987dfa7cb6d3d, 0xbc9476e4e415fdad, -9),
    ("sinh", 0xc0171588c0ed7e36, 0x0, 0xbff40dd61e805f61, 0xbc8ddf5b701c9c38, 7),
    ("cosh", 0xc0171588c0ed7e36, 0x0, 0x3ff40defa660072d, 0xbc95c126bed695fa, 7),
    ("sin", 0xc0171588c0ed7e36, 0x0, 0x3fff5d1a84a522b2, 0xbc94c07eb05479f8, -2),
    ("cos", 0xc0171588c0ed7e36, 0x0, 0x3ffbe4e28c38bc09, 0x3c9169f97f3a7a7c, -1),
    ("tan", 0xc0171588c0ed7e36, 0x0, 0x3ff1fd7b1366392c, 0xbc92c76a2ebe771e, -1),
    ("ln", 0x40171588c0ed7e36, 0x0, 0x3ffc0bacf3438c00, 0x3c62194b84ae3bd6, 0),
    ("sqrt", 0x40171588c0ed7e36, 0x0, 0x3ff337e7567d7e67, 0x3c9fc0578ddce2ff, 1),
    ("exp", 0x400fbc04207ef2d9, 0x0, 0x3ffa68625ec78b70, 0xbc9dd8f672dbf424, 5),
    ("sinh", 0x400fbc04207ef2d9, 0x0, 0x3ffa65f5f2428468, 0xbc681ff96ca2373b, 4),
    ("cosh", 0x400fbc04207ef2d9, 0x0, 0x3ffa6acecb4c9277, 0x3c7d48491f717a7e, 4),
    ("sin", 0x400fbc04207ef2d9, 0x0, 0xbff7829821cfa4c6, 0x3c71d950e7b5dc19, -1),
    ("cos", 0x400fbc04207ef2d9, 0x0, 0xbff5b57658630a47, 0xbc90871f08770438, -1),
    ("tan", 0x400fbc04207ef2d9, 0x0, 0x3ff153dde2a99881, 0xbc978112bb9fa8ae, 0),
    ("exp", 0xc00fbc04207ef2d9, 0x0, 0x3ff3636428383ca5, 0x3c9845d5c2961bc6, -6),
    ("sinh", 0xc00fbc04207ef2d9, 0x0, 0xbffa65f5f2428468, 0x3c681ff96ca2373b, 4),
    ("cosh", 0xc00fbc04207ef2d9, 0x0, 0x3ffa6acecb4c9277, 0x3c7d48491f717a7e, 4),
    ("sin", 0xc00fbc04207ef2d9, 0x0, 0x3ff7829821cfa4c6, 0xbc71d950e7b5dc19, -1),
    ("cos", 0xc00fbc04207ef2d9, 0x0, 0xbff5b57658630a47, 0xbc90871f08770438, -1),
    ("tan", 0xc00fbc04207ef2d9, 0x0, 0xbff153dde2a99881, 0x3c978112bb9fa8ae, 0),
    ("ln", 0x400fbc04207ef2d9, 0x0, 0x3ff60c20c0260bbc, 0xbc7f694767426280, 0),
    ("sqrt", 0x400fbc04207ef2d9, 0x0, 0x3fffddefef298d23, 0xbc893e1e66afaccc, 0),
    ("exp", 0x3d9f9ebdac7131a3, 0x0, 0x3ff0000000007e7b, 0xbc629c728b13a18f, 0),
    ("sinh", 0x3d9f9ebdac7131a3, 0x0, 0x3fff9ebdac7131a3, 0x3b34951d8c8981cd, -38),
    ("cosh", 0x3d9f9ebdac7131a3, 0x0, 0x3ff0000000000000, 0x3b3f3ea2f3866e90, 0),
    ("sin", 0x3d9f9ebdac7131a3, 0x0, 0x3fff9ebdac7131a3, 0xbb34951d8c8981cd, -38),
    ("cos", 0x3d9f9ebdac7131a3, 0x0, 0x4000000000000000, 0xbb4f3ea2f3866e90, -1),
    ("tan", 0x3d9f9ebdac7131a3, 0x0, 0x3fff9ebdac7131a3, 0x3b44951d8c8981cd, -38),
    ("exp", 0xbd9f9ebdac7131a3, 0x0, 0x3fffffffffff030a, 0x3c729c7a5abc5e71, -1),
    ("sinh", 0xbd9f9ebdac7131a3, 0x0, 0xbfff9ebdac7131a3, 0xbb34951d8c8981cd, -38),
    ("cosh", 0xbd9f9ebdac7131a3, 0x0, 0x3ff0000000000000, 0x3b3f3ea2f3866e90, 0),
    ("sin", 0xbd9f9ebdac7131a3, 0x0, 0xbfff9ebdac7131a3, 0x3b34951d8c8981cd, -38),
    ("cos", 0xbd9f9ebdac7131a3, 0x0, 0x4000000000000000, 0xbb4f3ea2f3866e90, -1),
    ("tan", 0xbd9f9ebdac7131a3, 0x0, 0xbfff9ebdac7131a3, 0xbb44951d8c8981cd, -38),
    ("asin", 0x3d9f9ebdac7131a3, 0x0, 0x3fff9ebdac7131a3, 0x3b34951d8c8981cd, -38),
    ("asin", 0xbd9f9ebdac7131a3, 0x0, 0xbfff9ebdac7131a3, 0xbb34951d8c8981cd, -38),
    ("ln", 0x3d9f9ebdac7131a3, 0x0, 0xbff9a88c3149bc92, 0xbc94d2dffba8e62b, 4),
    ("sqrt", 0x3d9f9ebdac7131a3, 0x0, 0x3ff67e213a7b4f13, 0xbc9876d4ed229698, -19),
    ("exp", 0x3df8e81973b7892e, 0x0, 0x3ff000000018e819, 0x3c9cf2baf9e7afe0, 0),
    ("sinh", 0x3df8e81973b7892e, 0x0, 0x3ff8e81973b7892e, 0x3be41e33300249c5, -32),
    ("cosh", 0x3df8e81973b7892e, 0x0, 0x3ff0000000000000, 0x3bf362b99eb5717b, 0),
    ("sin", 0x3df8e81973b7892e, 0x0, 0x3ff8e81973b7892e, 0xbbe41e33300249c5, -32),
    ("cos", 0x3df8e81973b7892e, 0x0, 0x4000000000000000, 0xbc0362b99eb5717b, -1),
    ("tan", 0x3df8e81973b7892e, 0x0, 0x3ff8e81973b7892e, 0x3bf41e33300249c5, -32),
    ("exp", 0xbdf8e81973b7892e, 0x0, 0x3fffffffffce2fcd, 0x3c78b7b3173d56c5, -1),
    ("sinh", 0xbdf8e81973b7892e, 0x0, 0xbff8e81973b7892e, 0xbbe41e33300249c5, -32),
    ("cosh", 0xbdf8e81973b7892e, 0x0, 0x3ff0000000000000, 0x3bf362b99eb5717b, 0),
    ("sin", 0xbdf8e81973b7892e, 0x0, 0xbff8e81973b7892e, 0x3be41e33300249c5, -32),
    ("cos", 0xbdf8e81973b7892e, 0x0, 0x4000000000000000, 0xbc0362b99eb5717b, -1),
    ("tan", 0xbdf8e81973b7892e, 0x0, 0xbff8e81973b7892e, 0xbbf41e33300249c5, -32),
    ("asin", 0x3df8e81973b7892e, 0x0, 0x3ff8e81973b7892e, 0x3be41e33300249c5, -32),
    ("asin", 0xbdf8e81973b7892e, 0x0, 0xbff8e81973b7892e, 0xbbe41e33300249c5, -32),
    ("ln", 0x3df8e81973b7892e, 0x0, 0xbff5bcf853124e27, 0xbc7eb5f2ac40a496, 4),
    ("sqrt", 0x3df8e81973b7892e, 0x0, 0x3ff3f66e4aa507e6, 0xbc8bb59c154cd2fb, -16),
    ("exp", 0x3e04a23d58d69964, 0x0, 0x3ff000000029447b, 0xbc9387654ac34f38, 0),
    ("sinh", 0x3e04a23d58d69964, 0x0, 0x3ff4a23d58d69964, 0x3bf6e0913fd61b28, -31),
    ("cosh", 0x3e04a23d58d69964, 0x0, 0x3ff0000000000000, 0x3c0a9c06794ab06e, 0),
    ("sin", 0x3e04a23d58d69964, 0x0, 0x3ff4a23d58d69964, 0xbbf6e0913fd61b28, -31),
    ("cos", 0x3e04a23d58d69964, 0x0, 0x4000000000000000, 0xbc1a9c06794ab06e, -1),
    ("tan", 0x3e04a23d58d69964, 0x0, 0x3ff4a23d58d69964, 0x3c06e0913fd61b28, -31),
    ("exp", 0xbe04a23d58d69964, 0x0, 0x3fffffffffad770b, 0xbc98bbfd5d86cc30, -1),
    ("sinh", 0xbe04a23d58d69964, 0x0, 0xbff4a23d58d69964, 0xbbf6e0913fd61b28, -31),
    ("cosh", 0xbe04a23d58d69964, 0x0, 0x3ff0000000000000, 0x3c0a9c06794ab06e, 0),
    ("sin", 0xbe04a23d58d69964, 0x0, 0xbff4a23d58d69964, 0x3bf6e0913fd61b28, -31),
    ("cos", 0xbe04a23d58d69964, 0x0, 0x4000000000000000, 0xbc1a9c06794ab06e, -1),
    ("tan", 0xbe04a23d58d69964, 0x0, 0xbff4a23d58d69964, 0xbc06e0913fd61b28, -31),
    ("asin", 0x3e04a23d58d69964, 0x0, 0x3ff4a23d58d69964, 0x3bf6e0913fd61b28, -31),
    ("asin", 0xbe04a23d58d69964, 0x0, 0xbff4a23d58d69964, 0xbbf6e0913fd61b28, -31),
    ("ln", 0x3e04a23d58d69964, 0x0, 0xbff53bb485bdf25e, 0xbc8d281ecf34cbc4, 4),
    ("sqrt", 0x3e04a23d58d69964, 0x0, 0x3ff9b2275de25f69, 0xbc9d117abf75d8c4, -16),
    ("exp", 0x3fb8a6a63e3c4f44, 0x0, 0x3ff19e079f5cc3cd, 0x3c99d80d214f9168, 0),
    ("sinh", 0x3fb8a6a63e3c4f44, 0x0, 0x3ff8b06803384e37, 0xbc8c66a2c96e7a90, -4),
    ("cosh", 0x3fb8a6a63e3c4f44, 0x0, 0x3ff013011f293eea, 0xbc544bdc864fac34, 0),
    ("sin", 0x3fb8a6a63e3c4f44, 0x0, 0x3ff89ce6c9e00e42, 0x3c97f9c24aa6b8fb, -4),
    ("cos", 0x3fb8a6a63e3c4f44, 0x0, 0x3fffda0cc82c2538, 0xbc84c77cdf40151b, -1),
    ("tan", 0x3fb8a6a63e3c4f44, 0x0, 0x3ff8ba3a0e4d3cf2, 0x3c793a0b221a1a3f, -4),
    ("exp", 0xbfb8a6a63e3c4f44, 0x0, 0x3ffd0ff53deb740d, 0x3c7cf3ba6f33c88a, -1),
    ("sinh", 0xbfb8a6a63e3c4f44, 0x0, 0xbff8b06803384e37, 0x3c8c66a2c96e7a90, -4),
    ("cosh", 0xbfb8a6a63e3c4f44, 0x0, 0x3ff013011f293eea, 0xbc544bdc864fac34, 0),
    ("sin", 0xbfb8a6a63e3c4f44, 0x0, 0xbff89ce6c9e00e42, 0xbc97f9c24aa6b8fb, -4),
    ("cos", 0xbfb8a6a63e3c4f44, 0x0, 0x3fffda0cc82c2538, 0xbc84c77cdf40151b, -1),
    ("tan", 0xbfb8a6a63e3c4f44, 0x0, 0xbff8ba3a0e4d3cf2, 0xbc793a0b221a1a3f, -4),
    ("asin", 0x3fb8a6a63e3c4f44, 0x0, 0x3ff8b07154767231, 0x3c9101170610005e, -4),
    ("asin", 0xbfb8a6a63e3c4f44, 0x0, 0xbff8b07154767231, 0xbc9101170610005e, -4),
    ("ln", 0x3fb8a6a63e3c4f44, 0x0, 0xbff2b90f33711aeb, 0x3c9fbbef876418ee, 1),
    ("sqrt", 0x3fb8a6a63e3c4f44, 0x0, 0x3ff3dc2256968115, 0x3c6bc14a96308add, -2),
    ("exp", 0x4024ef8aa31eda0a, 0x0, 0x3ff12bd610782a8b, 0xbc941a48e22758d9, 15),
    ("sinh", 0x4024ef8aa31eda0a, 0x0, 0x3ff12bd6103c8815, 0xbc9d8e0216858aab, 14),
    ("cosh", 0x4024ef8aa31eda0a, 0x0, 0x3ff12bd610b3cd01, 0xbc854d1f5b924e10, 14),
    ("sin", 0x4024ef8aa31eda0a, 0x0, 0xbffba58a66d67966, 0x3c9d6c8f997f0a8c, -1),
    ("cos", 0x4024ef8aa31eda0a, 0x0, 0xbff01d336f4e8c70, 0xbc95a64e67bfd02b, -1),
    ("tan", 0x4024ef8aa31eda0a, 0x0, 0x3ffb7370eb3c8ac0, 0xbc898b6d9f368c9c, 0),
    ("exp", 0xc024ef8aa31eda0a, 0x0, 0x3ffdd13b12e77269, 0xbc90e71762beb3e3, -16),
    ("sinh", 0xc024ef8aa31eda0a, 0x0, 0xbff12bd6103c8815, 0x3c9d8e0216858aab, 14),
    ("cosh", 0xc024ef8aa31eda0a, 0x0, 0x3ff12bd610b3cd01, 0xbc854d1f5b924e10, 14),
    ("sin", 0xc024ef8aa31eda0a, 0x0, 0x3ffba58a66d67966, 0xbc9d6c8f997f0a8c, -1),
    ("cos", 0xc024ef8aa31eda0a, 0x0, 0xbff01d336f4e8c70, 0xbc95a64e67bfd02b, -1),
    ("tan", 0xc024ef8aa31eda0a, 0x0, 0xbffb7370eb3c8ac0, 0x3c898b6d9f368c9c, 0),
    ("ln", 0x4024ef8aa31eda0a, 0x0, 0x3ff2c956473acb31, 0xbc6801c4bc0e5303, 1),
    ("sqrt", 0x4024ef8aa31eda0a, 0x0, 0x3ff9e21cc0928473, 0x3c7d0f41025f7c26, 1),
    ("exp", 0x3fc2e4415834c3b8, 0x0, 0x3ff28b6bf90ee7ad, 0xbc8e1e1daa9d864e, 0),
    ("sinh", 0x3fc2e4415834c3b8, 0x0, 0x3ff2f5d51b21ba50, 0x3c96fa37349c5f2d, -3),
    ("cosh", 0x3fc2e4415834c3b8, 0x0, 0x3ff02cb155aab063, 0xbc91ee55bbe24f0d, 0),
    ("sin", 0x3fc2e4415834c3b8, 0x0, 0x3ff2d2b75fd2b14e, 0xbc9eb925cf7f3575, -3),
    ("cos", 0x3fc2e4415834c3b8, 0x0, 0x3fffa6f0417cb72a, 0xbc9cdfe31aab36b2, -1),
    ("tan", 0x3fc2e4415834c3b8, 0x0, 0x3ff307ae18ed4d72, 0xbc94e9362b9a5732, -3),
    ("exp", 0xbfc2e4415834c3b8, 0x0, 0x3ffb9bed648cf231, 0x3c9664c6bb144a1b, -1),
    ("sinh", 0xbfc2e4415834c3b8, 0x0, 0xbff2f5d51b21ba50, 0xbc96fa37349c5f2d, -3),
    ("cosh", 0xbfc2e4415834c3b8, 0x0, 0x3ff02cb155aab063, 0xbc91ee55bbe24f0d, 0),
    ("sin", 0xbfc2e4415834c3b8, 0x0, 0xbff2d2b75fd2b14e, 0x3c9eb925cf7f3575, -3),
    ("cos", 0xbfc2e4415834c3b8, 0x0, 0x3fffa6f0417cb72a, 0xbc9cdfe31aab36b2, -1),
    ("tan", 0xbfc2e4415834c3b8, 0x0, 0xbff307ae18ed4d72, 0x3c94e9362b9a5732, -3),
    ("asin", 0x3fc2e4415834c3b8, 0x0, 0x3ff2f5fcd91a9bd9, 0xbc882f5daf57f576, -3),
    ("asin", 0xbfc2e4415834c3b8, 0x0, 0xbff2f5fcd91a9bd9, 0x3c882f5daf57f576, -3),
    ("ln", 0x3fc2e4415834c3b8, 0x0, 0xbffe9cecbf0ed331, 0x3c62c35c3503b89c, 0),
    ("sqrt", 0x3fc2e4415834c3b8, 0x0, 0x3ff89654bdea974f, 0x3c848e9d1f3a1bc3, -2),
    ("exp", 0x3e3923a737471faa, 0x0, 0x3ff0000001923a74, 0xbc9df38a17f22aad, 0),
    ("sinh", 0x3e3923a737471faa, 0x0, 0x3ff923a737471faa, 0x3c64afdcf10b47c9, -28),
    ("cosh", 0x3e3923a737471faa, 0x0, 0x3ff0000000000000, 0x3c73bfdcff91d665, 0),
    ("sin", 0x3e3923a737471faa, 0x0, 0x3ff923a737471faa, 0xbc64afdcf10b47c9, -28),
    ("cos", 0x3e3923a737471faa, 0x0, 0x4000000000000000, 0xbc83bfdcff91d665, -1),
    ("tan", 0x3e3923a737471faa, 0x0, 0x3ff923a737471faa, 0x3c74afdcf10b47c9, -28),
    ("exp", 0xbe3923a737471faa, 0x0, 0x3ffffffffcdb8b19, 0x3c8f4de25eec577d, -1),
    ("sinh", 0xbe3923a737471faa, 0x0, 0xbff923a737471faa, 0xbc64afdcf10b47c9, -28),
    ("cosh", 0xbe3923a737471faa, 0x0, 0x3ff0000000000000, 0x3c73bfdcff91d665, 0),
    ("sin", 0xbe3923a737471faa, 0x0, 0xbff923a737471faa, 0x3c64afdcf10b47c9, -28),
    ("cos", 0xbe3923a737471faa, 0x0, 0x4000000000000000, 0xbc83bfdcff91d665, -1),
    ("tan", 0xbe3923a737471faa, 0x0, 0xbff923a737471faa, 0xbc74afdcf10b47c9, -28),
    ("asin", 0x3e3923a737471faa, 0x0, 0x3ff923a737471faa, 0x3c64afdcf10b47c9, -28),
    ("asin", 0xbe3923a737471faa, 0x0, 0xbff923a737471faa, 0xbc64afdcf10b47c9, -28),
    ("ln", 0x3e3923a737471faa, 0x0, 0xbff2f4ceaca9fb9d, 0xbc7523e70c471e99, 4),
    ("sqrt", 0x3e3923a737471faa, 0x0, 0x3ff40e3dd0dde99f, 0x3c9964aeecec10f0, -14),
    ("exp", 0x3fa5f5572031e26c, 0x0, 0x3ff0b37cff3a5d66, 0x3c82aef040a69e6c, 0),
    ("sinh", 0x3fa5f5572031e26c, 0x0, 0x3ff5f710518eef51, 0xbc69b90b877230c2, -5),
    ("cosh", 0x3fa5f5572031e26c, 0x0, 0x3ff003c47cade5ec, 0xbc988eced4253e99, 0),
    ("sin", 0x3fa5f5572031e26c, 0x0, 0x3ff5f39e039a96db, 0xbc8b36a038035c06, -5),
    ("cos", 0x3fa5f5572031e26c, 0x0, 0x3ffff8779e001fff, 0xbc8e4380b757d1e2, -1),
    ("tan", 0x3fa5f5572031e26c, 0x0, 0x3ff5f8ca1473bbfe, 0x3c9e79ed830b047c, -5),
    ("exp", 0xbfa5f5572031e26c, 0x0, 0x3ffea817f442dce2, 0x3c862ba8dd88ce5e, -1),
    ("sinh", 0xbfa5f5572031e26c, 0x0, 0xbff5f710518eef51, 0x3c69b90b877230c2, -5),
    ("cosh", 0xbfa5f5572031e26c, 0x0, 0x3ff003c47cade5ec, 0xbc988eced4253e99, 0),
    ("sin", 0xbfa5f5572031e26c, 0x0, 0xbff5f39e039a96db, 0x3c8b36a038035c06, -5),
    ("cos", 0xbfa5f5572031e26c, 0x0, 0x3ffff8779e001fff, 0xbc8e4380b757d1e2, -1),
    ("tan", 0xbfa5f5572031e26c, 0x0, 0xbff5f8ca1473bbfe, 0xbc9e79ed830b047c, -5),
    ("asin", 0x3fa5f5572031e26c, 0x0, 0x3ff5f710a4c01244, 0xbc984b9345429c16, -5),
    ("asin", 0xbfa5f5572031e26c, 0x0, 0xbff5f710a4c01244, 0x3c984b9345429c16, -5),
    ("ln", 0x3fa5f5572031e26c, 0x0, 0xbff93183888ca719, 0xbc6f1112e47bb491, 1),
    ("sqrt", 0x3fa5f5572031e26c, 0x0, 0x3ffa820439c27aba, 0xbc858aefd267f32c, -3),
    ("exp", 0x3fbb64ce422025e0, 0x0, 0x3ff1ce9c3a51493c, 0x3c75d78476f572aa, 0),
    ("sinh", 0x3fbb64ce422025e0, 0x0, 0x3ffb72325a932407, 0xbc949c73fede8ac6, -4),
    ("cosh", 0x3fbb64ce422025e0, 0x0, 0x3ff0177914a816fc, 0xbc954057a254baa9, 0),
    ("sin", 0x3fbb64ce422025e0, 0x0, 0x3ffb576e15fca539, 0x3c9479a5f0f941db, -4),
    ("cos", 0x3fbb64ce422025e0, 0x0, 0x3fffd124c09b7023, 0xbc99f304a5acd7e8, -1),
    ("tan", 0x3fbb64ce422025e0, 0x0, 0x3ffb7fb20e55a3a8, 0x3c8bf618bc4d4f10, -4),
    ("exp", 0xbfbb64ce422025e0, 0x0, 0x3ffcc0abddfdc977, 0xbc9fed20c4cda3f9, -1),
    ("sinh", 0xbfbb64ce422025e0, 0x0, 0xbffb72325a932407, 0x3c949c73fede8ac6, -4),
    ("cosh", 0xbfbb64ce422025e0, 0x0, 0x3ff0177914a816fc, 0xbc954057a254baa9, 0),
    ("sin", 0xbfbb64ce422025e0, 0x0, 0xbffb576e15fca539, 0xbc9479a5f0f941db, -4),
    ("cos", 0xbfbb64ce422025e0, 0x0, 0x3fffd124c09b7023, 0xbc99f304a5acd7e8, -1),
    ("tan", 0xbfbb64ce422025e0, 0x0, 0xbffb7fb20e55a3a8, 0xbc8bf618bc4d4f10, -4),
    ("asin", 0x3fbb64ce422025e0, 0x0, 0x3ffb72422ab994a9, 0x3c75ef24d577d6a8, -4),
    ("asin", 0xbfbb64ce422025e0, 0x0, 0xbffb72422ab994a9, 0xbc75ef24d577d6a8, -4),
    ("ln", 0x3fbb64ce422025e0, 0x0, 0xbff1e0ff32136702, 0xbc82e43013199038, 1),
    ("sqrt", 0x3fbb64ce422025e0, 0x0, 0x3ff4ef850f73347c, 0xbc70edd3990bfb3c, -2),
    ("exp", 0x3e40f4205b3ceed3, 0x0, 0x3ff00000021e840c, 0xbc9d1d229ecd73ac, 0),
    ("sinh", 0x3e40f4205b3ceed3, 0x0, 0x3ff0f4205b3ceed3, 0x3c69613230c24e05, -27),
    ("cosh", 0x3e40f4205b3ceed3, 0x0, 0x3ff0000000000000, 0x3c81f6cd919a0f16, 0),
    ("sin", 0x3e40f4205b3ceed3, 0x0, 0x3ff0f4205b3ceed3, 0xbc69613230c24e05, -27),
    ("cos", 0x3e40f4205b3ceed3, 0x0, 0x4000000000000000, 0xbc91f6cd919a0f16, -1),
    ("tan", 0x3e40f4205b3ceed3, 0x0, 0x3ff0f4205b3ceed3, 0x3c79613230c24e05, -27),
    ("exp", 0xbe40f4205b3ceed3, 0x0, 0x3ffffffffbc2f7e9, 0x3c9e27e060cf0585, -1),
    ("sinh", 0xbe40f4205b3ceed3, 0x0, 0xbff0f4205b3ceed3, 0xbc69613230c24e05, -27),
    ("cosh", 0xbe40f4205b3ceed3, 0x0, 0x3ff0000000000000, 0x3c81f6cd919a0f16, 0),
    ("sin", 0xbe40f4205b3ceed3, 0x0, 0xbff0f4205b3ceed3, 0x3c69613230c24e05, -27),
    ("cos", 0xbe40f4205b3ceed3, 0x0, 0x4000000000000000, 0xbc91f6cd919a0f16, -1),
    ("tan", 0xbe40f4205b3ceed3, 0x0, 0xbff0f4205b3ceed3, 0xbc79613230c24e05, -27),
    ("asin", 0x3e40f4205b3ceed3, 0x0, 0x3ff0f4205b3ceed3, 0x3c69613230c24e05, -27),
    ("asin", 0xbe40f4205b3ceed3, 0x0, 0xbff0f4205b3ceed3, 0xbc69613230c24e05, -27),
    ("ln", 0x3e40f4205b3ceed3, 0x0, 0xbff2a8367ac64b45, 0xbc85a05ed63f9d90, 4),
    ("sqrt", 0x3e40f4205b3ceed3, 0x0, 0x3ff74abe7375df44, 0x3c8bee231410162a, -14),
    ("exp", 0x3f97f150535c5d62, 0x0, 0x3ff060e6207e010c, 0x3c98ee93cf8d736d, 0),
    ("sinh", 0x3f97f150535c5d62, 0x0, 0x3ff7f1df4ca3fb3d, 0xbc93a32ef5e7ceec, -6),
    ("cosh", 0x3f97f150535c5d62, 0x0, 0x3ff0011ea34b711f, 0x3c9c3d208b6512a8, 0),
    ("sin", 0x3f97f150535c5d62, 0x0, 0x3ff7f0c15c14fb61, 0x3c9a4fefe7ca3e8c, -6),
    ("cos", 0x3f97f150535c5d62, 0x0, 0x3ffffdc2c6c830c5, 0x3c5851ebc91400b5, -1),
    ("tan", 0x3f97f150535c5d62, 0x0, 0x3ff7f26e53ee2289, 0x3c08a4b6db89cbef, -6),
    ("exp", 0xbf97f150535c5d62, 0x0, 0x3fff42ae4c31c265, 0xbc4d14ae30d38700, -1),
    ("sinh", 0xbf97f150535c5d62, 0x0, 0xbff7f1df4ca3fb3d, 0x3c93a32ef5e7ceec, -6),
    ("cosh", 0xbf97f150535c5d62, 0x0, 0x3ff0011ea34b711f, 0x3c9c3d208b6512a8, 0),
    ("sin", 0xbf97f150535c5d62, 0x0, 0xbff7f0c15c14fb61, 0xbc9a4fefe7ca3e8c, -6),
    ("cos", 0xbf97f150535c5d62, 0x0, 0x3ffffdc2c6c830c5, 0x3c5851ebc91400b5, -1),
    ("tan", 0xbf97f150535c5d62, 0x0, 0xbff7f26e53ee2289, 0xbc08a4b6db89cbef, -6),
    ("asin", 0x3f97f150535c5d62, 0x0, 0x3ff7f1df54a5a9e3, 0x3c5f8ebdbb4a9f71, -6),
    ("asin", 0xbf97f150535c5d62, 0x0, 0xbff7f1df54a5a9e3, 0xbc5f8ebdbb4a9f71, -6),
    ("ln", 0x3f97f150535c5d62, 0x0, 0xbffe0be6ba78bf71, 0xbc88cb5d8a4480be, 1),
    ("sqrt", 0x3f97f150535c5d62, 0x0, 0x3ff3928e4780ee4c, 0x3c8ac1098e1ec8ba, -3),
    ("exp", 0x3eb6d76b078df0ee, 0x0, 0x3ff000016d76c0c7, 0xbc90c8bf901c4ef3, 0),
    ("sinh", 0x3eb6d76b078df0ee, 0x0, 0x3ff6d76b078df8b0, 0x3c889d31204cd399, -20),
    ("cosh", 0x3eb6d76b078df0ee, 0x0, 0x3ff000000000104e, 0xbc815700aa0bafeb, 0),
    ("sin", 0x3eb6d76b078df0ee, 0x0, 0x3ff6d76b078de92c, 0xbc889d311f826e7d, -20),
    ("cos", 0x3eb6d76b078df0ee, 0x0, 0x3fffffffffffdf64, 0x3c915700acd08e2e, -1),
    ("tan", 0x3eb6d76b078df0ee, 0x0, 0x3ff6d76b078e0072, 0x3c989d312311357c, -20),
    ("exp", 0xbeb6d76b078df0ee, 0x0, 0x3ffffffd2512bfaa, 0xbc51c8233dec1f00, -1),
    ("sinh", 0xbeb6d76b078df0ee, 0x0, 0xbff6d76b078df8b0, 0xbc889d31204cd399, -20),
    ("cosh", 0xbeb6d76b078df0ee, 0x0, 0x3ff000000000104e, 0xbc815700aa0bafeb, 0),
    ("sin", 0xbeb6d76b078df0ee, 0x0, 0xbff6d76b078de92c, 0x3c889d311f826e7d, -20),
    ("cos", 0xbeb6d76b078df0ee, 0x0, 0x3fffffffffffdf64, 0x3c915700acd08e2e, -1),
    ("tan", 0xbeb6d76b078df0ee, 0x0, 0xbff6d76b078e0072, 0xbc989d312311357c, -20),
    ("asin", 0x3eb6d76b078df0ee, 0x0, 0x3ff6d76b078df8b0, 0x3c889d312376680a, -20),
    ("asin", 0xbeb6d76b078df0ee, 0x0, 0xbff6d76b078df8b0, 0xbc889d312376680a, -20),
    ("ln", 0x3eb6d76b078df0ee, 0x0, 0xbffb038f83316cae, 0x3c7349ced7c12c03, 3),
    ("sqrt", 0x3eb6d76b078df0ee, 0x0, 0x3ff31dfa77b3d996, 0x3c9eb5433b985062, -10),
    ("exp", 0x3f47731af12bcec4, 0x0, 0x3ff002eea81eab4a, 0xbc99538d7002b560, 0),
    ("sinh", 0x3f47731af12bcec4, 0x0, 0x3ff7731b12c035bc, 0xbc6c53787e80182d, -11),
    ("cosh", 0x3f47731af12bcec4, 0x0, 0x3ff0000044bc5343, 0xbc7ccc708882ed80, 0),
    ("sin", 0x3f47731af12bcec4, 0x0, 0x3ff7731acf9767e9, 0xbc77d8c6d53c8474, -11),
    ("cos", 0x3f47731af12bcec4, 0x0, 0x3fffffff76875a3f, 0x3c75355bc071b467, -1),
    ("tan", 0x3f47731af12bcec4, 0x0, 0x3ff7731b34549d7e, 0xbc8330f8a17d40dc, -11),
    ("exp", 0xbf47731af12bcec4, 0x0, 0x3ffffa23c2b3f678, 0x3c95daaa57827d41, -1),
    ("sinh", 0xbf47731af12bcec4, 0x0, 0xbff7731b12c035bc, 0x3c6c53787e80182d, -11),
    ("cosh", 0xbf47731af12bcec4, 0x0, 0x3ff0000044bc5343, 0xbc7ccc708882ed80, 0),
    ("sin", 0xbf47731af12bcec4, 0x0, 0xbff7731acf9767e9, 0x3c77d8c6d53c8474, -11),
    ("cos", 0xbf47731af12bcec4, 0x0, 0x3fffffff76875a3f, 0x3c75355bc071b467, -1),
    ("tan", 0xbf47731af12bcec4, 0x0, 0xbff7731b34549d7e, 0x3c8330f8a17d40dc, -11),
    ("asin", 0x3f47731af12bcec4, 0x0, 0x3ff7731b12c0362f, 0x3c9673b31e728bbd, -11),
    ("asin", 0xbf47731af12bcec4, 0x0, 0xbff7731b12c0362f, 0xbc9673b31e728bbd, -11),
    ("ln", 0x3f47731af12bcec4, 0x0, 0xbffcf82b6264473d, 0xbc6add134af22dc9, 2),
    ("sqrt", 0x3f47731af12bcec4, 0x0, 0x3ffb64a9a6b7efe2, 0xbc65e3f0ac0adbd3, -6),
    ("exp", 0x3e65c90a94997b0f, 0x0, 0x3ff000000ae4854e, 0x3c3f0c455554d0d1, 0),
    ("sinh", 0x3e65c90a94997b0f, 0x0, 0x3ff5c90a94997b11, 0xbc944c7f7ec80c39, -25),
    ("cosh", 0x3e65c90a94997b0f, 0x0, 0x3ff0000000000004, 0xbc92b33100846cfd, 0),
    ("sin", 0x3e65c90a94997b0f, 0x0, 0x3ff5c90a94997b0d, 0x3c944c7f7ec80c3e, -25),
    ("cos", 0x3e65c90a94997b0f, 0x0, 0x3ffffffffffffff9, 0xbc9a999dfef725e1, -1),
    ("tan", 0x3e65c90a94997b0f, 0x0, 0x3ff5c90a94997b12, 0x3c976701026fe7b2, -25),
    ("exp", 0xbe65c90a94997b0f, 0x0, 0x3fffffffea36f573, 0xbc878a4c5978b4f8, -1),
    ("sinh", 0xbe65c90a94997b0f, 0x0, 0xbff5c90a94997b11, 0x3c944c7f7ec80c39, -25),
    ("cosh", 0xbe65c90a94997b0f, 0x0, 0x3ff0000000000004, 0xbc92b33100846cfd, 0),
    ("sin", 0xbe65c90a94997b0f, 0x0, 0xbff5c90a94997b0d, 0xbc944c7f7ec80c3e, -25),
    ("cos", 0xbe65c90a94997b0f, 0x0, 0x3ffffffffffffff9, 0xbc9a999dfef725e1, -1),
    ("tan", 0xbe65c90a94997b0f, 0x0, 0xbff5c90a94997b12, 0xbc976701026fe7b2, -25),
    ("asin", 0x3e65c90a94997b0f, 0x0, 0x3ff5c90a94997b11, 0xbc944c7f7ec80c25, -25),
    ("asin", 0xbe65c90a94997b0f, 0x0, 0xbff5c90a94997b11, 0x3c944c7f7ec80c25, -25),
    ("ln", 0x3e65c90a94997b0f, 0x0, 0xbff10520d1154286, 0x3c900b2168882c15, 4),
    ("sqrt", 0x3e65c90a94997b0f, 0x0, 0x3ffa67399979b9bc, 0x3c6fd4412718c410, -13),
    ("exp", 0x403cb5c7425c0a63, 0x0, 0x3ff567b0296cd67a, 0x3c87d7f1b44a1682, 41),
    ("sinh", 0x403cb5c7425c0a63, 0x0, 0x3ff567b0296cd67a, 0x3c87d7f1b2cb5fca, 40),
    ("cosh", 0x403cb5c7425c0a63, 0x0, 0x3ff567b0296cd67a, 0x3c87d7f1b5c8cd3b, 40),
    ("sin", 0x403cb5c7425c0a63, 0x0, 0xbffb03594bccfbcd, 0x3c80120d8393e13f, -2),
    ("cos", 0x403cb5c7425c0a63, 0x0, 0xbffd0287bf1a72f8, 0x3c90e69182896854, -1),
    ("tan", 0x403cb5c7425c0a63, 0x0, 0x3ffdcc2140a9858c, 0xbc9b13514ee3aa1f, -2),
    ("exp", 0xc03cb5c7425c0a63, 0x0, 0x3ff7eb6b864b3ad6, 0xbc97484d930a9ec5, -42),
    ("sinh", 0xc03cb5c7425c0a63, 0x0, 0xbff567b0296cd67a, 0xbc87d7f1b2cb5fca, 40),
    ("cosh", 0xc03cb5c7425c0a63, 0x0, 0x3ff567b0296cd67a, 0x3c87d7f1b5c8cd3b, 40),
    ("sin", 0xc03cb5c7425c0a63, 0x0, 0x3ffb03594bccfbcd, 0xbc80120d8393e13f, -2),
    ("cos", 0xc03cb5c7425c0a63, 0x0, 0xbffd0287bf1a72f8, 0x3c90e69182896854, -1),
    ("tan", 0xc03cb5c7425c0a63, 0x0, 0xbffdcc2140a9858c, 0x3c9b13514ee3aa1f, -2),
    ("ln", 0x403cb5c7425c0a63, 0x0, 0x3ffadba4d5c640e0, 0xbc9a489da4b81556, 1),
    ("sqrt", 0x403cb5c7425c0a63, 0x0, 0x3ff56ec63818c650, 0x3c80d532bc7477bb, 2),
    ("exp", 0x3dcc7a2ea27cfa38, 0x0, 0x3ff0000000038f46, 0xbc85d7fdad37bf91, 0),
    ("sinh", 0x3dcc7a2ea27cfa38, 0x0, 0x3ffc7a2ea27cfa38, 0x3b8e11ee3b70700e, -35),
    ("cosh", 0x3dcc7a2ea27cfa38, 0x0, 0x3ff0000000000000, 0x3b9957a42035a536, 0),
    ("sin", 0x3dcc7a2ea27cfa38, 0x0, 0x3ffc7a2ea27cfa38, 0xbb8e11ee3b70700e, -35),
    ("cos", 0x3dcc7a2ea27cfa38, 0x0, 0x4000000000000000, 0xbba957a42035a536, -1),
    ("tan", 0x3dcc7a2ea27cfa38, 0x0, 0x3ffc7a2ea27cfa38, 0x3b9e11ee3b70700e, -35),
    ("exp", 0xbdcc7a2ea27cfa38, 0x0, 0x3ffffffffff8e174, 0x3c95d8630bc84068, -1),
    ("sinh", 0xbdcc7a2ea27cfa38, 0x0, 0xbffc7a2ea27cfa38, 0xbb8e11ee3b70700e, -35),
    ("cosh", 0xbdcc7a2ea27cfa38, 0x0, 0x3ff0000000000000, 0x3b9957a42035a536, 0),
    ("sin", 0xbdcc7a2ea27cfa38, 0x0, 0xbffc7a2ea27cfa38, 0x3b8e11ee3b70700e, -35),
    ("cos", 0xbdcc7a2ea27cfa38, 0x0, 0x4000000000000000, 0xbba957a42035a536, -1),
    ("tan", 0xbdcc7a2ea27cfa38, 0x0, 0xbffc7a2ea27cfa38, 0xbb9e11ee3b70700e, -35),
    ("asin", 0x3dcc7a2ea27cfa38, 0x0, 0x3ffc7a2ea27cfa38, 0x3b8e11ee3b70700e, -35),
    ("asin", 0xbdcc7a2ea27cfa38, 0x0, 0xbffc7a2ea27cfa38, 0xbb8e11ee3b70700e, -35),
    ("ln", 0x3dcc7a2ea27cfa38, 0x0, 0xbff7af029dcc1b7d, 0xbc93631e3d7be597, 4),
    ("sqrt", 0x3dcc7a2ea27cfa38, 0x0, 0x3ffe2ff28e4ae849, 0xbc9ee7ce43ccbfa5, -18),
    ("exp", 0x3f8930d6ea99ba40, 0x0, 0x3ff032b153c23974, 0xbc97ed37c18d0227, 0),
    ("sinh", 0x3f8930d6ea99ba40, 0x0, 0x3ff931008ba57e10, 0x3c93906cf3b3f8a3, -7),
    ("cosh", 0x3f8930d6ea99ba40, 0x0, 0x3ff0004f52aaee77, 0x3c9feba7648b95e8, 0),
    ("sin", 0x3f8930d6ea99ba40, 0x0, 0x3ff930ad49b73d13, 0xbc8e701257fcfe98, -7),
    ("cos", 0x3f8930d6ea99ba40, 0x0, 0x3fffff615bb04d62, 0xbc88d055f00c7cdf, -1),
    ("tan", 0x3f8930d6ea99ba40, 0x0, 0x3ff9312a2dd2357a, 0xbc967d65096b4f7f, -7),
    ("exp", 0xbf8930d6ea99ba40, 0x0, 0x3fff9bdaa32746f7, 0xbc9076f2eab7a412, -1),
    ("sinh", 0xbf8930d6ea99ba40, 0x0, 0xbff931008ba57e10, 0xbc93906cf3b3f8a3, -7),
    ("cosh", 0xbf8930d6ea99ba40, 0x0, 0x3ff0004f52aaee77, 0x3c9feba7648b95e8, 0),
    ("sin", 0xbf8930d6ea99ba40, 0x0, 0xbff930ad49b73d13, 0x3c8e701257fcfe98, -7),
    ("cos", 0xbf8930d6ea99ba40, 0x0, 0x3fffff615bb04d62, 0xbc88d055f00c7cdf, -1),
    ("tan", 0xbf8930d6ea99ba40, 0x0, 0xbff9312a2dd2357a, 0x3c967d65096b4f7f, -7),
    ("asin", 0x3f8930d6ea99ba40, 0x0, 0x3ff931008c4a9ce0, 0x3c6a9b0c3e33fbb2, -7),
    ("asin", 0xbf8930d6ea99ba40, 0x0, 0xbff931008c4a9ce0, 0xbc6a9b0c3e33fbb2, -7),
    ("ln", 0x3f8930d6ea99ba40, 0x0, 0xbff197b243536f1d, 0x3c58dd3159a5c43c, 2),
    ("sqrt", 0x3f8930d6ea99ba40, 0x0, 0x3ffc645946a89881, 0xbc9a6f200e581dfc, -4),
    ("exp", 0x3ec7ebff21c01206, 0x0, 0x3ff00002fd802bc0, 0x3c89c2306d3341fa, 0),
    ("sinh", 0x3ec7ebff21c01206, 0x0, 0x3ff7ebff21c035ac, 0x3c91c262d62d8f4b, -19),
    ("cosh", 0x3ec7ebff21c01206, 0x0, 0x3ff0000000004788, 0x3c86676bfc9a8c6e, 0),
    ("sin", 0x3ec7ebff21c01206, 0x0, 0x3ff7ebff21bfee60, 0xbc91c262ce357f12, -19),
    ("cos", 0x3ec7ebff21c01206, 0x0, 0x3fffffffffff70f0, 0xbc96676bc74db3a8, -1),
    ("tan", 0x3ec7ebff21c01206, 0x0, 0x3ff7ebff21c05953, 0xbc9c7b3a1bdc6fde, -19),
    ("exp", 0xbec7ebff21c01206, 0x0, 0x3ffffffa0500c6a0, 0x3c930ca78c01d6e3, -1),
    ("sinh", 0xbec7ebff21c01206, 0x0, 0xbff7ebff21c035ac, 0xbc91c262d62d8f4b, -19),
    ("cosh", 0xbec7ebff21c01206, 0x0, 0x3ff0000000004788, 0x3c86676bfc9a8c6e, 0),
    ("sin", 0xbec7ebff21c01206, 0x0, 0xbff7ebff21bfee60, 0x3c91c262ce357f12, -19),
    ("cos", 0xbec7ebff21c01206, 0x0, 0x3fffffffffff70f0, 0xbc96676bc74db3a8, -1),
    ("tan", 0xbec7ebff21c01206, 0x0, 0xbff7ebff21c05953, 0x3c9c7b3a1bdc6fde, -19),
    ("asin", 0x3ec7ebff21c01206, 0x0, 0x3ff7ebff21c035ac, 0x3c91c262f60dd02d, -19),
    ("asin", 0xbec7ebff21c01206, 0x0, 0xbff7ebff21c035ac, 0xbc91c262f60dd02d, -19),
    ("ln", 0x3ec7ebff21c01206, 0x0, 0xbff98901deccc12b, 0x3c77d5fcae8ed58f, 3),
    ("sqrt", 0x3ec7ebff21c01206, 0x0, 0x3ffbaaebf66e1ad9, 0xbc8a1b8fcaf3d0be, -10),
    ("exp", 0x3e9babced2e5cd98, 0x0, 0x3ff000006eaf3cca, 0x3c9bec42de281dc9, 0),
    ("sinh", 0x3e9babced2e5cd98, 0x0, 0x3ffbabced2e5ce75, 0xbc92fa0a6850aef4, -22),
    ("cosh", 0x3e9babced2e5cd98, 0x0, 0x3ff000000000017f, 0xbc83c463abdf712b, 0),
    ("sin", 0x3e9babced2e5cd98, 0x0, 0x3ffbabced2e5ccbb, 0x3c92fa0a6851b701, -22),
    ("cos", 0x3e9babced2e5cd98, 0x0, 0x3ffffffffffffd02, 0x3c93c463abe567f3, -1),
    ("tan", 0x3e9babced2e5cd98, 0x0, 0x3ffbabced2e5cf51, 0x3c9a0beb2f65da6d, -22),
    ("exp", 0xbe9babced2e5cd98, 0x0, 0x3fffffff22a18c67, 0xbc9f614d140f1de9, -1),
    ("sinh", 0xbe9babced2e5cd98, 0x0, 0xbffbabced2e5ce75, 0x3c92fa0a6850aef4, -22),
    ("cosh", 0xbe9babced2e5cd98, 0x0, 0x3ff000000000017f, 0xbc83c463abdf712b, 0),
    ("sin", 0xbe9babced2e5cd98, 0x0, 0xbffbabced2e5ccbb, 0xbc92fa0a6851b701, -22),
    ("cos", 0xbe9babced2e5cd98, 0x0, 0x3ffffffffffffd02, 0x3c93c463abe567f3, -1),
    ("tan", 0xbe9babced2e5cd98, 0x0, 0xbffbabced2e5cf51, 0xbc9a0beb2f65da6d, -22),
    ("asin", 0x3e9babced2e5cd98, 0x0, 0x3ffbabced2e5ce75, 0xbc92fa0a684c8ec3, -22),
    ("asin", 0xbe9babced2e5cd98, 0x0, 0xbffbabced2e5ce75, 0x3c92fa0a684c8ec3, -22),
    ("ln", 0x3e9babced2e5cd98, 0x0, 0xbffd6722c8bf77df, 0x3c98ccfe5c3a3a08, 3),
    ("sqrt", 0x3e9babced2e5cd98, 0x0, 0x3ff50a9544249c03, 0x3c99618503a3f350, -11),
    ("exp", 0x3db9be4bcff5d97a, 0x0, 0x3ff0000000019be5, 0xbc90c0236ca77986, 0),
    ("sinh", 0x3db9be4bcff5d97a, 0x0, 0x3ff9be4bcff5d97a, 0x3b6636dfdc67d756, -36),
    ("cosh", 0x3db9be4bcff5d97a, 0x0, 0x3ff0000000000000, 0x3b74b5c219e9475d, 0),
    ("sin", 0x3db9be4bcff5d97a, 0x0, 0x3ff9be4bcff5d97a, 0xbb6636dfdc67d756, -36),
    ("cos", 0x3db9be4bcff5d97a, 0x0, 0x4000000000000000, 0xbb84b5c219e9475d, -1),
    ("tan", 0x3db9be4bcff5d97a, 0x0, 0x3ff9be4bcff5d97a, 0x3b7636dfdc67d756, -36),
    ("exp", 0xbdb9be4bcff5d97a, 0x0, 0x3ffffffffffcc837, 0xbc9e7fa470eef30c, -1),
    ("sinh", 0xbdb9be4bcff5d97a, 0x0, 0xbff9be4bcff5d97a, 0xbb6636dfdc67d756, -36),
    ("cosh", 0xbdb9be4bcff5d97a, 0x0, 0x3ff0000000000000, 0x3b74b5c219e9475d, 0),
    ("sin", 0xbdb9be4bcff5d97a, 0x0, 0xbff9be4bcff5d97a, 0x3b6636dfdc67d756, -36),
    ("cos", 0xbdb9be4bcff5d97a, 0x0, 0x4000000000000000, 0xbb84b5c219e9475d, -1),
    ("tan", 0xbdb9be4bcff5d97a, 0x0, 0xbff9be4bcff5d97a, 0xbb7636dfdc67d756, -36),
    ("asin", 0x3db9be4bcff5d97a, 0x0, 0x3ff9be4bcff5d97a, 0x3b6636dfdc67d756, -36),
    ("asin", 0xbdb9be4bcff5d97a, 0x0, 0xbff9be4bcff5d97a, 0xbb6636dfdc67d756, -36),
    ("ln", 0x3db9be4bcff5d97a, 0x0, 0xbff87a4b465957c5, 0xbc8dcc55ec96588e, 4),
    ("sqrt", 0x3db9be4bcff5d97a, 0x0, 0x3ff44b8f96b685ea, 0xbc91882508040bb4, -18),
    ("sin", 0x408f400000000000, 0x0, 0x3ffa75cc150a206b, 0x3c964b8b22673741, -1),
    ("cos", 0x408f400000000000, 0x0, 0x3ff1ff026793f1bb, 0x3c9dc0807412e446, -1),
    ("tan", 0x408f400000000000, 0x0, 0x3ff786729f34311a, 0xbc70be773f429540, 0),
    ("sin", 0xc08f400000000000, 0x0, 0xbffa75cc150a206b, 0xbc964b8b22673741, -1),
    ("ln", 0x408f400000000000, 0x0, 0x3ffba18a998fffa0, 0x3c9112fc120a0a22, 2),
    ("sqrt", 0x408f400000000000, 0x0, 0x3fff9f6e4990f227, 0x3c8b42e5b5d1e808, 4),
    ("sin", 0x40f86a0000000000, 0x0, 0x3ff24daa9c527e96, 0x3c8c767d8e3e1ca8, -5),
    ("cos", 0x40f86a0000000000, 0x0, 0xbffffac3841b3da7, 0xbc8b085bf2c1a978, -1),
    ("tan", 0x40f86a0000000000, 0x0, 0xbff250a9d503313d, 0x3c9c133e111bd9d8, -5),
    ("sin", 0xc0f86a0000000000, 0x0, 0xbff24daa9c527e96, 0xbc8c767d8e3e1ca8, -5),
    ("ln", 0x40f86a0000000000, 0x0, 0x3ff7069e2aa2aa5b, 0xbc7c6b626e89338f, 3),
    ("sqrt", 0x40f86a0000000000, 0x0, 0x3ff3c3a4edfa9759, 0xbc9f7b18372e677d, 8),
    ("sin", 0x41cdcd6500000000, 0x0, 0x3ff1778cae83c69b, 0x3c6c7b04e0a2a2dd, -1),
    ("cos", 0x41cdcd6500000000, 0x0, 0x3ffacff8c7364234, 0xbc9f8b0e8a7df5a3, -1),
    ("tan", 0x41cdcd6500000000, 0x0, 0x3ff4d8b249e3dba7, 0xbc9431ee71468c7e, -1),
    ("sin", 0xc1cdcd6500000000, 0x0, 0xbff1778cae83c69b, 0xbc6c7b04e0a2a2dd, -1),
    ("ln", 0x41cdcd6500000000, 0x0, 0x3ff4b927f32bffb8, 0x3c899c7a1b0f0f33, 4),
    ("sqrt", 0x41cdcd6500000000, 0x0, 0x3ffee1b1b3d78c7a, 0x3c92cfaa29c77e4c, 14),
    ("sin", 0x430c6bf526340000, 0x0, 0x3ffb76f88136ceba, 0xbc8b5acbdcf56c2a, -1),
    ("cos", 0x430c6bf526340000, 0x0, 0xbff06c154609d33f, 0x3c9ea7fabcd955c1, -1),
    ("tan", 0x430c6bf526340000, 0x0, 0xbffac23600a95be4, 0xbc8f75e34b730016, 0),
    ("sin", 0xc30c6bf526340000, 0x0, 0xbffb76f88136ceba, 0x3c8b5acbdcf56c2a, -1),
    ("ln", 0x430c6bf526340000, 0x0, 0x3ff144f69ff9ffc4, 0x3c8557bb168c8caa, 5),
    ("sqrt", 0x430c6bf526340000, 0x0, 0x3ffe286789a07f2f, 0x3c9b5ecc2cccd156, 24),
    ("sin", 0x4341c37937e08000, 0x0, 0x3ff8f334432ebba5, 0xbc96acbc789ae1f9, -1),
    ("cos", 0x4341c37937e08000, 0x0, 0xbff40991e398dbfc, 0x3c9a97b522a7b700, -1),
    ("tan", 0x4341c37937e08000, 0x0, 0xbff3ec3afb0422df, 0xbc9a8e9626394146, 0),
    ("sin", 0xc341c37937e08000, 0x0, 0xbff8f334432ebba5, 0x3c96acbc789ae1f9, -1),
    ("ln", 0x4341c37937e08000, 0x0, 0x3ff26bb1bbb55516, 0xbc9f48ad494ea3e9, 5),
    ("sqrt", 0x4341c37937e08000, 0x0, 0x3ff7d78400000000, 0x0, 26),
    ("sin", 0x4480f0cf064dd592, 0x0, 0xbffb453ab76bf397, 0xbc6f453790772648, -1),
    ("cos", 0x4480f0cf064dd592, 0x0, 0x3ff0be2cef01c8f4, 0xbc9b2d1bc8018c4f, -1),
    ("tan", 0x4480f0cf064dd592, 0x0, 0xbffa0f79c1b6b257, 0xbc9d27810f5737dd, 0),
    ("sin", 0xc480f0cf064dd592, 0x0, 0x3ffb453ab76bf397, 0x3c6f453790772648, -1),
    ("ln", 0x4480f0cf064dd592, 0x0, 0x3ff95414621954fe, 0xbc9b03ee44cc2161, 5),
    ("sqrt", 0x4480f0cf064dd592, 0x0, 0x3ff74876e8000000, 0x0, 36),
    ("sin", 0x4a511b0ec57e649a, 0x0, 0xbffec083ac81db28, 0xbc9a7104454d1c8e, -2),
    ("cos", 0x4a511b0ec57e649a, 0x0, 0x3ffc105714551003, 0x3c955a86866eb704, -1),
    ("tan", 0x4a511b0ec57e649a, 0x0, 0xbff1885916b6549d, 0x3c5baff419c9387a, -1),
    ("sin", 0xca511b0ec57e649a, 0x0, 0x3ffec083ac81db28, 0x3c9a7104454d1c8e, -2),
    ("ln", 0x4a511b0ec57e649a, 0x0, 0x3ffcc845b54b54f2, 0xbc988997a7717f53, 6),
    ("sqrt", 0x4a511b0ec57e649a, 0x0, 0x3ff08b2a2c280291, 0xbc8f42f293f2061b, 83),
    ("sin", 0x54b249ad2594c37d, 0x0, 0xbff85c5e5b929359, 0x3c8d798cb7be01af, -2),
    ("cos", 0x54b249ad2594c37d, 0x0, 0x3ffd9757496841f5, 0x3c833eb4677577a7, -1),
    ("tan", 0x54b249ad2594c37d, 0x0, 0xbffa5807d6f76f7d, 0xbc89a0eea6af1a26, -2),
    ("sin", 0xd4b249ad2594c37d, 0x0, 0x3ff85c5e5b929359, 0xbc8d798cb7be01af, -2),
    ("ln", 0x54b249ad2594c37d, 0x0, 0x3ffcc845b54b54f2, 0xbc98d863e84d85c7, 7),
    ("sqrt", 0x54b249ad2594c37d, 0x0, 0x3ff11b0ec57e649a, 0xbc950f9195a50f50, 166),
    ("sin", 0x7e37e43c8800759c, 0x0, 0xbffa2c16b010e385, 0xbc9b900a1f54ecd2, -1),
    ("cos", 0x7e37e43c8800759c, 0x0, 0xbff2699022adc4c1, 0x3c8edd5594b5c574, -1),
    ("tan", 0x7e37e43c8800759c, 0x0, 0x3ff6be411f37ac77, 0xbc95a67ce3109efb, 0),
    ("sin", 0xfe37e43c8800759c, 0x0, 0x3ffa2c16b010e385, 0x3c9b900a1f54ecd2, -1),
    ("ln", 0x7e37e43c8800759c, 0x0, 0x3ff5963447f87fb5, 0x3c8abccc0710fcd4, 9),
    ("sqrt", 0x7e37e43c8800759c, 0x0, 0x3ff38d352e5096af, 0x3c8ffe14f9c9a5eb, 498),
    ("sin", 0x7fefffffffffffff, 0x0, 0x3ff452fc98b34e97, 0xbc927bb193d960df, -8),
    ("cos", 0x7fefffffffffffff, 0x0, 0xbfffffe62ecfab75, 0xbc8e038d934070f1, -1),
    ("tan", 0x7fefffffffffffff, 0x0, 0xbff4530cfe729484, 0x3c91c97823bf87a5, -8),
    ("sin", 0xffefffffffffffff, 0x0, 0xbff452fc98b34e97, 0x3c927bb193d960df, -8),
    ("ln", 0x7fefffffffffffff, 0x0, 0x3ff62e42fefa39ef, 0x3c8a9c9e3b39803f, 9),
    ("sqrt", 0x7fefffffffffffff, 0x0, 0x3fffffffffffffff, 0x3ca0000000000000, 511),
    ("sin", 0x7506ac5b262ca1ff, 0x0, 0x4000000000000000, 0xb852b089ea1e692b, -1),
    ("cos", 0x7506ac5b262ca1ff, 0x0, 0xbff14ae72e6ba22f, 0x3c673eef1477d90e, -61),
    ("tan", 0x7506ac5b262ca1ff, 0x0, 0xbffd9ba9a7975636, 0x3c9714cf36c65449, 60),
    ("sin", 0xf506ac5b262ca1ff, 0x0, 0xc000000000000000, 0x3852b089ea1e692b, -1),
    ("ln", 0x7506ac5b262ca1ff, 0x0, 0x3ff266a4f98a7d3f, 0xbc80a1f792021bf9, 9),
    ("sqrt", 0x7506ac5b262ca1ff, 0x0, 0x3ffaef995446cfb0, 0xbc8fe493117af037, 424),
    ("sin", 0x7506ac5b262ca1ff, 0x0, 0x4000000000000000, 0xb852b089ea1e692b, -1),
    ("cos", 0x7506ac5b262ca1ff, 0x0, 0xbff14ae72e6ba22f, 0x3c673eef1477d90e, -61),
    ("tan", 0x7506ac5b262ca1ff, 0x0, 0xbffd9ba9a7975636, 0x3c9714cf36c65449, 60),
    ("sin", 0xf506ac5b262ca1ff, 0x0, 0xc000000000000000, 0x3852b089ea1e692b, -1),
    ("ln", 0x7506ac5b262ca1ff, 0x0, 0x3ff266a4f98a7d3f, 0xbc80a1f792021bf9, 9),
    ("sqrt", 0x7506ac5b262ca1ff, 0x0, 0x3ffaef995446cfb0, 0xbc8fe493117af037, 424),
    ("sin", 0x7fe0000000000000, 0x0, 0x3ff205248cbdb760, 0xbc7a5a336baf7435, -1),
    ("cos", 0x7fe0000000000000, 0x0, 0xbffa719f26c232bf, 0x3c97a77829eb1138, -1),
    ("tan", 0x7fe0000000000000, 0x0, 0xbff5ce6b4c0d02a3, 0xbc94efc20fe21559, -1),
    ("sin", 0xffe0000000000000, 0x0, 0xbff205248cbdb760, 0x3c7a5a336baf7435, -1),
    ("ln", 0x7fe0000000000000, 0x0, 0x3ff628b76e3a7b61, 0xbc919508762aa710, 9),
    ("sqrt", 0x7fe0000000000000, 0x0, 0x3ff6a09e667f3bcd, 0xbc9bdd3413b26456, 511),
    ("sin", 0x5b51e398f1061c0f, 0x0, 0xbff05cbc57a46d05, 0x3c909f7ee4869079, -1),
    ("cos", 0x5b51e398f1061c0f, 0x0, 0x3ffb801ff2947c49, 0x3c85fb738930e4d7, -1),
    ("tan", 0x5b51e398f1061c0f, 0x0, 0xbff30a142bb13e5c, 0x3c98a3716cfa0caa, -1),
    ("sin", 0xdb51e398f1061c0f, 0x0, 0x3ff05cbc57a46d05, 0xbc909f7ee4869079, -1),
    ("ln", 0x5b51e398f1061c0f, 0x0, 0x3ff2fb5c6d6cf5a9, 0xbc92c6d6b6648aad, 8),
    ("sqrt", 0x5b51e398f1061c0f, 0x0, 0x3ff0eb0de471bf61, 0x3c96113d109fe876, 219),
    ("sin", 0x5672a3af4d83a7fa, 0x0, 0x3ffd0c79e5570130, 0xbc7415fc6079a459, -1),
    ("cos", 0x5672a3af4d83a7fa, 0x0, 0xbffad8767cf2ac1e, 0xbc971733587ec710, -2),
    ("tan", 0x5672a3af4d83a7fa, 0x0, 0xbff1502726735552, 0x3c8c4134c1cb289b, 1),
    ("sin", 0xd672a3af4d83a7fa, 0x0, 0xbffd0c79e5570130, 0x3c7415fc6079a459, -1),
    ("ln", 0x5672a3af4d83a7fa, 0x0, 0x3fff35f109acf56d, 0xbc9eb29e32b123cc, 7),
    ("sqrt", 0x5672a3af4d83a7fa, 0x0, 0x3ff144f3d5d5afa6, 0xbc82443474c80eef, 180),
    ("sin", 0x5fd26e8755ddd598, 0x0, 0xbffc7474b3f94e28, 0xbc315e28d664f491, -2),
    ("cos", 0x5fd26e8755ddd598, 0x0, 0x3ffca9c81ac27ec0, 0xbc8f7ff1fcbfed99, -1),
    ("tan", 0x5fd26e8755ddd598, 0x0, 0xbfffc47763663ee0, 0xbc9d5469ed03d065, -2),
    ("sin", 0xdfd26e8755ddd598, 0x0, 0x3ffc7474b3f94e28, 0x3c315e28d664f491, -2),
    ("ln", 0x5fd26e8755ddd598, 0x0, 0x3ff61a5842f30fe7, 0xbc81f500f57ec41e, 8),
    ("sqrt", 0x5fd26e8755ddd598, 0x0, 0x3ff12c424f1a55f0, 0x3c9dac29980c22c0, 255),
    ("sin", 0x7e26bf46c61412f9, 0x0, 0x3ffebfb27099b966, 0x3c6f1229c5979927, -1),
    ("cos", 0x7e26bf46c61412f9, 0x0, 0xbff1b8a0eea61aef, 0x3c93dc6d13e36fb6, -2),
    ("tan", 0x7e26bf46c61412f9, 0x0, 0xbffbc324c0680dd3, 0x3c8dd23709966ef3, 1),
    ("sin", 0xfe26bf46c61412f9, 0x0, 0xbffebfb27099b966, 0xbc6f1229c5979927, -1),
    ("ln", 0x7e26bf46c61412f9, 0x0, 0x3ff590443121fee8, 0xbc8885c800581ca7, 9),
    ("sqrt", 0x7e26bf46c61412f9, 0x0, 0x3ffafad41c8535e3, 0xbc87c4b9be86b110, 497),
    ("sin", 0x717ab1031c27bddf, 0x0, 0x3fffa00a8a6b89a8, 0x3c9b8141de1e9ab9, -1),
    ("cos", 0x717ab1031c27bddf, 0x0, 0xbff388c51ff3ea36, 0x3c65cf1afe003b8d, -3),
    ("tan", 0x717ab1031c27bddf, 0x0, 0xbff9e7417506ad53, 0xbc6a4ae894d1eb31, 2),
    ("sin", 0xf17ab1031c27bddf, 0x0, 0xbfffa00a8a6b89a8, 0xbc9b8141de1e9ab9, -1),
    ("ln", 0x717ab1031c27bddf, 0x0, 0x3ff12bdfe40f760d, 0x3c96ed5eb7777ce8, 9),
    ("sqrt", 0x717ab1031c27bddf, 0x0, 0x3ff4aa5ecb0afd05, 0x3c5bbc449e6af896, 396),
    ("sin", 0x7318ede0d72563a8, 0x0, 0x3ff9ebc8ae73d6b7, 0x3c96ce0e9dedbdb8, -1),
    ("cos", 0x7318ede0d72563a8, 0x0, 0x3ff2c3ab43ab6fa4, 0x3c94d3ad2b550a44, -1),
    ("tan", 0x7318ede0d72563a8, 0x0, 0x3ff61a35ea718f18, 0xbc670e1fa693d660, 0),
    ("sin", 0xf318ede0d72563a8, 0x0, 0xbff9ebc8ae73d6b7, 0xbc96ce0e9dedbdb8, -1),
    ("ln", 0x7318ede0d72563a8, 0x0, 0x3ff1bb80b504d27a, 0x3c8bd13a63a3d93a, 9),
    ("sqrt", 0x7318ede0d72563a8, 0x0, 0x3ff3f8bf054da779, 0x3c9f4d8297284311, 409),
    ("sin", 0x54ae01f505a2ff36, 0x0, 0xbffde8de136365f6, 0xbc705d4bb4441940, -3),
    ("cos", 0x54ae01f505a2ff36, 0x0, 0x3fff1d36d7f2cf74, 0x3c800c2e1171cd7b, -1),
    ("tan", 0x54ae01f505a2ff36, 0x0, 0xbffec2dfbe1fce52, 0xbc93fef30a866cbb, -3),
    ("sin", 0xd4ae01f505a2ff36, 0x0, 0x3ffde8de136365f6, 0x3c705d4bb4441940, -3),
    ("ln", 0x54ae01f505a2ff36, 0x0, 0x3ffcc1f045f0cb14, 0xbc7276a06182ddbc, 7),
    ("sqrt", 0x54ae01f505a2ff36, 0x0, 0x3ffefce1671d7547, 0xbc9974b1bf7aeae1, 165),
    ("sin", 0x56f571242563fdc1, 0x0, 0x3ff2fff2715d9580, 0xbc8fdfb929b843f8, -7),
    ("cos", 0x56f571242563fdc1, 0x0, 0xbfffffa5c001869d, 0xbc939b087a6e574a, -1),
    ("tan", 0x56f571242563fdc1, 0x0, 0xbff3002807cd9392, 0xbc8d9f7163dc774a, -7),
    ("sin", 0xd6f571242563fdc1, 0x0, 0xbff2fff2715d9580, 0x3c8fdfb929b843f8, -7),
    ("ln", 0x56f571242563fdc1, 0x0, 0x3fffebde9ab06dcc, 0xbc80f9aff644fd02, 7),
    ("sqrt", 0x56f571242563fdc1, 0x0, 0x3ff285ade4e59d37, 0xbc89b4095f91aad0, 184),
    ("sin", 0x65a98289fcfe4c28, 0x0, 0x3ff211494e5eed5e, 0x3c86b58e212ca097, -1),
    ("cos", 0x65a98289fcfe4c28, 0x0, 0xbffa69549bcc3b74, 0x3c977927cd5f1b35, -1),
    ("tan", 0x65a98289fcfe4c28, 0x0, 0xbff5e3fa4ecdecc0, 0x3c7549e86f5c88a8, -1),
    ("sin", 0xe5a98289fcfe4c28, 0x0, 0xbff211494e5eed5e, 0xbc86b58e212ca097, -1),
    ("ln", 0x65a98289fcfe4c28, 0x0, 0x3ffa26f2998e8c1a, 0xbc93d675e73ba81a, 8),
    ("sqrt", 0x65a98289fcfe4c28, 0x0, 0x3ffc923ea5130f90, 0x3c94df4ac717c0ab, 301),
    ("sin", 0x44fcc011cce993be, 0x0, 0x3ff4e1623c517a53, 0x3c93952e12096b8b, -1),
    ("cos", 0x44fcc011cce993be, 0x0, 0xbff83fb74580b36c, 0x3c96571ac327d2e7, -1),
    ("tan", 0x44fcc011cce993be, 0x0, 0xbffb8e066a2e3f80, 0xbc7076af7b3688c0, -1),
    ("sin", 0xc4fcc011cce993be, 0x0, 0xbff4e1623c517a53, 0xbc93952e12096b8b, -1),
    ("ln", 0x44fcc011cce993be, 0x0, 0x3ffc04d7b5adecc0, 0x3c834eb4601db701, 5),
    ("sqrt", 0x44fcc011cce993be, 0x0, 0x3ff5729d3f4707e8, 0x3c63932f0c5b3774, 40),
    ("sin", 0x7d0d70820e2febd0, 0x0, 0x3ff7aa007f126c15, 0xbc70073745861129, -1),
    ("cos", 0x7d0d70820e2febd0, 0x0, 0x3ff58a7a931053e2, 0x3c956e77fa8e787e, -1),
    ("tan", 0x7d0d70820e2febd0, 0x0, 0x3ff193b6b653854a, 0x3c9cd515f9a891bf, 0),
    ("sin", 0xfd0d70820e2febd0, 0x0, 0xbff7aa007f126c15, 0x3c70073745861129, -1),
    ("ln", 0x7d0d70820e2febd0, 0x0, 0x3ff52e842f5d9fe4, 0xbc8fa0b23c9265a9, 9),
    ("sqrt", 0x7d0d70820e2febd0, 0x0, 0x3ffeb16bec32ab27, 0xbc9980d8082dc8f2, 488),
    ("sin", 0x6d2451abd8f2bd04, 0x0, 0x3fff3c3b38fe5a27, 0xbc93fd5771988651, -1),
    ("cos", 0x6d2451abd8f2bd04, 0x0, 0x3ffbd0d7409fdc84, 0x3c963f997cb53a70, -3),
    ("tan", 0x6d2451abd8f2bd04, 0x0, 0x3ff1f7893597d786, 0x3c82c50967bcb728, 2),
    ("sin", 0xed2451abd8f2bd04, 0x0, 0xbfff3c3b38fe5a27, 0x3c93fd5771988651, -1),
    ("ln", 0x6d2451abd8f2bd04, 0x0, 0x3fff56266c4dedba, 0x3c951b4686eb702d, 8),
    ("sqrt", 0x6d2451abd8f2bd04, 0x0, 0x3ff97fcb3293d57c, 0x3c75a8bce13fc154, 361),
    ("sin", 0x447aa05e102147ad, 0x0, 0xbff1e85bbb01e705, 0xbc932b268eaa548a, -5),
    ("cos", 0x447aa05e102147ad, 0x0, 0xbffffafcdf2dcfb9, 0xbc9d8080c9a495be, -1),
    ("tan", 0x447aa05e102147ad, 0x0, 0x3ff1eb2a3a07ca35, 0x3c4c7f2a7e29ad8b, -5),
    ("sin", 0xc47aa05e102147ad, 0x0, 0x3ff1e85bbb01e705, 0x3c932b268eaa548a, -5),
    ("ln", 0x447aa05e102147ad, 0x0, 0x3ff9353ca18288f5, 0x3c86951bdf3236ec, 5),
    ("sqrt", 0x447aa05e102147ad, 0x0, 0x3ff4a3ec41e729cf, 0x3c95e07ef9c54125, 36),
    ("sin", 0x546bb2d4216729f6, 0x0, 0x3ff1b1e1ec818376, 0xbc84699d36517c1c, -2),
    ("cos", 0x546bb2d4216729f6, 0x0, 0x3ffec0ab114a0398, 0x3c85953bb7f83810, -1),
    ("tan", 0x546bb2d4216729f6, 0x0, 0x3ff2699fbb73c43f, 0x3c90a4724177eee4, -2),
    ("sin", 0xd46bb2d4216729f6, 0x0, 0xbff1b1e1ec818376, 0x3c84699d36517c1c, -2),
    ("ln", 0x546bb2d4216729f6, 0x0, 0x3ffc66a74681ee0a, 0xbc65191456bc6911, 7),
    ("sqrt", 0x546bb2d4216729f6, 0x0, 0x3ffdc58d88ff1c53, 0x3c7588e4f40f9c8b, 163),
    ("sin", 0x6c2a5aa3c927e891, 0x0, 0xbffffe9bd824c704, 0xbc778f5438fecc94, -1),
    ("cos", 0x6c2a5aa3c927e891, 0x0, 0xbff2df0c9e41199b, 0xbc929981f01b4ee1, -6),
    ("tan", 0x6c2a5aa3c927e891, 0x0, 0x3ffb20662025329d, 0xbc7105b901196e4c, 5),
    ("sin", 0xec2a5aa3c927e891, 0x0, 0x3ffffe9bd824c704, 0x3c778f5438fecc94, -1),
    ("ln", 0x6c2a5aa3c927e891, 0x0, 0x3ffea8dd8dd50f8e, 0xbc75cca10b1841af, 8),
    ("sqrt", 0x6c2a5aa3c927e891, 0x0, 0x3ffd0a46e370f317, 0x3c97fa3e1c7a3a50, 353),
    ("sin", 0x52cd269a9ae42b06, 0x0, 0x3ffffa9cac435de3, 0x3c75355713dfc006, -1),
    ("cos", 0x52cd269a9ae42b06, 0x0, 0xbff2910c3c57ca4c, 0xbc802668b9434e16, -5),
    ("tan", 0x52cd269a9ae42b06, 0x0, 0xbffb8eeb066c36a8, 0xbc77880980198fc6, 4),
    ("sin", 0xd2cd269a9ae42b06, 0x0, 0xbffffa9cac435de3, 0xbc75355713dfc006, -1),
    ("ln", 0x52cd269a9ae42b06, 0x0, 0x3ffa279719aff3e8, 0xbc9becbb0c725e5d, 7),
    ("sqrt", 0x52cd269a9ae42b06, 0x0, 0x3ffe8acd17e842e0, 0xbc90eefa0a372bae, 150),
    ("sin", 0x795b774eb4c58674, 0x0, 0x3ffc1142a7ba0879, 0xbc92365189c180ef, -1),
    ("cos", 0x795b774eb4c58674, 0x0, 0x3ffebd2780df3344, 0x3c9a36c1d24944d2, -2),
    ("tan", 0x795b774eb4c58674, 0x0, 0x3ffd380c521bce64, 0xbc2e687942c5ef95, 0),
    ("sin", 0xf95b774eb4c58674, 0x0, 0xbffc1142a7ba0879, 0x3c92365189c180ef, -1),
    ("ln", 0x795b774eb4c58674, 0x0, 0x3ff3e6cbb8c7f69b, 0xbc800e869d07359c, 9),
    ("sqrt", 0x795b774eb4c58674, 0x0, 0x3ff4f695c70dd041, 0x3c317c762a38de0e, 459),
    ("sin", 0x420ab2cd30b1aaac, 0x0, 0x3ff9d37659dafd23, 0x3c903731eae0ff21, -1),
    ("cos", 0x420ab2cd30b1aaac, 0x0, 0x3ff2e516c9b54dea, 0x3c830aa071d68b99, -1),
    ("tan", 0x420ab2cd30b1aaac, 0x0, 0x3ff5de85a680cc73, 0x3c68b006aee73133, 0),
    ("sin", 0xc20ab2cd30b1aaac, 0x0, 0xbff9d37659dafd23, 0xbc903731eae0ff21, -1),
    ("ln", 0x420ab2cd30b1aaac, 0x0, 0x3ff762c89b18fa02, 0x3c6b5c7137c049cf, 4),
    ("sqrt", 0x420ab2cd30b1aaac, 0x0, 0x3ffd3ab1667f4139, 0x3c7bb6086ec8fe2e, 16),
    ("sin", 0x574f0ce582ec6353, 0x0, 0xbff7983da496da69, 0xbc82fe6c78292ff4, -1),
    ("cos", 0x574f0ce582ec6353, 0x0, 0x3ff59ded7a0fca28, 0x3c9dddb770f4e779, -1),
    ("tan", 0x574f0ce582ec6353, 0x0, 0xbff176c0e43f6afc, 0xbc9b78490360c60d, 0),
    ("sin", 0xd74f0ce582ec6353, 0x0, 0x3ff7983da496da69, 0x3c82fe6c78292ff4, -1),
    ("ln", 0x574f0ce582ec6353, 0x0, 0x3ff0334f8bf3eaea, 0xbc70a2c7c7b8df39, 8),
    ("sqrt", 0x574f0ce582ec6353, 0x0, 0x3fff858868a5b11f, 0x3c42020b888399d4, 186),
    ("sin", 0x4802b0537f38ca72, 0x0, 0x3ff884f8d50b5503, 0xbc7175ef6ecdb5cf, -1),
    ("cos", 0x4802b0537f38ca72, 0x0, 0xbff48fe296e136c5, 0x3c6673d3eb408d55, -1),
    ("tan", 0x4802b0537f38ca72, 0x0, 0xbff31450d9439f11, 0x3c90ef599677e438, 0),
    ("sin", 0xc802b0537f38ca72, 0x0, 0xbff884f8d50b5503, 0x3c7175ef6ecdb5cf, -1),
    ("ln", 0x4802b0537f38ca72, 0x0, 0x3ff664908442ebe3, 0x3c5731697d5221fe, 6),
    ("sqrt", 0x4802b0537f38ca72, 0x0, 0x3ff874727faba980, 0x3c9bd4968b8e0ea0, 64),
    ("sin", 0x4e87e62aa01e2f46, 0x0, 0x3ff071259973481d, 0xbc8f07e9dd8ee742, -1),
    ("cos", 0x4e87e62aa01e2f46, 0x0, 0x3ffb73f0bfa14f31, 0x3c9038c061ef671b, -1),
    ("tan", 0x4e87e62aa01e2f46, 0x0, 0x3ff32a522851c3b9, 0x3c7268cf8b36dcce, -1),
    ("sin", 0xce87e62aa01e2f46, 0x0, 0xbff071259973481d, 0x3c8f07e9dd8ee742, -1),
    ("ln", 0x4e87e62aa01e2f46, 0x0, 0x3ff43cf2079bdc2b, 0x3c9cab71bc94674b, 7),
    ("sqrt", 0x4e87e62aa01e2f46, 0x0, 0x3ffba78ca6e71071, 0xbc970386b7167f3b, 116),
    ("sin", 0x48dc4aaeac932a47, 0x0, 0x3ff0d44327f813b8, 0xbc8e6dd027e41613, -1),
    ("cos", 0x48dc4aaeac932a47, 0x0, 0x3ffb379eed323677, 0x3c77a9a85d9d8335, -1),
    ("tan", 0x48dc4aaeac932a47, 0x0, 0x3ff3c953f9f88035, 0xbc90c43b279e0192, -1),
    ("sin", 0xc8dc4aaeac932a47, 0x0, 0xbff0d44327f813b8, 0x3c8e6dd027e41613, -1),
    ("ln", 0x48dc4aaeac932a47, 0x0, 0x3ff8bfcce35914bd, 0xbc9198fb4ce19d2c, 6),
    ("sqrt", 0x48dc4aaeac932a47, 0x0, 0x3ff546a71e465f5b, 0xbc8a4d5c675960e8, 71),
    ("sin", 0x5a0bd0561e7ec75f, 0x0, 0x3ff0628aff5abd62, 0xbc9eceb9354824e8, -2),
    ("cos", 0x5a0bd0561e7ec75f, 0x0, 0x3ffeeefc0ba0a26a, 0xbc85787f6c563c1e, -1),
    ("tan", 0x5a0bd0561e7ec75f, 0x0, 0x3ff0f3278098137a, 0xbc6cc92acb04a17e, -2),
    ("sin", 0xda0bd0561e7ec75f, 0x0, 0xbff0628aff5abd62, 0x3c9eceb9354824e8, -2),
    ("ln", 0x5a0bd0561e7ec75f, 0x0, 0x3ff219866c902bc4, 0x3c8390a22c0e46b9, 8),
    ("sqrt", 0x5a0bd0561e7ec75f, 0x0, 0x3ffdd565028391a6, 0x3c8f26186f9d4d64, 208),
    ("sin", 0x7856415479d568f0, 0x0, 0xbffb1ffa0240da80, 0x3c93b253fe4db09a, -1),
    ("cos", 0x7856415479d568f0, 0x0, 0xbff0fa44d4261089, 0xbc72550ddd106fc9, -1),
    ("tan", 0x7856415479d568f0, 0x0, 0x3ff990201576a77b, 0xbc862adbe308a695, 0),
    ("sin", 0xf856415479d568f0, 0x0, 0x3ffb1ffa0240da80, 0xbc93b253fe4db09a, -1),
    ("ln", 0x7856415479d568f0, 0x0, 0x3ff38c63d3b1bd5d, 0x3c840b8c274d1a9f, 9),
    ("sqrt", 0x7856415479d568f0, 0x0, 0x3ff2dec320c579bf, 0xbc958a4d63c8f124, 451),
    ("sin", 0x4b37f1b1022941f4, 0x0, 0xbff75d9a8613f5c0, 0x3c9645ae69395804, -1),
    ("cos", 0x4b37f1b1022941f4, 0x0, 0xbff5dd41b55fbc12, 0x3c71008b8328976d, -1),
    ("tan", 0x4b37f1b1022941f4, 0x0, 0x3ff1194296c24d25, 0xbc9d28a67ffeb114, 0),
    ("sin", 0xcb37f1b1022941f4, 0x0, 0x3ff75d9a8613f5c0, 0xbc9645ae69395804, -1),
    ("ln", 0x4b37f1b1022941f4, 0x0, 0x3fff4adb271e1403, 0xbc7dd4d83d4c2f2f, 6),
    ("sqrt", 0x4b37f1b1022941f4, 0x0, 0x3ff392b5cbeb0093, 0x3c8d58575608429d, 90),
    ("sin", 0x63b72fdf20cda450, 0x0, 0x3ff6b7d7e9557893, 0x3c91e46ab0131d41, -1),
    ("cos", 0x63b72fdf20cda450, 0x0, 0xbff6894cf49b34ad, 0xbc9b5295b027d73e, -1),
    ("tan", 0x63b72fdf20cda450, 0x0, 0xbff0210b32d7aec3, 0xbc833e9fb293243b, 0),
    ("sin", 0xe3b72fdf20cda450, 0x0, 0xbff6b7d7e9557893, 0xbc91e46ab0131d41, -1),
    ("ln", 0x63b72fdf20cda450, 0x0, 0x3ff8cd9e79af5427, 0x3c7d51a181ce94cb, 8),
    ("sqrt", 0x63b72fdf20cda450, 0x0, 0x3ff342dadac3100b, 0xbc9a3c6c000d6aaf, 286),
    ("sin", 0x4954720771c44ae2, 0x0, 0x3fffff809bc49146, 0xbc8db8164622f793, -1),
    ("cos", 0x4954720771c44ae2, 0x0, 0x3ff692bf1c80880c, 0xbc800c82949c11b5, -7),
    ("tan", 0x4954720771c44ae2, 0x0, 0x3ff6ae2beb395c37, 0xbc8ebdafa86b6df0, 6),
    ("sin", 0xc954720771c44ae2, 0x0, 0xbfffff809bc49146, 0x3c8db8164622f793, -1),
    ("ln", 0x4954720771c44ae2, 0x0, 0x3ffa0de7624b53d0, 0x3c86c230570bf5ac, 6),
    ("sqrt", 0x4954720771c44ae2, 0x0, 0x3ff2162e87ae2893, 0xbc81aa97f1a3d176, 75),
    ("sin", 0x77dd1bc52cdc6d55, 0x0, 0xbff7e38c46b81e9d, 0x3c86a9b825f8a36e, -4),
    ("cos", 0x77dd1bc52cdc6d55, 0x0, 0x3fffdc4131a8ff42, 0x3c829deaa798b08c, -1),
    ("tan", 0x77dd1bc52cdc6d55, 0x0, 0xbff7fe598990d246, 0xbc68bc15f7b1cdc5, -4),
    ("sin", 0xf7dd1bc52cdc6d55, 0x0, 0x3ff7e38c46b81e9d, 0xbc86a9b825f8a36e, -4),
    ("ln", 0x77dd1bc52cdc6d55, 0x0, 0x3ff3622d18e67c8d, 0x3c6b1e81dc6bd713, 9),
    ("sqrt", 0x77dd1bc52cdc6d55, 0x0, 0x3ff594b675cc5a79, 0x3c9f2c940c6f6084, 447),
    ("sin", 0x6dc8cdb3048e8d34, 0x0, 0xbffeb223cf3ec93f, 0x3c7d58ccd33394b7, -1),
    ("cos", 0x6dc8cdb3048e8d34, 0x0, 0x3ff215b000a4e994, 0xbc966400c3c618cf, -2),
    ("tan", 0x6dc8cdb3048e8d34, 0x0, 0xbffb284ad5f7dd2c, 0xbc81da0d83246e69, 1),
    ("sin", 0xedc8cdb3048e8d34, 0x0, 0x3ffeb223cf3ec93f, 0xbc7d58ccd33394b7, -1),
    ("ln", 0x6dc8cdb3048e8d34, 0x0, 0x3fffc83e9627d6d3, 0xbc0c765d1254f889, 8),
    ("sqrt", 0x6dc8cdb3048e8d34, 0x0, 0x3ffc2c434f5f4135, 0x3c79fe160640edcf, 366),
    ("sin", 0x5786a50df5f91236, 0x0, 0xbfff7aa0e9130f72, 0x3c84badd8d9e810c, -1),
    ("cos", 0x5786a50df5f91236, 0x0, 0xbff700cbbd34063b, 0x3c89ac17d51a503e, -3),
    ("tan", 0x5786a50df5f91236, 0x0, 0x3ff5e53eada4a5d6, 0xbc628a2187d6c910, 2),
    ("sin", 0xd786a50df5f91236, 0x0, 0x3fff7aa0e9130f72, 0xbc84badd8d9e810c, -1),
    ("ln", 0x5786a50df5f91236, 0x0, 0x3ff05a9f0826ba47, 0xbc7c72b940c633d8, 8),
    ("sqrt", 0x5786a50df5f91236, 0x0, 0x3ffaeb42ad98e0a6, 0x3c8b2698d66048ee, 188),
    ("ln", 0x1, 0x0, 0xbff74385446d71c3, 0xbc98e569fa8ee781, 9),
    ("sqrt", 0x1, 0x0, 0x3ff0000000000000, 0x0, -537),
    ("sin", 0x1, 0x0, 0x3ff0000000000000, 0x0, -1074),
    ("asin", 0x1, 0x0, 0x3ff0000000000000, 0x0, -1074),
    ("ln", 0x12688b70e62b, 0x0, 0xbff64e69394d9508, 0xbc735918fe61c196, 9),
    ("sqrt", 0x12688b70e62b, 0x0, 0x3ff1297872d9cbae, 0xbc9cae669413c95f, -515),
    ("sin", 0x12688b70e62b, 0x0, 0x3ff2688b70e62b00, 0x0, -1030),
    ("asin", 0x12688b70e62b, 0x0, 0x3ff2688b70e62b00, 0x0, -1030),
    ("ln", 0x10000000000000, 0x0, 0xbff6232bdd7abcd2, 0xbc8eef3fec1be37f, 9),
    ("sqrt", 0x10000000000000, 0x0, 0x3ff0000000000000, 0x0, -511),
    ("sin", 0x10000000000000, 0x0, 0x3ff0000000000000, 0x0, -1022),
    ("asin", 0x10000000000000, 0x0, 0x3ff0000000000000, 0x0, -1022),
    ("ln", 0x3fefffffffffffff, 0x0, 0xbff0000000000000, 0xbc90000000000000, -53),
    ("sqrt", 0x3fefffffffffffff, 0x0, 0x3fffffffffffffff, 0x3ca0000000000000, -1),
    ("sin", 0x3fefffffffffffff, 0x0, 0x3ffaed548f090ced, 0x3c9e71e72fde4110, -1),
    ("asin", 0x3fefffffffffffff, 0x0, 0x3ff921fb50442d18, 0x3c91a6263269b15c, 0),
    ("ln", 0x3ff0000000000001, 0x0, 0x3fffffffffffffff, 0x3965555555555554, -53),
    ("sqrt", 0x3ff0000000000001, 0x0, 0x3ff0000000000000, 0x3ca0000000000000, 0),
    ("sin", 0x3ff0000000000001, 0x0, 0x3ffaed548f090cef, 0x3c78bb5e3871a14e, -1),
    ("ln", 0x3fefffffff800000, 0x0, 0xbff0000000200000, 0xbc15555555955555, -30),
    ("sqrt", 0x3fefffffff800000, 0x0, 0x3fffffffffc00000, 0xbc10000000200000, -1),
    ("sin", 0x3fefffffff800000, 0x0, 0x3ffaed548ec3e44e, 0xbc8dc953cacf9c3e, -1),
    ("asin", 0x3fefffffff800000, 0x0, 0x3ff921ce1307600b, 0xbc91afddd5c7ade6, 0),
    ("ln", 0x3ff0000000400000, 0x0, 0x3fffffffffc00000, 0x3c25555555155555, -31),
    ("sqrt", 0x3ff0000000400000, 0x0, 0x3ff0000000200000, 0xbbffffffffc00000, 0),
    ("sin", 0x3ff0000000400000, 0x0, 0x3ffaed548f4e358e, 0x3c90856331bc463c, -1),
    ("ln", 0x3fe6a09e667f3bcc, 0x0, 0xbff62e42fefa39f1, 0x3c88d8f957c3d43c, -2),
    ("sqrt", 0x3fe6a09e667f3bcc, 0x0, 0x3ffae89f995ad3ad, 0x3c6129f5d0ee10ef, -1),
    ("sin", 0x3fe6a09e667f3bcc, 0x0, 0x3ff4c9d367f3eacd, 0x3c8e88b5d3333d00, -1),
    ("asin", 0x3fe6a09e667f3bcc, 0x0, 0x3ff921fb54442d17, 0x3c9e8b8c17d3b127, -1),
    ("ln", 0x3fe6a09e667f3bcd, 0x0, 0xbff62e42fefa39ee, 0x3c5716fdfdbc882e, -2),
    ("sqrt", 0x3fe6a09e667f3bcd, 0x0, 0x3ffae89f995ad3ae, 0xbc97ccc5317ecfb8, -1),
    ("sin", 0x3fe6a09e667f3bcd, 0x0, 0x3ff4c9d367f3eace, 0xbc13cc220cbf3ccf, -1),
    ("asin", 0x3fe6a09e667f3bcd, 0x0, 0x3ff921fb54442d19, 0xbc7bc7e938bd7e9c, -1),
    ("atan2", 0x1a56e1fc2f8f359, 0x1a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, -1),
    ("atan2", 0x1a56e1fc2f8f359, 0x81a56e1fc2f8f359, 0x3ff2d97c7f3321d2, 0x3c8a79394c9e8a0a, 1),
    ("atan2", 0x81a56e1fc2f8f359, 0x1a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, -1),
    ("atan2", 0x81a56e1fc2f8f359, 0x81a56e1fc2f8f359, 0xbff2d97c7f3321d2, 0xbc8a79394c9e8a0a, 1),
    ("atan2", 0x1a56e1fc2f8f359, 0x16687e92154ef7ac, 0x3ffbff2ee48e0530, 0x3c872aa29786edee, -333),
    ("atan2", 0x1a56e1fc2f8f359, 0x96687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x81a56e1fc2f8f359, 0x16687e92154ef7ac, 0xbffbff2ee48e0530, 0xbc872aa29786edee, -333),
    ("atan2", 0x81a56e1fc2f8f359, 0x96687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1a56e1fc2f8f359, 0x39b4484bfeebc2a0, 0x3ff0e7c9eebc444a, 0xbc9e7c9eb11bb168, -897),
    ("atan2", 0x1a56e1fc2f8f359, 0xb9b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x81a56e1fc2f8f359, 0x39b4484bfeebc2a0, 0xbff0e7c9eebc444a, 0x3c9e7c9eb11bb168, -897),
    ("atan2", 0x81a56e1fc2f8f359, 0xb9b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1a56e1fc2f8f359, 0x3e00000000000000, 0x3ff56e1fc2f8f359, 0x0, -966),
    ("atan2", 0x1a56e1fc2f8f359, 0xbe00000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x81a56e1fc2f8f359, 0x3e00000000000000, 0xbff56e1fc2f8f359, 0x0, -966),
    ("atan2", 0x81a56e1fc2f8f359, 0xbe00000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1a56e1fc2f8f359, 0x3e112e0be826d695, 0x3ff3f559e7bee6c1, 0x3c24db0ac0926a31, -967),
    ("atan2", 0x1a56e1fc2f8f359, 0xbe112e0be826d695, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x81a56e1fc2f8f359, 0x3e112e0be826d695, 0xbff3f559e7bee6c1, 0xbc24db0ac0926a31, -967),
    ("atan2", 0x81a56e1fc2f8f359, 0xbe112e0be826d695, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1a56e1fc2f8f359, 0x3f50624dd2f1a9fc, 0x3ff4ed8b04671da5, 0xbc8ab228434d563c, -987),
    ("atan2", 0x1a56e1fc2f8f359, 0xbf50624dd2f1a9fc, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x81a56e1fc2f8f359, 0x3f50624dd2f1a9fc, 0xbff4ed8b04671da5, 0x3c8ab228434d563c, -987),
    ("atan2", 0x81a56e1fc2f8f359, 0xbf50624dd2f1a9fc, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1a56e1fc2f8f359, 0x3fe0000000000000, 0x3ff56e1fc2f8f359, 0x0, -996),
    ("atan2", 0x1a56e1fc2f8f359, 0xbfe0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x81a56e1fc2f8f359, 0x3fe0000000000000, 0xbff56e1fc2f8f359, 0x0, -996),
    ("atan2", 0x81a56e1fc2f8f359, 0xbfe0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1a56e1fc2f8f359, 0x3ff0000000000000, 0x3ff56e1fc2f8f359, 0x0, -997),
    ("atan2", 0x1a56e1fc2f8f359, 0xbff0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x81a56e1fc2f8f359, 0x3ff0000000000000, 0xbff56e1fc2f8f359, 0x0, -997),
    ("atan2", 0x81a56e1fc2f8f359, 0xbff0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1a56e1fc2f8f359, 0x3ff0000000000001, 0x3ff56e1fc2f8f358, 0xbc95b87f0be3cd5f, -997),
    ("atan2", 0x1a56e1fc2f8f359, 0xbff0000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x81a56e1fc2f8f359, 0x3ff0000000000001, 0xbff56e1fc2f8f358, 0x3c95b87f0be3cd5f, -997),
    ("atan2", 0x81a56e1fc2f8f359, 0xbff0000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1a56e1fc2f8f359, 0x4008000000000000, 0x3ffc92d503f699cc, 0x0, -999),
    ("atan2", 0x1a56e1fc2f8f359, 0xc008000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x81a56e1fc2f8f359, 0x4008000000000000, 0xbffc92d503f699cc, 0x0, -999),
    ("atan2", 0x81a56e1fc2f8f359, 0xc008000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1a56e1fc2f8f359, 0x41cdcd6500000000, 0x3ff702ae4d1fb5d4, 0xbc69d0135bdafac1, -1027),
    ("atan2", 0x1a56e1fc2f8f359, 0xc1cdcd6500000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x81a56e1fc2f8f359, 0x41cdcd6500000000, 0xbff702ae4d1fb5d4, 0x3c69d0135bdafac1, -1027),
    ("atan2", 0x81a56e1fc2f8f359, 0xc1cdcd6500000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1a56e1fc2f8f359, 0x6974e718d7d7625a, 0x3ff0675b44007b74, 0xbc9baa30916025db, -1661),
    ("atan2", 0x1a56e1fc2f8f359, 0xe974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x81a56e1fc2f8f359, 0x6974e718d7d7625a, 0xbff0675b44007b74, 0x3c9baa30916025db, -1661),
    ("atan2", 0x81a56e1fc2f8f359, 0xe974e718d7d7625a, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1a56e1fc2f8f359, 0x7e37e43c8800759c, 0x3ffcb40954c56aa8, 0xbc9961447d090d2a, -1994),
    ("atan2", 0x1a56e1fc2f8f359, 0xfe37e43c8800759c, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x81a56e1fc2f8f359, 0x7e37e43c8800759c, 0xbffcb40954c56aa8, 0x3c9961447d090d2a, -1994),
    ("atan2", 0x81a56e1fc2f8f359, 0xfe37e43c8800759c, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1a56e1fc2f8f359, 0x1, 0x3ff921fb54442d18, 0x3c91a6261b301f7f, 0),
    ("atan2", 0x1a56e1fc2f8f359, 0x8000000000000001, 0x3ff921fb54442d18, 0x3c91a6264af8988f, 0),
    ("atan2", 0x81a56e1fc2f8f359, 0x1, 0xbff921fb54442d18, 0xbc91a6261b301f7f, 0),
    ("atan2", 0x81a56e1fc2f8f359, 0x8000000000000001, 0xbff921fb54442d18, 0xbc91a6264af8988f, 0),
    ("atan2", 0x16687e92154ef7ac, 0x1a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x16687e92154ef7ac, 0x81a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x96687e92154ef7ac, 0x1a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x96687e92154ef7ac, 0x81a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x16687e92154ef7ac, 0x16687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, -1),
    ("atan2", 0x16687e92154ef7ac, 0x96687e92154ef7ac, 0x3ff2d97c7f3321d2, 0x3c8a79394c9e8a0a, 1),
    ("atan2", 0x96687e92154ef7ac, 0x16687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, -1),
    ("atan2", 0x96687e92154ef7ac, 0x96687e92154ef7ac, 0xbff2d97c7f3321d2, 0xbc8a79394c9e8a0a, 1),
    ("atan2", 0x16687e92154ef7ac, 0x39b4484bfeebc2a0, 0x3ff3529ba7d19eaf, 0xbc9d7115f160d8a6, -565),
    ("atan2", 0x16687e92154ef7ac, 0xb9b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x96687e92154ef7ac, 0x39b4484bfeebc2a0, 0xbff3529ba7d19eaf, 0x3c9d7115f160d8a6, -565),
    ("atan2", 0x96687e92154ef7ac, 0xb9b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x16687e92154ef7ac, 0x3e00000000000000, 0x3ff87e92154ef7ac, 0x8000000000000000, -634),
    ("atan2", 0x16687e92154ef7ac, 0xbe00000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x96687e92154ef7ac, 0x3e00000000000000, 0xbff87e92154ef7ac, 0x0, -634),
    ("atan2", 0x96687e92154ef7ac, 0xbe00000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x16687e92154ef7ac, 0x3e112e0be826d695, 0x3ff6cfec8aa52597, 0x3c974d86aae86ac1, -635),
    ("atan2", 0x16687e92154ef7ac, 0xbe112e0be826d695, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x96687e92154ef7ac, 0x3e112e0be826d695, 0xbff6cfec8aa52597, 0xbc974d86aae86ac1, -635),
    ("atan2", 0x96687e92154ef7ac, 0xbe112e0be826d695, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x16687e92154ef7ac, 0x3f50624dd2f1a9fc, 0x3ff7eb9aa8cf1dde, 0xbc85f0b3fe9b5666, -655),
    ("atan2", 0x16687e92154ef7ac, 0xbf50624dd2f1a9fc, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x96687e92154ef7ac, 0x3f50624dd2f1a9fc, 0xbff7eb9aa8cf1dde, 0x3c85f0b3fe9b5666, -655),
    ("atan2", 0x96687e92154ef7ac, 0xbf50624dd2f1a9fc, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x16687e92154ef7ac, 0x3fe0000000000000, 0x3ff87e92154ef7ac, 0x8000000000000000, -664),
    ("atan2", 0x16687e92154ef7ac, 0xbfe0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x96687e92154ef7ac, 0x3fe0000000000000, 0xbff87e92154ef7ac, 0x0, -664),
    ("atan2", 0x96687e92154ef7ac, 0xbfe0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x16687e92154ef7ac, 0x3ff0000000000000, 0x3ff87e92154ef7ac, 0x8000000000000000, -665),
    ("atan2", 0x16687e92154ef7ac, 0xbff0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x96687e92154ef7ac, 0x3ff0000000000000, 0xbff87e92154ef7ac, 0x0, -665),
    ("atan2", 0x96687e92154ef7ac, 0xbff0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x16687e92154ef7ac, 0x3ff0000000000001, 0x3ff87e92154ef7aa, 0x3c9e05b7aac42156, -665),
    ("atan2", 0x16687e92154ef7ac, 0xbff0000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x96687e92154ef7ac, 0x3ff0000000000001, 0xbff87e92154ef7aa, 0xbc9e05b7aac42156, -665),
    ("atan2", 0x96687e92154ef7ac, 0xbff0000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x16687e92154ef7ac, 0x4008000000000000, 0x3ff054616389fa73, 0xbc95555555555555, -666),
    ("atan2", 0x16687e92154ef7ac, 0xc008000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x96687e92154ef7ac, 0x4008000000000000, 0xbff054616389fa73, 0x3c95555555555555, -666),
    ("atan2", 0x96687e92154ef7ac, 0xc008000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x16687e92154ef7ac, 0x41cdcd6500000000, 0x3ffa4cf9550c5426, 0xbc9d448dbd5c3046, -695),
    ("atan2", 0x16687e92154ef7ac, 0xc1cdcd6500000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x96687e92154ef7ac, 0x41cdcd6500000000, 0xbffa4cf9550c5426, 0x3c9d448dbd5c3046, -695),
    ("atan2", 0x96687e92154ef7ac, 0xc1cdcd6500000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x16687e92154ef7ac, 0x6974e718d7d7625a, 0x3ff2bfcfc0f923df, 0x3c9bff1ef8157c83, -1329),
    ("atan2", 0x16687e92154ef7ac, 0xe974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x96687e92154ef7ac, 0x6974e718d7d7625a, 0xbff2bfcfc0f923df, 0xbc9bff1ef8157c83, -1329),
    ("atan2", 0x96687e92154ef7ac, 0xe974e718d7d7625a, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x16687e92154ef7ac, 0x7e37e43c8800759c, 0x3ff0675b44007b73, 0xbc4a31e309fbe1fc, -1661),
    ("atan2", 0x16687e92154ef7ac, 0xfe37e43c8800759c, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x96687e92154ef7ac, 0x7e37e43c8800759c, 0xbff0675b44007b73, 0x3c4a31e309fbe1fc, -1661),
    ("atan2", 0x96687e92154ef7ac, 0xfe37e43c8800759c, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x16687e92154ef7ac, 0x1, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x16687e92154ef7ac, 0x8000000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x96687e92154ef7ac, 0x1, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x96687e92154ef7ac, 0x8000000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x39b4484bfeebc2a0, 0x1a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x39b4484bfeebc2a0, 0x81a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xb9b4484bfeebc2a0, 0x1a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xb9b4484bfeebc2a0, 0x81a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x39b4484bfeebc2a0, 0x16687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x39b4484bfeebc2a0, 0x96687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xb9b4484bfeebc2a0, 0x16687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xb9b4484bfeebc2a0, 0x96687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x39b4484bfeebc2a0, 0x39b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145c07, -1),
    ("atan2", 0x39b4484bfeebc2a0, 0xb9b4484bfeebc2a0, 0x3ff2d97c7f3321d2, 0x3c8a79394c9e8a0a, 1),
    ("atan2", 0xb9b4484bfeebc2a0, 0x39b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145c07, -1),
    ("atan2", 0xb9b4484bfeebc2a0, 0xb9b4484bfeebc2a0, 0xbff2d97c7f3321d2, 0xbc8a79394c9e8a0a, 1),
    ("atan2", 0x39b4484bfeebc2a0, 0x3e00000000000000, 0x3ff4484bfeebc2a0, 0xb745ba775b76bdeb, -69),
    ("atan2", 0x39b4484bfeebc2a0, 0xbe00000000000000, 0x3ff921fb54442d18, 0x3c91a611eac85d1b, 1),
    ("atan2", 0xb9b4484bfeebc2a0, 0x3e00000000000000, 0xbff4484bfeebc2a0, 0x3745ba775b76bdeb, -69),
    ("atan2", 0xb9b4484bfeebc2a0, 0xbe00000000000000, 0xbff921fb54442d18, 0xbc91a611eac85d1b, 1),
    ("atan2", 0x39b4484bfeebc2a0, 0x3e112e0be826d695, 0x3ff2e3b40a0e9b50, 0xbc995f3de6d31ea1, -70),
    ("atan2", 0x39b4484bfeebc2a0, 0xbe112e0be826d695, 0x3ff921fb54442d18, 0x3c91a61cc13a5700, 1),
    ("atan2", 0xb9b4484bfeebc2a0, 0x3e112e0be826d695, 0xbff2e3b40a0e9b50, 0x3c995f3de6d31ea1, -70),
    ("atan2", 0xb9b4484bfeebc2a0, 0xbe112e0be826d695, 0xbff921fb54442d18, 0xbc91a61cc13a5700, 1),
    ("atan2", 0x39b4484bfeebc2a0, 0x3f50624dd2f1a9fc, 0x3ff3ce9a36f23c10, 0x3c81250c56ca52f4, -90),
    ("atan2", 0x39b4484bfeebc2a0, 0xbf50624dd2f1a9fc, 0x3ff921fb54442d18, 0x3c91a6263313bd92, 1),
    ("atan2", 0xb9b4484bfeebc2a0, 0x3f50624dd2f1a9fc, 0xbff3ce9a36f23c10, 0xbc81250c56ca52f4, -90),
    ("atan2", 0xb9b4484bfeebc2a0, 0xbf50624dd2f1a9fc, 0xbff921fb54442d18, 0xbc91a6263313bd92, 1),
    ("atan2", 0x39b4484bfeebc2a0, 0x3fe0000000000000, 0x3ff4484bfeebc2a0, 0xb385ba775b76bdeb, -99),
    ("atan2", 0x39b4484bfeebc2a0, 0xbfe0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145bb6, 1),
    ("atan2", 0xb9b4484bfeebc2a0, 0x3fe0000000000000, 0xbff4484bfeebc2a0, 0x3385ba775b76bdeb, -99),
    ("atan2", 0xb9b4484bfeebc2a0, 0xbfe0000000000000, 0xbff921fb54442d18, 0xbc91a62633145bb6, 1),
    ("atan2", 0x39b4484bfeebc2a0, 0x3ff0000000000000, 0x3ff4484bfeebc2a0, 0xb365ba775b76bdeb, -100),
    ("atan2", 0x39b4484bfeebc2a0, 0xbff0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145bde, 1),
    ("atan2", 0xb9b4484bfeebc2a0, 0x3ff0000000000000, 0xbff4484bfeebc2a0, 0x3365ba775b76bdeb, -100),
    ("atan2", 0xb9b4484bfeebc2a0, 0xbff0000000000000, 0xbff921fb54442d18, 0xbc91a62633145bde, 1),
    ("atan2", 0x39b4484bfeebc2a0, 0x3ff0000000000001, 0x3ff4484bfeebc29f, 0xbc91212ffbaf0a7b, -100),
    ("atan2", 0x39b4484bfeebc2a0, 0xbff0000000000001, 0x3ff921fb54442d18, 0x3c91a62633145bde, 1),
    ("atan2", 0xb9b4484bfeebc2a0, 0x3ff0000000000001, 0xbff4484bfeebc29f, 0x3c91212ffbaf0a7b, -100),
    ("atan2", 0xb9b4484bfeebc2a0, 0xbff0000000000001, 0xbff921fb54442d18, 0xbc91a62633145bde, 1),
    ("atan2", 0x39b4484bfeebc2a0, 0x4008000000000000, 0x3ffb0b0ffe8fae2b, 0xbc95555555555555, -102),
    ("atan2", 0x39b4484bfeebc2a0, 0xc008000000000000, 0x3ff921fb54442d18, 0x3c91a62633145bf9, 1),
    ("atan2", 0xb9b4484bfeebc2a0, 0x4008000000000000, 0xbffb0b0ffe8fae2b, 0x3c95555555555555, -102),
    ("atan2", 0xb9b4484bfeebc2a0, 0xc008000000000000, 0xbff921fb54442d18, 0xbc91a62633145bf9, 1),
    ("atan2", 0x39b4484bfeebc2a0, 0x41cdcd6500000000, 0x3ff5c72fb1552d84, 0xbc6c86c95d569d46, -130),
    ("atan2", 0x39b4484bfeebc2a0, 0xc1cdcd6500000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xb9b4484bfeebc2a0, 0x41cdcd6500000000, 0xbff5c72fb1552d84, 0x3c6c86c95d569d46, -130),
    ("atan2", 0xb9b4484bfeebc2a0, 0xc1cdcd6500000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x39b4484bfeebc2a0, 0x6974e718d7d7625a, 0x3fff0ce4839198dc, 0xbc9a6e894dbea2e5, -765),
    ("atan2", 0x39b4484bfeebc2a0, 0xe974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xb9b4484bfeebc2a0, 0x6974e718d7d7625a, 0xbfff0ce4839198dc, 0x3c9a6e894dbea2e5, -765),
    ("atan2", 0xb9b4484bfeebc2a0, 0xe974e718d7d7625a, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x39b4484bfeebc2a0, 0x7e37e43c8800759c, 0x3ffb2a7d0c4970bc, 0xbc748aa27c2f494c, -1097),
    ("atan2", 0x39b4484bfeebc2a0, 0xfe37e43c8800759c, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xb9b4484bfeebc2a0, 0x7e37e43c8800759c, 0xbffb2a7d0c4970bc, 0x3c748aa27c2f494c, -1097),
    ("atan2", 0xb9b4484bfeebc2a0, 0xfe37e43c8800759c, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x39b4484bfeebc2a0, 0x1, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x39b4484bfeebc2a0, 0x8000000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xb9b4484bfeebc2a0, 0x1, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xb9b4484bfeebc2a0, 0x8000000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3e00000000000000, 0x1a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3e00000000000000, 0x81a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbe00000000000000, 0x1a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbe00000000000000, 0x81a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3e00000000000000, 0x16687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3e00000000000000, 0x96687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbe00000000000000, 0x16687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbe00000000000000, 0x96687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3e00000000000000, 0x39b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a5fda27c5e2f, 0),
    ("atan2", 0x3e00000000000000, 0xb9b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a64ec3ac59de, 0),
    ("atan2", 0xbe00000000000000, 0x39b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a5fda27c5e2f, 0),
    ("atan2", 0xbe00000000000000, 0xb9b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a64ec3ac59de, 0),
    ("atan2", 0x3e00000000000000, 0x3e00000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, -1),
    ("atan2", 0x3e00000000000000, 0xbe00000000000000, 0x3ff2d97c7f3321d2, 0x3c8a79394c9e8a0a, 1),
    ("atan2", 0xbe00000000000000, 0x3e00000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, -1),
    ("atan2", 0xbe00000000000000, 0xbe00000000000000, 0xbff2d97c7f3321d2, 0xbc8a79394c9e8a0a, 1),
    ("atan2", 0x3e00000000000000, 0x3e112e0be826d695, 0x3ffbe42af41f966f, 0x3c9a5b01042f4238, -2),
    ("atan2", 0x3e00000000000000, 0xbe112e0be826d695, 0x3ff5a575f5c03a4a, 0x3c965ac6128e73c0, 1),
    ("atan2", 0xbe00000000000000, 0x3e112e0be826d695, 0xbffbe42af41f966f, 0xbc9a5b01042f4238, -2),
    ("atan2", 0xbe00000000000000, 0xbe112e0be826d695, 0xbff5a575f5c03a4a, 0xbc965ac6128e73c0, 1),
    ("atan2", 0x3e00000000000000, 0x3f50624dd2f1a9fc, 0x3fff3ffffffffd84, 0x3c616aaaab60a726, -22),
    ("atan2", 0x3e00000000000000, 0xbf50624dd2f1a9fc, 0x3ff921fb15c42d18, 0x3c91a7642eb9b15c, 1),
    ("atan2", 0xbe00000000000000, 0x3f50624dd2f1a9fc, 0xbfff3ffffffffd84, 0xbc616aaaab60a726, -22),
    ("atan2", 0xbe00000000000000, 0xbf50624dd2f1a9fc, 0xbff921fb15c42d18, 0xbc91a7642eb9b15c, 1),
    ("atan2", 0x3e00000000000000, 0x3fe0000000000000, 0x4000000000000000, 0xbc25555555555555, -31),
    ("atan2", 0x3e00000000000000, 0xbfe0000000000000, 0x3ff921fb54242d18, 0x3c91a626331486b2, 1),
    ("atan2", 0xbe00000000000000, 0x3fe0000000000000, 0xc000000000000000, 0x3c25555555555555, -31),
    ("atan2", 0xbe00000000000000, 0xbfe0000000000000, 0xbff921fb54242d18, 0xbc91a626331486b2, 1),
    ("atan2", 0x3e00000000000000, 0x3ff0000000000000, 0x4000000000000000, 0xbc05555555555555, -32),
    ("atan2", 0x3e00000000000000, 0xbff0000000000000, 0x3ff921fb54342d18, 0x3c91a6263314615c, 1),
    ("atan2", 0xbe00000000000000, 0x3ff0000000000000, 0xc000000000000000, 0x3c05555555555555, -32),
    ("atan2", 0xbe00000000000000, 0xbff0000000000000, 0xbff921fb54342d18, 0xbc91a6263314615c, 1),
    ("atan2", 0x3e00000000000000, 0x3ff0000000000001, 0x3ffffffffffffffe, 0xbc05555555554551, -32),
    ("atan2", 0x3e00000000000000, 0xbff0000000000001, 0x3ff921fb54342d18, 0x3c91a6263354615c, 1),
    ("atan2", 0xbe00000000000000, 0x3ff0000000000001, 0xbffffffffffffffe, 0x3c05555555554551, -32),
    ("atan2", 0xbe00000000000000, 0xbff0000000000001, 0xbff921fb54342d18, 0xbc91a6263354615c, 1),
    ("atan2", 0x3e00000000000000, 0x4008000000000000, 0x3ff5555555555555, 0x3c95548b0fcd6e9e, -33),
    ("atan2", 0x3e00000000000000, 0xc008000000000000, 0x3ff921fb543ed7c3, 0xbc6d79791207c8df, 1),
    ("atan2", 0xbe00000000000000, 0x4008000000000000, 0xbff5555555555555, 0xbc95548b0fcd6e9e, -33),
    ("atan2", 0xbe00000000000000, 0xc008000000000000, 0xbff921fb543ed7c3, 0x3c6d79791207c8df, 1),
    ("atan2", 0x3e00000000000000, 0x41cdcd6500000000, 0x3ff12e0be826d695, 0xbc934674bfabb83b, -61),
    ("atan2", 0x3e00000000000000, 0xc1cdcd6500000000, 0x3ff921fb54442d18, 0x3c9194f8272c3530, 1),
    ("atan2", 0xbe00000000000000, 0x41cdcd6500000000, 0xbff12e0be826d695, 0x3c934674bfabb83b, -61),
    ("atan2", 0xbe00000000000000, 0xc1cdcd6500000000, 0xbff921fb54442d18, 0xbc9194f8272c3530, 1),
    ("atan2", 0x3e00000000000000, 0x6974e718d7d7625a, 0x3ff87e92154ef7ac, 0x3c9540ed823487d2, -696),
    ("atan2", 0x3e00000000000000, 0xe974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xbe00000000000000, 0x6974e718d7d7625a, 0xbff87e92154ef7ac, 0xbc9540ed823487d2, -696),
    ("atan2", 0xbe00000000000000, 0xe974e718d7d7625a, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x3e00000000000000, 0x7e37e43c8800759c, 0x3ff56e1fc2f8f359, 0xbc9df1934e06825c, -1028),
    ("atan2", 0x3e00000000000000, 0xfe37e43c8800759c, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xbe00000000000000, 0x7e37e43c8800759c, 0xbff56e1fc2f8f359, 0x3c9df1934e06825c, -1028),
    ("atan2", 0xbe00000000000000, 0xfe37e43c8800759c, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x3e00000000000000, 0x1, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3e00000000000000, 0x8000000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbe00000000000000, 0x1, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbe00000000000000, 0x8000000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3e112e0be826d695, 0x1a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3e112e0be826d695, 0x81a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbe112e0be826d695, 0x1a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbe112e0be826d695, 0x81a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3e112e0be826d695, 0x16687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3e112e0be826d695, 0x96687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbe112e0be826d695, 0x16687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbe112e0be826d695, 0x96687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3e112e0be826d695, 0x39b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a6134f6051f8, 0),
    ("atan2", 0x3e112e0be826d695, 0xb9b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a63916c86615, 0),
    ("atan2", 0xbe112e0be826d695, 0x39b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a6134f6051f8, 0),
    ("atan2", 0xbe112e0be826d695, 0xb9b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a63916c86615, 0),
    ("atan2", 0x3e112e0be826d695, 0x3e00000000000000, 0x3ff228f0973c477c, 0x3c9b0f65f2088b79, 0),
    ("atan2", 0x3e112e0be826d695, 0xbe00000000000000, 0x3ff00d8308a6095a, 0x3c7079cce840592a, 1),
    ("atan2", 0xbe112e0be826d695, 0x3e00000000000000, 0xbff228f0973c477c, 0xbc9b0f65f2088b79, 0),
    ("atan2", 0xbe112e0be826d695, 0xbe00000000000000, 0xbff00d8308a6095a, 0xbc7079cce840592a, 1),
    ("atan2", 0x3e112e0be826d695, 0x3e112e0be826d695, 0x3ff921fb54442d18, 0x3c91a62633145c07, -1),
    ("atan2", 0x3e112e0be826d695, 0xbe112e0be826d695, 0x3ff2d97c7f3321d2, 0x3c8a79394c9e8a0a, 1),
    ("atan2", 0xbe112e0be826d695, 0x3e112e0be826d695, 0xbff921fb54442d18, 0xbc91a62633145c07, -1),
    ("atan2", 0xbe112e0be826d695, 0xbe112e0be826d695, 0xbff2d97c7f3321d2, 0xbc8a79394c9e8a0a, 1),
    ("atan2", 0x3e112e0be826d695, 0x3f50624dd2f1a9fc, 0x3ff0c6f7a0b5e767, 0x3c9263e6f4710921, -20),
    ("atan2", 0x3e112e0be826d695, 0xbf50624dd2f1a9fc, 0x3ff921face0c7013, 0xbc9a28a8600adb9d, 1),
    ("atan2", 0xbe112e0be826d695, 0x3f50624dd2f1a9fc, 0xbff0c6f7a0b5e767, 0xbc9263e6f4710921, -20),
    ("atan2", 0xbe112e0be826d695, 0xbf50624dd2f1a9fc, 0xbff921face0c7013, 0x3c9a28a8600adb9d, 1),
    ("atan2", 0x3e112e0be826d695, 0x3fe0000000000000, 0x3ff12e0be826d695, 0xbc3a68cd9e985016, -29),
    ("atan2", 0x3e112e0be826d695, 0xbfe0000000000000, 0x3ff921fb53ff74e9, 0xbc9680b061e9fd6c, 1),
    ("atan2", 0xbe112e0be826d695, 0x3fe0000000000000, 0xbff12e0be826d695, 0x3c3a68cd9e985016, -29),
    ("atan2", 0xbe112e0be826d695, 0xbfe0000000000000, 0xbff921fb53ff74e9, 0x3c9680b061e9fd6c, 1),
    ("atan2", 0x3e112e0be826d695, 0x3ff0000000000000, 0x3ff12e0be826d695, 0xbc1a68cd9e985016, -30),
    ("atan2", 0x3e112e0be826d695, 0xbff0000000000000, 0x3ff921fb5421d100, 0x3c9d92bae89490d8, 1),
    ("atan2", 0xbe112e0be826d695, 0x3ff0000000000000, 0xbff12e0be826d695, 0x3c1a68cd9e985016, -30),
    ("atan2", 0xbe112e0be826d695, 0xbff0000000000000, 0xbff921fb5421d100, 0xbc9d92bae89490d8, 1),
    ("atan2", 0x3e112e0be826d695, 0x3ff0000000000001, 0x3ff12e0be826d694, 0xbc734a61b8e7ca7f, -30),
    ("atan2", 0x3e112e0be826d695, 0xbff0000000000001, 0x3ff921fb5421d100, 0x3c9d92bae91e0138, 1),
    ("atan2", 0xbe112e0be826d695, 0x3ff0000000000001, 0xbff12e0be826d694, 0x3c734a61b8e7ca7f, -30),
    ("atan2", 0xbe112e0be826d695, 0xbff0000000000001, 0xbff921fb5421d100, 0xbc9d92bae91e0138, 1),
    ("atan2", 0x3e112e0be826d695, 0x4008000000000000, 0x3ff6e80fe033c8c7, 0xbc95593eef0e039a, -32),
    ("atan2", 0x3e112e0be826d695, 0xc008000000000000, 0x3ff921fb5438b910, 0x3c959fad1a3f08a6, 1),
    ("atan2", 0xbe112e0be826d695, 0x4008000000000000, 0xbff6e80fe033c8c7, 0x3c95593eef0e039a, -32),
    ("atan2", 0xbe112e0be826d695, 0xc008000000000000, 0xbff921fb5438b910, 0xbc959fad1a3f08a6, 1),
    ("atan2", 0x3e112e0be826d695, 0x41cdcd6500000000, 0x3ff2725dd1d243ac, 0xbc689e9898230829, -60),
    ("atan2", 0x3e112e0be826d695, 0xc1cdcd6500000000, 0x3ff921fb54442d18, 0x3c9181417770b780, 1),
    ("atan2", 0xbe112e0be826d695, 0x41cdcd6500000000, 0xbff2725dd1d243ac, 0x3c689e9898230829, -60),
    ("atan2", 0xbe112e0be826d695, 0xc1cdcd6500000000, 0xbff921fb54442d18, 0xbc9181417770b780, 1),
    ("atan2", 0x3e112e0be826d695, 0x6974e718d7d7625a, 0x3ffa4cf9550c5426, 0x3c970fc30c523868, -695),
    ("atan2", 0x3e112e0be826d695, 0xe974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xbe112e0be826d695, 0x6974e718d7d7625a, 0xbffa4cf9550c5426, 0xbc970fc30c523868, -695),
    ("atan2", 0xbe112e0be826d695, 0xe974e718d7d7625a, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x3e112e0be826d695, 0x7e37e43c8800759c, 0x3ff702ae4d1fb5d4, 0xbc831f6fb9a7cdd0, -1027),
    ("atan2", 0x3e112e0be826d695, 0xfe37e43c8800759c, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xbe112e0be826d695, 0x7e37e43c8800759c, 0xbff702ae4d1fb5d4, 0x3c831f6fb9a7cdd0, -1027),
    ("atan2", 0xbe112e0be826d695, 0xfe37e43c8800759c, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x3e112e0be826d695, 0x1, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3e112e0be826d695, 0x8000000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbe112e0be826d695, 0x1, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbe112e0be826d695, 0x8000000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3f50624dd2f1a9fc, 0x1a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3f50624dd2f1a9fc, 0x81a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbf50624dd2f1a9fc, 0x1a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbf50624dd2f1a9fc, 0x81a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3f50624dd2f1a9fc, 0x16687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3f50624dd2f1a9fc, 0x96687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbf50624dd2f1a9fc, 0x16687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbf50624dd2f1a9fc, 0x96687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3f50624dd2f1a9fc, 0x39b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633131f1d, 0),
    ("atan2", 0x3f50624dd2f1a9fc, 0xb9b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a626331598f1, 0),
    ("atan2", 0xbf50624dd2f1a9fc, 0x39b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633131f1d, 0),
    ("atan2", 0xbf50624dd2f1a9fc, 0xb9b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a626331598f1, 0),
    ("atan2", 0x3f50624dd2f1a9fc, 0x3e00000000000000, 0x3ff921fad7442d18, 0x3c91a8a22a5f06b1, 0),
    ("atan2", 0x3f50624dd2f1a9fc, 0xbe00000000000000, 0x3ff921fbd1442d18, 0x3c91a3aa3bc9b15d, 0),
    ("atan2", 0xbf50624dd2f1a9fc, 0x3e00000000000000, 0xbff921fad7442d18, 0xbc91a8a22a5f06b1, 0),
    ("atan2", 0xbf50624dd2f1a9fc, 0xbe00000000000000, 0xbff921fbd1442d18, 0xbc91a3aa3bc9b15d, 0),
    ("atan2", 0x3f50624dd2f1a9fc, 0x3e112e0be826d695, 0x3ff921fa47d4b30d, 0xbc77dddbcca84d01, 0),
    ("atan2", 0x3f50624dd2f1a9fc, 0xbe112e0be826d695, 0x3ff921fc60b3a724, 0xbc96bc3ca6ad34b2, 0),
    ("atan2", 0xbf50624dd2f1a9fc, 0x3e112e0be826d695, 0xbff921fa47d4b30d, 0x3c77dddbcca84d01, 0),
    ("atan2", 0xbf50624dd2f1a9fc, 0xbe112e0be826d695, 0xbff921fc60b3a724, 0x3c96bc3ca6ad34b2, 0),
    ("atan2", 0x3f50624dd2f1a9fc, 0x3f50624dd2f1a9fc, 0x3ff921fb54442d18, 0x3c91a62633145c07, -1),
    ("atan2", 0x3f50624dd2f1a9fc, 0xbf50624dd2f1a9fc, 0x3ff2d97c7f3321d2, 0x3c8a79394c9e8a0a, 1),
    ("atan2", 0xbf50624dd2f1a9fc, 0x3f50624dd2f1a9fc, 0xbff921fb54442d18, 0xbc91a62633145c07, -1),
    ("atan2", 0xbf50624dd2f1a9fc, 0xbf50624dd2f1a9fc, 0xbff2d97c7f3321d2, 0xbc8a79394c9e8a0a, 1),
    ("atan2", 0x3f50624dd2f1a9fc, 0x3fe0000000000000, 0x3ff0624c6470e59e, 0x3c7dd80648deb340, -9),
    ("atan2", 0x3f50624dd2f1a9fc, 0xbfe0000000000000, 0x3ff91de2c12b10df, 0xbc80776e9aa063c9, 1),
    ("atan2", 0xbf50624dd2f1a9fc, 0x3fe0000000000000, 0xbff0624c6470e59e, 0xbc7dd80648deb340, -9),
    ("atan2", 0xbf50624dd2f1a9fc, 0xbfe0000000000000, 0xbff91de2c12b10df, 0x3c80776e9aa063c9, 1),
    ("atan2", 0x3f50624dd2f1a9fc, 0x3ff0000000000000, 0x3ff0624d77516e16, 0xbc9e3ed32865fadb, -10),
    ("atan2", 0x3f50624dd2f1a9fc, 0xbff0000000000000, 0x3ff91fef0a9542eb, 0xbc9f0611f286973a, 1),
    ("atan2", 0xbf50624dd2f1a9fc, 0x3ff0000000000000, 0xbff0624d77516e16, 0x3c9e3ed32865fadb, -10),
    ("atan2", 0xbf50624dd2f1a9fc, 0xbff0000000000000, 0xbff91fef0a9542eb, 0x3c9f0611f286973a, 1),
    ("atan2", 0x3f50624dd2f1a9fc, 0x3ff0000000000001, 0x3ff0624d77516e15, 0xbc9fc80628a9f0cc, -10),
    ("atan2", 0x3f50624dd2f1a9fc, 0xbff0000000000001, 0x3ff91fef0a9542eb, 0xbc9efde0cc268ebb, 1),
    ("atan2", 0xbf50624dd2f1a9fc, 0x3ff0000000000001, 0xbff0624d77516e15, 0x3c9fc80628a9f0cc, -10),
    ("atan2", 0xbf50624dd2f1a9fc, 0xbff0000000000001, 0xbff91fef0a9542eb, 0x3c9efde0cc268ebb, 1),
    ("atan2", 0x3f50624dd2f1a9fc, 0x4008000000000000, 0x3ff5d867b659e2c7, 0x3c96f8b35a8262b7, -12),
    ("atan2", 0x3f50624dd2f1a9fc, 0xc008000000000000, 0x3ff9214c91067a49, 0x3c882edcdaf30fe8, 1),
    ("atan2", 0xbf50624dd2f1a9fc, 0x4008000000000000, 0xbff5d867b659e2c7, 0xbc96f8b35a8262b7, -12),
    ("atan2", 0xbf50624dd2f1a9fc, 0xc008000000000000, 0xbff9214c91067a49, 0xbc882edcdaf30fe8, 1),
    ("atan2", 0x3f50624dd2f1a9fc, 0x41cdcd6500000000, 0x3ff19799812dea11, 0x3c89f14715d27862, -40),
    ("atan2", 0x3f50624dd2f1a9fc, 0xc1cdcd6500000000, 0x3ff921fb5444244c, 0x3c9e760075d2358b, 1),
    ("atan2", 0xbf50624dd2f1a9fc, 0x41cdcd6500000000, 0xbff19799812dea11, 0xbc89f14715d27862, -40),
    ("atan2", 0xbf50624dd2f1a9fc, 0xc1cdcd6500000000, 0xbff921fb5444244c, 0xbc9e760075d2358b, 1),
    ("atan2", 0x3f50624dd2f1a9fc, 0x6974e718d7d7625a, 0x3ff91510781fb5f0, 0x3c7a5fd008fe8a05, -675),
    ("atan2", 0x3f50624dd2f1a9fc, 0xe974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xbf50624dd2f1a9fc, 0x6974e718d7d7625a, 0xbff91510781fb5f0, 0xbc7a5fd008fe8a05, -675),
    ("atan2", 0xbf50624dd2f1a9fc, 0xe974e718d7d7625a, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x3f50624dd2f1a9fc, 0x7e37e43c8800759c, 0x3ff5f1ca820511c3, 0x3c8de2c1c0b1dcf8, -1007),
    ("atan2", 0x3f50624dd2f1a9fc, 0xfe37e43c8800759c, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xbf50624dd2f1a9fc, 0x7e37e43c8800759c, 0xbff5f1ca820511c3, 0xbc8de2c1c0b1dcf8, -1007),
    ("atan2", 0xbf50624dd2f1a9fc, 0xfe37e43c8800759c, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x3f50624dd2f1a9fc, 0x1, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3f50624dd2f1a9fc, 0x8000000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbf50624dd2f1a9fc, 0x1, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbf50624dd2f1a9fc, 0x8000000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3fe0000000000000, 0x1a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3fe0000000000000, 0x81a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbfe0000000000000, 0x1a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbfe0000000000000, 0x81a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3fe0000000000000, 0x16687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3fe0000000000000, 0x96687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbfe0000000000000, 0x16687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbfe0000000000000, 0x96687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3fe0000000000000, 0x39b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145b65, 0),
    ("atan2", 0x3fe0000000000000, 0xb9b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145ca9, 0),
    ("atan2", 0xbfe0000000000000, 0x39b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145b65, 0),
    ("atan2", 0xbfe0000000000000, 0xb9b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145ca9, 0),
    ("atan2", 0x3fe0000000000000, 0x3e00000000000000, 0x3ff921fb54042d18, 0x3c91a6263314b15c, 0),
    ("atan2", 0x3fe0000000000000, 0xbe00000000000000, 0x3ff921fb54842d18, 0x3c91a626331406b2, 0),
    ("atan2", 0xbfe0000000000000, 0x3e00000000000000, 0xbff921fb54042d18, 0xbc91a6263314b15c, 0),
    ("atan2", 0xbfe0000000000000, 0xbe00000000000000, 0xbff921fb54842d18, 0xbc91a626331406b2, 0),
    ("atan2", 0x3fe0000000000000, 0x3e112e0be826d695, 0x3ff921fb53babcb9, 0x3c558790917a9209, 0),
    ("atan2", 0x3fe0000000000000, 0xbe112e0be826d695, 0x3ff921fb54cd9d78, 0xbc9e0c2ca2eef113, 0),
    ("atan2", 0xbfe0000000000000, 0x3e112e0be826d695, 0xbff921fb53babcb9, 0xbc558790917a9209, 0),
    ("atan2", 0xbfe0000000000000, 0xbe112e0be826d695, 0xbff921fb54cd9d78, 0x3c9e0c2ca2eef113, 0),
    ("atan2", 0x3fe0000000000000, 0x3f50624dd2f1a9fc, 0x3ff919ca2e11f4a5, 0x3c9de26b324b4030, 0),
    ("atan2", 0x3fe0000000000000, 0xbf50624dd2f1a9fc, 0x3ff92a2c7a76658b, 0x3c75a784cf75df75, 0),
    ("atan2", 0xbfe0000000000000, 0x3f50624dd2f1a9fc, 0xbff919ca2e11f4a5, 0xbc9de26b324b4030, 0),
    ("atan2", 0xbfe0000000000000, 0xbf50624dd2f1a9fc, 0xbff92a2c7a76658b, 0xbc75a784cf75df75, 0),
    ("atan2", 0x3fe0000000000000, 0x3fe0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, -1),
    ("atan2", 0x3fe0000000000000, 0xbfe0000000000000, 0x3ff2d97c7f3321d2, 0x3c8a79394c9e8a0a, 1),
    ("atan2", 0xbfe0000000000000, 0x3fe0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, -1),
    ("atan2", 0xbfe0000000000000, 0xbfe0000000000000, 0xbff2d97c7f3321d2, 0xbc8a79394c9e8a0a, 1),
    ("atan2", 0x3fe0000000000000, 0x3ff0000000000000, 0x3ffdac670561bb4f, 0x3c9a2b7f222f65e2, -2),
    ("atan2", 0x3fe0000000000000, 0xbff0000000000000, 0x3ff56c6e7397f5ae, 0x3c9660b64ece6f4b, 1),
    ("atan2", 0xbfe0000000000000, 0x3ff0000000000000, 0xbffdac670561bb4f, 0xbc9a2b7f222f65e2, -2),
    ("atan2", 0xbfe0000000000000, 0xbff0000000000000, 0xbff56c6e7397f5ae, 0xbc9660b64ece6f4b, 1),
    ("atan2", 0x3fe0000000000000, 0x3ff0000000000001, 0x3ffdac670561bb4e, 0xbc8875ce886e00ff, -2),
    ("atan2", 0x3fe0000000000000, 0xbff0000000000001, 0x3ff56c6e7397f5af, 0xbc9cd27ce464c3e9, 1),
    ("atan2", 0xbfe0000000000000, 0x3ff0000000000001, 0xbffdac670561bb4e, 0x3c8875ce886e00ff, -2),
    ("atan2", 0xbfe0000000000000, 0xbff0000000000001, 0xbff56c6e7397f5af, 0x3c9cd27ce464c3e9, 1),
    ("atan2", 0x3fe0000000000000, 0x4008000000000000, 0x3ff52397843c9add, 0x3c9aef1b09974515, -3),
    ("atan2", 0x3fe0000000000000, 0xc008000000000000, 0x3ff7cfc1dc00636a, 0x3c9bf734827ae7b6, 1),
    ("atan2", 0xbfe0000000000000, 0x4008000000000000, 0xbff52397843c9add, 0xbc9aef1b09974515, -3),
    ("atan2", 0xbfe0000000000000, 0xc008000000000000, 0xbff7cfc1dc00636a, 0xbc9bf734827ae7b6, 1),
    ("atan2", 0x3fe0000000000000, 0x41cdcd6500000000, 0x3ff12e0be826d695, 0xbc934d0ef3135e4f, -31),
    ("atan2", 0x3fe0000000000000, 0xc1cdcd6500000000, 0x3ff921fb5432ff0c, 0x3c979c708de7a916, 1),
    ("atan2", 0xbfe0000000000000, 0x41cdcd6500000000, 0xbff12e0be826d695, 0x3c934d0ef3135e4f, -31),
    ("atan2", 0xbfe0000000000000, 0xc1cdcd6500000000, 0xbff921fb5432ff0c, 0xbc979c708de7a916, 1),
    ("atan2", 0x3fe0000000000000, 0x6974e718d7d7625a, 0x3ff87e92154ef7ac, 0x3c9540ed823487d2, -666),
    ("atan2", 0x3fe0000000000000, 0xe974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xbfe0000000000000, 0x6974e718d7d7625a, 0xbff87e92154ef7ac, 0xbc9540ed823487d2, -666),
    ("atan2", 0xbfe0000000000000, 0xe974e718d7d7625a, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x3fe0000000000000, 0x7e37e43c8800759c, 0x3ff56e1fc2f8f359, 0xbc9df1934e06825c, -998),
    ("atan2", 0x3fe0000000000000, 0xfe37e43c8800759c, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xbfe0000000000000, 0x7e37e43c8800759c, 0xbff56e1fc2f8f359, 0x3c9df1934e06825c, -998),
    ("atan2", 0xbfe0000000000000, 0xfe37e43c8800759c, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x3fe0000000000000, 0x1, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3fe0000000000000, 0x8000000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbfe0000000000000, 0x1, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbfe0000000000000, 0x8000000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3ff0000000000000, 0x1a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3ff0000000000000, 0x81a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbff0000000000000, 0x1a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbff0000000000000, 0x81a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3ff0000000000000, 0x16687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3ff0000000000000, 0x96687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbff0000000000000, 0x16687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbff0000000000000, 0x96687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3ff0000000000000, 0x39b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145bb6, 0),
    ("atan2", 0x3ff0000000000000, 0xb9b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145c58, 0),
    ("atan2", 0xbff0000000000000, 0x39b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145bb6, 0),
    ("atan2", 0xbff0000000000000, 0xb9b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145c58, 0),
    ("atan2", 0x3ff0000000000000, 0x3e00000000000000, 0x3ff921fb54242d18, 0x3c91a626331466b2, 0),
    ("atan2", 0x3ff0000000000000, 0xbe00000000000000, 0x3ff921fb54642d18, 0x3c91a6263314515c, 0),
    ("atan2", 0xbff0000000000000, 0x3e00000000000000, 0xbff921fb54242d18, 0xbc91a626331466b2, 0),
    ("atan2", 0xbff0000000000000, 0xbe00000000000000, 0xbff921fb54642d18, 0xbc91a6263314515c, 0),
    ("atan2", 0x3ff0000000000000, 0x3e112e0be826d695, 0x3ff921fb53ff74e9, 0xbc9680b061eb3a56, 0),
    ("atan2", 0x3ff0000000000000, 0xbe112e0be826d695, 0x3ff921fb5488e548, 0xbc78cc0cdfb03671, 0),
    ("atan2", 0xbff0000000000000, 0x3e112e0be826d695, 0xbff921fb53ff74e9, 0x3c9680b061eb3a56, 0),
    ("atan2", 0xbff0000000000000, 0xbe112e0be826d695, 0xbff921fb5488e548, 0x3c78cc0cdfb03671, 0),
    ("atan2", 0x3ff0000000000000, 0x3f50624dd2f1a9fc, 0x3ff91de2c0e658bd, 0xbc8f6494304314f5, 0),
    ("atan2", 0x3ff0000000000000, 0xbf50624dd2f1a9fc, 0x3ff92613e7a20174, 0xbc8a02d3036b7af0, 0),
    ("atan2", 0xbff0000000000000, 0x3f50624dd2f1a9fc, 0xbff91de2c0e658bd, 0x3c8f6494304314f5, 0),
    ("atan2", 0xbff0000000000000, 0xbf50624dd2f1a9fc, 0xbff92613e7a20174, 0x3c8a02d3036b7af0, 0),
    ("atan2", 0x3ff0000000000000, 0x3fe0000000000000, 0x3ff1b6e192ebbe44, 0x3c9b1b466a88828e, 0),
    ("atan2", 0x3ff0000000000000, 0xbfe0000000000000, 0x3ff0468a8ace4df6, 0x3c70620bf7406aff, 1),
    ("atan2", 0xbff0000000000000, 0x3fe0000000000000, 0xbff1b6e192ebbe44, 0xbc9b1b466a88828e, 0),
    ("atan2", 0xbff0000000000000, 0xbfe0000000000000, 0xbff0468a8ace4df6, 0xbc70620bf7406aff, 1),
    ("atan2", 0x3ff0000000000000, 0x3ff0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, -1),
    ("atan2", 0x3ff0000000000000, 0xbff0000000000000, 0x3ff2d97c7f3321d2, 0x3c8a79394c9e8a0a, 1),
    ("atan2", 0xbff0000000000000, 0x3ff0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, -1),
    ("atan2", 0xbff0000000000000, 0xbff0000000000000, 0xbff2d97c7f3321d2, 0xbc8a79394c9e8a0a, 1),
    ("atan2", 0x3ff0000000000000, 0x3ff0000000000001, 0x3ff921fb54442d17, 0x3c91a62633145c09, -1),
    ("atan2", 0x3ff0000000000000, 0xbff0000000000001, 0x3ff2d97c7f3321d2, 0x3c9d3c9ca64f4505, 1),
    ("atan2", 0xbff0000000000000, 0x3ff0000000000001, 0xbff921fb54442d17, 0xbc91a62633145c09, -1),
    ("atan2", 0xbff0000000000000, 0xbff0000000000001, 0xbff2d97c7f3321d2, 0xbc9d3c9ca64f4505, 1),
    ("atan2", 0x3ff0000000000000, 0x4008000000000000, 0x3ff4978fa3269ee1, 0x3c82419a87f2a458, -2),
    ("atan2", 0x3ff0000000000000, 0xc008000000000000, 0x3ff68f095fdf593c, 0x3c810419152a6383, 1),
    ("atan2", 0xbff0000000000000, 0x4008000000000000, 0xbff4978fa3269ee1, 0xbc82419a87f2a458, -2),
    ("atan2", 0xbff0000000000000, 0xc008000000000000, 0xbff68f095fdf593c, 0xbc810419152a6383, 1),
    ("atan2", 0x3ff0000000000000, 0x41cdcd6500000000, 0x3ff12e0be826d695, 0xbc9360dd8d4a508b, -30),
    ("atan2", 0x3ff0000000000000, 0xc1cdcd6500000000, 0x3ff921fb5421d100, 0x3c9d92bae8bb1dc2, 1),
    ("atan2", 0xbff0000000000000, 0x41cdcd6500000000, 0xbff12e0be826d695, 0x3c9360dd8d4a508b, -30),
    ("atan2", 0xbff0000000000000, 0xc1cdcd6500000000, 0xbff921fb5421d100, 0xbc9d92bae8bb1dc2, 1),
    ("atan2", 0x3ff0000000000000, 0x6974e718d7d7625a, 0x3ff87e92154ef7ac, 0x3c9540ed823487d2, -665),
    ("atan2", 0x3ff0000000000000, 0xe974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xbff0000000000000, 0x6974e718d7d7625a, 0xbff87e92154ef7ac, 0xbc9540ed823487d2, -665),
    ("atan2", 0xbff0000000000000, 0xe974e718d7d7625a, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x3ff0000000000000, 0x7e37e43c8800759c, 0x3ff56e1fc2f8f359, 0xbc9df1934e06825c, -997),
    ("atan2", 0x3ff0000000000000, 0xfe37e43c8800759c, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xbff0000000000000, 0x7e37e43c8800759c, 0xbff56e1fc2f8f359, 0x3c9df1934e06825c, -997),
    ("atan2", 0xbff0000000000000, 0xfe37e43c8800759c, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x3ff0000000000000, 0x1, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3ff0000000000000, 0x8000000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbff0000000000000, 0x1, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbff0000000000000, 0x8000000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3ff0000000000001, 0x1a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3ff0000000000001, 0x81a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbff0000000000001, 0x1a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbff0000000000001, 0x81a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3ff0000000000001, 0x16687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3ff0000000000001, 0x96687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbff0000000000001, 0x16687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbff0000000000001, 0x96687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x3ff0000000000001, 0x39b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145bb6, 0),
    ("atan2", 0x3ff0000000000001, 0xb9b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145c58, 0),
    ("atan2", 0xbff0000000000001, 0x39b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145bb6, 0),
    ("atan2", 0xbff0000000000001, 0xb9b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145c58, 0),
    ("atan2", 0x3ff0000000000001, 0x3e00000000000000, 0x3ff921fb54242d18, 0x3c91a626339466b2, 0),
    ("atan2", 0x3ff0000000000001, 0xbe00000000000000, 0x3ff921fb54642d18, 0x3c91a6263294515c, 0),
    ("atan2", 0xbff0000000000001, 0x3e00000000000000, 0xbff921fb54242d18, 0xbc91a626339466b2, 0),
    ("atan2", 0xbff0000000000001, 0xbe00000000000000, 0xbff921fb54642d18, 0xbc91a6263294515c, 0),
    ("atan2", 0x3ff0000000000001, 0x3e112e0be826d695, 0x3ff921fb53ff74e9, 0xbc9680b060d85997, 0),
    ("atan2", 0x3ff0000000000001, 0xbe112e0be826d695, 0x3ff921fb5488e548, 0xbc78cc0ce3fbb96b, 0),
    ("atan2", 0xbff0000000000001, 0x3e112e0be826d695, 0xbff921fb53ff74e9, 0x3c9680b060d85997, 0),
    ("atan2", 0xbff0000000000001, 0xbe112e0be826d695, 0xbff921fb5488e548, 0x3c78cc0ce3fbb96b, 0),
    ("atan2", 0x3ff0000000000001, 0x3f50624dd2f1a9fc, 0x3ff91de2c0e658bd, 0xbc8f43cf96c2f2fa, 0),
    ("atan2", 0x3ff0000000000001, 0xbf50624dd2f1a9fc, 0x3ff92613e7a20174, 0xbc8a23979ceb9ceb, 0),
    ("atan2", 0xbff0000000000001, 0x3f50624dd2f1a9fc, 0xbff91de2c0e658bd, 0x3c8f43cf96c2f2fa, 0),
    ("atan2", 0xbff0000000000001, 0xbf50624dd2f1a9fc, 0xbff92613e7a20174, 0x3c8a23979ceb9ceb, 0),
    ("atan2", 0x3ff0000000000001, 0x3fe0000000000000, 0x3ff1b6e192ebbe45, 0xbc86963ff7bbc7b3, 0),
    ("atan2", 0x3ff0000000000001, 0xbfe0000000000000, 0x3ff0468a8ace4df6, 0xbc8168939df96419, 1),
    ("atan2", 0xbff0000000000001, 0x3fe0000000000000, 0xbff1b6e192ebbe45, 0x3c86963ff7bbc7b3, 0),
    ("atan2", 0xbff0000000000001, 0xbfe0000000000000, 0xbff0468a8ace4df6, 0x3c8168939df96419, 1),
    ("atan2", 0x3ff0000000000001, 0x3ff0000000000000, 0x3ff921fb54442d19, 0x3c91a62633145c05, -1),
    ("atan2", 0x3ff0000000000001, 0xbff0000000000000, 0x3ff2d97c7f3321d2, 0xbc661b1acd85d7d3, 1),
    ("atan2", 0xbff0000000000001, 0x3ff0000000000000, 0xbff921fb54442d19, 0xbc91a62633145c05, -1),
    ("atan2", 0xbff0000000000001, 0xbff0000000000000, 0xbff2d97c7f3321d2, 0x3c661b1acd85d7d3, 1),
    ("atan2", 0x3ff0000000000001, 0x3ff0000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, -1),
    ("atan2", 0x3ff0000000000001, 0xbff0000000000001, 0x3ff2d97c7f3321d2, 0x3c8a79394c9e8a0a, 1),
    ("atan2", 0xbff0000000000001, 0x3ff0000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, -1),
    ("atan2", 0xbff0000000000001, 0xbff0000000000001, 0xbff2d97c7f3321d2, 0xbc8a79394c9e8a0a, 1),
    ("atan2", 0x3ff0000000000001, 0x4008000000000000, 0x3ff4978fa3269ee2, 0x3c95ed9a10c61ef8, -2),
    ("atan2", 0x3ff0000000000001, 0xc008000000000000, 0x3ff68f095fdf593c, 0xbc5178d0f0467d82, 1),
    ("atan2", 0xbff0000000000001, 0x4008000000000000, 0xbff4978fa3269ee2, 0xbc95ed9a10c61ef8, -2),
    ("atan2", 0xbff0000000000001, 0xc008000000000000, 0xbff68f095fdf593c, 0x3c5178d0f0467d82, 1),
    ("atan2", 0x3ff0000000000001, 0x41cdcd6500000000, 0x3ff12e0be826d696, 0xbc8d515bd95dec71, -30),
    ("atan2", 0x3ff0000000000001, 0xc1cdcd6500000000, 0x3ff921fb5421d100, 0x3c9d92bae831ad63, 1),
    ("atan2", 0xbff0000000000001, 0x41cdcd6500000000, 0xbff12e0be826d696, 0x3c8d515bd95dec71, -30),
    ("atan2", 0xbff0000000000001, 0xc1cdcd6500000000, 0xbff921fb5421d100, 0xbc9d92bae831ad63, 1),
    ("atan2", 0x3ff0000000000001, 0x6974e718d7d7625a, 0x3ff87e92154ef7ae, 0xbc818994511f32fa, -665),
    ("atan2", 0x3ff0000000000001, 0xe974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xbff0000000000001, 0x6974e718d7d7625a, 0xbff87e92154ef7ae, 0x3c818994511f32fa, -665),
    ("atan2", 0xbff0000000000001, 0xe974e718d7d7625a, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x3ff0000000000001, 0x7e37e43c8800759c, 0x3ff56e1fc2f8f35a, 0xbc807228844569f4, -997),
    ("atan2", 0x3ff0000000000001, 0xfe37e43c8800759c, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xbff0000000000001, 0x7e37e43c8800759c, 0xbff56e1fc2f8f35a, 0x3c807228844569f4, -997),
    ("atan2", 0xbff0000000000001, 0xfe37e43c8800759c, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x3ff0000000000001, 0x1, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x3ff0000000000001, 0x8000000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbff0000000000001, 0x1, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xbff0000000000001, 0x8000000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x4008000000000000, 0x1a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x4008000000000000, 0x81a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xc008000000000000, 0x1a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xc008000000000000, 0x81a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x4008000000000000, 0x16687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x4008000000000000, 0x96687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xc008000000000000, 0x16687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xc008000000000000, 0x96687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x4008000000000000, 0x39b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145bec, 0),
    ("atan2", 0x4008000000000000, 0xb9b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145c22, 0),
    ("atan2", 0xc008000000000000, 0x39b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145bec, 0),
    ("atan2", 0xc008000000000000, 0xb9b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145c22, 0),
    ("atan2", 0x4008000000000000, 0x3e00000000000000, 0x3ff921fb5439826e, 0xbc99048477964e3f, 0),
    ("atan2", 0x4008000000000000, 0xbe00000000000000, 0x3ff921fb544ed7c3, 0xbc6d79791207cd9d, 0),
    ("atan2", 0xc008000000000000, 0x3e00000000000000, 0xbff921fb5439826e, 0x3c99048477964e3f, 0),
    ("atan2", 0xc008000000000000, 0xbe00000000000000, 0xbff921fb544ed7c3, 0x3c6d79791207cd9d, 0),
    ("atan2", 0x4008000000000000, 0x3e112e0be826d695, 0x3ff921fb542d4508, 0x3c9999340169b546, 0),
    ("atan2", 0x4008000000000000, 0xbe112e0be826d695, 0x3ff921fb545b1528, 0x3c836630c97e0590, 0),
    ("atan2", 0xc008000000000000, 0x3e112e0be826d695, 0xbff921fb542d4508, 0xbc9999340169b546, 0),
    ("atan2", 0xc008000000000000, 0xbe112e0be826d695, 0xbff921fb545b1528, 0xbc836630c97e0590, 0),
    ("atan2", 0x4008000000000000, 0x3f50624dd2f1a9fc, 0x3ff9209dcdc8c77a, 0x3c7a22da9f7acf83, 0),
    ("atan2", 0x4008000000000000, 0xbf50624dd2f1a9fc, 0x3ff92358dabf92b6, 0x3c9cc395be4a042d, 0),
    ("atan2", 0xc008000000000000, 0x3f50624dd2f1a9fc, 0xbff9209dcdc8c77a, 0xbc7a22da9f7acf83, 0),
    ("atan2", 0xc008000000000000, 0xbf50624dd2f1a9fc, 0xbff92358dabf92b6, 0xbc9cc395be4a042d, 0),
    ("atan2", 0x4008000000000000, 0x3fe0000000000000, 0x3ff67d8863bc99bd, 0xbc99b7bd2e1e8c9c, 0),
    ("atan2", 0x4008000000000000, 0xbfe0000000000000, 0x3ffbc66e44cbc074, 0xbc67dfb35dc5dab4, 0),
    ("atan2", 0xc008000000000000, 0x3fe0000000000000, 0xbff67d8863bc99bd, 0x3c99b7bd2e1e8c9c, 0),
    ("atan2", 0xc008000000000000, 0xbfe0000000000000, 0xbffbc66e44cbc074, 0x3c67dfb35dc5dab4, 0),
    ("atan2", 0x4008000000000000, 0x3ff0000000000000, 0x3ff3fc176b7a8560, 0xbc4441a3bd3f1083, 0),
    ("atan2", 0x4008000000000000, 0xbff0000000000000, 0x3ffe47df3d0dd4d1, 0xbc9c11a67bed4f6e, 0),
    ("atan2", 0xc008000000000000, 0x3ff0000000000000, 0xbff3fc176b7a8560, 0x3c4441a3bd3f1083, 0),
    ("atan2", 0xc008000000000000, 0xbff0000000000000, 0xbffe47df3d0dd4d1, 0x3c9c11a67bed4f6e, 0),
    ("atan2", 0x4008000000000000, 0x3ff0000000000001, 0x3ff3fc176b7a8560, 0xbc93d540511d2bb7, 0),
    ("atan2", 0x4008000000000000, 0xbff0000000000001, 0x3ffe47df3d0dd4d1, 0xbc81bce691743876, 0),
    ("atan2", 0xc008000000000000, 0x3ff0000000000001, 0xbff3fc176b7a8560, 0x3c93d540511d2bb7, 0),
    ("atan2", 0xc008000000000000, 0xbff0000000000001, 0xbffe47df3d0dd4d1, 0x3c81bce691743876, 0),
    ("atan2", 0x4008000000000000, 0x4008000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, -1),
    ("atan2", 0x4008000000000000, 0xc008000000000000, 0x3ff2d97c7f3321d2, 0x3c8a79394c9e8a0a, 1),
    ("atan2", 0xc008000000000000, 0x4008000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, -1),
    ("atan2", 0xc008000000000000, 0xc008000000000000, 0xbff2d97c7f3321d2, 0xbc8a79394c9e8a0a, 1),
    ("atan2", 0x4008000000000000, 0x41cdcd6500000000, 0x3ff9c511dc3a41df, 0x3c5b1ca08a1636de, -29),
    ("atan2", 0x4008000000000000, 0xc1cdcd6500000000, 0x3ff921fb53dd18d1, 0xbc85283757e4d643, 1),
    ("atan2", 0xc008000000000000, 0x41cdcd6500000000, 0xbff9c511dc3a41df, 0xbc5b1ca08a1636de, -29),
    ("atan2", 0xc008000000000000, 0xc1cdcd6500000000, 0xbff921fb53dd18d1, 0x3c85283757e4d643, 1),
    ("atan2", 0x4008000000000000, 0x6974e718d7d7625a, 0x3ff25eed8ffb39c1, 0x3c8fe164434ecbba, -663),
    ("atan2", 0x4008000000000000, 0xe974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xc008000000000000, 0x6974e718d7d7625a, 0xbff25eed8ffb39c1, 0xbc8fe164434ecbba, -663),
    ("atan2", 0xc008000000000000, 0xe974e718d7d7625a, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x4008000000000000, 0x7e37e43c8800759c, 0x3ff01297d23ab682, 0x3c998ad1857b1e3b, -995),
    ("atan2", 0x4008000000000000, 0xfe37e43c8800759c, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xc008000000000000, 0x7e37e43c8800759c, 0xbff01297d23ab682, 0xbc998ad1857b1e3b, -995),
    ("atan2", 0xc008000000000000, 0xfe37e43c8800759c, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x4008000000000000, 0x1, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x4008000000000000, 0x8000000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xc008000000000000, 0x1, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xc008000000000000, 0x8000000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x41cdcd6500000000, 0x1a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x41cdcd6500000000, 0x81a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xc1cdcd6500000000, 0x1a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xc1cdcd6500000000, 0x81a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x41cdcd6500000000, 0x16687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x41cdcd6500000000, 0x96687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xc1cdcd6500000000, 0x16687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xc1cdcd6500000000, 0x96687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x41cdcd6500000000, 0x39b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x41cdcd6500000000, 0xb9b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xc1cdcd6500000000, 0x39b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xc1cdcd6500000000, 0xb9b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x41cdcd6500000000, 0x3e00000000000000, 0x3ff921fb54442d18, 0x3c9183ca1b440e5a, 0),
    ("atan2", 0x41cdcd6500000000, 0xbe00000000000000, 0x3ff921fb54442d18, 0x3c91c8824ae4a9b4, 0),
    ("atan2", 0xc1cdcd6500000000, 0x3e00000000000000, 0xbff921fb54442d18, 0xbc9183ca1b440e5a, 0),
    ("atan2", 0xc1cdcd6500000000, 0xbe00000000000000, 0xbff921fb54442d18, 0xbc91c8824ae4a9b4, 0),
    ("atan2", 0x41cdcd6500000000, 0x3e112e0be826d695, 0x3ff921fb54442d18, 0x3c915c5cbbcd12f8, 0),
    ("atan2", 0x41cdcd6500000000, 0xbe112e0be826d695, 0x3ff921fb54442d18, 0x3c91efefaa5ba516, 0),
    ("atan2", 0xc1cdcd6500000000, 0x3e112e0be826d695, 0xbff921fb54442d18, 0xbc915c5cbbcd12f8, 0),
    ("atan2", 0xc1cdcd6500000000, 0xbe112e0be826d695, 0xbff921fb54442d18, 0xbc91efefaa5ba516, 0),
    ("atan2", 0x41cdcd6500000000, 0x3f50624dd2f1a9fc, 0x3ff921fb54441b81, 0xbc94ba25476ff0f2, 0),
    ("atan2", 0x41cdcd6500000000, 0xbf50624dd2f1a9fc, 0x3ff921fb54443eb0, 0xbc7fe639499d5c02, 0),
    ("atan2", 0xc1cdcd6500000000, 0x3f50624dd2f1a9fc, 0xbff921fb54441b81, 0x3c94ba25476ff0f2, 0),
    ("atan2", 0xc1cdcd6500000000, 0xbf50624dd2f1a9fc, 0xbff921fb54443eb0, 0x3c7fe639499d5c02, 0),
    ("atan2", 0x41cdcd6500000000, 0x3fe0000000000000, 0x3ff921fb5421d100, 0x3c9d92bae8baf625, 0),
    ("atan2", 0x41cdcd6500000000, 0xbfe0000000000000, 0x3ff921fb54668930, 0x3c76e645f5b707a4, 0),
    ("atan2", 0xc1cdcd6500000000, 0x3fe0000000000000, 0xbff921fb5421d100, 0xbc9d92bae8baf625, 0),
    ("atan2", 0xc1cdcd6500000000, 0xbfe0000000000000, 0xbff921fb54668930, 0xbc76e645f5b707a4, 0),
    ("atan2", 0x41cdcd6500000000, 0x3ff0000000000000, 0x3ff921fb53ff74e9, 0xbc9680b0619e2083, 0),
    ("atan2", 0x41cdcd6500000000, 0xbff0000000000000, 0x3ff921fb5488e548, 0xbc78cc0ce0e49dbd, 0),
    ("atan2", 0xc1cdcd6500000000, 0x3ff0000000000000, 0xbff921fb53ff74e9, 0x3c9680b0619e2083, 0),
    ("atan2", 0xc1cdcd6500000000, 0xbff0000000000000, 0xbff921fb5488e548, 0x3c78cc0ce0e49dbd, 0),
    ("atan2", 0x41cdcd6500000000, 0x3ff0000000000001, 0x3ff921fb53ff74e9, 0xbc9680b062b10141, 0),
    ("atan2", 0x41cdcd6500000000, 0xbff0000000000001, 0x3ff921fb5488e548, 0xbc78cc0cdc991ac3, 0),
    ("atan2", 0xc1cdcd6500000000, 0x3ff0000000000001, 0xbff921fb53ff74e9, 0x3c9680b062b10141, 0),
    ("atan2", 0xc1cdcd6500000000, 0xbff0000000000001, 0xbff921fb5488e548, 0x3c78cc0cdc991ac3, 0),
    ("atan2", 0x41cdcd6500000000, 0x4008000000000000, 0x3ff921fb53760489, 0x3c9931a27506cdb7, 0),
    ("atan2", 0x41cdcd6500000000, 0xc008000000000000, 0x3ff921fb551255a7, 0x3c843553e243d4ae, 0),
    ("atan2", 0xc1cdcd6500000000, 0x4008000000000000, 0xbff921fb53760489, 0xbc9931a27506cdb7, 0),
    ("atan2", 0xc1cdcd6500000000, 0xc008000000000000, 0xbff921fb551255a7, 0xbc843553e243d4ae, 0),
    ("atan2", 0x41cdcd6500000000, 0x41cdcd6500000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, -1),
    ("atan2", 0x41cdcd6500000000, 0xc1cdcd6500000000, 0x3ff2d97c7f3321d2, 0x3c8a79394c9e8a0a, 1),
    ("atan2", 0xc1cdcd6500000000, 0x41cdcd6500000000, 0xbff921fb54442d18, 0xbc91a62633145c07, -1),
    ("atan2", 0xc1cdcd6500000000, 0xc1cdcd6500000000, 0xbff2d97c7f3321d2, 0xbc8a79394c9e8a0a, 1),
    ("atan2", 0x41cdcd6500000000, 0x6974e718d7d7625a, 0x3ff6cfec8aa52598, 0x3c72c3e911dd7a47, -635),
    ("atan2", 0x41cdcd6500000000, 0xe974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xc1cdcd6500000000, 0x6974e718d7d7625a, 0xbff6cfec8aa52598, 0xbc72c3e911dd7a47, -635),
    ("atan2", 0xc1cdcd6500000000, 0xe974e718d7d7625a, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x41cdcd6500000000, 0x7e37e43c8800759c, 0x3ff3f559e7bee6c1, 0xbc755396636ab86c, -967),
    ("atan2", 0x41cdcd6500000000, 0xfe37e43c8800759c, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xc1cdcd6500000000, 0x7e37e43c8800759c, 0xbff3f559e7bee6c1, 0x3c755396636ab86c, -967),
    ("atan2", 0xc1cdcd6500000000, 0xfe37e43c8800759c, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x41cdcd6500000000, 0x1, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x41cdcd6500000000, 0x8000000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xc1cdcd6500000000, 0x1, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xc1cdcd6500000000, 0x8000000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0x1a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0x81a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x1a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x81a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0x16687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0x96687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x16687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x96687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0x39b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0xb9b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x39b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0xb9b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0x3e00000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0xbe00000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x3e00000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0xbe00000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0x3e112e0be826d695, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0xbe112e0be826d695, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x3e112e0be826d695, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0xbe112e0be826d695, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0x3f50624dd2f1a9fc, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0xbf50624dd2f1a9fc, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x3f50624dd2f1a9fc, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0xbf50624dd2f1a9fc, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0x3fe0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0xbfe0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x3fe0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0xbfe0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0x3ff0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0xbff0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x3ff0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0xbff0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0x3ff0000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0xbff0000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x3ff0000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0xbff0000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0x4008000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0xc008000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x4008000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0xc008000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0x41cdcd6500000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0xc1cdcd6500000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x41cdcd6500000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0xc1cdcd6500000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0x6974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, -1),
    ("atan2", 0x6974e718d7d7625a, 0xe974e718d7d7625a, 0x3ff2d97c7f3321d2, 0x3c8a79394c9e8a0a, 1),
    ("atan2", 0xe974e718d7d7625a, 0x6974e718d7d7625a, 0xbff921fb54442d18, 0xbc91a62633145c07, -1),
    ("atan2", 0xe974e718d7d7625a, 0xe974e718d7d7625a, 0xbff2d97c7f3321d2, 0xbc8a79394c9e8a0a, 1),
    ("atan2", 0x6974e718d7d7625a, 0x7e37e43c8800759c, 0x3ffbff2ee48e052f, 0x3c8857e2fe4b4b1a, -333),
    ("atan2", 0x6974e718d7d7625a, 0xfe37e43c8800759c, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0xe974e718d7d7625a, 0x7e37e43c8800759c, 0xbffbff2ee48e052f, 0xbc8857e2fe4b4b1a, -333),
    ("atan2", 0xe974e718d7d7625a, 0xfe37e43c8800759c, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x6974e718d7d7625a, 0x1, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x6974e718d7d7625a, 0x8000000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x1, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x8000000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x1a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x81a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x1a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x81a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x16687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x96687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x16687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x96687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x39b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0xb9b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x39b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0xb9b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x3e00000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0xbe00000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x3e00000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0xbe00000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x3e112e0be826d695, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0xbe112e0be826d695, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x3e112e0be826d695, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0xbe112e0be826d695, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x3f50624dd2f1a9fc, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0xbf50624dd2f1a9fc, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x3f50624dd2f1a9fc, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0xbf50624dd2f1a9fc, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x3fe0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0xbfe0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x3fe0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0xbfe0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x3ff0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0xbff0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x3ff0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0xbff0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x3ff0000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0xbff0000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x3ff0000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0xbff0000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x4008000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0xc008000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x4008000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0xc008000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x41cdcd6500000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0xc1cdcd6500000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x41cdcd6500000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0xc1cdcd6500000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x6974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0xe974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x6974e718d7d7625a, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0xe974e718d7d7625a, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x7e37e43c8800759c, 0x3ff921fb54442d18, 0x3c91a62633145c07, -1),
    ("atan2", 0x7e37e43c8800759c, 0xfe37e43c8800759c, 0x3ff2d97c7f3321d2, 0x3c8a79394c9e8a0a, 1),
    ("atan2", 0xfe37e43c8800759c, 0x7e37e43c8800759c, 0xbff921fb54442d18, 0xbc91a62633145c07, -1),
    ("atan2", 0xfe37e43c8800759c, 0xfe37e43c8800759c, 0xbff2d97c7f3321d2, 0xbc8a79394c9e8a0a, 1),
    ("atan2", 0x7e37e43c8800759c, 0x1, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x7e37e43c8800759c, 0x8000000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x1, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x8000000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x1, 0x1a56e1fc2f8f359, 0x3ff7e43c8800759b, 0x3c9e9dfd69be7022, -78),
    ("atan2", 0x1, 0x81a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62627223dc3, 1),
    ("atan2", 0x8000000000000001, 0x1a56e1fc2f8f359, 0xbff7e43c8800759b, 0xbc9e9dfd69be7022, -78),
    ("atan2", 0x8000000000000001, 0x81a56e1fc2f8f359, 0xbff921fb54442d18, 0xbc91a62627223dc3, 1),
    ("atan2", 0x1, 0x16687e92154ef7ac, 0x3ff4e718d7d7625a, 0x3c92231b7a00d43c, -410),
    ("atan2", 0x1, 0x96687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x8000000000000001, 0x16687e92154ef7ac, 0xbff4e718d7d7625a, 0xbc92231b7a00d43c, -410),
    ("atan2", 0x8000000000000001, 0x96687e92154ef7ac, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1, 0x39b4484bfeebc2a0, 0x3ff93e5939a08ce9, 0x3c910f7d205ccf03, -975),
    ("atan2", 0x1, 0xb9b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x8000000000000001, 0x39b4484bfeebc2a0, 0xbff93e5939a08ce9, 0xbc910f7d205ccf03, -975),
    ("atan2", 0x8000000000000001, 0xb9b4484bfeebc2a0, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1, 0x3e00000000000000, 0x3ff0000000000000, 0x0, -1043),
    ("atan2", 0x1, 0xbe00000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x8000000000000001, 0x3e00000000000000, 0xbff0000000000000, 0x0, -1043),
    ("atan2", 0x8000000000000001, 0xbe00000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1, 0x3e112e0be826d695, 0x3ffdcd64ffffffff, 0x3c9e90154fd66001, -1045),
    ("atan2", 0x1, 0xbe112e0be826d695, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x8000000000000001, 0x3e112e0be826d695, 0xbffdcd64ffffffff, 0xbc9e90154fd66001, -1045),
    ("atan2", 0x8000000000000001, 0xbe112e0be826d695, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1, 0x3f50624dd2f1a9fc, 0x3fff400000000000, 0xbc87700000000000, -1065),
    ("atan2", 0x1, 0xbf50624dd2f1a9fc, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x8000000000000001, 0x3f50624dd2f1a9fc, 0xbfff400000000000, 0x3c87700000000000, -1065),
    ("atan2", 0x8000000000000001, 0xbf50624dd2f1a9fc, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1, 0x3fe0000000000000, 0x3ff0000000000000, 0x0, -1073),
    ("atan2", 0x1, 0xbfe0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x8000000000000001, 0x3fe0000000000000, 0xbff0000000000000, 0x0, -1073),
    ("atan2", 0x8000000000000001, 0xbfe0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1, 0x3ff0000000000000, 0x3ff0000000000000, 0x0, -1074),
    ("atan2", 0x1, 0xbff0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x8000000000000001, 0x3ff0000000000000, 0xbff0000000000000, 0x0, -1074),
    ("atan2", 0x8000000000000001, 0xbff0000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1, 0x3ff0000000000001, 0x3ffffffffffffffe, 0x397ffffffffffffe, -1075),
    ("atan2", 0x1, 0xbff0000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x8000000000000001, 0x3ff0000000000001, 0xbffffffffffffffe, 0xb97ffffffffffffe, -1075),
    ("atan2", 0x8000000000000001, 0xbff0000000000001, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1, 0x4008000000000000, 0x3ff5555555555555, 0x3c95555555555555, -1076),
    ("atan2", 0x1, 0xc008000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x8000000000000001, 0x4008000000000000, 0xbff5555555555555, 0xbc95555555555555, -1076),
    ("atan2", 0x8000000000000001, 0xc008000000000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1, 0x41cdcd6500000000, 0x3ff12e0be826d695, 0xbc934674bfabb83b, -1104),
    ("atan2", 0x1, 0xc1cdcd6500000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x8000000000000001, 0x41cdcd6500000000, 0xbff12e0be826d695, 0x3c934674bfabb83b, -1104),
    ("atan2", 0x8000000000000001, 0xc1cdcd6500000000, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1, 0x6974e718d7d7625a, 0x3ff87e92154ef7ac, 0x3c9540ed823487d2, -1739),
    ("atan2", 0x1, 0xe974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x8000000000000001, 0x6974e718d7d7625a, 0xbff87e92154ef7ac, 0xbc9540ed823487d2, -1739),
    ("atan2", 0x8000000000000001, 0xe974e718d7d7625a, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1, 0x7e37e43c8800759c, 0x3ff56e1fc2f8f359, 0xbc9df1934e06825c, -2071),
    ("atan2", 0x1, 0xfe37e43c8800759c, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x8000000000000001, 0x7e37e43c8800759c, 0xbff56e1fc2f8f359, 0x3c9df1934e06825c, -2071),
    ("atan2", 0x8000000000000001, 0xfe37e43c8800759c, 0xbff921fb54442d18, 0xbc91a62633145c07, 1),
    ("atan2", 0x1, 0x1, 0x3ff921fb54442d18, 0x3c91a62633145c07, -1),
    ("atan2", 0x1, 0x8000000000000001, 0x3ff2d97c7f3321d2, 0x3c8a79394c9e8a0a, 1),
    ("atan2", 0x8000000000000001, 0x1, 0xbff921fb54442d18, 0xbc91a62633145c07, -1),
    ("atan2", 0x8000000000000001, 0x8000000000000001, 0xbff2d97c7f3321d2, 0xbc8a79394c9e8a0a, 1),
    ("atan2", 0x1a56e1fc2f8f359, 0x0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x81a56e1fc2f8f359, 0x0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x0, 0x81a56e1fc2f8f359, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x16687e92154ef7ac, 0x0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x96687e92154ef7ac, 0x0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x0, 0x96687e92154ef7ac, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x39b4484bfeebc2a0, 0x0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xb9b4484bfeebc2a0, 0x0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x0, 0xb9b4484bfeebc2a0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x3e00000000000000, 0x0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbe00000000000000, 0x0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x0, 0xbe00000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x3e112e0be826d695, 0x0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbe112e0be826d695, 0x0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x0, 0xbe112e0be826d695, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x3f50624dd2f1a9fc, 0x0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbf50624dd2f1a9fc, 0x0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x0, 0xbf50624dd2f1a9fc, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x3fe0000000000000, 0x0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbfe0000000000000, 0x0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x0, 0xbfe0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x3ff0000000000000, 0x0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbff0000000000000, 0x0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x0, 0xbff0000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x3ff0000000000001, 0x0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xbff0000000000001, 0x0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x0, 0xbff0000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x4008000000000000, 0x0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xc008000000000000, 0x0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x0, 0xc008000000000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x41cdcd6500000000, 0x0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xc1cdcd6500000000, 0x0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x0, 0xc1cdcd6500000000, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x6974e718d7d7625a, 0x0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xe974e718d7d7625a, 0x0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x0, 0xe974e718d7d7625a, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x7e37e43c8800759c, 0x0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0xfe37e43c8800759c, 0x0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x0, 0xfe37e43c8800759c, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("atan2", 0x1, 0x0, 0x3ff921fb54442d18, 0x3c91a62633145c07, 0),
    ("atan2", 0x8000000000000001, 0x0, 0xbff921fb54442d18, 0xbc91a62633145c07, 0),
    ("atan2", 0x0, 0x8000000000000001, 0x3ff921fb54442d18, 0x3c91a62633145c07, 1),
    ("mul", 0x457763781e25a760, 0x36dd4b77d1d8943e, 0x3ff5694d901f6c54, 0x3c97471f55c41280, -57),
    ("div", 0x457763781e25a760, 0x36dd4b77d1d8943e, 0x3ff98c607e4376ba, 0xbc9ec0e9d906d2d9, 233),
    ("add", 0xbff1279e62bb5b9c, 0xbd6ab060f6971b2a, 0xbff1279e62bb68f4, 0xbc883da5c6ca8000, 0),
    ("atan2", 0xbff1279e62bb5b9c, 0xbd6ab060f6971b2a, 0xbff921fb5444398b, 0x3c9f90d6727f7047, 0),
    ("mul", 0xcc31110587e74b7c, 0x38d530a30cb68662, 0xbff69a383def1695, 0xbc9cbcba48d735e0, 82),
    ("div", 0xcc31110587e74b7c, 0x38d530a30cb68662, 0xbff9c5dd9471e751, 0xbc9af59caeb0e475, 309),
    ("add", 0xbff6ad3ceca5ff62, 0xbc2e5e519b7d3638, 0xbff6ad3ceca5ff62, 0xbc2e5e519b7d3638, 0),
    ("atan2", 0xbff6ad3ceca5ff62, 0xbc2e5e519b7d3638, 0xbff921fb54442d18, 0xbc91d100d8d5188f, 0),
    ("mul", 0x5131b5e817a1d9b0, 0xb52737bb80c01c64, 0xbff9b32e7c566088, 0xbc7eb0a330848c00, 103),
    ("div", 0x5131b5e817a1d9b0, 0xb52737bb80c01c64, 0xbff868e54092287e, 0x3c872ee13f992b4d, 448),
    ("add", 0x3ffcd0781cf0d476, 0x403862189dbf4a88, 0x3ffa2f201f8e57cf, 0x3c98000000000000, 4),
    ("atan2", 0x3ffcd0781cf0d476, 0x403862189dbf4a88, 0x3ff2df976089116c, 0x3c7fc87a65e6f719, -4),
    ("mul", 0x3093d5f0ead1b72c, 0xd0c632cb466e0d20, 0xbffb8523d56f3b9f, 0x3c877efa149ef400, 23),
    ("div", 0x3093d5f0ead1b72c, 0xd0c632cb466e0d20, 0xbffc9813dd3e8b9b, 0x3c823cbd2a33fdc6, -516),
    ("add", 0xbfdb1af35cafd300, 0xbf4b8d0e53430380, 0xbffb28b9e3d97482, 0x3c90000000000000, -2),
    ("atan2", 0xbfdb1af35cafd300, 0xbf4b8d0e53430380, 0xbff92a1d010ce1f1, 0xbc9069690428610f, 0),
    ("mul", 0xc692ebaeaecf9980, 0xb17c0421b679a1b6, 0x3ff090aa3dbc00d5, 0x3c9ad5c2c9414200, -125),
    ("div", 0xc692ebaeaecf9980, 0xb17c0421b679a1b6, 0x3ff59c72b22cb135, 0x3c9484e3d110913d, 337),
    ("add", 0xbff59cd3171eddea, 0x3fbf04cb41ab8c08, 0xbff3ac866304252a, 0x3ca0000000000000, 0),
    ("atan2", 0xbff59cd3171eddea, 0x3fbf04cb41ab8c08, 0xbff7b38c20722e87, 0xbc94dcd634b4af4e, 0),
    ("mul", 0xb074791f36636bd0, 0xd179729cd7ff85b2, 0x3ff047f43a58dbff, 0xbc93236ce757f2c0, 33),
    ("div", 0xb074791f36636bd0, 0xd179729cd7ff85b2, 0x3ff9be9c22c2cde1, 0xbc797da253c1432c, -529),
    ("add", 0x3ffcbb9392e8ac50, 0xbcf651ace3b50144, 0x3ffcbb9392e8ac3a, 0xbc946b38ed405100, 0),
    ("atan2", 0x3ffcbb9392e8ac50, 0xbcf651ace3b50144, 0x3ff921fb54442d25, 0xbc92ed411af0a75e, 0),
    ("mul", 0x319d1de2a0d0e738, 0x4547f50fc9a9e318, 0x3ff5cc761035ecf5, 0x3c922b27d928aa80, -144),
    ("div", 0x319d1de2a0d0e738, 0x4547f50fc9a9e318, 0x3ff3721e992e491a, 0x3c707052875fb799, -315),
    ("add", 0x3ffd26635ac7742a, 0xbe367e261aecbaac, 0x3ffd2663595f91c8, 0x3c944d1550000000, 0),
    ("atan2", 0x3ffd26635ac7742a, 0xbe367e261aecbaac, 0x3ff921fb5509b62b, 0xbc8e5b84dfa9b115, 0),
    ("mul", 0x4b6a2ef80ba73a10, 0xcc68235a5713c18a, 0xbff3c0275363a7d9, 0x3c486ef97928d800, 383),
    ("div", 0x4b6a2ef80ba73a10, 0xcc68235a5713c18a, 0xbff15b148a9fd73d, 0xbc60e6473c16e99c, -16),
    ("add", 0xbfb4134e4211b4c0, 0x3fef8efeb7d294dc, 0x3ffd0c94ef905e44, 0x0, -1),
    ("atan2", 0xbfb4134e4211b4c0, 0x3fef8efeb7d294dc, 0xbff4504001b7e99b, 0xbc09bbd98c356425, -4),
    ("mul", 0xb65815392ea03768, 0xc31975c21200aaf6, 0x3ff3293453b6c093, 0x3c904d3d05809be0, -103),
    ("div", 0xb65815392ea03768, 0xc31975c21200aaf6, 0x3ffe44e8873e41bd, 0xbc9722a6a212acde, -205),
    ("add", 0x3ff50bf76d89550e, 0x3ffec3d4343c71b8, 0x3ff9e7e5d0e2e363, 0x0, 1),
    ("atan2", 0x3ff50bf76d89550e, 0x3ffec3d4343c71b8, 0x3ff33312ec5d2aca, 0x3c8939c407f4fd56, -1),
    ("mul", 0xaea5aafd63de8c02, 0xcef2ddc1e06461ae, 0x3ff98cad6ac0208b, 0xbc92fff16ba05290, -37),
    ("div", 0xaea5aafd63de8c02, 0xcef2ddc1e06461ae, 0x3ff26044782c3168, 0xbc91039edd45422b, -517),
    ("add", 0x3fc61ab23a815d50, 0xc1a1b2186da7841c, 0xbff1b2186d4f1953, 0xbc75fa8ac0000000, 27),
    ("atan2", 0x3fc61ab23a815d50, 0xc1a1b2186da7841c, 0x3ff921fb541c3430, 0x3c9a88063e6c8ee2, 1),
    ("mul", 0xcefe44ef91ef52c0, 0xb2f9d83270580f18, 0x3ff8725c3116ee73, 0x3c7c3fd932481000, 33),
    ("div", 0xcefe44ef91ef52c0, 0xb2f9d83270580f18, 0x3ff2bd437ad5e19b, 0xbc9e8ed52b3568a2, 448),
    ("add", 0x3fb2d6a02ef004c0, 0x3e391cf9ed86f40c, 0x3ff2d6a0480cfeae, 0xbc9e42fd00000000, -4),
    ("atan2", 0x3fb2d6a02ef004c0, 0x3e391cf9ed86f40c, 0x3ff921fb3eefdacb, 0xbc4efd2e21142a5c, 0),
    ("mul", 0x43fa20e871561a22, 0x4f41676e41c84790, 0x3ffc6bdede6fe1bf, 0x3c9d2ac6b8f88480, 309),
    ("div", 0x43fa20e871561a22, 0x4f41676e41c84790, 0x3ff8054c0f8c242d, 0x3c8a153d4b4d93f9, -181),
    ("add", 0xbfe5cd8995d12248, 0x4005484931dc0900, 0x3fffa9cd98cf80dc, 0x0, 0),
    ("atan2", 0xbfe5cd8995d12248, 0x4005484931dc0900, 0xbff00be10b8059aa, 0xbc62bae4dab8e2a2, -2),
    ("mul", 0xb9a1b9af6b181bce, 0x46d396caa1ea4414, 0xbff5b38d975f4750, 0xbc7cc38bd90e4180, 9),
    ("div", 0xb9a1b9af6b181bce, 0x46d396caa1ea4414, 0xbffcf49d5c564dfd, 0xbc98eeb60a7f34e9, -212),
    ("add", 0xbff3348b33dbe03c, 0x3dfeb428bcda6c6c, 0xbff3348b33bd2c13, 0xbc90c964e5000000, 0),
    ("atan2", 0xbff3348b33dbe03c, 0x3dfeb428bcda6c6c, 0xbff921fb542a98c1, 0x3c97b142e3d5ee92, 0),
    ("mul", 0xaead90c949f3b500, 0x3f1f55aa48393712, 0xbffcf368ea38813e, 0x3c7af6511fd23000, -290),
    ("div", 0xaead90c949f3b500, 0x3f1f55aa48393712, 0xbffe318129035632, 0xbc9e596270eb7666, -264),
    ("add", 0x3fe8a48f19aea640, 0xbd7c6d19ded35fe0, 0x3ff8a48f19ae6d66, 0xbc89ded35fe00000, -1),
    ("atan2", 0x3fe8a48f19aea640, 0xbd7c6d19ded35fe0, 0x3ff921fb54445202, 0xbc553e5a34ae864c, 0),
    ("mul", 0x49cd378b02c1165a, 0x4383bf8a877f04f8, 0x3ff207dc8a98dd10, 0x3c8d7734f0343cc0, 215),
    ("div", 0x49cd378b02c1165a, 0x4383bf8a877f04f8, 0x3ff7abed35abb609, 0xbc911c7b94e090cb, 100),
    ("add", 0xbffad8769e3c7e40, 0x3f1d1ebaf7cbce82, 0xbffad80223509f11, 0x3c8d040000000000, 0),
    ("atan2", 0xbffad8769e3c7e40, 0x3f1d1ebaf7cbce82, 0xbff921b5e8234808, 0x3c97d996004a474c, 0),
    ("mul", 0xcb497641de2f6b76, 0xba43692a8d4c504c, 0x3ffee3c9ff62e401, 0xbc73363534f38f80, 90),
    ("div", 0xcb497641de2f6b76, 0xba43692a8d4c504c, 0x3ff4fce3c1f93043, 0x3c873043746c829b, 272),
    ("add", 0x3fdc3a23dae4d908, 0xc321c355301e97c0, 0xbff1c355301e97bf, 0xbc7e2ee128d937c0, 51),
    ("atan2", 0x3fdc3a23dae4d908, 0xc321c355301e97c0, 0x3ff921fb54442d18, 0xbc7f1b1f4d4fdb7e, 1),
    ("mul", 0xc33fe0bbf42a09d8, 0x32932d5cf52522f6, 0xbff31aa03b9a4ca1, 0xbc9fe452b3d84b20, -161),
    ("div", 0xc33fe0bbf42a09d8, 0x32932d5cf52522f6, 0xbffa98b2808549a2, 0x3c5b705be8ed2d05, 266),
    ("add", 0x3ffa39c9e31bb8a0, 0x3d256ae2d548e120, 0x3ffa39c9e31bb94b, 0x3c95c5aa91c24000, 0),
    ("atan2", 0x3ffa39c9e31bb8a0, 0x3d256ae2d548e120, 0x3ff921fb54442cb0, 0xbc906f14c59ed00f, 0),
    ("mul", 0x39f211401db1233a, 0xb8567e958e34e340, 0xbff966a8e2f7499c, 0x3c95fd74b6cb0e00, -218),
    ("div", 0x39f211401db1233a, 0xb8567e958e34e340, 0xbff9b3c0533cbadc, 0x3c9161942341d62c, 25),
    ("add", 0xbfe570138e9cac30, 0xc120ea4946bf6710, 0xbff0ea4a9dc09ffa, 0x3c8a9e8000000000, 19),
    ("atan2", 0xbfe570138e9cac30, 0xc120ea4946bf6710, 0xbff921fab20afc03, 0xbc9c42e40860d35f, 1),
    ("mul", 0x468340b17f91bf22, 0xb262dc9f264fadb0, 0xbff6b240b91b74bd, 0xbc956ed0e76d8580, -112),
    ("div", 0x468340b17f91bf22, 0xb262dc9f264fadb0, 0xbff054e368e42665, 0x3c8a96fce2344f9f, 322),
    ("add", 0x3fff8f2721042cb0, 0x3d7cc633e28aaca4, 0x3fff8f2721044976, 0x3c89f14556520000, 0),
    ("atan2", 0x3fff8f2721042cb0, 0x3d7cc633e28aaca4, 0x3ff921fb54441e82, 0xbc9147e1d2e9e166, 0),
    ("mul", 0xcafe3ca3beca7182, 0x36839dba7d3f3294, 0xbff2890af378a069, 0xbc609a0403303280, 26),
    ("div", 0xcafe3ca3beca7182, 0x36839dba7d3f3294, 0xbff8a9b1d1045f89, 0x3c9993b699a722f9, 327),
    ("add", 0x3ffebd5523cb7ba4, 0x40dc9011fa72c618, 0x3ffc908cefc75546, 0xbc71700000000000, 14),
    ("atan2", 0x3ffebd5523cb7ba4, 0x40dc9011fa72c618, 0x3ff13829559ee2c1, 0x3c9b0bf3e85c0e1d, -14),
    ("mul", 0x4384215e0effddec, 0xd0460587e39c5820, 0xbffbb4d6b9ec3a52, 0xbc98a84550537600, 318),
    ("div", 0x4384215e0effddec, 0xd0460587e39c5820, 0xbffd4074071ebbfe, 0x3c9bfccebb08f5e0, -205),
    ("add", 0x3ff328aa4fc46210, 0xbc479df5e7d42dfc, 0x3ff328aa4fc46210, 0xbc479df5e7d42dfc, 0),
    ("atan2", 0x3ff328aa4fc46210, 0xbc479df5e7d42dfc, 0x3ff921fb54442d18, 0x3c9243ef2d678f32, 0),
    ("mul", 0x33bcf9b1aa651144, 0x35db380fdfef7e00, 0x3ff8a5713e7fa869, 0xbc9f1981ce091000, -357),
    ("div", 0x33bcf9b1aa651144, 0x35db380fdfef7e00, 0x3ff1084e0b4cd53c, 0xbc8535690c897ed9, -34),
    ("add", 0xbff3884ec16408b8, 0xc300f1dd606e2ff0, 0xbff0f1dd606e2ffa, 0x3c8dec4fa6fdd200, 49),
    ("atan2", 0xbff3884ec16408b8, 0xc300f1dd606e2ff0, 0xbff921fb54442d14, 0x3c9571f7b14e514a, 1),
    ("mul", 0x2ef7ee1701b036f6, 0xbfdfc3e07c987438, 0xbff7c12105a2a5dc, 0x3c9f5367fcf90460, -273),
    ("div", 0x2ef7ee1701b036f6, 0xbfdfc3e07c987438, 0xbff81b621720b5b2, 0xbc9904c59f8e4d2d, -271),
    ("add", 0x3fd620bf0a6e8120, 0x41c30971ec9fea00, 0x3ff30971eccc2b7e, 0x3c74dd0240000000, 29),
    ("atan2", 0x3fd620bf0a6e8120, 0x41c30971ec9fea00, 0x3ff2991147440307, 0x3c81d718df606287, -31),
    ("mul", 0xc7fecd22674a54c4, 0x31156373690c705a, 0xbff496584c890abe, 0xbc9abf2a64cf19d0, -109),
    ("div", 0xc7fecd22674a54c4, 0x31156373690c705a, 0xbff70a9a5bf71e77, 0xbc51928e46a71cb5, 366),
    ("add", 0x3ff973fb7baa504e, 0x3f0a3db82deb5c40, 0x3ff9742ff71aac25, 0xbc91e00000000000, 0),
    ("atan2", 0x3ff973fb7baa504e, 0x3f0a3db82deb5c40, 0x3ff921da56a39de3, 0xbc6b45ff9e789991, 0),
    ("mul", 0x4e34cbf9a9556584, 0xcd2451b4a5881260, 0xbffa692b81750c86, 0xbc90c08e0d256600, 439),
    ("div", 0x4e34cbf9a9556584, 0xcd2451b4a5881260, 0xbff060477be7d2e4, 0x3c9edb43af26fa6d, 17),
    ("add", 0x3fb8121c41599ac0, 0xbd67a19323bed28e, 0x3ff8121c4158ddb3, 0x3c99b8825ae40000, -4),
    ("atan2", 0x3fb8121c41599ac0, 0xbd67a19323bed28e, 0x3ff921fb5444aac2, 0xbc83397dab45f5a4, 0),
    ("mul", 0xc95ecd8a19047e80, 0x2d71b246e1770144, 0xbff108cce81b637f, 0x3c86c7cc233f9800, -145),
    ("div", 0xc95ecd8a19047e80, 0x2d71b246e1770144, 0xbffbd99fad3b8065, 0xbc9393c61afbb108, 446),
    ("add", 0xbff4f8457ede1656, 0x3d61aa9f5664b37a, 0xbff4f8457ede0d81, 0x3c93eacc966f4000, 0),
    ("atan2", 0xbff4f8457ede1656, 0x3d61aa9f5664b37a, 0xbff921fb5444265b, 0x3c7bc1782f401880, 0),
    ("mul", 0xb4ab24ab30c14a80, 0x41dcea5f83f3cc70, 0xbff886e2f346c80b, 0x3c6b4276c9168000, -150),
    ("div", 0xb4ab24ab30c14a80, 0x41dcea5f83f3cc70, 0xbffe09e5e2d0f7e1, 0x3c97062c0241e297, -212),
    ("add", 0x3fcc62e09ee11130, 0x405756a2584b2804, 0x3ff764d3c89a988d, 0xbc9a000000000000, 6),
    ("atan2", 0x3fcc62e09ee11130, 0x405756a2584b2804, 0x3ff375e8493d8f8b, 0x3c9066d30db678b5, -9),
    ("mul", 0x33f231852e364070, 0x30d886cdf47b7c8a, 0x3ffbe390b12e6068, 0x3c55d639913f1800, -434),
    ("div", 0x33f231852e364070, 0x30d886cdf47b7c8a, 0x3ff7bcb2f8bf88a9, 0xbc934013fabaff22, 49),
    ("add", 0xbffd4c9d01d268c6, 0xbe6018ab4678347e, 0xbffd4c9d09debe69, 0xbc8e0d1f80000000, 0),
    ("atan2", 0xbffd4c9d01d268c6, 0xbe6018ab4678347e, 0xbff921fb58a94d2f, 0xbc9d18cd786df422, 0),
    ("mul", 0xca29be8a9bf033a6, 0x310f9afe81c88d70, 0xbff96d4802f4d335, 0x3c9aa62af58df2c0, -75),
    ("div", 0xca29be8a9bf033a6, 0x310f9afe81c88d70, 0xbffa10d0e69dfe4a, 0x3c8451c27877795a, 401),
    ("add", 0x3ffe4b88cc0b5f70, 0xc0ed0e8beb292570, 0xbffd0e4f54178d59, 0xbc90480000000000, 15),
    ("atan2", 0x3ffe4b88cc0b5f70, 0xc0ed0e8beb292570, 0x3ff921eaa5b7ef86, 0x3c8f79748e4d994a, 1),
    ("mul", 0x39db2bd6d063a070, 0x4a18ab68d46f5a18, 0x3ff4f26c630f6daf, 0xbc9f0a143f632b00, 65),
    ("div", 0x39db2bd6d063a070, 0x4a18ab68d46f5a18, 0x3ff19f5d6d5b92cb, 0xbc980c194da992ed, -260),
    ("add", 0xbfb67da5bf01fcc0, 0x4250b42c888564c0, 0x3ff0b42c88855f21, 0xbc9a5bf01fcc0000, 38),
    ("atan2", 0xbfb67da5bf01fcc0, 0x4250b42c888564c0, 0xbff58b0d718df977, 0x3c9cc4c41a7b24ba, -42),
    ("mul", 0x4eac418df1fb32f6, 0x3dc819284702000a, 0x3ff547613d061805, 0xbc77275f62201320, 201),
    ("div", 0x4eac418df1fb32f6, 0x3dc819284702000a, 0x3ff2c2b45421b792, 0x3c879c69a4f7d18e, 270),
    ("add", 0x3ffc5e7cb19ee6ba, 0x435b0ee58479e25e, 0x3ffb0ee58479e25e, 0x3c9c5e7cb19ee6ba, 54),
    ("atan2", 0x3ffc5e7cb19ee6ba, 0x435b0ee58479e25e, 0x3ff0c670d796af92, 0xbc7d7f009bc4e44b, -54),
    ("mul", 0x35f5c28e739489ac, 0xc62557461c1bac48, 0xbffd060c37b0c1f0, 0xbc8fb3cd1b524300, -61),
    ("div", 0x35f5c28e739489ac, 0xc62557461c1bac48, 0xbff0506ef099da9b, 0xbc958cea0576ea77, -259),
    ("add", 0x3fe5e86bf3d9a804, 0xbc9da2b2abc6fcb0, 0x3ff5e86bf3d9a803, 0x3c72ea6aa1c81a80, -1),
    ("atan2", 0x3fe5e86bf3d9a804, 0xbc9da2b2abc6fcb0, 0x3ff921fb54442d19, 0xbc6882162bcdd98c, 0),
    ("mul", 0xbaa258657da8fea8, 0x34f5b14364d82fe8, 0xbff8df445d75448a, 0xbc9e5851969e8100, -261),
    ("div", 0xbaa258657da8fea8, 0x34f5b14364d82fe8, 0xbffb0ffa17c4c6f6, 0x3c56569bbd5b8fc4, 90),
    ("add", 0x3ffc20d825ba9d0e, 0x3d6968e18e37286e, 0x3ffc20d825baa9c2, 0x3c9c31c6e50dc000, 0),
    ("atan2", 0x3ffc20d825ba9d0e, 0x3d6968e18e37286e, 0x3ff921fb544425de, 0x3c8b93567ddc5ac6, 0),
    ("mul", 0x44825cd4ea906920, 0xb5f6d96e9df9a29a, 0xbffa392ebdb90c4a, 0xbc9a5ccd7615f500, -87),
    ("div", 0x44825cd4ea906920, 0xb5f6d96e9df9a29a, 0xbff9b7691d8ec851, 0x3c85d958feedec0d, 232),
    ("add", 0x3fef93475f3d74f8, 0x3dfdec40f3bdec48, 0x3fff93475f794d7a, 0xbc78842770000000, -1),
    ("atan2", 0x3fef93475f3d74f8, 0x3dfdec40f3bdec48, 0x3ff921fb5425d9cf, 0x3c914e5e79926cf2, 0),
    ("mul", 0xcc59f9d944d05eb4, 0xbb8594c39014be48, 0x3ff184b8e1802585, 0x3c909dad4de87540, 128),
    ("div", 0xcc59f9d944d05eb4, 0xbb8594c39014be48, 0x3ff342202a9ff89b, 0xbc940da317ab097f, 269),
    ("add", 0x3fff9ee2bc1ff58a, 0xbfa5aa8a4259730a, 0x3ffef18e6a0d29f2, 0xbc94000000000000, 0),
    ("atan2", 0x3fff9ee2bc1ff58a, 0xbfa5aa8a4259730a, 0x3ff979ac39f32768, 0xbc9bd79f61502d43, 0),
    ("mul", 0xc8089fec9525f5e8, 0xc19378eb5d25a726, 0x3ffdf8029bba018b, 0x3c6ce677329b0e00, 155),
    ("div", 0xc8089fec9525f5e8, 0xc19378eb5d25a726, 0x3ff43bcc2d43bd24, 0x3c915a5fb1f5669d, 103),
    ("add", 0xbffec0caad4bd150, 0xbf1a197e3a3908fc, 0xbffec1331344ba34, 0xbc81f80000000000, 0),
    ("atan2", 0xbffec0caad4bd150, 0xbf1a197e3a3908fc, 0xbff92231a51098c7, 0x3c91360f101f4589, 0),
    ("mul", 0x493bac795d5adca0, 0x45ba00dd404a1054, 0x3ff67ce1f298ffb0, 0xbc8ea32fa8966e00, 241),
    ("div", 0x493bac795d5adca0, 0x45ba00dd404a1054, 0x3ff1071c3f3709fb, 0xbc7133b0bdfaed93, 56),
    ("add", 0xbfea2e8f47cdc614, 0xc115917a27b89748, 0xbff5917d6d8a8042, 0x3c91cf6000000000, 18),
    ("atan2", 0xbfea2e8f47cdc614, 0xc115917a27b89748, 0xbff921fa1d819172, 0x3c9fc17749c4efa5, 1),
    ("mul", 0x346d7d553883aae4, 0x3bdf0b9a97592fc4, 0x3ffc9c1c1aaeb586, 0xbc94f94b531a9ae0, -250),
    ("div", 0x346d7d553883aae4, 0x3bdf0b9a97592fc4, 0x3ffe657b58bde822, 0x3c93f84327425197, -120),
    ("add", 0xbffa9ebd7de01fd8, 0x3d0e30443f02d9f0, 0xbffa9ebd7de01f9c, 0x3c98221f816cf800, 0),
    ("atan2", 0xbffa9ebd7de01fd8, 0x3d0e30443f02d9f0, 0xbff921fb54442cf4, 0x3c4c6ec84dbde177, 0),
    ("mul", 0xb8bd31b5df5dd8c8, 0xb56d6205b3e856dc, 0x3fface7a434f8fc2, 0x3c82a37722e5ef80, -284),
    ("div", 0xb8bd31b5df5dd8c8, 0xb56d6205b3e856dc, 0x3fffcb6294e33f37, 0x3c95bf6bf11d304b, 52),
    ("add", 0x3ffa549a9d6864dc, 0x42f4773b1360c6cc, 0x3ff4773b1360c6e6, 0x3c9526a75a193700, 48),
    ("atan2", 0x3ffa549a9d6864dc, 0x42f4773b1360c6cc, 0x3ff495c3c9a381e7, 0x3c83c2b8a15f0117, -48),
    ("mul", 0x3db46a26cf916944, 0xcf6813cd9b3860b8, 0xbffeb87e9b8e24f4, 0xbc9a8eebab74a380, 211),
    ("div", 0x3db46a26cf916944, 0xcf6813cd9b3860b8, 0xbffb21d08a0538e8, 0x3c8e07595773c787, -284),
    ("add", 0xbf9611ae9962e280, 0x40cad3b4bc1e4658, 0x3ffad3b1f9e8732c, 0xbc97140000000000, 13),
    ("atan2", 0xbf9611ae9962e280, 0x40cad3b4bc1e4658, 0xbffa531b0159a90e, 0xbc963dc8497f0ebd, -20),
    ("mul", 0xbef623464e919014, 0xb8ec517c519a71d8, 0x3ff3973ccfdad175, 0x3c9e77af16e4c9c0, -128),
    ("div", 0xbef623464e919014, 0xb8ec517c519a71d8, 0x3ff90415778e7cba, 0x3c8a4096c0933ae3, 96),
    ("add", 0xbfed93ead0fc8504, 0xbca31e6c2359d2d8, 0xbffd93ead0fc8505, 0xbc88f3611ace96c0, -1),
    ("atan2", 0xbfed93ead0fc8504, 0xbca31e6c2359d2d8, 0xbff921fb54442d19, 0x3c73ed7e92909e2b, 0),
    ("mul", 0xb2deec3aa2ecaafc, 0x32834de202159c3a, 0xbff2a785a4365351, 0x3c8328db7e0ecba0, -424),
    ("div", 0xb2deec3aa2ecaafc, 0x32834de202159c3a, 0xbff9a13d2b8a6216, 0xbc984f1cd848cf09, 5),
    ("add", 0xbffbbc74d5e26786, 0x3ddbb183fb663998, 0xbffbbc74d5db7b25, 0xbc326719a0000000, 0),
    ("atan2", 0xbffbbc74d5e26786, 0x3ddbb183fb663998, 0xbff921fb54402eac, 0xbc8a18a87f6c57bd, 0),
    ("mul", 0x4a3737b480f93214, 0xd09f42d32d496acc, 0xbff6ae72f965374b, 0xbc9e492d82085fe0, 431),
    ("div", 0x4a3737b480f93214, 0xd09f42d32d496acc, 0xbff7c434a21e47fa, 0xbc8ab851447ac07f, -103),
    ("add", 0xbfedb6c5960d80b0, 0xc3650da8a258b9b0, 0xbff50da8a258b9b0, 0xbc7db6c5960d80b0, 55),
    ("atan2", 0xbfedb6c5960d80b0, 0xc3650da8a258b9b0, 0xbff921fb54442d18, 0xbc8da70fb87d6e50, 1),
    ("mul", 0xcee7bac7e7a783c8, 0x342ad21963d0a270, 0xbff3e38f0009145b, 0x3c7ecac9d68e4400, 51),
    ("div", 0xcee7bac7e7a783c8, 0x342ad21963d0a270, 0xbffc4fdf1e6e86cb, 0xbc94c7c4e24f8cd6, 427),
    ("add", 0xbffcc694268d0358, 0x3e4e0795314aa5d2, 0xbffcc69422cc10b2, 0x3c84aa5d20000000, 0),
    ("atan2", 0xbffcc694268d0358, 0x3e4e0795314aa5d2, 0xbff921fb522ddd89, 0xbc92b4616e4e16f9, 0),
    ("mul", 0xc123163aa08ac226, 0x4f10784b64e14d54, 0xbff3a5bb48c956a4, 0x3c9c4e306ab37620, 261),
    ("div", 0xc123163aa08ac226, 0x4f10784b64e14d54, 0xbff28ad2192c6450, 0xbc930c32a6a464c1, -223),
    ("add", 0xbfcbceee1ffe8c70, 0x3e809b9e91a59ffa, 0xbffbceed1644a356, 0x3c967fe800000000, -3),
    ("atan2", 0xbfcbceee1ffe8c70, 0x3e809b9e91a59ffa, 0xbff921fabb6049c5, 0xbc9440d10dff1637, 0),
    ("mul", 0x3e76093f42d8ad8c, 0xae4395787324218c, 0xbffaf8d7206e7ef2, 0xbc864226446fa480, -307),
    ("div", 0x3e76093f42d8ad8c, 0xae4395787324218c, 0xbff200e48f4467fc, 0x3c494b1f464f9817, 259),
    ("add", 0xbfff0491b7da3f56, 0x3c7fa5df1200eb46, 0xbfff0491b7da3f56, 0x3c7fa5df1200eb46, 0),
    ("atan2", 0xbfff0491b7da3f56, 0x3c7fa5df1200eb46, 0xbff921fb54442d18, 0xbc8b22b22e9b658b, 0),
    ("mul", 0x506dd593f81728a0, 0x4e1e9865d98401c4, 0x3ffc86502c569132, 0x3c8ab70a6d8eea00, 490),
    ("div", 0x506dd593f81728a0, 0x4e1e9865d98401c4, 0x3fff343c4d860590, 0x3c980e1c93ac9179, 36),
    ("add", 0xbfcb1b88f932afc0, 0xc369d858e08d92e0, 0xbff9d858e08d92e0, 0xbc5b1b88f932afc0, 55),
    ("atan2", 0xbfcb1b88f932afc0, 0xc369d858e08d92e0, 0xbff921fb54442d18, 0xbc911fe595cd73e4, 1),
    ("mul", 0x48c443d71d1a4c00, 0x5014088057eb86c4, 0x3ff95f915e0385bf, 0xbc9f3c68c0574000, 399),
    ("div", 0x48c443d71d1a4c00, 0x5014088057eb86c4, 0x3ff02f6478a1cf76, 0xbc999f0de26ce34b, -117),
    ("add", 0x3ffe19992c0db15c, 0x3f556a508f1c1c5c, 0x3ffe1ef3c0317863, 0x3c77000000000000, 0),
    ("atan2", 0x3ffe19992c0db15c, 0x3f556a508f1c1c5c, 0x3ff91f22c8464c3e, 0x3c967a8373bf928d, 0),
    ("mul", 0xbae89a90a4ff0288, 0x431ee04e49d626d4, 0xbff7bd5dc0b7df19, 0xbc6e29b633e48a00, -30),
    ("div", 0xbae89a90a4ff0288, 0x431ee04e49d626d4, 0xbff97fd097f3e9cf, 0xbc9b770d3c145e5b, -132),
    ("add", 0x3fea75fa5ba95880, 0xc33349bc89577a28, 0xbff349bc89577a27, 0xbc862816915a9e00, 52),
    ("atan2", 0x3fea75fa5ba95880, 0xc33349bc89577a28, 0x3ff921fb54442d18, 0xbc7134459e9f4480, 1),
    ("mul", 0x470167b1523c49c8, 0x30af52f40ac7c96e, 0x3ff109923a9246d2, 0x3c73910eb26ddf80, -131),
    ("div", 0x470167b1523c49c8, 0x30af52f40ac7c96e, 0x3ff1c7d860fc4bcc, 0x3c73a5169d9023b9, 357),
    ("add", 0xbffb794702ff14f6, 0x3c4591378909de52, 0xbffb794702ff14f6, 0x3c4591378909de52, 0),
    ("atan2", 0xbffb794702ff14f6, 0x3c4591378909de52, 0xbff921fb54442d18, 0xbc9141aae1774952, 0),
    ("mul", 0x3d7ed5750e13e210, 0xb091bafa1ac6af40, 0xbff1158fe54bc263, 0x3c9ca44cd63d1800, -285),
    ("div", 0x3d7ed5750e13e210, 0xb091bafa1ac6af40, 0xbffbd31a63fccfc9, 0x3c9fb1fb8bd54995, 206),
    ("add", 0xbfde7e8804248de0, 0xc2ea97ccc2ad9d1e, 0xbffa97ccc2ad9d2d, 0xbc8fa20109237800, 47),
    ("atan2", 0xbfde7e8804248de0, 0xc2ea97ccc2ad9d1e, 0xbff921fb54442d14, 0x3c93e83e7e8e8bac, 1),
    ("mul", 0x3ed8579757517300, 0x3fd9498ac7c03550, 0x3ff33c5f9f266777, 0xbc9b004b337a2000, -19),
    ("div", 0x3ed8579757517300, 0x3fd9498ac7c03550, 0x3ffecdd2331654e3, 0xbc7e62af1431c6dc, -17),
    ("add", 0xbff5eafaf5d9034a, 0xbdad1ad434530a56, 0xbff5eafaf5d9ec21, 0x3c979759eb540000, 0),
    ("atan2", 0xbff5eafaf5d9034a, 0xbdad1ad434530a56, 0xbff921fb5444d711, 0x3c6944bf1f671b1d, 0),
    ("mul", 0xbddbbce07fc4a540, 0xc22163d0f09c85bc, 0x3ffe25b96d5e7e30, 0x3c8c8ffd8a1cd800, 1),
    ("div", 0xbddbbce07fc4a540, 0xc22163d0f09c85bc, 0x3ff98554ee445bd0, 0xbc54e7f0f5b39303, -69),
    ("add", 0xbfe69670fc16bf48, 0x409e3f7487e1192c, 0x3ffe3ca1b9c19654, 0x3c77000000000000, 10),
    ("atan2", 0xbfe69670fc16bf48, 0x409e3f7487e1192c, 0xbff7e564915eb7a9, 0x3c9f55124bb21661, -12),
    ("mul", 0xc0fdcb9ff8465082, 0xb8e20e7c5d25b756, 0x3ff0d006dd6af52c, 0xbc7dab3bc05032a0, -96),
    ("div", 0xc0fdcb9ff8465082, 0xb8e20e7c5d25b756, 0x3ffa66dd1c5c3b08, 0xbc4c71f36f997cc8, 129),
    ("add", 0xbffaa1897c33ee0c, 0xbf3fee7ca5513d0c, 0xbffaa38863fe4320, 0x3c87a00000000000, 0),
    ("atan2", 0xbffaa1897c33ee0c, 0xbf3fee7ca5513d0c, 0xbff9232e486d59b7, 0xbc8e0fab095454ba, 0),
    ("mul", 0xb9fc4c0f07f4adbc, 0xad801dd42bf64d2a, 0x3ffc80d020ba44e6, 0xbc94589a4bc7cca0, -391),
    ("div", 0xb9fc4c0f07f4adbc, 0xad801dd42bf64d2a, 0x3ffc17af92b4538e, 0xbc89b6cb4c3470c7, 199),
    ("add", 0xbffa417af6d95d3c, 0xc2ba2f7c5de2fb88, 0xbffa2f7c5de2fd2c, 0xbc77af6d95d3c000, 44),
    ("atan2", 0xbffa417af6d95d3c, 0xc2ba2f7c5de2fb88, 0xbff921fb54442c98, 0x3c715d63252fccc9, 1),
    ("mul", 0xafb9b9a2cd38edb0, 0xc03b24373f47ba60, 0x3ff5d1be9e3ddb8b, 0x3c869102376c0800, -255),
    ("div", 0xafb9b9a2cd38edb0, 0xc03b24373f47ba60, 0x3ffe5483faacb014, 0xbc9a8511bcdfad2b, -265),
    ("add", 0xbffa97d5d350b9b8, 0xbdf90e83a5ecdf48, 0xbffa97d5d369c83c, 0x3c9684c82e000000, 0),
    ("atan2", 0xbffa97d5d350b9b8, 0xbdf90e83a5ecdf48, 0xbff921fb54534073, 0xbc6c7c265b5cfe67, 0),
    ("mul", 0x371d49ed743bc7ba, 0x46042a641e48e9e0, 0x3ff27501130c0188, 0xbc8fda3faa63cd00, -44),
    ("div", 0x371d49ed743bc7ba, 0x46042a641e48e9e0, 0x3ff73d1626a5f525, 0xbc634825582af2f3, -239),
    ("add", 0x3fff05cd23f41a48, 0x41f0ea7a229bec88, 0x3ff0ea7a22baf255, 0x3c81fa0d24000000, 32),
    ("atan2", 0x3fff05cd23f41a48, 0x41f0ea7a229bec88, 0x3ffd57c947688178, 0xbc8c0241cd630dbc, -32),
    ("mul", 0xb6766f321dba01a2, 0xce0d32938966b14e, 0x3ff4783a986149f9, 0xbc9b0255fb4cfd48, 74),
    ("div", 0xb6766f321dba01a2, 0xce0d32938966b14e, 0x3ff8967036e3146c, 0x3c98e96261aeeb0b, -378),
    ("add", 0x3fe9bc1d3cfed940, 0x41f04c6b46de2fb0, 0x3ff04c6b46eb0dbf, 0xbc986024d8000000, 32),
    ("atan2", 0x3fe9bc1d3cfed940, 0x41f04c6b46de2fb0, 0x3ff94373759640df, 0xbc9b43f3402d3c83, -33),
    ("mul", 0x4e56b23247535380, 0x51902ef9bc08f3b0, 0x3ff6f4d4d7c95a9c, 0x3c6bf637b17d0000, 512),
    ("div", 0x4e56b23247535380, 0x51902ef9bc08f3b0, 0x3ff67051226d69eb, 0x3c377e9b308606e9, -52),
    ("add", 0xbffef88c9963839e, 0x42956f9e1680d48a, 0x3ff56f9e1680cccc, 0xbc81932c7073c000, 42),
    ("atan2", 0xbffef88c9963839e, 0x42956f9e1680d48a, 0xbff71dee227affe4, 0xbc9512a3762bcc72, -42),
    ("mul", 0x3bd7de4e595850e0, 0xafda8ddb87c02eea, 0xbff3ce6ef07ad5ac, 0x3c7c9e8d75ee9a00, -323),
    ("div", 0x3bd7de4e595850e0, 0xafda8ddb87c02eea, 0xbffcc3710e4cb2d0, 0xbc94181bd6ea6cd5, 191),
    ("add", 0x3ffd68b618d6de72, 0xbf177b66aae72db2, 0x3ffd68582b3c32d5, 0x3c924e0000000000, 0),
    ("atan2", 0x3ffd68b618d6de72, 0xbf177b66aae72db2, 0x3ff9222e6e4abee9, 0xbc9bfaca6005e6d0, 0),
];
