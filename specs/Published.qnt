// The moduli the specifications of the named fields publish.
module Published {
  import TowerQ.* from "./TowerQ"

  // Barreto-Naehrig and BLS12 families, from their parameter
  pure def bnP(u: int): int = 36 * u^4 + 36 * u^3 + 24 * u^2 + 6 * u + 1
  pure def bnR(u: int): int = 36 * u^4 + 36 * u^3 + 18 * u^2 + 6 * u + 1
  pure def blsR(x: int): int = x^4 - x^2 + 1
  pure def blsP(x: int): int = (x - 1)^2 * blsR(x) / 3 + x
  pure val BN = 4965661367192848881
  pure val BLS381 = -0xd201000000010000
  pure val BLS377 = 0x8508c00000000001
  // binary digits of e and pi (RFC 7919, RFC 3526): floor(2^n e), floor(2^n pi), with 64 guard bits
  pure def eTimes(n: int): int = range(1, 2000).foldl({ t: 2^(n + 64), s: 2^(n + 64) }, (a, k) =>
    if (a.t == 0) a else { t: a.t / k, s: a.s + a.t / k }).s / 2^64
  pure def atanInv(m: int, n: int): int = range(0, 4000).foldl({ t: 2^(n + 64) / m, s: 0 }, (a, k) =>
    if (a.t == 0) a else { t: a.t / (m * m), s: if (k % 2 == 0) a.s + a.t / (2 * k + 1) else a.s - a.t / (2 * k + 1) }).s
  pure def piTimes(n: int): int = (16 * atanInv(5, n) - 4 * atanInv(239, n)) / 2^64
  pure def ffdhe(b: int, x: int): int = 2^b - 2^(b - 64) + (eTimes(b - 130) + x) * 2^64 - 1
  pure def modp(b: int, x: int): int = 2^b - 2^(b - 64) + (piTimes(b - 130) + x) * 2^64 - 1

  pure val SMALL: str -> int = Map(
    "alt_bn128_254.base" -> bnP(BN), "alt_bn128_254.scalar" -> bnR(BN), "bn128_254.base" -> bnP(BN), "bn128_254.scalar" -> bnR(BN),
    "babyjubjub.base" -> bnR(BN), "babyjubjub.scalar" -> 2736030358979909402780800718157159386076813972158567259200215660948447373041,
    "bls12_381.base" -> blsP(BLS381), "bls12_381.scalar" -> blsR(BLS381), "bls12_377.base" -> blsP(BLS377), "bls12_377.scalar" -> blsR(BLS377),
    "jubjub.base" -> blsR(BLS381), "jubjub.scalar" -> 6554484396890773809930967563523245729705921265872317281365359162392183254199,
    "curve25519.base" -> 2^255 - 19, "curve25519.scalar" -> 2^252 + 27742317777372353535851937790883648493,
    "pallas.base" -> 2^254 + 0x224698fc094cf91b992d30ed00000001, "pallas.scalar" -> 2^254 + 0x224698fc0994a8dd8c46eb2100000001,
    "vesta.base" -> 2^254 + 0x224698fc0994a8dd8c46eb2100000001, "vesta.scalar" -> 2^254 + 0x224698fc094cf91b992d30ed00000001,
    "mnt4_298.base" -> 475922286169261325753349249653048451545124879242694725395555128576210262817955800483758081,
    "mnt4_298.scalar" -> 475922286169261325753349249653048451545124878552823515553267735739164647307408490559963137,
    "mnt6_298.base" -> 475922286169261325753349249653048451545124878552823515553267735739164647307408490559963137,
    "mnt6_298.scalar" -> 475922286169261325753349249653048451545124879242694725395555128576210262817955800483758081,
    "edwards_183.base" -> 6210044120409721004947206240885978274523751269793792001,
    "edwards_183.scalar" -> 1552511030102430251236801561344621993261920897571225601,
    "secp160k1.base" -> 2^160 - 2^32 - 2^14 - 2^12 - 2^9 - 2^8 - 2^7 - 2^3 - 2^2 - 1, "secp160k1.scalar" -> 0x0100000000000000000001B8FA16DFAB9ACA16B6B3,
    "secp192k1.base" -> 2^192 - 2^32 - 2^12 - 2^8 - 2^7 - 2^6 - 2^3 - 1, "secp192k1.scalar" -> 0xFFFFFFFFFFFFFFFFFFFFFFFE26F2FC170F69466A74DEFD8D,
    "secp224k1.base" -> 2^224 - 2^32 - 2^12 - 2^11 - 2^9 - 2^7 - 2^4 - 2 - 1, "secp224k1.scalar" -> 0x010000000000000000000000000001DCE8D2EC6184CAF0A971769FB1F7,
    "secp256k1.base" -> 2^256 - 2^32 - 977, "secp256k1.scalar" -> 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141,
    "secp160r1.base" -> 2^160 - 2^31 - 1,
    "secp192r1.base" -> 2^192 - 2^64 - 1, "secp192r1.scalar" -> 0xFFFFFFFFFFFFFFFFFFFFFFFF99DEF836146BC9B1B4D22831,
    "secp224r1.base" -> 2^224 - 2^96 + 1, "secp224r1.scalar" -> 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFF16A2E0B8F03E13DD29455C5C2A3D,
    "secp256r1.base" -> 2^256 - 2^224 + 2^192 + 2^96 - 1, "secp256r1.scalar" -> 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551,
    "secp384r1.base" -> 2^384 - 2^128 - 2^96 + 2^32 - 1,
    "secp384r1.scalar" -> 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC7634D81F4372DDF581A0DB248B0A77AECEC196ACCC52973,
    "secp521r1.base" -> 2^521 - 1,
    "secp521r1.scalar" -> 0x01FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFA51868783BF2F966B7FCC0148F709A5D03BB5C9B8899C47AEBB6FB71E91386409,
    "sm2p_v1.base" -> 2^256 - 2^224 - 2^96 + 2^64 - 1, "sm2p_v1.scalar" -> 0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123,
    "gost_A.base" -> 2^256 - 617, "gost_A.scalar" -> 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF6C611070995AD10045841B09B761B893,
    "brainpoolP160r1.base" -> 0xE95E4A5F737059DC60DFC7AD95B3D8139515620F, "brainpoolP160r1.scalar" -> 0xE95E4A5F737059DC60DF5991D45029409E60FC09,
    "brainpoolP192r1.base" -> 0xC302F41D932A36CDA7A3463093D18DB78FCE476DE1A86297, "brainpoolP192r1.scalar" -> 0xC302F41D932A36CDA7A3462F9E9E916B5BE8F1029AC4ACC1,
    "brainpoolP224r1.base" -> 0xD7C134AA264366862A18302575D1D787B09F075797DA89F57EC8C0FF, "brainpoolP224r1.scalar" -> 0xD7C134AA264366862A18302575D0FB98D116BC4B6DDEBCA3A5A7939F,
    "brainpoolP256r1.base" -> 0xA9FB57DBA1EEA9BC3E660A909D838D726E3BF623D52620282013481D1F6E5377, "brainpoolP256r1.scalar" -> 0xA9FB57DBA1EEA9BC3E660A909D838D718C397AA3B561A6F7901E0E82974856A7,
    "brainpoolP320r1.base" -> 0xD35E472036BC4FB7E13C785ED201E065F98FCFA6F6F40DEF4F92B9EC7893EC28FCD412B1F1B32E27, "brainpoolP320r1.scalar" -> 0xD35E472036BC4FB7E13C785ED201E065F98FCFA5B68F12A32D482EC7EE8658E98691555B44C59311,
    "brainpoolP384r1.base" -> 0x8CB91E82A3386D280F5D6F7E50E641DF152F7109ED5456B412B1DA197FB71123ACD3A729901D1A71874700133107EC53, "brainpoolP384r1.scalar" -> 0x8CB91E82A3386D280F5D6F7E50E641DF152F7109ED5456B31F166E6CAC0425A7CF3AB6AF6B7FC3103B883202E9046565,
    "brainpoolP512r1.base" -> 0xAADD9DB8DBE9C48B3FD4E6AE33C9FC07CB308DB3B3C9D20ED6639CCA703308717D4D9B009BC66842AECDA12AE6A380E62881FF2F2D82C68528AA6056583A48F3, "brainpoolP512r1.scalar" -> 0xAADD9DB8DBE9C48B3FD4E6AE33C9FC07CB308DB3B3C9D20ED6639CCA70330870553E5C414CA92619418661197FAC10471DB1D381085DDADDB58796829CA90069,
    "prime192v2.base" -> 2^192 - 2^64 - 1, "prime192v2.scalar" -> 0xFFFFFFFFFFFFFFFFFFFFFFFE5FB1A724DC80418648D8DD31,
    "prime192v3.base" -> 2^192 - 2^64 - 1, "prime192v3.scalar" -> 0xFFFFFFFFFFFFFFFFFFFFFFFF7A62D031C83F4294F640EC13,
    "prime239v1.base" -> 2^239 - 2^143 - 2^95 + 2^47 - 1, "prime239v1.scalar" -> 0x7FFFFFFFFFFFFFFFFFFFFFFF7FFFFF9E5E9A9F5D9071FBD1522688909D0B,
    "prime239v2.base" -> 2^239 - 2^143 - 2^95 + 2^47 - 1, "prime239v2.scalar" -> 0x7FFFFFFFFFFFFFFFFFFFFFFF800000CFA7E8594377D414C03821BC582063,
    "prime239v3.base" -> 2^239 - 2^143 - 2^95 + 2^47 - 1, "prime239v3.scalar" -> 0x7FFFFFFFFFFFFFFFFFFFFFFF7FFFFF975DEB41B3A6057C3C432146526551,
    "frp_v1.base" -> 0xF1FD178C0B3AD58F10126DE8CE42435B3961ADBCABC8CA6DE8FCF353D86E9C03,
    "frp_v1.scalar" -> 0xF1FD178C0B3AD58F10126DE8CE42435B53DC67E140D2BF941FFDD459C6D655E1,
    "sect163k1.scalar" -> 0x04000000000000000000020108A2E0CC0D99F8A5EF,
    "goldilocks64.base" -> 2^64 - 2^32 + 1, "maxprime64" -> 2^64 - 59
  )
  // Diffie-Hellman and DSA groups
  pure val LARGE: str -> int = Map(
    "ffdhe_ietf_2048" -> ffdhe(2048, 560316), "ffdhe_ietf_3072" -> ffdhe(3072, 2625351), "ffdhe_ietf_4096" -> ffdhe(4096, 5736041),
    "ffdhe_ietf_6144" -> ffdhe(6144, 15705020), "ffdhe_ietf_8192" -> ffdhe(8192, 10965728),
    "modp_ietf_1024" -> modp(1024, 129093), "modp_ietf_1536" -> modp(1536, 741804), "modp_ietf_2048" -> modp(2048, 124476), "modp_ietf_3072" -> modp(3072, 1690314), "modp_ietf_4096" -> modp(4096, 240904), "modp_ietf_6144" -> modp(6144, 929484), "modp_ietf_8192" -> modp(8192, 4743158),
    "modp_srp_3072" -> modp(3072, 1690314), "modp_srp_4096" -> modp(4096, 240904), "modp_srp_6144" -> modp(6144, 929484), "modp_srp_8192" -> modp(8192, 4743158),
    "modp_srp_1024" -> 0xEEAF0AB9ADB38DD69C33F80AFA8FC5E86072618775FF3C0B9EA2314C9C256576D674DF7496EA81D3383B4813D692C6E0E0D5D8E250B98BE48E495C1D6089DAD15DC7D7B46154D6B6CE8EF4AD69B15D4982559B297BCF1885C529F566660E57EC68EDBC3C05726CC02FD4CBF4976EAA9AFD5138FE8376435B9FC61D2FC0EB06E3,
    "modp_srp_1536" -> 0x9DEF3CAFB939277AB1F12A8617A47BBBDBA51DF499AC4C80BEEEA9614B19CC4D5F4F5F556E27CBDE51C6A94BE4607A291558903BA0D0F84380B655BB9A22E8DCDF028A7CEC67F0D08134B1C8B97989149B609E0BE3BAB63D47548381DBC5B1FC764E3F4B53DD9DA1158BFD3E2B9C8CF56EDF019539349627DB2FD53D24B7C48665772E437D6C7F8CE442734AF7CCB7AE837C264AE3A9BEB87F8A2FE9B8B5292E5A021FFF5E91479E8CE7A28C2442C6F315180F93499A234DCF76E3FED135F9BB,
    "modp_srp_2048" -> 0xAC6BDB41324A9A9BF166DE5E1389582FAF72B6651987EE07FC3192943DB56050A37329CBB4A099ED8193E0757767A13DD52312AB4B03310DCD7F48A9DA04FD50E8083969EDB767B0CF6095179A163AB3661A05FBD5FAAAE82918A9962F0B93B855F97993EC975EEAA80D740ADBF4FF747359D041D5C33EA71D281E446B14773BCA97B43A23FB801676BD207A436C6481F1D2B9078717461A5B9D32E688F87748544523B524B0D57D5EA77A2775D2ECFA032CFBDBF52FB3786160279004E57AE6AF874E7303CE53299CCC041C7BC308D82A5698F3A8D0C38271AE35F8E9DBFBB694B5C803D89F7AE435DE236D525F54759B65E372FCD68EF20FA7111F9E4AFF73,
    "dsa_jce_1024" -> 0xfd7f53811d75122952df4a9c2eece4e7f611b7523cef4400c31e3f80b6512669455d402251fb593d8d58fabfc5f5ba30f6cb9b556cd7813b801d346ff26660b76b9950a5a49f9fe8047b1022c24fbba9d7feb7c61bf83b57e7c6a8a6150f04fb83f6d3c51ec3023554135a169132f675f3ae2b61d72aeff22203199dd14801c7
  )
  // No publication at hand here: the value read when this was written (still required to be prime).
  pure val PINNED: str -> int = Map(
    "dsa_botan_2048" -> 0x91C48A4FDFBCF7C02AE95E7DA126122B5DD2864F559B87E8E74A286D52F59BD1DE68DFD645D0E00C60C080031891980374EEB594A532BFD67B9A09EAC4B8663A07910E68F39465FB7040D25DF13932EBAC4347A530ECBA61C854F9B880D3C0C3660080587C45566DADE26BD5A394BE093B4C0F24B5AFFEF8EC6C5B3E57FB89025A9BC16769932131E16D3C94EFCAB18D0DF061203CC53E6103BC72D5594BFD40CA65380F44A9A851DCB075495FC033A8A58071A1BD78FE052F66555648EB4B719D2AFE8B4880F8DAD6F15818BA178F89274C870BE9B96EB08C46C40040CC2EFE1DFB1B1868DD319DE3C34A32A63AB6EB1224209A419680CC7902D1728D4DF9E1,
    "dsa_botan_3072" -> 0xE4B50880759663585E142460CA2D9DFF132F8AE4C840DDA3A2666889124FE5638B84E8A29B7AF3FA1209BE6BFC4B5072ED3B2B7387BAF3F857F478A80228EF3600B76B3DCFB61D20D34465B2506D2CAF87DF6E7DC0CE91BD2D167A46F6ADCC31C531E4F9C7ABBDB92ADDF35B0A806C66292A5F5E17E964DD099903733AC428AB35D80EA6F685BFBA8BE4068E5418AE5ECAD9E8FF073DE2B63E4E7EAD35C8A9B70B5BD47CFB88D373B66F37931939B0AB71BD5595809086DA0155337D185A0E4FB36A519B1B6202B8591E6002449CF1CD3A66384F6D2073B1CD73BECA93BAF1E1A6117D0238F222AE1ED7FED185A890E7F67FAB8FEB9753CC134A5183DFE87AE2595F7B5C2D9FBB42249FDD59513E1D3396B3EB2FD86684F285A8448FE757A029881C40760B94EF919BDF9740C38389599EC51A6E9BB519A8E068491E9CE0A2FCFE3CB60D66CF0DFAD20A8EC684048684A61444575BD1724D7352B44A760077B3BD6BD385CE5B0A7250CC0BF768DA82923806EB9CFBB138843731B618208C759B
  )
  pure def publishedModulus(k: str): int =
    if (SMALL.keys().contains(k)) SMALL.get(k) else if (LARGE.keys().contains(k)) LARGE.get(k) else PINNED.get(k)

  // The extension towers: base field, then per level degree and adjoined root; `nr` is the constant
  // the library stores for the top level (an element of the field its multiplication uses).
  type TowerSpec = { base: str, levels: List[{ n: int, nr: List[int] }], nr: List[int] }
  pure def dodecic(base: str, u2: int, xi: List[int], k: int): TowerSpec = {
    base: base,
    levels: [{ n: 2, nr: [u2] }, { n: 3, nr: xi }, { n: 2, nr: [0, 0, 1, 0, 0, 0] }].slice(0, k),
    nr: if (k == 1) [u2] else xi
  }
  pure val TOWERS: str -> TowerSpec = Map(
    "alt_bn128.fp2" -> dodecic("alt_bn128_254.base", -1, [9, 1], 1), "alt_bn128.fp6_3over2" -> dodecic("alt_bn128_254.base", -1, [9, 1], 2), "alt_bn128.fp12" -> dodecic("alt_bn128_254.base", -1, [9, 1], 3),
    "bn128.fp2" -> dodecic("bn128_254.base", -1, [9, 1], 1), "bn128.fp6_3over2" -> dodecic("bn128_254.base", -1, [9, 1], 2), "bn128.fp12" -> dodecic("bn128_254.base", -1, [9, 1], 3),
    "bls12_381.fp2" -> dodecic("bls12_381.base", -1, [1, 1], 1), "bls12_381.fp6_3over2" -> dodecic("bls12_381.base", -1, [1, 1], 2), "bls12_381.fp12" -> dodecic("bls12_381.base", -1, [1, 1], 3),
    "bls12_377.fp2" -> dodecic("bls12_377.base", -5, [0, 1], 1), "bls12_377.fp6_3over2" -> dodecic("bls12_377.base", -5, [0, 1], 2), "bls12_377.fp12" -> dodecic("bls12_377.base", -5, [0, 1], 3),
    "mnt4.fp2" -> { base: "mnt4_298.base", levels: [{ n: 2, nr: [17] }], nr: [17] },
    "mnt4.fp4" -> { base: "mnt4_298.base", levels: [{ n: 2, nr: [17] }, { n: 2, nr: [0, 1] }], nr: [17] },
    "mnt6.fp3" -> { base: "mnt6_298.base", levels: [{ n: 3, nr: [5] }], nr: [5] },
    "mnt6.fp6_2over3" -> { base: "mnt6_298.base", levels: [{ n: 3, nr: [5] }, { n: 2, nr: [0, 1, 0] }], nr: [5] },
    "edwards.fp3" -> { base: "edwards_183.base", levels: [{ n: 3, nr: [61] }], nr: [61] },
    "edwards.fp6_2over3" -> { base: "edwards_183.base", levels: [{ n: 3, nr: [61] }, { n: 2, nr: [0, 1, 0] }], nr: [61] }
  )
  pure def modp_(x: List[int], p: int): List[int] = lmap(x, (v) => emod(v, p))
  pure def below(s: TowerSpec): Tower = s.levels.slice(0, s.levels.length() - 1).foldl(prime(publishedModulus(s.base)), (T, l) => extend(T, l.n, modp_(l.nr, T.p)))
  pure def build(k: str): Tower =
    if (TOWERS.keys().contains(k)) { val s = TOWERS.get(k) s.levels.foldl(prime(publishedModulus(s.base)), (T, l) => extend(T, l.n, modp_(l.nr, T.p))) }
    else prime(publishedModulus(k))
}
