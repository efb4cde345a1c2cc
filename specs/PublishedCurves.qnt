// The curves the library names, as published: EIP-196/197 (alt_bn128), the BLS12-381 and zexe
// parameters, SEC 2 (secp256k1, secp256r1), RFC 7748 / 8032 (curve25519, ed25519), EIP-2494
// (babyjubjub), the Sapling curve (jubjub), Pasta, GB/T 32918 (sm2), and the libff pairing curves
// (MNT4, MNT6, Edwards).
module PublishedCurves {
  import TowerQ.* from "./TowerQ"
  import Published.* from "./Published"
  import CurveQ.* from "./CurveQ"

  type Spec = { tower: str, scalar: str, form: str, a: List[int], b: List[int], g: List[List[int]] }
  pure def sw(t: str, s: str, a: List[int], b: List[int], g: List[List[int]]): Spec = { tower: t, scalar: s, form: "sw", a: a, b: b, g: g }
  pure def te(t: str, s: str, a: int, d: int, g: List[List[int]]): Spec = { tower: t, scalar: s, form: "te", a: [a], b: [d], g: g }
  pure def mg(t: str, s: str, a: int, g: List[List[int]]): Spec = { tower: t, scalar: s, form: "mg", a: [a], b: [1], g: g }
  pure val BJJ_R = bnR(BN)
  pure def frac(n: int, d: int, p: int): int = emod(n * invmod(d, p), p)

  pure val CURVES: str -> Spec = Map(
    "alt_bn128.g1" -> sw("alt_bn128_254.base", "alt_bn128_254.scalar", [0], [3], [[1], [2]]),
    // the twist y^2 = x^3 + 3 / (9 + u)
    "alt_bn128.g2" -> sw("alt_bn128.fp2", "alt_bn128_254.scalar", [0, 0], [frac(27, 82, bnP(BN)), frac(-3, 82, bnP(BN))],
      [[10857046999023057135944570762232829481370756359578518086990519993285655852781, 11559732032986387107991004021392285783925812861821192530917403151452391805634],
       [8495653923123431417604973247489272438418190587263600148770280649306958101930, 4082367875863433681332203403145435568316851327593401208105741076214120093531]]),
    "bls12_381.g1" -> sw("bls12_381.base", "bls12_381.scalar", [0], [4],
      [[0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb],
       [0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1]]),
    // the twist y^2 = x^3 + 4 (1 + u)
    "bls12_381.g2" -> sw("bls12_381.fp2", "bls12_381.scalar", [0, 0], [4, 4],
      [[0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8,
        0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e],
       [0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801,
        0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be]]),
    "bls12_377.g1" -> sw("bls12_377.base", "bls12_377.scalar", [0], [1],
      [[81937999373150964239938255573465948239988671502647976594219695644855304257327692006745978603320413799295628339695],
       [241266749859715473739788878240585681733927191168601896383759122102112907357779751001206799952863815012735208165030]]),
    // the twist y^2 = x^3 + 1 / u, u^2 = -5
    "bls12_377.g2" -> sw("bls12_377.fp2", "bls12_377.scalar", [0, 0], [0, frac(-1, 5, blsP(BLS377))],
      [[111583945774695116443911226257823823434468740249883042837745151039122196680777376765707574547389190084887628324746,
        129066980656703085518157301154335215886082112524378686555873161080604845924984124025594590925548060469686767592854],
       [168863299724668977183029941347596462608978380503965103341003918678547611204475537878680436662916294540335494194722,
        233892497287475762251335351893618429603672921469864392767514552093535653615809913098097380147379993375817193725968]]),
    "mnt4.g1" -> sw("mnt4_298.base", "mnt4_298.scalar", [2], [423894536526684178289416011533888240029318103673896002803341544124054745019340795360841685],
      [[60760244141852568949126569781626075788424196370144486719385562369396875346601926534016838],
       [363732850702582978263902770815145784459747722357071843971107674179038674942891694705904306]]),
    // the twist a = 2 * 17, b = b1 * 17 u
    "mnt4.g2" -> sw("mnt4.fp2", "mnt4_298.scalar", [34, 0], [0, 17 * 423894536526684178289416011533888240029318103673896002803341544124054745019340795360841685],
      [[438374926219350099854919100077809681842783509163790991847867546339851681564223481322252708, 37620953615500480110935514360923278605464476459712393277679280819942849043649216370485641],
       [37437409008528968268352521034936931842973546441370663118543015118291998305624025037512482, 424621479598893882672393190337420680597584695892317197646113820787463109735345923009077489]]),
    "mnt6.g1" -> sw("mnt6_298.base", "mnt6_298.scalar", [11], [106700080510851735677967319632585352256454251201367587890185989362936000262606668469523074],
      [[336685752883082228109289846353937104185698209371404178342968838739115829740084426881123453],
       [402596290139780989709332707716568920777622032073762749862342374583908837063963736098549800]]),
    // the twist a = 11 u^2, b = b1 u^3 = 5 b1
    "mnt6.g2" -> sw("mnt6.fp3", "mnt6_298.scalar", [0, 0, 11], [5 * 106700080510851735677967319632585352256454251201367587890185989362936000262606668469523074, 0, 0],
      [[421456435772811846256826561593908322288509115489119907560382401870203318738334702321297427, 103072927438548502463527009961344915021167584706439945404959058962657261178393635706405114,
        143029172143731852627002926324735183809768363301149009204849580478324784395590388826052558],
       [464673596668689463130099227575639512541218133445388869383893594087634649237515554342751377, 100642907501977375184575075967118071807821117960152743335603284583254620685343989304941678,
        123019855502969896026940545715841181300275180157288044663051565390506010149881373807142903]]),
    "pallas" -> sw("pallas.base", "pallas.scalar", [0], [5], [[-1], [2]]),
    "vesta" -> sw("vesta.base", "vesta.scalar", [0], [5], [[-1], [2]]),
    "secp256k1" -> sw("secp256k1.base", "secp256k1.scalar", [0], [7],
      [[0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798], [0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8]]),
    "secp256r1" -> sw("secp256r1.base", "secp256r1.scalar", [-3], [0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B],
      [[0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296], [0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5]]),
    "sm2p_v1" -> sw("sm2p_v1.base", "sm2p_v1.scalar", [-3], [0x28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93],
      [[0x32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7], [0xBC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0]]),
    "ed25519" -> te("curve25519.base", "curve25519.scalar", -1, frac(-121665, 121666, 2^255 - 19),
      [[15112221349535400772501151409588531511454012693041857206046113283949847762202], [frac(4, 5, 2^255 - 19)]]),
    "curve25519" -> mg("curve25519.base", "curve25519.scalar", 486662, [[9], [14781619447589544791020593568409986887264606134616475288964881837755586237401]]),
    "babyjubjub.te" -> te("babyjubjub.base", "babyjubjub.scalar", 168700, 168696,
      [[5299619240641551281634865583518297030282874472190772894086521144482721001553], [16950150798460657717958625567821834550301663161624707787222815936182638968203]]),
    "babyjubjub.mg" -> mg("babyjubjub.base", "babyjubjub.scalar", 168698,
      [[7117928050407583618111176421555214756675765419608405867398403713213306743542], [14577268218881899420966779687690205425227431577728659819975198491127179315626]]),
    "jubjub.te" -> te("jubjub.base", "jubjub.scalar", -1, frac(-10240, 10241, blsR(BLS381)),
      [[8076246640662884909881801758704306714034609987455869804520522091855516602923], [13262374693698910701929044844600465831413122818447359594527400194675274060458]]),
    "jubjub.mg" -> mg("jubjub.base", "jubjub.scalar", 40962,
      [[37380265172535953876205871964221324158436172047572074969815349807835370906304], [26055707688826178243212294438612447599848256944592175663688341250454494541524]]),
    "edwards.g1" -> te("edwards_183.base", "edwards_183.scalar", 1, 600581931845324488256649384912508268813600056237543024,
      [[3713709671941291996998665608188072510389821008693530490], [4869953702976555123067178261685365085639705297852816679]]),
    // the twist a = u, d = d1 u
    "edwards.g2" -> { tower: "edwards.fp3", scalar: "edwards_183.scalar", form: "te", a: [0, 1, 0], b: [0, 600581931845324488256649384912508268813600056237543024, 0],
      g: [[4531683359223370252210990718516622098304721701253228128, 5339624155305731263217400504407647531329993548123477368, 3964037981777308726208525982198654699800283729988686552],
          [364634864866983740775341816274081071386963546650700569, 3264380230116139014996291397901297105159834497864380415, 3504781284999684163274269077749440837914479176282903747]] }
  )
  // curves offered in two forms
  pure val FORMS: List[{ te: str, mg: str }] = [{ te: "ed25519", mg: "curve25519" }, { te: "babyjubjub.te", mg: "babyjubjub.mg" }, { te: "jubjub.te", mg: "jubjub.mg" }]

  pure def curveOf(k: str): Curve = {
    val s = CURVES.get(k)
    val T = build(s.tower)
    { form: s.form, T: T, a: modp_(s.a, T.p), b: modp_(s.b, T.p) }
  }
  pure def baseOf(k: str): Point = { val s = CURVES.get(k)
    val T = build(s.tower)
    [modp_(s.g[0], T.p), modp_(s.g[1], T.p)] }
  pure def orderOf(k: str): int = publishedModulus(CURVES.get(k).scalar)
}
