// P02: judges the constants the library stores for its pairings.  The module Dump is written by the
// driver from the compiled library; each step judges one curve.  q: base field, r: group order, k: degree.
//   ate        the loop runs over t - 1, which is q modulo r, up to sign
//   optimal    BN curves: 6z + 2 with (6z + 2) + q - q^2 + q^3 = 0 modulo r
//   hard part  the k-th cyclotomic polynomial at q, over r, is w1 q + w0
module PairingConstants {
  import TowerQ.* from "./TowerQ"
  import Published.* from "./Published"
  import CurveQ.* from "./CurveQ"
  import PublishedCurves.* from "./PublishedCurves"
  import Dump.* from "./Dump"

  type Verdict = { name: str, ok: bool }
  var at: int
  var who: str
  var verdicts: List[Verdict]

  pure def degree(n: str): int = if (n == "mnt4") 4 else if (n == "mnt6" or n == "edwards") 6 else 12
  pure def con(k: str, n: str): List[int] = REC.get(k).get(n)
  pure def has(k: str, n: str): bool = REC.get(k).keys().contains(n)
  pure def phi(k: int, q: int): int = if (k == 4) q^2 + 1 else if (k == 6) q^2 - q + 1 else q^4 - q^2 + 1
  // a verdict about an optional constant
  pure def opt(k: str, n: str, f: List[int] => bool): List[Verdict] = if (has(k, n)) [{ name: n, ok: f(con(k, n)) }] else []
  pure def signed(k: str, n: str, flag: str): int = if (has(k, flag) and con(k, flag) == [1]) -con(k, n)[0] else con(k, n)[0]

  pure def pairing(n: str): List[Verdict] = {
    val C = curveOf(secondName(n))
    val A = curveOf(firstName(n))
    val T = C.T
    val q = T.p
    val r = orderOf(firstName(n))
    val k = degree(n)
    val u = range(0, T.dim).foldl([], (l, i) => l.append(if (i == 1) 1 else 0))
    val bn = n == "alt_bn128"
    val bls = n == "bls12_381"
    val twist = if (bn) [9, 1] else if (bls) [1, 1] else u
    [{ name: "max_bits", ok: con(n, "max_bits") == [bitlen(q)] },
     { name: "loop", ok: { val l = con(n, "loop")[0]
         if (bn) emod(l + q - q^2 + q^3, r) == 0 else emod(l - q, r) == 0 or emod(l + q, r) == 0 } },
     { name: "twist", ok: con(n, "twist") == twist }]
    .concat(opt(n, "final_exponent", v => v[0] * r == q^k - 1))
    .concat(opt(n, "w1", v => v[0] * q + signed(n, "w0", "w0_neg") == phi(k, q) / r))
    .concat(opt(n, "z", v => { val z = signed(n, "z", "z_neg")
      if (bn) q == 36 * z^4 + 36 * z^3 + 24 * z^2 + 6 * z + 1 else r == z^4 - z^2 + 1 and 3 * q == (z - 1)^2 * r + 3 * z }))
    // the stored twisted coefficients are those of the curve G2 lies on
    .concat(opt(n, "twist_a", v => v == C.a))
    .concat(opt(n, "twist_b", v => v == C.b))
    // and the twist of G1's curve by the stored element
    .concat(if (bls) [{ name: "twisted curve", ok: C.b == mul(T, embed(T, A.b), twist) }]
      else if (bn) [{ name: "twisted curve", ok: mul(T, C.b, twist) == embed(T, A.b) }]
      else if (n == "edwards") [{ name: "twisted curve", ok: C.a == mul(T, embed(T, A.a), u) and C.b == mul(T, embed(T, A.b), u) }]
      else [{ name: "twisted curve", ok: C.a == mul(T, embed(T, A.a), mul(T, u, u)) and C.b == mul(T, embed(T, A.b), mul(T, u, mul(T, u, u))) }])
  }
  pure def firstName(n: str): str = Map("alt_bn128" -> "alt_bn128.g1", "bls12_381" -> "bls12_381.g1", "mnt4" -> "mnt4.g1", "mnt6" -> "mnt6.g1", "edwards" -> "edwards.g1").get(n)
  pure def secondName(n: str): str = Map("alt_bn128" -> "alt_bn128.g2", "bls12_381" -> "bls12_381.g2", "mnt4" -> "mnt4.g2", "mnt6" -> "mnt6.g2", "edwards" -> "edwards.g2").get(n)

  action init = all { at' = 0, who' = "", verdicts' = [] }
  action step = all {
    at < KEYS.length(),
    at' = at + 1, who' = KEYS[at], verdicts' = pairing(KEYS[at])
  }
  val Sound = verdicts.foldl(true, (ok, v) => ok and v.ok)
}
