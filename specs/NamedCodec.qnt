// A user storing BLS12-381 points and field elements as octets and reading them back.  One pool of
// points per group, moved by the group law, holds members and non-members of the prime-order subgroup,
// the neutral element and points whose coordinates are zero or have a zero coefficient.
//   point   two tuples for one point, its compressed and its full octets
//   felt    an element of a named field and its octets
//   over    octets that are no element: some coefficient is not below the modulus
module NamedCodec {
  import TowerQ.* from "./TowerQ"
  import Published.* from "./Published"
  import CurveQ.* from "./CurveQ"
  import PublishedCurves.* from "./PublishedCurves"
  import PointCodec.* from "./PointCodec"
  import Sel.* from "./Sel"

  type V = I(int) | B(bool) | P(Point) | L(List[int]) | Many(List[Point])
  type Ev = { op: str, par: List[str], args: List[V], res: List[V] }
  var ev: Ev
  var pool: List[List[Point]]

  pure val NAMES = ["bls12_381.g1", "bls12_381.g2"]
  pure val CRV: List[Curve] = NAMES.foldl([], (a, k) => a.append(curveOf(k)))
  pure val TOWER: List[Tower] = FIELDS.foldl([], (a, k) => a.append(build(k)))
  pure val Q = CRV[0].T.p

  pure def mix(s: int, p: int): int = (s * s * s + 0x9E3779B97F4A7C15F39CC0605CEDC8341082276BF3A27251F86C6A11D0C18E95 * s + 12345) % p
  pure def drawn(s: int, p: int): int = {
    val t = mix(mix(mix(mix(s, p), p), p), p)
    val k = s % 8
    if (k == 0) t % 2^(s / 8 % bitlen(p)) else if (k == 1) 0 else if (k == 2) p - 1 - t % 300 else if (k == 3) t / 256 * 256 else t
  }
  pure def draws(n: int, s: int, p: int): List[int] =
    range(0, n).foldl({ s: s, l: [] }, (a, _) => { s: mix(a.s, 2^93 - 7), l: a.l.append(drawn(a.s, p)) }).l
  // square roots where -1 is not a square: a^((p+1)/4), and Adj and Rodriguez-Henriquez above it
  pure def sqrt(T: Tower, a: List[int]): List[int] = {
    val b = pow(T, a, (T.p - 3) / 4)
    val x = mul(T, b, a)
    if (T.dim == 1) x else {
      val t = mul(T, b, x)
      if (t == neg(T, one(T))) mul(T, [0, 1], x) else mul(T, pow(T, add(T, one(T), t), (T.p - 1) / 2), x)
    }
  }
  // the first point at or after an x with a point
  pure def above(C: Curve, x: List[int]): Point = range(0, 24).foldl([], (R, i) => if (R != []) R else {
    val X = add(C.T, x, embed(C.T, [i]))
    val r = add(C.T, mul(C.T, sqr(C.T, X), X), C.b)
    if (isSquare(C.T, r)) [X, sqrt(C.T, r)] else []
  })
  // points with y in the prime field: their sign is that of the constant coefficient
  pure val LEVEL_: Point = [[0x9f1477ff0430ca4808b4b98f3ce959fcb5be667df6ef1073e182a4f887fa0f0b7fdd6105d99e027bba24c6b4e932032, 0xc2b2b8487f8e8d648e4f7905c0943b14474f62dd4726f98e902923c7fa2518eab1519d0cd9eef39aad762206d086ced], [3, 0]]
  pure val LEVEL2: Point = [[0x168a40dedaf0de3ee7f45219d76dcfd4f7cba983b86772e76d1dc9486bcfa78f5d05033a893956afc0355d4445ecb0da, 0xa91aaf98fb8cd97fc72855c866fe32baae10e1175acefeb94ec3a1654ea1905eeab11da23b860962341467052a1ea4f], [15, 0]]
  pure val START: List[List[Point]] = {
    val C = CRV[0]
    val D = CRV[1]
    val r = orderOf(NAMES[0])
    val n = mix(mix(SEED + 5, r), r)
    val G = baseOf(NAMES[0])
    val H = baseOf(NAMES[1])
    // x = 0: (0, 2); the smallest x with a point above; x of 300 bits
    [[[], G, [[0], [2]], opp(C, [[0], [2]]), above(C, [1]), above(C, [n % 2^300]), times(C, n, G), plus(C, G, above(C, [2]))],
     [[], H, LEVEL_, opp(D, LEVEL_), LEVEL2, opp(D, LEVEL2), above(D, [1, 0]), opp(D, above(D, [0, 2])), above(D, [n % 2^370, n % 2^260]), times(D, n, H), plus(D, H, above(D, [5, 0]))]]
  }
  pure def reps2(C: Curve, x: Point, s: int): V = {
    val z = draws(C.T.dim, s * 8 + 4, C.T.p)
    Many([rep(C, "jac0", x, one(C.T)), rep(C, "jac0", x, if (z == zero(C.T)) one(C.T) else z)])
  }
  type Out = { op: str, par: str, args: List[V], res: List[V] }
  pure def ofPoint(c: int, x: Point, s: int): Out =
    { op: "point", par: NAMES[c], args: [reps2(CRV[c], x, s)], res: [P(x), I(encode(CRV[c], x, true)), I(encode(CRV[c], x, false))] }
  pure def ofField(k: int, s: int): Out = {
    val T = TOWER[k]
    val x = draws(T.dim, s, T.p)
    { op: "felt", par: FIELDS[k], args: [L(x)], res: [I(spell(x, T.p)), I(octets(T.p) * T.dim)] }
  }
  pure def over(k: int, s: int): Out = {
    val T = TOWER[k]
    val x = draws(T.dim, s, T.p)
    val room = 256^octets(T.p) - T.p
    val y = if (s % 4 == 0) T.p else if (s % 4 == 1) T.p + room - 1 else T.p + mix(s, room)
    { op: "over", par: FIELDS[k], args: [I(spell(x.replaceAt(s / 4 % T.dim, y), T.p)), I(octets(T.p) * T.dim)], res: [B(false)] }
  }
  action init = all {
    ev' = { op: "none", par: [], args: [], res: [] },
    pool' = START
  }
  action step = {
    nondet c = oneOf(0.to(1))
    nondet k = oneOf(0.to(9))
    nondet s = oneOf(0.to(2^90 - 1))
    nondet i = oneOf(0.to(127))
    nondet j = oneOf(0.to(127))
    nondet f = oneOf(0.to(FIELDS.length() - 1))
    val l = pool[c]
    val a = l[i % l.length()]
    val b = l[j % l.length()]
    val t = if (a == b) twice(CRV[c], a) else plus(CRV[c], a, b)
    val fresh = s % 5 == 0
    val x = if (fresh) above(CRV[c], draws(CRV[c].T.dim, s, Q)) else if (s % 5 < 3) t else a
    val y = if (s / 5 % 2 == 0) x else opp(CRV[c], x)
    val o = if (k < 6) ofPoint(c, y, s) else if (k < 9) ofField(f, s) else over(f, s)
    all {
      ev' = { op: o.op, par: [o.par], args: o.args, res: o.res },
      pool' = pool.replaceAt(c, l.replaceAt(l.length() - 1 - j % 2, if (y == []) l[1] else y))
    }
  }
  // the pool stays on the curves, and its points are told apart by either encoding
  pure def distinct(c: int, compress: bool, l: List[Point]): bool = range(0, l.length()).foldl(true, (ok, i) =>
    range(0, i).foldl(ok, (k, j) => k and ((l[i] == l[j]) == (encode(CRV[c], l[i], compress) == encode(CRV[c], l[j], compress)))))
  val Sound = range(0, 2).foldl(true, (ok, c) => and { ok,
    pool[c].foldl(true, (t, q) => t and onCurve(CRV[c], q)),
    distinct(c, true, pool[c]), distinct(c, false, pool[c]) })
}
