// Mapping field elements to BLS12-381 points (RFC 9380): a pool of points of the isogenous curve per
// group, each with its image on the group's curve.
//   map    a field element, its point on the isogenous curve (simplified SWU) and its image
//   iso    a point of the isogenous curve and its image
// The images of the pool's sums are the sums of the images: what the isogeny is asked for is decided by
// the group law alone, and compared with the isogeny's rational functions in Sound.
module HashToCurve {
  import TowerQ.* from "./TowerQ"
  import Published.* from "./Published"
  import CurveQ.* from "./CurveQ"
  import PublishedCurves.* from "./PublishedCurves"
  import IsogenyConstants.* from "./IsogenyConstants"
  import Sel.* from "./Sel"

  type V = I(int) | B(bool) | P(Point) | L(List[int])
  type Ev = { op: str, par: List[str], args: List[V], res: List[V] }
  type Pair = { at: Point, img: Point }
  var ev: Ev
  var pool: List[List[Pair]]
  var last: List[int]

  pure val NAMES = ["bls12_381.g1", "bls12_381.g2"]
  pure val E: List[Curve] = NAMES.foldl([], (a, k) => a.append(curveOf(k)))
  pure val P0 = E[0].T.p
  // the isogenous curves and Z: RFC 9380, sections 8.8.1 and 8.8.2
  pure val EI: List[Curve] = [
    { form: "sw", T: E[0].T, a: [0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d],
      b: [0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0] },
    { form: "sw", T: E[1].T, a: [0, 240], b: [1012, 1012] }]
  pure val ZED: List[List[int]] = [[11], [P0 - 2, P0 - 1]]

  // square roots where -1 is not a square: a^((p+1)/4), and Adj and Rodriguez-Henriquez above it
  pure def sqrt(T: Tower, a: List[int]): List[int] = {
    val b = pow(T, a, (T.p - 3) / 4)
    val x = mul(T, b, a)
    if (T.dim == 1) x else {
      val t = mul(T, b, x)
      if (t == neg(T, one(T))) mul(T, [0, 1], x) else mul(T, pow(T, add(T, one(T), t), (T.p - 1) / 2), x)
    }
  }
  // section 4.1: the parity of the first coefficient that is not zero
  pure def sgn0(x: List[int]): int = if (x.length() == 1 or x[0] != 0) x[0] % 2 else x[1] % 2
  pure def rhs(C: Curve, x: List[int]): List[int] = add(C.T, add(C.T, mul(C.T, sqr(C.T, x), x), mul(C.T, C.a, x)), C.b)
  // section 6.6.2
  pure def sswu(c: int, u: List[int]): Point = {
    val C = EI[c]
    val T = C.T
    val zu = mul(T, ZED[c], sqr(T, u))
    val den = add(T, sqr(T, zu), zu)
    val x1 = if (den == zero(T)) div(T, C.b, mul(T, ZED[c], C.a))
             else mul(T, neg(T, div(T, C.b, C.a)), add(T, one(T), inv(T, den)))
    val x = if (isSquare(T, rhs(C, x1))) x1 else mul(T, zu, x1)
    val y = sqrt(T, rhs(C, x))
    [x, if (sgn0(u) == sgn0(y)) y else neg(T, y)]
  }
  pure def horner(T: Tower, k: List[List[int]], x: List[int]): List[int] =
    range(0, k.length()).foldl(zero(T), (a, i) => add(T, mul(T, a, x), k[k.length() - 1 - i]))
  pure def monic(T: Tower, k: List[List[int]]): List[List[int]] = k.append(one(T))
  // appendices E.2 and E.3; points of the kernel go to the neutral element
  pure def iso(c: int, S: Point): Point = if (S == []) [] else {
    val T = E[c].T
    val x = S[0]
    val xn = horner(T, if (c == 0) G1_X_NUM else G2_X_NUM, x)
    val xd = horner(T, monic(T, if (c == 0) G1_X_DEN else G2_X_DEN), x)
    val yn = horner(T, if (c == 0) G1_Y_NUM else G2_Y_NUM, x)
    val yd = horner(T, monic(T, if (c == 0) G1_Y_DEN else G2_Y_DEN), x)
    if (xd == zero(T) or yd == zero(T)) [] else [div(T, xn, xd), mul(T, S[1], div(T, yn, yd))]
  }

  pure def mix(s: int, p: int): int = (s * s * s + 0x9E3779B97F4A7C15F39CC0605CEDC8341082276BF3A27251F86C6A11D0C18E95 * s + 12345) % p
  pure def drawn(s: int, p: int): int = {
    val t = mix(mix(mix(mix(s, p), p), p), p)
    val k = s % 8
    if (k == 0) t % 2^(s / 8 % bitlen(p)) else if (k == 1) 0 else if (k == 2) p - 1 - t % 300 else if (k == 3) t / 256 * 256 else t
  }
  pure def draws(n: int, s: int, p: int): List[int] =
    range(0, n).foldl({ s: s, l: [] }, (a, _) => { s: mix(a.s, 2^93 - 7), l: a.l.append(drawn(a.s, p)) }).l
  // where the denominator of section 6.6.2 vanishes beside zero: Z u^2 = -1
  pure val POLE: List[List[int]] = [0, 1].foldl([], (l, c) => {
    val q = neg(E[c].T, inv(E[c].T, ZED[c]))
    l.append(if (isSquare(E[c].T, q)) sqrt(E[c].T, q) else zero(E[c].T))
  })
  // a point of order 11 in the kernel of the isogeny to G1's curve
  pure val KERNEL: Point = [[0x105249b4cac630ce5aa18e6c1189a18c82019b4e12e491fbac012c259ca3a67f638560b8bb416af02a4724385ed0fc8e],
                            [0x1923e831e21a455d62ea044b16561a8a0631cdc6e47899e4638354895f4648dca18024ae43587b2125898a8b15312e2a]]
  pure def pair(c: int, S: Point): Pair = { at: S, img: iso(c, S) }
  pure val START: List[List[Pair]] = [
    [pair(0, KERNEL), pair(0, twice(EI[0], KERNEL)), pair(0, times(EI[0], 5, KERNEL)), pair(0, sswu(0, [0])), pair(0, sswu(0, [mix(SEED + 3, P0)]))],
    [pair(1, sswu(1, [0, 0])), pair(1, sswu(1, [1, 0])), pair(1, sswu(1, [0, mix(SEED + 3, P0)])), pair(1, sswu(1, [mix(SEED + 4, P0), mix(SEED + 5, P0)]))]]

  // appendix J.9.1 and J.10.1, first messages: u and the point of the group's curve it maps to
  pure val RFC1: { u: List[int], q: Point } = {
    u: [0x0ba14bd907ad64a016293ee7c2d276b8eae71f25a4b941eece7b0d89f17f75cb3ae5438a614fb61d6835ad59f29c564f],
    q: [[0x11a3cce7e1d90975990066b2f2643b9540fa40d6137780df4e753a8054d07580db3b7f1f03396333d4a359d1fe3766fe]] }
  pure val RFC2: { u: List[int], q: Point } = {
    u: [0x03dbc2cce174e91ba93cbb08f26b917f98194a2ea08d1cce75b2b9cc9f21689d80bd79b594a613d0a68eb807dfdc1cf8, 0x05a2acec64114845711a54199ea339abd125ba38253b70a92c876df10598bd1986b739cad67961eb94f7076511b3b39a],
    q: [[0x019ad3fc9c72425a998d7ab1ea0e646a1f6093444fc6965f1cad5a3195a7b1e099c050d57f45e3fa191cc6d75ed7458c, 0x171c88b0b0efb5eb2b88913a9e74fe111a4f68867b59db252ce5868af4d1254bfab77ebde5d61cd1a86fb2fe4a5a1c1d]] }

  action init = all {
    ev' = { op: "none", par: [], args: [], res: [] },
    pool' = START,
    last' = []
  }
  action hash = {
    nondet c = oneOf(0.to(1))
    nondet s = oneOf(0.to(2^90 - 1))
    nondet i = oneOf(0.to(127))
    val T = E[c].T
    val w = draws(T.dim, s, P0)
    val u = if (s % 23 == 0) POLE[c] else if (s % 23 == 1) neg(T, POLE[c])
            else if (s % 23 == 2) neg(T, one(T)) else if (s % 23 == 3) (if (c == 0) RFC1.u else RFC2.u)
            else if (s % 23 < 6 and last.length() == T.dim) neg(T, last) else w
    val x = pair(c, sswu(c, u))
    all {
      ev' = { op: "map", par: [NAMES[c]], args: [L(u)], res: [P(x.at), P(x.img)] },
      pool' = pool.replaceAt(c, pool[c].replaceAt(pool[c].length() - 1, x)),
      last' = u
    }
  }
  action move = {
    nondet c = oneOf(0.to(1))
    nondet k = oneOf(0.to(5))
    nondet i = oneOf(0.to(127))
    nondet j = oneOf(0.to(127))
    val l = pool[c]
    val a = l[i % l.length()]
    val b = l[j % l.length()]
    val s = if (k == 0) a else if (k == 1) { at: opp(EI[c], a.at), img: opp(E[c], a.img) }
            else if (k == 2) { at: minus(EI[c], a.at, b.at), img: minus(E[c], a.img, b.img) }
            else { at: plus(EI[c], a.at, b.at), img: plus(E[c], a.img, b.img) }
    // the neutral element of the isogenous curve has no affine coordinates to be mapped
    val x = if (s.at == []) a else s
    all {
      ev' = { op: "iso", par: [NAMES[c]], args: [P(x.at)], res: [P(x.img)] },
      pool' = pool.replaceAt(c, l.replaceAt(l.length() - 2 + j % 2, x)),
      last' = last
    }
  }
  action step = any { hash, move }

  val Pools = range(0, 2).foldl(true, (ok, c) => pool[c].foldl(ok, (t, q) => and { t,
    onCurve(EI[c], q.at), onCurve(E[c], q.img), iso(c, q.at) == q.img }))
  val Signs = if (ev.op != "map") true else match ev.args[0] {
    | L(u) => { val c = if (ev.par[0] == NAMES[0]) 0 else 1
                val T = E[c].T
                val S = sswu(c, u)
                or { u == zero(T), sswu(c, neg(T, u)) == opp(EI[c], S) } and sgn0(u) == sgn0(S[1]) }
    | _ => false
  }
  pure val AGREED = { val a = iso(0, sswu(0, RFC1.u))
                      val b = iso(1, sswu(1, RFC2.u))
                      a[0] == RFC1.q[0] and b[0] == RFC2.q[0] }
  val Vectors = ev.op != "none" or AGREED
  val Sound = Pools and Signs and Vectors
}
