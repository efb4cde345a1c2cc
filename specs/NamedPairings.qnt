// A user of the library's pairings, at their real sizes.  Both groups of a curve are held as pools of
// points with their discrete logarithms, so the target group needs no model beyond exponents: with z the
// pairing of the two generators, z not one and z^r = one, the pairing of a G and b H is z^(a b).  Every
// step states the exponent of one observation; the module Sel names the curves and kinds of step.
//   pair    two points, each as two different tuples
//   parts   precomputation, Miller loop and final exponentiation taken apart
//   double  two pairs of points at once
//   reuse   one precomputation against several
//   fe      final exponentiation of arbitrary target-field elements: a homomorphism into the r-th roots of
//           one, trivial on proper subfields
module NamedPairings {
  import TowerQ.* from "./TowerQ"
  import Published.* from "./Published"
  import CurveQ.* from "./CurveQ"
  import PublishedCurves.* from "./PublishedCurves"
  import Sel.* from "./Sel"

  type V = I(int) | L(List[int]) | P(List[List[int]]) | Many(List[List[List[int]]])
  type Ev = { op: str, par: List[str], args: List[V], res: List[V] }
  type Known = { e: int, at: Point }
  type Pools = { a: List[Known], b: List[Known] }
  var ev: Ev
  var pool: List[Pools]

  pure val CA: List[Curve] = CURVES_.foldl([], (l, c) => l.append(curveOf(c.g1)))
  pure val CB: List[Curve] = CURVES_.foldl([], (l, c) => l.append(curveOf(c.g2)))
  pure val ORD: List[int] = CURVES_.foldl([], (l, c) => l.append(orderOf(c.g1)))
  pure val GT: List[Tower] = CURVES_.foldl([], (l, c) => l.append(build(c.gt)))

  pure def mix(s: int, p: int): int = (s * s * s + 0x9E3779B97F4A7C15F39CC0605CEDC8341082276BF3A27251F86C6A11D0C18E95 * s + 12345) % p
  pure def draws(n: int, s: int, p: int): List[int] =
    range(0, n).foldl({ s: mix(mix(s, p), p), l: [] }, (a, _) => { val t = mix(a.s, p) { s: t, l: a.l.append(t) } }).l
  pure def denominator(T: Tower, s: int): List[int] =
    if (s % 4 == 0) one(T) else { val l = draws(T.dim, s, T.p) if (l == zero(T)) one(T) else l }
  pure def sumK(C: Curve, r: int, x: Known, y: Known): Known = { e: (x.e + y.e) % r, at: plus(C, x.at, y.at) }
  pure def oppK(C: Curve, r: int, x: Known): Known = { e: (r - x.e) % r, at: opp(C, x.at) }
  // two tuples for one point
  pure def twoReps(C: Curve, co: str, x: Known, s: int): V = Many([rep(C, co, x.at, denominator(C.T, s)), rep(C, co, x.at, denominator(C.T, s / 5 + 1))])

  // an element of the target field of a drawn kind: anything, or in a subfield of dimension d, or sparse
  pure def target(T: Tower, s: int, d: int): List[int] = {
    val l = draws(T.dim, s, T.p)
    val x = range(0, T.dim).foldl([], (a, i) => a.append(if (i >= d) 0 else if (s % 3 == 0 and s / 3 / 2^i % 2 == 0) 0 else l[i]))
    if (x == zero(T)) one(T) else x
  }
  type Out = { op: str, args: List[V], res: List[V], a: Known, b: Known }
  pure def observe(c: int, op: str, q: Pools, s: int): Out = {
    val A = CA[c]
    val B = CB[c]
    val r = ORD[c]
    val g1 = CURVES_[c].co1
    val g2 = CURVES_[c].co2
    val x = q.a[s % q.a.length()]
    val y = q.b[s / 16 % q.b.length()]
    val x2 = if (s / 7 % 4 == 0) x else if (s / 7 % 4 == 1) oppK(A, r, x) else q.a[s / 28 % q.a.length()]
    val y2 = if (s / 9 % 4 == 0) y else if (s / 9 % 4 == 1) oppK(B, r, y) else q.b[s / 36 % q.b.length()]
    val t = s / 1024
    val X = twoReps(A, g1, x, t)
    val Y = twoReps(B, g2, y, t / 3)
    val X2 = twoReps(A, g1, x2, t / 5)
    val Y2 = twoReps(B, g2, y2, t / 7)
    val nx = sumK(A, r, x, x2)
    val ny = sumK(B, r, y, y2)
    // (the second result: that of either point with the opposite of the other)
    if (op == "pair" or op == "parts") { op: op, args: [X, Y], res: [I(x.e * y.e % r), I((r - x.e * y.e % r) % r)], a: nx, b: ny }
    else if (op == "double") { op: op, args: [X, Y, X2, Y2], res: [I(x.e * y.e % r), I(x2.e * y2.e % r)], a: nx, b: ny }
    else if (op == "reuse") { op: op, args: [X, X2, Y, Y2], res: [I(x.e * y.e % r), I(x.e * y2.e % r), I(x2.e * y.e % r), I(x2.e * y2.e % r)], a: nx, b: ny }
    else {
      val T = GT[c]
      // proper subfields, as leading coefficients: the prime field, and the field under the top level
      val d = if (s % 2 == 0) 1 else T.dim / 2
      val u = target(T, t, T.dim)
      val v = target(T, t / 3 + 1, T.dim)
      { op: "fe", args: [L(u), L(v), L(mul(T, u, v)), L(target(T, t / 9 + 2, d))], res: [I(r)], a: nx, b: ny }
    }
  }
  pure val START: List[Pools] = range(0, CURVES_.length()).foldl([], (l, c) => {
    val r = ORD[c]
    val G = baseOf(CURVES_[c].g1)
    val H = baseOf(CURVES_[c].g2)
    val n = mix(mix(SEED + 77 * c, r), r)
    val m = mix(mix(n, r), r)
    val one_ = { e: 1, at: G }
    val two_ = { e: 1, at: H }
    l.append({ a: [{ e: 0, at: [] }, one_, { e: n, at: times(CA[c], n, G) }, sumK(CA[c], r, one_, one_)],
               b: [{ e: 0, at: [] }, two_, { e: m, at: times(CB[c], m, H) }, sumK(CB[c], r, two_, two_)] })
  })
  action init = all {
    ev' = { op: "none", par: [], args: [], res: [] },
    pool' = START
  }
  action step = {
    nondet c = oneOf(0.to(CURVES_.length() - 1))
    nondet k = oneOf(0.to(KINDS.length() - 1))
    nondet s = oneOf(0.to(2^96 - 1))
    nondet m = oneOf(2.to(3))
    nondet h = oneOf(2.to(3))
    val o = observe(c, KINDS[k], pool[c], s)
    // (a walk that has run into the neutral element is set going again)
    val a = if (o.a.at == []) sumK(CA[c], ORD[c], pool[c].a[m], pool[c].a[1]) else o.a
    val b = if (o.b.at == []) sumK(CB[c], ORD[c], pool[c].b[h], pool[c].b[1]) else o.b
    all {
      ev' = { op: o.op, par: [CURVES_[c].name], args: o.args, res: o.res },
      pool' = pool.replaceAt(c, { a: pool[c].a.replaceAt(m, a), b: pool[c].b.replaceAt(h, b) })
    }
  }
  val Sound = range(0, CURVES_.length()).foldl(true, (ok, c) => and { ok,
    pool[c].a.foldl(true, (t, q) => t and onCurve(CA[c], q.at)),
    pool[c].b.foldl(true, (t, q) => t and onCurve(CB[c], q.at)) })
}
