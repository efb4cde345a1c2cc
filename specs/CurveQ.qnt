// Elliptic curve groups over the towers of TowerQ, from the chord-and-tangent law and the Edwards
// addition law.  A point is the list of its two affine coordinates; the empty list is the neutral
// element in every form.
//   sw: y^2 = x^3 + a x + b        te: a x^2 + y^2 = 1 + b x^2 y^2        mg: b y^2 = x^3 + a x^2 + x
module CurveQ {
  import TowerQ.* from "./TowerQ"

  type Point = List[List[int]]
  type Curve = { form: str, T: Tower, a: List[int], b: List[int] }

  pure def small(T: Tower, n: int): List[int] = embed(T, [emod(n, T.p)])
  pure def sqr(T: Tower, x: List[int]): List[int] = mul(T, x, x)
  pure def div(T: Tower, x: List[int], y: List[int]): List[int] = mul(T, x, inv(T, y))
  pure def onCurve(C: Curve, P: Point): bool = P == [] or {
    val T = C.T
    val x = P[0]
    val y = P[1]
    val x2 = sqr(T, x)
    val y2 = sqr(T, y)
    if (C.form == "sw") y2 == add(T, add(T, mul(T, x2, x), mul(T, C.a, x)), C.b)
    else if (C.form == "te") add(T, mul(T, C.a, x2), y2) == add(T, one(T), mul(T, C.b, mul(T, x2, y2)))
    else mul(T, C.b, y2) == add(T, add(T, mul(T, x2, x), mul(T, C.a, x2)), x)
  }
  pure def opp(C: Curve, P: Point): Point =
    if (P == []) [] else if (C.form == "te") [neg(C.T, P[0]), P[1]] else [P[0], neg(C.T, P[1])]
  pure def chord(C: Curve, P: Point, Q: Point): Point = {
    val T = C.T
    val x2 = sqr(T, P[0])
    val three = add(T, add(T, x2, x2), x2)
    val l = if (P != Q) div(T, sub(T, Q[1], P[1]), sub(T, Q[0], P[0]))
            else if (C.form == "sw") div(T, add(T, three, C.a), add(T, P[1], P[1]))
            else { val ax = mul(T, C.a, P[0])
                   div(T, add(T, add(T, three, add(T, ax, ax)), one(T)), mul(T, C.b, add(T, P[1], P[1]))) }
    val s = add(T, P[0], Q[0])
    val x3 = if (C.form == "sw") sub(T, sqr(T, l), s) else sub(T, sub(T, mul(T, C.b, sqr(T, l)), C.a), s)
    [x3, sub(T, mul(T, l, sub(T, P[0], x3)), P[1])]
  }
  pure def edwards(C: Curve, P: Point, Q: Point): Point = {
    val T = C.T
    val xx = mul(T, P[0], Q[0])
    val yy = mul(T, P[1], Q[1])
    val t = mul(T, C.b, mul(T, xx, yy))
    val u = add(T, mul(T, P[0], Q[1]), mul(T, P[1], Q[0]))
    val v = sub(T, yy, mul(T, C.a, xx))
    val m = add(T, one(T), t)
    val n = sub(T, one(T), t)
    val i = inv(T, mul(T, m, n))
    val x = mul(T, u, mul(T, i, n))
    val y = mul(T, v, mul(T, i, m))
    if (x == zero(T) and y == one(T)) [] else [x, y]
  }
  pure def plus(C: Curve, P: Point, Q: Point): Point =
    if (P == []) Q else if (Q == []) P
    else if (C.form == "te") edwards(C, P, Q)
    else if (P[0] == Q[0] and P[1] == neg(C.T, Q[1])) []
    else chord(C, P, Q)
  pure def twice(C: Curve, P: Point): Point = plus(C, P, P)
  pure def minus(C: Curve, P: Point, Q: Point): Point = plus(C, P, opp(C, Q))
  pure def times(C: Curve, k: int, P: Point): Point = {
    val n = bitlen(k)
    range(0, n).foldl([], (R, i) => {
      val D = twice(C, R)
      if ((k / 2^(n - 1 - i)) % 2 == 1) plus(C, D, P) else D
    })
  }
  // a k-th multiple without inversions is not needed: the spec may be slow, it must be obvious

  // the birational map: te(a, d) -> mg(A, B'), A = 2(a+d)/(a-d), B' = 4/(a-d); u = (1+y)/(1-y), v = u/x
  pure def montA(C: Curve): List[int] = { val s = add(C.T, C.a, C.b)
    div(C.T, add(C.T, s, s), sub(C.T, C.a, C.b)) }
  pure def montB(C: Curve): List[int] = div(C.T, small(C.T, 4), sub(C.T, C.a, C.b))
  pure def montPoint(C: Curve, P: Point): Point = {
    val T = C.T
    val u = div(T, add(T, one(T), P[1]), sub(T, one(T), P[1]))
    [u, div(T, u, P[0])]
  }

  // ---------------------------------------------------------------- coordinate systems
  // the tuple with denominator z that stands for P
  pure def rep(C: Curve, co: str, P: Point, z: List[int]): List[List[int]] = {
    val T = C.T
    val jac = Set("jac", "jac0", "jac3").contains(co)
    val proj = Set("proj", "proj3").contains(co)
    if (C.form == "mg") P
    else if (C.form == "te") {
      val X = if (P == []) zero(T) else P[0]
      val Y = if (P == []) one(T) else P[1]
      if (co == "aff") [X, Y]
      else if (co == "ext") [mul(T, X, z), mul(T, Y, z), mul(T, mul(T, X, Y), z), z]
      else if (P == []) [z, zero(T), zero(T)] else [div(T, z, X), div(T, z, Y), z]
    }
    else if (co == "aff") P               // the empty tuple: the neutral element as the library stores it
    else if (P == []) { if (jac) [sqr(T, z), mul(T, z, sqr(T, z)), zero(T)] else [zero(T), z, zero(T)] }
    else if (jac) [mul(T, P[0], sqr(T, z)), mul(T, P[1], mul(T, z, sqr(T, z))), z]
    else [mul(T, P[0], z), mul(T, P[1], z), z]
  }
  // inverted coordinates cannot express points with a zero coordinate
  pure def expressible(C: Curve, co: str, P: Point): bool =
    co != "inv" or P == [] or (P[0] != zero(C.T) and P[1] != zero(C.T))
}
