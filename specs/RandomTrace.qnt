// R01: judges recorded histories of draws.  For a field or group, a1 b1 and c1 d1 are the first two draws
// of two generators in the same state (same1: they are left in the same state), and so on for further
// seeds; x and y are drawn with the default device.
module RandomTrace {
  import TowerQ.* from "./TowerQ"
  import Published.* from "./Published"
  import CurveQ.* from "./CurveQ"
  import PublishedCurves.* from "./PublishedCurves"
  import Dump.* from "./Dump"

  type Verdict = { name: str, ok: bool }
  var at: int
  var who: str
  var verdicts: List[Verdict]

  pure def con(k: str, n: str): List[int] = REC.get(k).get(n)
  pure def history(k: str, seeds: int): List[Verdict] =
    [{ name: "same state, same draws", ok: SEEDS.slice(0, seeds).foldl(true, (ok, n) => ok and con(k, n.a) == con(k, n.c) and con(k, n.b) == con(k, n.d) and con(k, n.same) == [1]) },
     { name: "successive draws differ", ok: SEEDS.slice(0, seeds).foldl(true, (ok, n) => ok and con(k, n.a) != con(k, n.b)) },
     { name: "seeds differ", ok: range(1, seeds).foldl(true, (ok, i) => ok and con(k, SEEDS[i].a) != con(k, SEEDS[i - 1].a)) },
     { name: "device", ok: con(k, "x") != con(k, "y") }]
  type Names = { a: str, b: str, c: str, d: str, same: str }
  pure val SEEDS: List[Names] = [
    { a: "a1", b: "b1", c: "c1", d: "d1", same: "same1" }, { a: "a2", b: "b2", c: "c2", d: "d2", same: "same2" },
    { a: "a3", b: "b3", c: "c3", d: "d3", same: "same3" }, { a: "a4", b: "b4", c: "c4", d: "d4", same: "same4" },
    { a: "a5", b: "b5", c: "c5", d: "d5", same: "same5" }, { a: "a6", b: "b6", c: "c6", d: "d6", same: "same6" },
    { a: "a7", b: "b7", c: "c7", d: "d7", same: "same7" }, { a: "a8", b: "b8", c: "c8", d: "d8", same: "same8" }]

  // ---------------------------------------------------------------- fields
  pure def fieldDraws(k: str): List[List[int]] = SEEDS.foldl([con(k, "x"), con(k, "y")], (l, n) => l.append(con(k, n.a)).append(con(k, n.b)))
  pure def field_(k: str): List[Verdict] = {
    val T = build(k)
    val ds = fieldDraws(k)
    // every coefficient varies, in its lowest and its highest bit
    val bits_ = range(0, T.dim).foldl(true, (ok, i) => {
      val odd = ds.foldl(0, (c, x) => c + x[i] % 2)
      val high = ds.foldl(0, (c, x) => c + (if (2 * x[i] > T.p) 1 else 0))
      ok and odd > 0 and odd < ds.length() and high > 0 and high < ds.length()
    })
    [{ name: "canonical", ok: ds.foldl(true, (ok, x) => ok and x.length() == T.dim and x.foldl(true, (t, v) => t and v >= 0 and v < T.p)) },
     { name: "coefficients vary", ok: bits_ }].concat(history(k, 8))
  }
  // ---------------------------------------------------------------- groups
  pure def part(x: List[int], d: int, i: int): List[int] = x.slice(i * d, (i + 1) * d)
  // the point a tuple of coordinates stands for
  pure def pointOf(C: Curve, co: str, x: List[int]): Point = {
    val T = C.T
    val X = part(x, T.dim, 0)
    val Y = part(x, T.dim, 1)
    val Z = if (co == "aff") one(T) else part(x, T.dim, if (co == "ext") 3 else 2)
    if (co == "aff") [X, Y]
    else if (Z == zero(T)) []
    else if (Set("jac", "jac0", "jac3").contains(co)) [div(T, X, sqr(T, Z)), div(T, Y, mul(T, Z, sqr(T, Z)))]
    else if (co == "inv") [div(T, Z, X), div(T, Z, Y)]
    else [div(T, X, Z), div(T, Y, Z)]
  }
  pure def group_(k: str, n: str, co: str): List[Verdict] = {
    val C = curveOf(n)
    val r = orderOf(n)
    val a = pointOf(C, co, con(k, "a1"))
    val x = pointOf(C, co, con(k, "x"))
    val b = pointOf(C, co, con(k, "b2"))
    [{ name: "on the curve", ok: onCurve(C, a) and onCurve(C, b) and onCurve(C, x) },
     { name: "in the group", ok: times(C, r, plus(C, a, twice(C, b))) == [] and times(C, r, plus(C, twice(C, a), plus(C, b, x))) == [] },
     { name: "not neutral", ok: a != [] and b != [] }].concat(history(k, 2))
  }
  pure val N = FKEYS.length() + GKEYS.length()
  action init = all { at' = 0, who' = "none", verdicts' = [] }
  action step = all {
    at < N,
    at' = at + 1,
    who' = if (at < FKEYS.length()) FKEYS[at] else GKEYS[at - FKEYS.length()].key,
    verdicts' = if (at < FKEYS.length()) field_(FKEYS[at]) else { val g = GKEYS[at - FKEYS.length()] group_(g.key, g.name, g.co) }
  }
}
