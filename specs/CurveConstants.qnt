// G05: judges the parameters the library stores for its named curve groups.  The module Dump is
// written by the driver from the compiled library; each step judges one group.
module CurveConstants {
  import TowerQ.* from "./TowerQ"
  import Published.* from "./Published"
  import CurveQ.* from "./CurveQ"
  import PublishedCurves.* from "./PublishedCurves"
  import Dump.* from "./Dump"

  type Verdict = { name: str, ok: bool }
  var at: int
  var who: str
  var verdicts: List[Verdict]

  pure def judge(n: str, c: bool): List[Verdict] = [{ name: n, ok: c }]
  pure def has(k: str, n: str): bool = REC.get(k).keys().contains(n)
  pure def con(k: str, n: str): List[int] = REC.get(k).get(n)
  pure def reduced(x: List[int], p: int): bool = x.foldl(true, (ok, v) => ok and 0 <= v and v < p)

  // everything below is about the STORED parameters: the stored curve, its stored generator
  pure def group(k: str, name: str): List[Verdict] = {
    val C0 = curveOf(name)
    val T = C0.T
    val g = con(k, "generator")
    val G = [block(g, T.dim, 0), block(g, T.dim, 1)]
    val C = { form: C0.form, T: T, a: embed(T, con(k, "a")), b: embed(T, con(k, "b")) }
    val neutral = [zero(T), one(T)]
    val r = con(k, "order")[0]
    [
      { name: "coefficient a", ok: C.a == C0.a }, { name: "coefficient b", ok: C.b == C0.b },
      { name: "base field", ok: con(k, "modulus") == [T.p] },
      { name: "scalar field", ok: con(k, "order") == [orderOf(name)] },
      { name: "scalar field of the parameters", ok: con(k, "params_order") == [orderOf(name)] },
      { name: "scalar modulus prime", ok: isPrime(r) },
      { name: "generator published", ok: G == baseOf(name) },
      { name: "generator canonical", ok: g.length() == 2 * T.dim and reduced(g, T.p) },
      { name: "generator on curve", ok: onCurve(C, G) },
      { name: "generator not neutral", ok: C.form != "te" or G != neutral },
      { name: "generator annihilated", ok: times(C, r, G) == [] }
    ].concat(if (has(k, "value_bits")) judge("value_bits", con(k, "value_bits") == [T.dim * bitlen(T.p) + 1]) else [])
     .concat(if (C.form == "mg" or not(has(k, "zero_fill"))) [] else { val z = con(k, "zero_fill")
       val Z = [block(z, T.dim, 0), block(z, T.dim, 1)]
       judge("neutral marker", or { not(onCurve(C, Z)), C.form == "te" and Z == neutral }) })
  }
  // the two forms of a curve: A = 2(a+d)/(a-d), B = 4/(a-d) up to a square, generators correspond
  pure def forms(t: str, tk: str, mk: str): List[Verdict] = {
    val E0 = curveOf(t)
    val E = { form: "te", T: E0.T, a: con(tk, "a"), b: con(tk, "b") }
    val g = con(tk, "generator")
    val h = con(mk, "generator")
    val P = montPoint(E, [[g[0]], [g[1]]])
    val s = mul(E.T, montB(E), inv(E.T, con(mk, "b")))
    [{ name: "Montgomery A", ok: con(mk, "a") == montA(E) },
     { name: "Montgomery B", ok: isSquare(E.T, s) },
     { name: "Montgomery generator", ok: [h[0]] == P[0] and mul(E.T, [h[1]], [h[1]]) == mul(E.T, s, mul(E.T, P[1], P[1])) }]
  }
  pure def verdictsOf(i: int): List[Verdict] =
    if (i < KEYS.length()) group(KEYS[i], NAMES[i])
    else { val k = i - KEYS.length()
      forms(PAIRS[k], PKEYS[k], MKEYS[k]) }
  pure def whoOf(i: int): str = if (i < KEYS.length()) KEYS[i] else PAIRS[i - KEYS.length()]

  action init = all { at' = 0, who' = "", verdicts' = [] }
  action step = all {
    at < KEYS.length() + PAIRS.length(),
    at' = at + 1, who' = whoOf(at), verdicts' = verdictsOf(at)
  }
  val Sound = verdicts.foldl(true, (ok, v) => ok and v.ok)
}
