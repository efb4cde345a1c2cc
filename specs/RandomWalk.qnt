// Elements drawn from a generator.  The generator is a sequence of numbers still to come; drawing an
// element of a field takes as many of them as the element has coefficients, and each becomes one
// coefficient (the bound may be inclusive: p itself stands for zero).
module RandomWalk {
  import TowerQ.* from "./TowerQ"
  import Published.* from "./Published"
  import Sel.* from "./Sel"

  type V = I(int) | L(List[int]) | Many(List[List[int]])
  type Ev = { op: str, par: List[str], args: List[V], res: List[V] }
  var ev: Ev
  var left: List[int]
  var drawn: List[List[int]]

  pure val TOWER: List[Tower] = FIELDS.foldl([], (a, k) => a.append(build(k)))
  pure def mix(s: int, p: int): int = (s * s * s + 0x9E3779B97F4A7C15F39CC0605CEDC8341082276BF3A27251F86C6A11D0C18E95 * s + 12345) % p
  pure def number(s: int, p: int): int = {
    val t = range(0, 8).foldl(s + p / 3, (a, _) => mix(a, p))
    val k = s % 9
    if (k == 0) 0 else if (k == 1) p - 1 else if (k == 2) p else if (k == 3) t % 1000 else t
  }
  pure def numbers(n: int, s: int, p: int): List[int] =
    range(0, n).foldl({ s: s, l: [] }, (a, _) => { s: mix(a.s, 2^89 - 1), l: a.l.append(number(a.s, p)) }).l
  // take one element's worth of numbers
  type Gen = { left: List[int], out: List[List[int]] }
  pure def take(g: Gen, n: int, p: int): Gen =
    { left: g.left.slice(n, g.left.length()), out: g.out.append(lmap(g.left.slice(0, n), v => v % p)) }
  action init = all { ev' = { op: "none", par: [], args: [], res: [] }, left' = [], drawn' = [] }
  action step = {
    nondet f = oneOf(0.to(FIELDS.length() - 1))
    nondet n = oneOf(1.to(4))
    nondet s = oneOf(0.to(2^89 - 2))
    val T = TOWER[f]
    val script = numbers(n * T.dim + 3, s, T.p)
    val g = range(0, n).foldl({ left: script, out: [] }, (a, _) => take(a, T.dim, T.p))
    all {
      ev' = { op: "draw", par: [FIELDS[f]], args: [L(script), I(T.p), I(T.p - 1)], res: [Many(g.out)] },
      left' = g.left,
      drawn' = g.out
    }
  }
  // what was not drawn is still to come, and all that was drawn is canonical
  val Sound = and { ev.op == "none" or left.length() == 3, drawn.foldl(true, (ok, x) => ok and x.foldl(ok, (t, v) => t and v >= 0)) }
}
