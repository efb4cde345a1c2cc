// Long multi-exponentiations and wide fixed-base windows in cyclic groups Z_N of medium size: a
// collection of terms grows, loses terms and repeats terms; after every step the sum of the
// collection is stated.
module MultiWalk {
  type V = I(int) | L(List[int])
  type Ev = { op: str, par: List[str], args: List[V], res: List[V], single: bool }
  var ev: Ev
  var ks: List[int]
  var gs: List[int]
  var total: int
  pure val N = 65521
  pure def dot(a: List[int], b: List[int]): int = range(0, a.length()).foldl(0, (s, i) => (s + a[i] * b[i]) % N)
  pure def scale(a: List[int], k: int): List[int] = a.foldl([], (l, v) => l.append(k * v % N))
  pure def cut(l: List[int], i: int): List[int] = l.slice(0, i).concat(l.slice(i + 1, l.length()))
  pure def emitSum(a: List[int], b: List[int], t: int): Ev = { op: "sum", par: ["zn65521"], args: [L(a), L(b)], res: [I(t)], single: true }
  // a scalar of a drawn kind: zero, one, minus one, equal to an earlier one, small, sparse, anything
  pure def scalar(l: List[int], s: int): int = {
    val k = s % 9
    if (k == 0) 0 else if (k == 1) 1 else if (k == 2) N - 1 else if (k == 3 and l.length() > 0) l[s / 9 % l.length()] else if (k == 4) s / 9 % 16 else if (k == 5) 2^(s / 9 % 16) % N
    else s / 9 % N
  }
  action init = all { ev' = { op: "none", par: [], args: [], res: [], single: false }, ks' = [], gs' = [], total' = 0 }
  action enter = {
    nondet s = oneOf(0.to(2^40))
    nondet t = oneOf(0.to(2^40))
    val k = scalar(ks, s)
    val g = scalar(gs, t)
    all { ks.length() < 70, ks' = ks.append(k), gs' = gs.append(g), total' = (total + k * g) % N, ev' = emitSum(ks.append(k), gs.append(g), (total + k * g) % N) }
  }
  action leave = all {
    ks.length() > 1,
    nondet i = oneOf(0.to(ks.length() - 1))
    val t = (total + N * N - ks[i] * gs[i]) % N
    all { ks' = cut(ks, i), gs' = cut(gs, i), total' = t, ev' = emitSum(cut(ks, i), cut(gs, i), t) }
  }
  // all scalars at once: blanked out, or made equal
  action level = {
    nondet v = oneOf(Set(0, 1, 2, 255, N - 1))
    val a = ks.foldl([], (l, _) => l.append(v))
    all { ks.length() > 0, ks' = a, gs' = gs, total' = dot(a, gs), ev' = emitSum(a, gs, dot(a, gs)) }
  }
  action clear = all { ks.length() > 40, ks' = ks.slice(0, 3), gs' = gs.slice(0, 3), total' = dot(ks.slice(0, 3), gs.slice(0, 3)), ev' = emitSum(ks.slice(0, 3), gs.slice(0, 3), dot(ks.slice(0, 3), gs.slice(0, 3))) }
  action window = {
    nondet b = oneOf(1.to(16))
    nondet w = oneOf(1.to(9))
    nondet g = oneOf(0.to(N - 1))
    nondet c = oneOf(0.to(N - 1))
    val f = ks.select(k => k < 2^b)
    val c2 = if (f.foldl(true, (ok, k) => ok and c * k % N < 2^b)) c else 1
    all { ks' = ks, gs' = gs, total' = total,
          ev' = { op: "win", par: ["zn65521"], args: [I(b), I(w), I(g), I(c2), L(f)], res: [L(scale(f, g)), L(scale(scale(f, c2), g))], single: false } }
  }
  action step = any { enter, enter, enter, enter, leave, level, clear, window }
  val Sound = total == dot(ks, gs) and ks.length() == gs.length()
}
