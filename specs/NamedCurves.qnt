// A user computing in the library's named curve groups, at their real sizes.  For each curve a small
// pool of points is kept, each with the multiple of the generator it is (when it is one); every step
// performs one operation of the library on representatives of pool points and states the exact
// result.  Full-size scalar multiplications come for free: (e_j / e_i) P_i = P_j.  The module Sel,
// written by the check, names the curves, their coordinate systems and the kinds of operation.
module NamedCurves {
  import TowerQ.* from "./TowerQ"
  import Published.* from "./Published"
  import CurveQ.* from "./CurveQ"
  import PublishedCurves.* from "./PublishedCurves"
  import Sel.* from "./Sel"

  type V = I(int) | B(bool) | P(Point) | L(List[int]) | Many(List[Point])
  type Ev = { op: str, par: List[str], args: List[V], res: List[V], single: bool }
  type Known = { e: int, known: bool, at: Point }
  var ev: Ev
  var pool: List[List[Known]]

  pure val CRV: List[Curve] = GROUPS.foldl([], (a, g) => a.append(curveOf(g.name)))
  pure val ORD: List[int] = GROUPS.foldl([], (a, g) => a.append(orderOf(g.name)))
  pure val GEN: List[Point] = GROUPS.foldl([], (a, g) => a.append(baseOf(g.name)))
  // the Montgomery image of a twisted Edwards point, and the factor fixed by the generators
  pure val MATE: List[{ on: bool, s: List[int] }] = range(0, GROUPS.length()).foldl([], (a, i) =>
    a.append(if (GROUPS[i].mate == "") { on: false, s: [] }
             else { on: true, s: div(CRV[i].T, baseOf(GROUPS[i].mate)[1], montPoint(CRV[i], GEN[i])[1]) }))

  pure def mix(s: int, p: int): int = (s * s * s + 0x9E3779B97F4A7C15F39CC0605CEDC8341082276BF3A27251F86C6A11D0C18E95 * s + 12345) % p
  pure def denominator(T: Tower, s: int): List[int] =
    if (s % 4 == 0) one(T) else {
      val l = range(0, T.dim).foldl({ s: mix(mix(s, T.p), T.p), l: [] }, (a, _) => { val t = mix(a.s, T.p) { s: t, l: a.l.append(t) } }).l
      if (l == zero(T)) one(T) else l
    }
  pure def known(e: int, at: Point): Known = { e: e, known: true, at: at }
  // a point outside the subgroup of the generator, where one is at hand
  pure def stray(C: Curve, G: Point): Known =
    if (C.form == "te") { e: 0, known: false, at: plus(C, G, [zero(C.T), neg(C.T, one(C.T))]) }
    else if (C.form == "mg") { e: 0, known: false, at: plus(C, G, [zero(C.T), zero(C.T)]) }
    else known(2, twice(C, G))
  pure def sumK(C: Curve, r: int, a: Known, b: Known): Known = { e: (a.e + b.e) % r, known: a.known and b.known, at: plus(C, a.at, b.at) }
  pure def oppK(C: Curve, r: int, a: Known): Known = { e: (r - a.e) % r, known: a.known, at: opp(C, a.at) }

  type Out = { op: str, args: List[V], res: List[V], single: bool, next: Known }
  pure def out(op: str, args: List[V], res: List[V], n: Known): Out = { op: op, args: args, res: res, single: false, next: n }
  pure def out1(op: str, args: List[V], r: V, n: Known): Out = { op: op, args: args, res: [r], single: true, next: n }

  // the second operand: another pool point, the same, the opposite, a torsion translate
  pure def operand(c: int, ps: List[Known], a: Known, s: int): Known = {
    val k = s % 8
    if (k == 0) a else if (k == 1) oppK(CRV[c], ORD[c], a) else if (k == 2 and CRV[c].form == "te") { e: 0, known: false, at: plus(CRV[c], a.at, [zero(CRV[c].T), neg(CRV[c].T, one(CRV[c].T))]) }
    else ps[s / 8 % ps.length()]
  }
  pure def fits(c: int, co: str, l: List[Point]): bool = l.foldl(true, (ok, Q) => ok and expressible(CRV[c], co, Q))
  // a scalar of a drawn kind, of the field of order r
  pure def drawn(r: int, s: int, last: int): int = {
    val k = s % 8
    if (k == 0) 0 else if (k == 1) 1 else if (k == 2) r - 1 else if (k == 3) last else if (k == 4) s / 8 % 300 else if (k == 5) 2^(s / 8 % (bitlen(r) - 1)) else mix(s, r)
  }
  // a sum of terms k_i P_i with a known value: the last scalar is chosen so that the sum is a pool point
  type Terms = { ks: List[int], ps: List[Known], last: int, s: int }
  pure def collect(r: int, ps: List[Known], n: int, s0: int, mode: int): Terms =
    range(0, n).foldl({ ks: [], ps: [], last: 5, s: s0 }, (a, _) => {
      val t = mix(a.s, 2^89 - 1)
      val k = if (mode == 0) 0 else if (mode == 1) 1 else drawn(r, t, a.last)
      val q = ps[t / 4096 % ps.length()]
      { ks: a.ks.append(k), ps: a.ps.append(if (q.known) q else ps[1]), last: k, s: t }
    })
  pure def total(r: int, t: Terms): int = range(0, t.ks.length()).foldl(0, (e, i) => (e + t.ks[i] * t.ps[i].e) % r)
  pure def observe(c: int, co: str, op: str, ps: List[Known], s: int): Out = {
    val C = CRV[c]
    val T = C.T
    val r = ORD[c]
    val a = ps[s % ps.length()]
    val z = denominator(T, s / 7)
    val A = P(rep(C, co, a.at, z))
    val nothing = out("none", [], [], a)
    if (not(expressible(C, co, a.at))) nothing
    else if (op == "add") {
      val b = operand(c, ps, a, s / 64)
      val t = sumK(C, r, a, b)
      if (fits(c, co, [b.at, t.at, twice(C, a.at)])) out("add", [A, P(rep(C, co, b.at, denominator(T, s / 5)))], [P(t.at), B(a.at == b.at)], t) else nothing
    }
    else if (op == "sub") {
      val b = operand(c, ps, a, s / 64)
      val t = sumK(C, r, a, oppK(C, r, b))
      if (fits(c, co, [b.at, t.at])) out1("sub", [A, P(rep(C, co, b.at, denominator(T, s / 5)))], P(t.at), t) else nothing
    }
    else if (op == "un") {
      val t = sumK(C, r, a, a)
      if (fits(c, co, [t.at])) out("un", [A], [P(opp(C, a.at)), P(t.at)], t) else nothing
    }
    else if (op == "conv") out("conv", [A], [P(a.at)], sumK(C, r, a, ps[s / 64 % ps.length()]))
    else if (op == "off") {
      if (a.at == []) nothing else {
        val y = add(T, a.at[1], one(T))
        val Q = if (s % 3 == 0) [a.at[0], y] else if (s % 3 == 1) [add(T, a.at[0], one(T)), a.at[1]] else [a.at[1], a.at[0]]
        if (onCurve(C, Q) or not(expressible(C, co, Q))) nothing else out1("off", [P(rep(C, co, Q, z))], B(false), sumK(C, r, a, a))
      }
    }
    else if (op == "sum") {
      val mode = s % 8
      val t = collect(r, ps, if (mode < 2) 1 + s / 8 % 9 else s / 8 % 9, s / 64, mode)
      val b = if (ps[s / 512 % ps.length()].known) ps[s / 512 % ps.length()] else ps[1]
      val m = if (a.known and a.e != 0) a else ps[1]
      val z0 = (b.e + r - total(r, t)) * invmod(m.e, r) % r
      val last = if (mode < 2) { ks: t.ks, ps: t.ps } else if (mode % 2 == 0) { ks: t.ks.append(z0), ps: t.ps.append(m) } else { ks: [z0].concat(t.ks), ps: [m].concat(t.ps) }
      val R = if (mode == 0) known(0, []) else if (mode == 1) t.ps.foldl(known(0, []), (x, y) => sumK(C, r, x, y)) else b
      if (not(fits(c, co, [R.at]))) nothing
      else out1("sum", [L(last.ks), Many(last.ps.foldl([], (l, q) => l.append(rep(C, co, q.at, denominator(T, s / 5 + l.length())))))], P(R.at), sumK(C, r, a, R))
    }
    else if (op == "win") {
      // either all bits, scalars taken as quotients of exponents; or few bits, counted out
      val m = if (a.known and a.e != 0) a else ps[1]
      val few = s % 3 == 0
      val bits = if (few) 6 + s / 3 % 4 else bitlen(r)
      val w = 1 + s / 16 % (if (few) bits + 1 else 7)
      val f = if (s / 128 % 3 == 0) 1 else if (few) 2 else if (s / 128 % 3 == 1) r - 1 else 0
      val l = ps.foldl({ ks: [], r: [], t: s / 4096 }, (x, q) => {
        val k = if (few) x.t % 32 else if (q.known) q.e * invmod(m.e, r) % r else 1
        { ks: x.ks.append(k), r: x.r.append(if (few) times(C, k, m.at) else if (q.known) q.at else m.at), t: mix(x.t, 2^61 - 1) }
      })
      val scaled = l.r.foldl([], (x, R) => x.append(if (f == 0) [] else if (f == 1) R else if (f == 2) twice(C, R) else opp(C, R)))
      if (fits(c, co, l.r.concat(scaled))) out("win", [I(bits), I(w), P(rep(C, co, m.at, z)), I(f), L(l.ks)], [Many(l.r), Many(scaled)], sumK(C, r, a, m)) else nothing
    }
    else if (op == "one") out1("one", [], P(GEN[c]), a)
    else if (op == "mont") {
      if (not(MATE[c].on) or a.at == [] or a.at[0] == zero(T)) nothing else {
        val m = montPoint(C, a.at)
        val v = mul(T, MATE[c].s, m[1])
        out("mont", [A], [P(a.at), P([m[0], v]), P([m[0], neg(T, v)])], sumK(C, r, a, ps[s / 64 % ps.length()]))
      }
    }
    else {
      // scalar multiples; a small one is counted out, a large one is a quotient of exponents
      val b = ps[s / 64 % ps.length()]
      val k = s / 512 % 8
      val count = not(a.known and b.known) or k == 0
      val q = if (count or a.e == 0) 0 else b.e * invmod(a.e, r) % r
      val n = if (count) s / 4096 % 40 else if (k == 1) r else if (k == 2) r - 1 else if (k == 3 and r + 1 < 2^bitlen(r)) r + 1
              else if (k == 4 and q + r < 2^bitlen(r)) q + r else if (a.e == 0) s / 4096 else q
      val R = if (count) times(C, n, a.at) else if (n == r) [] else if (n == r - 1) opp(C, a.at) else if (n == r + 1) a.at
              else if (a.e == 0) [] else b.at
      val at = if (op == "wnaf") "wnaf" else "mul"
      val inter = [R, times(C, 2, a.at)]      // (inverted coordinates only need the prime-order part)
      if ((co == "inv" and not(a.known)) or not(fits(c, co, inter))) nothing
      else out1(at, [A, I(n)], P(R), sumK(C, r, a, b))
    }
  }

  pure val START: List[List[Known]] = range(0, GROUPS.length()).foldl([], (l, c) => {
    val C = CRV[c]
    val r = ORD[c]
    val n = mix(mix(SEED + 77 * c, r), r)
    val A = known(n, times(C, n, GEN[c]))
    val G = known(1, GEN[c])
    l.append([known(0, []), G, stray(C, GEN[c]), A, sumK(C, r, A, A), sumK(C, r, A, G)])
  })
  action init = all {
    ev' = { op: "none", par: [], args: [], res: [], single: false },
    pool' = START
  }
  action step = {
    nondet c = oneOf(0.to(GROUPS.length() - 1))
    nondet k = oneOf(0.to(KINDS.length() - 1))
    nondet s = oneOf(0.to(2^64 - 1))
    nondet m = oneOf(3.to(5))
    val g = GROUPS[c]
    val i = s / 3 % g.keys.length()
    val o = observe(c, g.cos[i], KINDS[k], pool[c], s / 11)
    all {
      ev' = { op: o.op, par: [g.keys[i]], args: o.args, res: o.res, single: o.single },
      // (a walk that has run into the neutral element is set going again)
      pool' = pool.replaceAt(c, pool[c].replaceAt(m, if (o.next.at == []) sumK(CRV[c], ORD[c], pool[c][m], pool[c][1]) else o.next))
    }
  }
  // what must be true of the model itself: the pool stays on the curve
  val Closed = range(0, GROUPS.length()).foldl(true, (ok, c) => ok and pool[c].foldl(true, (y, q) => y and onCurve(CRV[c], q.at)))
  // a scalar multiple by quotient agrees with counting, where counting is affordable
  val Sound = Closed
}
