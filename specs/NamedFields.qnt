// A user computing in the library's named fields, at their real sizes.  One accumulator per field is
// moved by sums and products with drawn operands; every step applies one operation of the library
// to it and states the exact result.  The module Sel, written by the check, names the fields and
// the kinds of operation.
module NamedFields {
  import TowerQ.* from "./TowerQ"
  import Published.* from "./Published"
  import Sel.* from "./Sel"

  type V = I(int) | B(bool) | E(List[int])
  type Ev = { op: str, par: List[str], args: List[V], res: List[V], single: bool }
  var ev: Ev
  var acc: List[List[int]]

  pure val TOWER: List[Tower] = FIELDS.foldl([], (a, k) => a.append(build(k)))
  pure val BELOW: List[Tower] = FIELDS.foldl([], (a, k) => a.append(if (TOWERS.keys().contains(k)) below(TOWERS.get(k)) else prime(publishedModulus(k))))
  pure def kindOf(T: Tower): str =
    if (T.dim == 1) "fp" else if (T.dim == 2) "fp2" else if (T.dim == 3) "fp3" else if (T.dim == 4) "fp4" else if (T.dim == 12) "fp12"
    else if (T.dims[1] == 3) "fp6a" else "fp6b"

  // operands from a drawn seed: full-size, sparse, small, or close to the modulus
  pure def mix(s: int, p: int): int = (s * s * s + 0x9E3779B97F4A7C15F39CC0605CEDC8341082276BF3A27251F86C6A11D0C18E95 * s + 12345) % p
  pure def expand(s: int, k: int, p: int): int = range(0, k).foldl(s + p / 3, (a, _) => mix(a, p))
  pure def operand(T: Tower, s: int): List[int] = range(0, T.dim).foldl({ s: expand(s, 8, T.p), l: [] }, (a, _) => {
    val t = mix(a.s, T.p)
    val v = if (s % 5 == 0 and t % 2 == 0) 0 else if (s % 5 == 1) t % 1000 else if (s % 5 == 2 and t % 2 == 0) T.p - 1 - t % 3 else t
    { s: t, l: a.l.append(v % T.p) }
  }).l
  pure def special(T: Tower, x: List[int], s: int): List[int] = {
    val k = s % 12
    if (k == 0) x else if (k == 1) neg(T, x) else if (k == 2) zero(T) else if (k == 3) one(T) else if (k == 4) neg(T, one(T)) else if (k == 5) unit(T.dim, s % T.dim) else operand(T, s)
  }
  pure def digits(e: int): List[int] = {
    val n = bitlen(e) / 10 + 1
    range(0, n).foldl([], (a, k) => a.append((e / 1024^(n - 1 - k)) % 1024))
  }
  pure def exponent(s: int, bits: int): int = {
    val k = s % 6
    if (k == 0) s / 7 % 40 else if (k == 1) 2^(s / 7 % bits) else if (k == 2) 2^(s / 7 % bits) - 1
    else range(0, bits / 64 + 1).foldl({ s: s, e: 0 }, (a, _) => { s: mix(a.s, 2^127 - 1), e: a.e * 2^64 + a.s % 2^64 }).e % 2^(if (k == 3) s / 7 % bits + 1 else bits)
  }
  // into the cyclotomic subgroup (order the dim-th cyclotomic polynomial at p)
  pure def cyclotomic(T: Tower, x: List[int]): List[int] = {
    val y = mul(T, frobK(T, x, T.dim / 2), inv(T, x))
    if (T.dim == 4) y else if (T.dim == 6) mul(T, frobK(T, y, 1), y) else mul(T, frobK(T, y, 2), y)
  }
  pure def mask(x: List[int], keep: Set[int]): List[int] = range(0, x.length()).foldl([], (a, i) => a.append(if (keep.contains(i)) x[i] else 0))

  type Out = { op: str, args: List[V], res: List[V], single: bool }
  pure def out(op: str, args: List[V], res: List[V]): Out = { op: op, args: args, res: res, single: false }
  pure def out1(op: str, args: List[V], r: V): Out = { op: op, args: args, res: [r], single: true }
  pure val nothing: Out = out("none", [], [])

  pure def doBin(T: Tower, x: List[int], s: int): Out = {
    val y = special(T, x, s)
    out("bin", [E(x), E(y)], [E(add(T, x, y)), E(sub(T, x, y)), E(mul(T, x, y)), B(x == y)])
  }
  pure def doUn(T: Tower, x: List[int]): Out =
    out("un", [E(x)], [E(neg(T, x)), E(add(T, x, x)), E(mul(T, x, x)), E(if (x == zero(T)) [] else inv(T, x)), B(x == zero(T)), B(x == one(T))])
  pure def doScale(T: Tower, x: List[int], s: int): Out = if (T.dim == 1) nothing else {
    val k = s % T.dims.length()
    val y = operand(T, s / 7).slice(0, T.dims[k])
    out1("scale", [I(k), E(y), E(x)], E(mul(T, embed(T, y), x)))
  }
  pure def doMnr(T: Tower, L: Tower, s: int): Out = if (L.dim == 1) nothing else {
    val y = operand(L, s)
    out1("mnr", [E(y)], E(mul(L, T.nr, y)))
  }
  pure def doSparse(T: Tower, x: List[int], s: int): Out = {
    val y = operand(T, s)
    val k = kindOf(T)
    if (k == "fp4") { val z = mask(y, Set(0, 2, 3))
                      out1("sparse", [E(x), E(z)], E(mul(T, x, z))) }
    else if (k == "fp6a") { val z = mask(y, Set(2, 3, 4, 5))
                            out1("sparse", [E(x), E(z)], E(mul(T, x, z))) }
    else if (k == "fp12") {
      val a = block(y, 2, 0)
      val b = block(y, 2, 1)
      val c = block(y, 2, 2)
      if (s % 2 == 0) out1("s045", [E(x), E(a), E(b), E(c)], E(mul(T, x, b.concat(zeros(6)).concat(a).concat(c))))
      else out1("s024", [E(x), E(a), E(b), E(c)], E(mul(T, x, a.concat(zeros(2)).concat(c).concat(zeros(2)).concat(b).concat(zeros(2)))))
    }
    else if (k == "fp2" and T.nr == [T.p - 1]) {
      val b = y[0]
      out("fp2m", [E(x), I(b)], [E(mul(T, x, [0, 1])), E(scaleBy(T, b, x)), E(mul(T, x, [0, b])), E(mul(T, x, [9, 1]))])
    } else nothing
  }
  pure def doOrder(T: Tower, x: List[int], s: int): Out = if (T.dim > 1) nothing else {
    val p = T.p
    val a = x[0]
    val b = special(T, x, s / 3)[0]
    val k = if (s % 7 == 0) a + p * (s / 21) else if (s % 7 == 1) -(s / 21 % 2^40) else if (s % 7 == 2) s / 21 % 2^31 else if (s % 7 == 3) -(s / 21 % 1000) else if (s % 7 == 4) b * a else if (s % 7 == 5) p * (s % 100) else s / 21 % 2^62
    if (s % 3 == 0) out("succ", [I(a)], [I((a + 1) % p), I((a + p - 1) % p)])
    else if (s % 3 == 1) out("ord", [I(a), I(b)], [B(a < b), B(a == b)])
    else out("int", [I(k), I(a)], [I(emod(k, p)), I(emod(a + k, p)), I(emod(a - k, p)), I(emod(a * k, p))])
  }
  pure def doRoots(T: Tower, x: List[int], s: int): Out = if (T.dim > 3) nothing else {
    val y = if (s % 4 == 0) special(T, x, s / 4) else x
    if (s % 3 == 0) out1("issq", [E(y)], B(isSquare(T, y)))
    else out("sqrt", [E(mul(T, y, y))], [E(y), E(neg(T, y))])
  }
  pure def doPow(T: Tower, x: List[int], s: int): Out = {
    val e = if (T.p > 2^4000) exponent(s, EXPBITS) else if (s % 9 == 0) (T.p - 1) / 2 else if (s % 9 == 1) T.p else if (s % 9 == 2) T.p - 1 else exponent(s, EXPBITS)
    out1("pow", [E(x), E(digits(e))], E(pow(T, x, e)))
  }
  pure def doFrob(T: Tower, x: List[int], s: int): Out = if (T.dim == 1) nothing else
    out("frob", [E(x)], frobs(T, x, T.dim + s % (T.dim + 2)).foldl([], (a, v) => a.append(E(v))))
  pure def doCyc(T: Tower, x: List[int], s: int): Out = if (not(Set("fp4", "fp6a", "fp12").contains(kindOf(T))) or x == zero(T)) nothing else {
    val z = cyclotomic(T, x)
    val e = exponent(s, EXPBITS)
    if (s % 3 == 0) out("cyc", [E(z)], [E(inv(T, z)), E(mul(T, z, z))])
    else out1("cycexp", [E(z), E(digits(e))], E(pow(T, z, e)))
  }
  pure def observe(f: int, op: str, x: List[int], s: int): Out = {
    val T = TOWER[f]
    if (op == "bin") doBin(T, x, s) else if (op == "un") doUn(T, x) else if (op == "scale") doScale(T, x, s) else if (op == "mnr") doMnr(T, BELOW[f], s)
    else if (op == "sparse") doSparse(T, x, s) else if (op == "order") doOrder(T, x, s) else if (op == "roots") doRoots(T, x, s) else if (op == "pow") doPow(T, x, s)
    else if (op == "frob") doFrob(T, x, s) else doCyc(T, x, s)
  }

  action init = all {
    ev' = { op: "none", par: [], args: [], res: [], single: false },
    acc' = TOWER.foldl([], (a, T) => a.append(operand(T, 1 + 3 * a.length())))
  }
  action step = {
    nondet f = oneOf(0.to(FIELDS.length() - 1))
    nondet k = oneOf(0.to(KINDS.length() - 1))
    nondet s = oneOf(0.to(2^64 - 1))
    nondet m = oneOf(0.to(9))
    val x = acc[f]
    val T = TOWER[f]
    val o = observe(f, KINDS[k], x, s)
    val y = if (m == 0) special(T, x, s / 11) else if (m < 4) add(T, mul(T, x, x), operand(T, s / 13)) else operand(T, s / 17)
    all {
      ev' = { op: o.op, par: [FIELDS[f]], args: o.args, res: o.res, single: o.single },
      acc' = acc.replaceAt(f, y)
    }
  }
  // what must be true of the model itself
  val Canonical = range(0, acc.length()).foldl(true, (ok, f) => and { ok, acc[f].length() == TOWER[f].dim, acc[f].foldl(true, (k, v) => k and 0 <= v and v < TOWER[f].p) })
  val Inverses = if (ev.op != "un") true else range(0, FIELDS.length()).foldl(true, (ok, f) => ok and or { acc[f] == zero(TOWER[f]), mul(TOWER[f], acc[f], inv(TOWER[f], acc[f])) == one(TOWER[f]) })
  val Sound = Canonical and Inverses
}
