// S01: the scalar helpers over exact dyadic rationals m * 2^e (every finite double is one).
// Each action fixes the exact mathematical value of one call; the replay driver compares the
// library's double with it up to rounding.  Bigint arithmetic, no floating point in the oracle.
module Scalar {
  type Ev = { op: str, args: List[int], res: List[int] }
  var ev: Ev
  var n: int

  pure def abs_(x: int): int = if (x < 0) -x else x
  // largest r with r^k <= x, for r below 2^70
  pure def root(x: int, k: int): int =
    range(0, 70).foldl(0, (r, i) => {
      val c = r + 2^(69 - i)
      if (c^k <= x) c else r
    })
  // bring |m| below 2^63, keeping the exponent
  pure def norm(m: int, e: int): List[int] =
    [4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl([m, e], (a, s) =>
      if (abs_(a[0]) >= 2^(62 + s)) [a[0] / 2^s, a[1] + s] else a)
  // (m 2^e)^(1/k) with at least 54 significant bits: scale so that the root has about 62 bits
  pure def bits(m: int): int = range(0, 140).foldl(0, (b, i) => if (m >= 2^i) i + 1 else b)
  pure def nthroot(m: int, e: int, k: int): List[int] =
    if (m == 0) [0, 0] else {
      // pad >= 0 with (e - pad) divisible by k and m * 2^pad having about 62 k bits
      val want = 62 * k - bits(m)
      val pad = want + ((((e - want) % k) + k) % k)
      [root(m * 2^pad, k), (e - pad) / k]
    }
  pure def power(m: int, e: int, k: int): List[int] =
    if (k == 0) [1, 0]
    else if (k > 0) norm(m^k, e * k)
    else {
      val d = abs_(m)^(-k)
      val sgn = if (m < 0 and (-k) % 2 == 1) -1 else 1
      val p = 62 + bits(abs_(m)) * (-k)
      norm(sgn * (2^p / d), e * k - p)
    }

  action emit(o: str, a: List[int], r: List[int]): bool = all {
    ev' = { op: o, args: a, res: r },
    n' = n + 1
  }

  action doSqrt = {
    nondet big = oneOf(Set(2, 100, 10000, 2^24 - 1, 2^53 - 1))
    nondet m = oneOf(0.to(big))
    nondet e = oneOf(Set(0, -1, 1, -2, 7, -20, 33, -52, 100, -101, 900, -1000))
    nondet sq = oneOf(0.to(3))
    if (sq == 0) emit("sqrt", [m * m % 2^53, e], nthroot(m * m % 2^53, e, 2))
    else emit("sqrt", [m, e], nthroot(m, e, 2))
  }
  action doSqrtF = {
    nondet big = oneOf(Set(2, 100, 10000, 2^24 - 1))
    nondet m = oneOf(0.to(big))
    nondet e = oneOf(Set(0, -1, 1, -2, 7, -20, 33, -52, 80, -101))
    emit("sqrtf", [m, e], nthroot(m, e, 2))
  }
  action doSqrtNeg = {
    nondet m = oneOf(1.to(2^20))
    nondet e = oneOf((-30).to(30))
    emit("sqrtneg", [-m, e], [])
  }
  action doRoot = {
    nondet big = oneOf(Set(2, 100, 10000, 2^24 - 1, 2^53 - 1))
    nondet m = oneOf(0.to(big))
    nondet e = oneOf(Set(0, -1, 1, 2, -7, 20, -33, 52, -100, -53))
    nondet k = oneOf(1.to(20))
    emit("nthroot", [m, e, k], nthroot(m, e, k))
  }
  action doRootExact = {
    nondet b = oneOf(0.to(40))
    nondet k = oneOf(1.to(9))
    nondet e = oneOf((-6).to(6))
    emit("nthroot", [b^k % 2^53, e, k], nthroot(b^k % 2^53, e, k))
  }
  action doRootNeg = {
    nondet m = oneOf(1.to(2^20))
    nondet k = oneOf(1.to(9))
    emit("nthrootneg", [-m, 0, k], [])
  }
  action doPow = {
    nondet big = oneOf(Set(3, 100, 10000, 2^24 - 1))
    nondet m0 = oneOf(1.to(big))
    nondet neg = oneOf(0.to(1))
    nondet e = oneOf((-24).to(1))
    nondet k = oneOf(Set(-40, -33, -17, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 23, 31, 32, 33, 40))
    val m = if (neg == 1) -m0 else m0
    emit("pow", [m, e, k], power(m, e, k))
  }
  action doPowBig = {   // bases close to one, large exponents
    nondet d = oneOf((-64).to(64))
    nondet k = oneOf((-3000).to(3000))
    emit("pow", [2^12 + d, -12, k], power(2^12 + d, -12, k))
  }
  action doPowZero = {
    nondet k = oneOf(0.to(20))
    emit("pow", [0, 0, k], if (k == 0) [1, 0] else [0, 0])
  }
  action doPowUnit = {
    nondet k = oneOf((-2147483647).to(2147483647))
    nondet s = oneOf(Set(-1, 1))
    emit("pow", [s, 0, k], [if (s == 1 or k % 2 == 0) 1 else -1, 0])
  }
  action doAbs = {
    nondet m = oneOf((-(2^30)).to(2^30))
    nondet z = oneOf(0.to(5))
    val x = if (z == 0) 0 else m
    emit("abs", [x], [abs_(x)])
  }
  action doAbsC = {
    nondet a0 = oneOf((-(2^26)).to(2^26))
    nondet b0 = oneOf((-(2^26)).to(2^26))
    nondet sh = oneOf(Set(1, 2^10, 2^20, 2^25))
    nondet z = oneOf(0.to(9))
    val a = if (z == 0 or z == 2) 0 else a0 / sh
    val b = if (z <= 1) 0 else b0 / sh
    emit("absc", [a, b], nthroot(a * a + b * b, 0, 2))
  }
  // moduli whose squares leave the range of the type while they themselves do not
  action doAbsFar = {
    nondet a = oneOf((-(2^24) + 1).to(2^24 - 1))
    nondet b = oneOf((-(2^24) + 1).to(2^24 - 1))
    nondet sh = oneOf(Set(1, 2^10, 2^20, 2^24))
    nondet e = oneOf(Set(400, 500, 520, 900, 995, -400, -500, -520, -560, -700, -900, -990))
    emit("abscfar", [a / sh, b, e], nthroot((a / sh) * (a / sh) + b * b, 2 * e, 2))
  }
  action doAbsFarF = {
    nondet a = oneOf((-(2^24) + 1).to(2^24 - 1))
    nondet b = oneOf((-(2^24) + 1).to(2^24 - 1))
    nondet sh = oneOf(Set(1, 2^10, 2^20, 2^24))
    nondet e = oneOf(Set(30, 39, 41, 60, 98, -60, -70, -75, -85, -100))
    emit("abscfarf", [a / sh, b, e], nthroot((a / sh) * (a / sh) + b * b, 2 * e, 2))
  }
  action doRootFar = {
    nondet m = oneOf(1.to(2^53 - 1))
    nondet e = oneOf(Set(300, 800, 950, 970, -300, -800, -1000, -1060))
    nondet k = oneOf(1.to(20))
    emit("nthroot", [m, e, k], nthroot(m, e, k))
  }
  // the limit of the range: infinity is its own root and modulus
  action doInf = {
    nondet k = oneOf(1.to(9))
    nondet b = oneOf((-(2^30)).to(2^30))
    emit("inf", [k, b], [])
  }
  action doConj = {
    nondet a = oneOf((-(2^30)).to(2^30))
    nondet b = oneOf((-(2^30)).to(2^30))
    emit("conj", [a, b], [a, -b])
  }
  action init = all { ev' = { op: "none", args: [], res: [] }, n' = 0 }
  action step = any { doSqrt, doSqrt, doSqrtF, doSqrtNeg, doRoot, doRoot, doRoot, doRootExact, doRootNeg, doPow, doPow,
                      doPowBig, doPowZero, doPowUnit, doAbs, doAbsC, doAbsFar, doAbsFarF, doRootFar, doInf, doConj }

  // the exact results really enclose the mathematical value
  val enclosed = or {
    not(Set("sqrt", "nthroot").contains(ev.op)),
    {
      val k = if (ev.op == "sqrt") 2 else ev.args[2]
      val d = ev.args[1] - ev.res[1] * k       // m 2^e = r^k 2^(k f)  <=>  m 2^d = r^k
      if (ev.args[0] == 0) ev.res[0] == 0
      else and { d >= 0, ev.res[0]^k <= ev.args[0] * 2^d, (ev.res[0] + 1)^k > ev.args[0] * 2^d, ev.res[0] >= 2^54 }
    }
  }
}
