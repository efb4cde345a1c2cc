// Numbers too large to try divisors on: products of known primes, whose factors and totient are known
// from the way they were built, and prime progressions judged by the strong probable prime test to the
// bases 2..17, which is exact below 3.4e14.
module PrimeWalk {
  type V = I(int) | L(List[int])
  type Ev = { op: str, par: List[int], args: List[V], res: List[V] }
  var ev: Ev
  var n: int
  var fs: Set[int]
  var phi: int
  var q: int
  var m: int

  pure def powm(b: int, e: int, p: int): int =
    range(0, 52).foldl({ r: 1, s: b % p, e: e }, (a, _) =>
      if (a.e == 0) a else { r: if (a.e % 2 == 1) (a.r * a.s) % p else a.r, s: (a.s * a.s) % p, e: a.e / 2 }).r
  type Split = { d: int, s: int }
  pure def odd(x: int): Split = range(0, 52).foldl({ d: x, s: 0 }, (a, _) => if (a.d % 2 == 0) { d: a.d / 2, s: a.s + 1 } else a)
  pure def strong(x: int, b: int): bool = {
    val o = odd(x - 1)
    val r = range(0, o.s).foldl({ y: powm(b, o.d, x), ok: false, i: 0 }, (a, _) =>
      { y: (a.y * a.y) % x, ok: a.ok or a.y == x - 1 or (a.i == 0 and a.y == 1), i: a.i + 1 })
    r.ok
  }
  pure val BASES = [2, 3, 5, 7, 11, 13, 17]
  pure def isPrime(x: int): bool =
    if (x < 2) false
    else if (BASES.foldl(false, (a, b) => a or x == b)) true
    else if (BASES.foldl(false, (a, b) => a or x % b == 0)) false
    else BASES.foldl(true, (a, b) => a and strong(x, b))
  pure def up(x: int, s: int): int = range(0, 900).foldl({ x: x, ok: false }, (a, _) => if (a.ok) a else if (isPrime(a.x)) { x: a.x, ok: true } else { x: a.x + s, ok: false }).x
  pure def down(x: int, s: int): int = range(0, 900).foldl({ x: x, ok: false }, (a, _) => if (a.ok) a else if (isPrime(a.x)) { x: a.x, ok: true } else { x: a.x - s, ok: false }).x
  pure def mod(a: int, b: int): int = a - b * (a / b)
  pure def firstOne(x: int, s: int): int = if (mod(x, s) == mod(1, s)) x else x + mod(s + 1 - mod(x, s), s)
  // primes of growing size; the largest are Mersenne primes and 2^255-19, found by size alone
  pure val SMALL = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 97, 101, 251, 257, 1009, 4093, 8191, 65521, 65537, 131071]
  pure val MID = [524287, 1048573, 1048583, 16777213]
  pure val BIG = [2^31 - 1, 2^61 - 1, 2^89 - 1, 2^107 - 1, 2^127 - 1, 2^255 - 19]

  action times(p: int): bool = {
    val f2 = phi * (if (fs.contains(p)) p else p - 1)
    all { n' = n * p, fs' = fs.union(Set(p)), phi' = f2,
          ev' = { op: "whole", par: [], args: [I(n * p)], res: [L(listed(fs.union(Set(p)))), I(f2)] }, q' = q, m' = m }
  }
  pure def listed(s: Set[int]): List[int] = SMALL.concat(MID).concat(BIG).foldl([], (a, p) => if (s.contains(p)) a.append(p) else a)
  pure def gcd(a: int, b: int): int = range(0, 90).foldl({ a: a, b: b }, (x, _) => if (x.b == 0) x else { a: x.b, b: mod(x.a, x.b) }).a
  pure def has(s: Set[int], l: List[int]): bool = l.foldl(false, (a, p) => a or s.contains(p))

  action init = all { n' = 1, fs' = Set(), phi' = 1, q' = 2^20 + 7, m' = 1, ev' = { op: "none", par: [], args: [], res: [] } }
  action step = any {
    { nondet i = oneOf(0.to(SMALL.length() - 1))
      all { n < 2^240, times(SMALL[i]) } },
    { nondet i = oneOf(0.to(MID.length() - 1))      // at most two of the middling ones: Pollard's method finds them slowly
      all { n < 2^240, not(has(fs, MID)), times(MID[i]) } },
    { nondet i = oneOf(0.to(BIG.length() - 1))      // one that only the primality test can find
      all { n < 2^240, not(has(fs, BIG)), times(BIG[i]) } },
    all { n > 1, n' = 1, fs' = Set(), phi' = 1, q' = q, m' = m, ev' = { op: "none", par: [], args: [], res: [] } },
    { nondet b = oneOf(8.to(46))
      nondet s = oneOf(1.to(5000))
      val r = up(firstOne(2^b + 1, s), s)
      all { q' = r, m' = s, n' = n, fs' = fs, phi' = phi, isPrime(r), ev' = { op: "first", par: [b, s], args: [I(b)], res: [I(r)] } } },
    { nondet s = oneOf(1.to(3000))
      val r = up(q + s, s)
      all { gcd(q, s) == 1, q < 2^47, isPrime(r), q' = r, m' = s, n' = n, fs' = fs, phi' = phi, ev' = { op: "next", par: [s], args: [I(q)], res: [I(r)] } } },
    { nondet s = oneOf(1.to(3000))
      val r = down(q - s, s)
      all { q > 2^22, isPrime(r), r > 2, q' = r, m' = s, n' = n, fs' = fs, phi' = phi, ev' = { op: "previous", par: [s], args: [I(q)], res: [I(r)] } } }
  }
  val Sound = and {
    fs.forall(p => n % p == 0),
    phi <= n,
    fs.forall(p => p < 2 or n / p * (p - 1) >= phi),
    n > 1 or phi == 1
  }
}
