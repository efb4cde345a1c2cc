// Towers of finite fields at their real sizes.  A tower is built level by level from the
// definition: level k+1 is (level k)[X]/(X^n - nr).  An element is the list of its prime-field
// coefficients, the blocks of the level below one after the other.  Products are read off the
// products of basis monomials; the p-power map is linear and given by the p-th powers of the
// monomials; inverses come from the norm.  No shortcut of the library is used here.
module TowerQ {
  type Term = { i: int, j: int, c: int }
  type Tower = { p: int, dim: int, terms: List[List[Term]], frob: List[List[int]], dims: List[int], nr: List[int] }

  pure def emod(a: int, m: int): int = ((a % m) + m) % m
  pure def bitlen(n: int): int = range(0, 17).foldl({ v: n, b: 0 }, (s, k) => {
    val w = 2^(16 - k)
    if (s.v >= 2^w) { v: s.v / 2^w, b: s.b + w } else s
  }).b + (if (n > 0) 1 else 0)
  pure def powmod(b: int, e: int, m: int): int = {
    val n = bitlen(e)
    range(0, n).foldl(emod(1, m), (r, k) => {
      val s = r * r % m
      if ((e / 2^(n - 1 - k)) % 2 == 1) s * b % m else s
    })
  }
  pure def invmod(a: int, p: int): int = powmod(a, p - 2, p)

  pure def lmap(l: List[int], f: (int) => int): List[int] = l.foldl([], (a, v) => a.append(f(v)))
  pure def zeros(n: int): List[int] = range(0, n).foldl([], (a, _) => a.append(0))
  pure def unit(n: int, k: int): List[int] = range(0, n).foldl([], (a, i) => a.append(if (i == k) 1 else 0))
  pure def add(T: Tower, x: List[int], y: List[int]): List[int] = range(0, x.length()).foldl([], (a, i) => a.append((x[i] + y[i]) % T.p))
  pure def neg(T: Tower, x: List[int]): List[int] = lmap(x, (v) => (T.p - v) % T.p)
  pure def sub(T: Tower, x: List[int], y: List[int]): List[int] = range(0, x.length()).foldl([], (a, i) => a.append((x[i] + T.p - y[i]) % T.p))
  pure def scaleBy(T: Tower, c: int, x: List[int]): List[int] = lmap(x, (v) => c * v % T.p)
  pure def mul(T: Tower, x: List[int], y: List[int]): List[int] =
    T.terms.foldl([], (a, ts) => a.append(ts.foldl(0, (s, t) => if (x[t.i] == 0) s else s + t.c * x[t.i] * y[t.j]) % T.p))
  pure def one(T: Tower): List[int] = unit(T.dim, 0)
  pure def zero(T: Tower): List[int] = zeros(T.dim)
  pure def embed(T: Tower, x: List[int]): List[int] = x.concat(zeros(T.dim - x.length()))
  pure def block(x: List[int], d: int, k: int): List[int] = x.slice(k * d, (k + 1) * d)
  pure def pow(T: Tower, x: List[int], e: int): List[int] = {
    val n = bitlen(e)
    range(0, n).foldl(one(T), (r, k) => {
      val s = mul(T, r, r)
      if ((e / 2^(n - 1 - k)) % 2 == 1) mul(T, s, x) else s
    })
  }
  // x^p
  pure def frob(T: Tower, x: List[int]): List[int] =
    range(0, T.dim).foldl(zero(T), (a, i) => if (x[i] == 0) a else add(T, a, scaleBy(T, x[i], T.frob[i])))
  pure def frobs(T: Tower, x: List[int], n: int): List[List[int]] =
    range(0, n).foldl([x], (a, k) => a.append(frob(T, a[k])))
  pure def frobK(T: Tower, x: List[int], n: int): List[int] = range(0, n).foldl(x, (a, _) => frob(T, a))
  // x^p x^(p^2) ... x^(p^(dim-1)); times x it is the norm to the prime field
  pure def conj(T: Tower, x: List[int]): List[int] =
    range(1, T.dim).foldl({ f: x, c: one(T) }, (s, _) => { val f2 = frob(T, s.f) { f: f2, c: mul(T, s.c, f2) } }).c
  pure def norm(T: Tower, x: List[int]): int = mul(T, x, conj(T, x))[0]
  pure def inv(T: Tower, x: List[int]): List[int] = {
    val c = conj(T, x)
    scaleBy(T, invmod(mul(T, x, c)[0], T.p), c)
  }
  // squares of the field: those whose norm is a square of the prime field
  pure def isSquare(T: Tower, x: List[int]): bool = or { x == zero(T), powmod(norm(T, x), (T.p - 1) / 2, T.p) == 1 }

  pure def prime(p: int): Tower = { p: p, dim: 1, terms: [[{ i: 0, j: 0, c: 1 }]], frob: [[1]], dims: [], nr: [] }
  pure def monomialTerms(d: int, n: int, m: int, prod: List[List[List[int]]], red: List[List[List[int]]]): List[Term] =
    range(0, n * d * n * d).foldl([], (ts, k) => {
      val i = k / (n * d)
      val j = k % (n * d)
      val deg = i / d + j / d
      val c = if (deg == m / d) prod[i % d][j % d][m % d] else if (deg == m / d + n) red[i % d][j % d][m % d] else 0
      if (c == 0) ts else ts.append({ i: i, j: j, c: c })
    })
  pure def extend(L: Tower, n: int, nr: List[int]): Tower = {
    val d = L.dim
    val prod = range(0, d).foldl([], (a, i) => a.append(range(0, d).foldl([], (b, j) => b.append(mul(L, unit(d, i), unit(d, j))))))
    val red = prod.foldl([], (a, r) => a.append(r.foldl([], (b, v) => b.append(mul(L, nr, v)))))
    val ts = range(0, n * d).foldl([], (a, m) => a.append(monomialTerms(d, n, m, prod, red)))
    val T0 = { p: L.p, dim: n * d, terms: ts, frob: [], dims: L.dims.append(d), nr: nr }
    // X^p = nr^(p div n) X^(p mod n)
    val c = pow(L, nr, L.p / n)
    val xp = range(0, n * d).foldl([], (a, k) => a.append(if (k / d == L.p % n) c[k % d] else 0))
    val pows = range(1, n).foldl([one(T0)], (a, k) => a.append(mul(T0, a[k - 1], xp)))
    T0.with("frob", range(0, n * d).foldl([], (a, k) => a.append(mul(T0, embed(T0, L.frob[k % d]), pows[k / d]))))
  }
  // Miller-Rabin
  pure def twos(n: int): int = range(0, 600).foldl({ n: n, k: 0 }, (s, _) => if (s.n % 2 == 0) { n: s.n / 2, k: s.k + 1 } else s).k
  pure def strongProbable(p: int, b: int): bool = {
    val s = twos(p - 1)
    val y = powmod(b, (p - 1) / 2^s, p)
    y == 1 or range(0, s).foldl({ y: y, ok: false }, (a, _) => { y: a.y * a.y % p, ok: a.ok or a.y == p - 1 }).ok
  }
  pure def isPrime(p: int): bool = {
    val bases = if (p > 2^600) [2, 3] else [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]
    p > 40 and p % 2 == 1 and bases.foldl(true, (ok, b) => ok and strongProbable(p, b))
  }
}
