// F05: judges every constant the library stores for its named fields.  The module Dump is written
// by the driver from the compiled library; each step judges the constants of one field.
module Constants {
  import TowerQ.* from "./TowerQ"
  import Published.* from "./Published"
  import Dump.* from "./Dump"

  type Verdict = { name: str, ok: bool }
  var at: int
  var who: str
  var verdicts: List[Verdict]

  pure def has(k: str, n: str): bool = REC.get(k).keys().contains(n)
  pure def con(k: str, n: str): List[int] = REC.get(k).get(n)
  // a statement about a constant that is only made when the library stores it
  pure def when(k: str, n: str, cond: (List[int]) => bool): List[Verdict] =
    if (has(k, n)) [{ name: n, ok: cond(con(k, n)) }] else []
  pure def judge(n: str, c: bool): List[Verdict] = [{ name: n, ok: c }]
  pure def cat(ls: List[List[Verdict]]): List[Verdict] = ls.foldl([], (a, l) => a.concat(l))

  pure def legendre(a: int, p: int): int = powmod(a, (p - 1) / 2, p)
  pure val ODD = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227, 229, 233, 239, 241, 251]

  pure def common(k: str, p: int): List[Verdict] = cat([
    when(k, "field.modulus", v => v == [p]), when(k, "arith.modulus", v => v == [p]), when(k, "ext.modulus", v => v == [p]),
    when(k, "field.modulus_bits", v => v == [bitlen(p)]), when(k, "arith.modulus_bits", v => v == [bitlen(p)]), when(k, "ext.modulus_bits", v => v == [bitlen(p)]),
    when(k, "field.number_bits", v => v == [bitlen(p)])
  ])
  pure def primeField(k: str): List[Verdict] = {
    val p = publishedModulus(k)
    val words = (bitlen(p) + 63) / 64
    val s = if (has(k, "arith.s")) con(k, "arith.s")[0] else twos(p - 1)
    cat([
      common(k, p),
      judge("prime", isPrime(con(k, "field.modulus")[0])),
      if (SAFE.contains(k)) judge("safe prime", isPrime((con(k, "field.modulus")[0] - 1) / 2)) else [],
      when(k, "field.value_bits", v => v == [bitlen(p)]), when(k, "field.arity", v => v == [1]),
      when(k, "field.group_order_minus_one_half", v => v == [(p - 1) / 2]),
      when(k, "arith.group_order_minus_one_half", v => v == [(p - 1) / 2]),
      when(k, "arith.group_order", v => v == [(p - 1) / 2]),
      when(k, "arith.s", v => v == [twos(p - 1)]),
      when(k, "arith.t", v => v == [(p - 1) / 2^twos(p - 1)]),
      when(k, "arith.t_minus_1_over_2", v => v == [((p - 1) / 2^twos(p - 1) - 1) / 2]),
      when(k, "arith.root_of_unity", v => v[0] > 0 and v[0] < p and powmod(v[0], 2^(s - 1), p) == p - 1),
      when(k, "arith.multiplicative_generator", v => and { v[0] > 0, v[0] < p, legendre(v[0], p) == p - 1,
        ODD.foldl(true, (ok, q) => ok and or { (p - 1) % q != 0, powmod(v[0], (p - 1) / q, p) != 1 }) }),
      when(k, "arith.nqr", v => legendre(v[0], p) == p - 1),
      when(k, "arith.nqr_to_t", v => v[0] == powmod(con(k, "arith.nqr")[0], (p - 1) / 2^s, p)),
      when(k, "arith.Rsquared", v => v[0] == powmod(2, 128 * words, p)),
      when(k, "arith.Rcubed", v => v[0] == powmod(2, 192 * words, p)),
      when(k, "arith.arithmetic_generator", v => v[0] % p != 0),
      when(k, "arith.geometric_generator", v => v[0] % p > 1)
    ])
  }
  pure def extension(k: str): List[Verdict] = {
    val spec = TOWERS.get(k)
    val L = below(spec)
    val T = build(k)
    val p = T.p
    val n = spec.levels[spec.levels.length() - 1].n
    val nr = modp_(spec.levels[spec.levels.length() - 1].nr, p)
    val q = p^T.dim
    val s = twos(q - 1)
    val e = spec.nr.length()      // dimension of the stored coefficients
    val roots = n == 2 and T.dim == 2 or n == 3 and T.dim == 3       // the fields with a square root
    // X^(m p^i) = c X^m: the coefficient the library stores
    val images = frobs(T, unit(T.dim, L.dim), 12)
    val images2 = if (n == 3) frobs(T, unit(T.dim, 2 * L.dim), 12) else []
    val c1 = range(0, T.dim).foldl([], (a, i) => a.concat(block(images[i], L.dim, 1).slice(0, e)))
    val c2 = if (n == 3) range(0, T.dim).foldl([], (a, i) => a.concat(block(images2[i], L.dim, 2).slice(0, e))) else []
    cat([
      common(k, p),
      when(k, "field.arity", v => v == [T.dim]),
      judge("irreducible", pow(L, nr, (p^L.dim - 1) / n) != one(L)),
      when(k, "ext.non_residue", v => v == modp_(spec.nr, p)),
      when(k, "ext.Frobenius_coeffs_c1", v => v == c1),
      when(k, "ext.Frobenius_coeffs_c2", v => v == c2),
      if (not(roots)) [] else cat(["ext", "arith"].foldl([], (a, sec) => a.append(if (sec == "ext") cat([
        when(k, "ext.s", v => v == [s]), when(k, "ext.t", v => v == [(q - 1) / 2^s]), when(k, "ext.t_minus_1_over_2", v => v == [((q - 1) / 2^s - 1) / 2]),
        when(k, "ext.nqr", v => not(isSquare(T, v))),
        when(k, "ext.nqr_to_t", v => v == pow(T, con(k, "ext.nqr"), (q - 1) / 2^s)),
        when(k, "ext.group_order_minus_one_half", v => v == [(q - 1) / 2])
      ]) else cat([
        when(k, "arith.s", v => v == [s]), when(k, "arith.t", v => v == [(q - 1) / 2^s]), when(k, "arith.t_minus_1_over_2", v => v == [((q - 1) / 2^s - 1) / 2]),
        when(k, "arith.nqr", v => not(isSquare(T, v))),
        when(k, "arith.nqr_to_t", v => v == pow(T, con(k, "arith.nqr"), (q - 1) / 2^s)),
        when(k, "arith.group_order", v => v == [(q - 1) / 2]),
        // where the parameters of the extension do not define it, the base field's is inherited
        when(k, "arith.group_order_minus_one_half", v => v == [(q - 1) / 2] or v == [(p - 1) / 2])
      ]))))
    ])
  }
  // the SRP and Diffie-Hellman groups are built on safe primes
  pure val SAFE = Set("ffdhe_ietf_2048", "ffdhe_ietf_3072", "ffdhe_ietf_4096", "ffdhe_ietf_6144", "ffdhe_ietf_8192",
    "modp_ietf_1024", "modp_ietf_1536", "modp_ietf_2048", "modp_ietf_3072", "modp_ietf_4096", "modp_ietf_6144", "modp_ietf_8192",
    "modp_srp_1024", "modp_srp_1536", "modp_srp_2048", "modp_srp_3072", "modp_srp_4096", "modp_srp_6144", "modp_srp_8192")

  pure def verdictsOf(k: str): List[Verdict] = if (TOWERS.keys().contains(k)) extension(k) else primeField(k)
  action init = all { at' = 0, who' = "none", verdicts' = [] }
  action step = all {
    at < KEYS.length(),
    at' = at + 1,
    who' = KEYS[at],
    verdicts' = verdictsOf(KEYS[at])
  }
}
