// The octet format of BLS12-381 points (draft-irtf-cfrg-pairing-friendly-curves, appendix C) and the
// octets of field elements.  Octet strings travel as the integers they are, most significant octet
// first, together with their length.
//   point: C | I | S flags in the top three bits; x (and y when not compressed) big-endian in 48 octets
//   per coefficient, the coefficient of u before the constant one; the point at infinity is all zero.
//   field: every coefficient little-endian in the least number of octets that holds the modulus, the
//   coefficients in order.
module PointCodec {
  import TowerQ.* from "./TowerQ"
  import CurveQ.* from "./CurveQ"

  pure val W = 2^384
  // the larger of y and -y, judged by its most significant non-zero coefficient
  pure def larger(T: Tower, y: List[int]): bool = {
    val h = (T.p - 1) / 2
    range(0, T.dim).foldl(false, (s, i) => if (y[i] == 0) s else y[i] > h)
  }
  pure def word(x: List[int]): int = range(0, x.length()).foldl(0, (a, i) => a * W + x[x.length() - 1 - i])
  pure def lengthOf(T: Tower, compress: bool): int = 48 * T.dim * (if (compress) 1 else 2)
  pure def encode(C: Curve, P: Point, compress: bool): int = {
    val T = C.T
    val top = 2^(8 * lengthOf(T, compress) - 3)
    val c = if (compress) 4 * top else 0
    if (P == []) c + 2 * top
    else if (compress) c + (if (larger(T, P[1])) top else 0) + word(P[0])
    else word(P[1].concat(P[0]))
  }
  // a field element, as the integer read off its octets most significant first
  pure def octets(p: int): int = (bitlen(p) + 7) / 8
  pure def little(v: int, n: int): int = range(0, n).foldl({ v: v, o: 0 }, (s, _) => { v: s.v / 256, o: s.o * 256 + s.v % 256 }).o
  pure def spell(x: List[int], p: int): int = x.foldl(0, (a, v) => a * 256^octets(p) + little(v, octets(p)))
}
