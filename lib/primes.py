"""N01: primes, factors, totients (TLA+ on definitions, Quint on large numbers)."""
import vf


def n01(c):
    c.assume = ["the stand-in for Boost.Multiprecision supplies Miller-Rabin, gcd and numbers modulo a run-time modulus",
                "next_prime/previous_prime are asked only where the progression holds such a prime",
                "factors other than the largest are below 2^25 (Pollard's method is exponential)"]
    t = c.thorough
    base = dict(Upto="6000" if t else "1200", ListUpto="900" if t else "300", Primes="{2,3,5,7,11,13,31,97,257,1021,4099,%s}" % ("16381,32749" if t else "32749"), Cap="1073741823",
                Depth="4" if t else "3", BitSet="1..18" if t else "{1,2,3,5,8,11,14,17}", StepSet="1..24" if t else "{1,2,3,4,6,7,12,16,30}")
    e, f, g = vf.parallel(lambda: c.build("primes", [("primes.cpp", [])], ["-lboost_random"]),
                          lambda: c.tlc("primes", "PrimeMachine", base, "primes.txt", ["Laws"], workers=4, timeout=800),
                          lambda: c.qcases("primes", "PrimeWalk.qnt", "PrimeWalk", "primewalk.txt", 200 if t else 40, 16 if t else 8, ["Sound"], timeout=800))
    c.replay(e, f, "definitions", shards=8, timeout=800)
    c.replay(e, g, "large numbers", shards=8, timeout=800)


CHECKS = {"N01": n01}
