#!/usr/bin/env python3
"""check.py <property> [quick|thorough] - decides one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf, linalg, curves, fields, ncurves, multiexp, pairing, codec, randoms, words, typeclass, primes, h2c, printing, consteval
CHECKS = {"V01": linalg.v01, "M01": linalg.m01, "M02": linalg.m02, "M03": linalg.m03, "S01": linalg.s01}
CHECKS.update(curves.CHECKS)
CHECKS.update(fields.CHECKS)
CHECKS.update(ncurves.CHECKS)
CHECKS.update(multiexp.CHECKS)
CHECKS.update(pairing.CHECKS)
CHECKS.update(codec.CHECKS)
CHECKS.update(randoms.CHECKS)
CHECKS.update(words.CHECKS)
CHECKS.update(typeclass.CHECKS)
CHECKS.update(primes.CHECKS)
CHECKS.update(h2c.CHECKS)
CHECKS.update(printing.CHECKS)
CHECKS.update(consteval.CHECKS)
vf.main(CHECKS)
