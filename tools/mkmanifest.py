#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks registered here, every other property under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "TLA+ specification, TLC exhaustive; every exported transition replayed into the library"
QNT = "Quint specification, simulated with bigints; every transition replayed into the library"
BOTH = "TLA+ (TLC exhaustive) and Quint specifications; transitions replayed into the library"
C = {
 "V01": (TLA, "Exhaustive over small workspaces and histories for six element types, one of them a prime field; lengths (to 12) and value ranges are bounded."),
 "M01": (TLA, "Exhaustive over operations and shapes up to 4x4, with ten larger ones to 6x6, with distinguishable entries; six element types."),
 "M02": (TLA, "Exhaustive over compatible shapes up to 4x4, ten larger ones to 6x6, and short chains; exact integer, Gaussian-integer and prime-field arithmetic."),
 "M03": (TLA, "The elimination algorithm is specified step by step over exact rationals and checked by TLC; results replayed in float and double at many scales. Judges up to rounding; no claim for ill-conditioned matrices."),
 "S01": (QNT, "Exact dyadic oracle; randomly simulated arguments, so exploration rather than exhaustion; watchdog decides termination."),
 "G01": (BOTH, "TLC builds the complete group of every toy curve listed (all curves over several prime and quadratic fields), checks the group laws on the model and exports complete tables; every representative tuple is replayed through the real formula templates. Toy fields stand for the named ones: the formulas are field-generic. Quint then walks the 26 named groups at their real sizes and every step is replayed."),
 "G02": (BOTH, "TLC builds the complete group of every toy curve listed (all curves over several prime and quadratic fields), checks the group laws on the model and exports complete tables; every representative tuple is replayed through the real formula templates. Toy fields stand for the named ones: the formulas are field-generic. Quint then walks the 26 named groups at their real sizes and every step is replayed."),
 "G03": (BOTH, "TLC builds the complete group of every toy curve listed (all curves over several prime and quadratic fields), checks the group laws on the model and exports complete tables; every representative tuple is replayed through the real formula templates. Toy fields stand for the named ones: the formulas are field-generic. Quint then walks the 26 named groups at their real sizes and every step is replayed."),
 "G04": (BOTH, "TLC builds the complete group of every toy curve listed (all curves over several prime and quadratic fields), checks the group laws on the model and exports complete tables; every representative tuple is replayed through the real formula templates. Toy fields stand for the named ones: the formulas are field-generic. Quint then walks the 26 named groups at their real sizes and every step is replayed."),
 "F01": (BOTH, "TLC builds complete small towers (F_p, F_p2, F_p3, F_p4, F_p6, F_p12) from their definitions, proves them fields on the model and exports operation tables (all operands for small fields, seeded walks in the large ones); each tuple is replayed through the real element templates instantiated over a toy prime field. Quint walks the named fields at their real sizes (random operands, bigint oracle) and replays every step."),
 "F02": (BOTH, "TLC builds complete small towers (F_p, F_p2, F_p3, F_p4, F_p6, F_p12) from their definitions, proves them fields on the model and exports operation tables (all operands for small fields, seeded walks in the large ones); each tuple is replayed through the real element templates instantiated over a toy prime field. Quint walks the named fields at their real sizes (random operands, bigint oracle) and replays every step."),
 "F03": (BOTH, "TLC builds complete small towers (F_p, F_p2, F_p3, F_p4, F_p6, F_p12) from their definitions, proves them fields on the model and exports operation tables (all operands for small fields, seeded walks in the large ones); each tuple is replayed through the real element templates instantiated over a toy prime field. Quint walks the named fields at their real sizes (random operands, bigint oracle) and replays every step."),
 "F04": (BOTH, "TLC builds complete small towers (F_p, F_p2, F_p3, F_p4, F_p6, F_p12) from their definitions, proves them fields on the model and exports operation tables (all operands for small fields, seeded walks in the large ones); each tuple is replayed through the real element templates instantiated over a toy prime field. Quint walks the named fields at their real sizes (random operands, bigint oracle) and replays every step."),
 "X01": (BOTH, "TLC explores every collection of terms over small Z_N and the subtractive reduction itself; every collection is replayed through every method and chunk count. Quint walks long collections over Z_65521 and sums over the named groups."),
 "X02": (BOTH, "TLC enumerates window and scalar sizes, bases, coefficients over small Z_N; Quint walks wide windows over Z_65521 and full-size windows over the named groups."),
 "G05": ("Quint specification with bigints judging every curve parameter dumped from the compiled library", "PublishedCurves.qnt restates the published parameters; CurveConstants.qnt derives what they must satisfy (on curve, order, cofactor, maps). Complete over the 26 named groups that compile."),
 "P01": (QNT, "The target group is modelled by exponents of the pairing of the generators; points travel with their discrete logarithms. Random points, scalars and representatives at real sizes on the four curves whose pairing compiles."),
 "P02": (QNT, "Miller loops, precomputations and the final exponentiation taken apart, at real sizes; the stored parameters are judged by PairingConstants.qnt."),
 "K01": (QNT, "PointCodec.qnt restates the octet formats; walks over points in and out of the subgroup and over elements of eleven fields. The stand-in supplies import_bits and export_bits."),
 "R01": ("Quint specifications: scripted draws replayed into the library, and histories of draws recorded from the library judged by the specification", "Scripted distributions for prime and extension fields; recorded histories of draws from fields and all groups with the library's own distribution."),
 "F05": ("Quint specification with bigints judging every constant dumped from the compiled library", "Constants.qnt restates moduli and towers from their publications and derives every stored constant; complete over the 84 named fields that compile. Primality by Miller-Rabin."),
 "N01": (BOTH, "TLC visits every number up to a bound, every product of given primes and walks along prime progressions, with primes and coprimes straight from the definition; Quint walks products of large primes. Randomised library calls are judged by what any result must satisfy."),
 "H01": (QNT, "HashToCurve.qnt restates RFC 9380's maps and checks on the model that the isogeny is a homomorphism onto the curve and agrees with the RFC's vectors; walks over field elements and points, kernel and poles included."),
 "D01": (TLA, "Every 8-bit word and patterns of the wider ones, every shift count, short histories; words are bit sequences in the specification."),
 "O01": (TLA, "A writer unfolding values token by token and an independent reader automaton, checked against each other by TLC over every printable type; every text is compared with the library's (white space aside). Hashed containers as sets with their full small state space."),
 "T01": (TLA, "Types are generated member by member by TLC (present, missing, spoilt, inherited) and each becomes a C++ type the classifiers are asked about; the library's own types by a table of kinds."),
 "C01": (BOTH.replace("replayed into the library", "written out as static assertions and replayed into the compiler's constant evaluator of the library"), "Transitions of the machines of V01, M01-M03, S01, F01-F04 and G01-G04 (sampled per operation, entry type and coordinate system) decided by clang's constant evaluator, which also rejects undefined behaviour; toy fields and curves only. The dodecic extension, pairing and encodings are not declared constexpr."),
}
LEVEL = {}
NA = {}
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "mkdir -p build evidence replay",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                 "technique": C[p][0], "level": LEVEL.get(p, "model_checking"), "level_note": C[p][1]} for p in props if p in C],
     "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p not in C],
     "notes": "No hooks: everything observed is public API. The headers that need the absent crypto3-multiprecision are compiled against the stand-in in shim/ (see DESIGN.md)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
