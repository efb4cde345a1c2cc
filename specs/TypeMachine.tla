---------------------------- MODULE TypeMachine -----------------------------
(* The type classifiers of the library decide what generic code accepts, so   *)
(* what they answer has to be what the type offers.  A type is built here     *)
(* member by member, starting from an empty or from a complete one: a member  *)
(* is added, dropped, spoilt (same name, another kind of thing), written as a *)
(* template, or all of them come from a base class.  Whatever the route, a    *)
(* classifier says yes exactly when every member it stands for is there.      *)
EXTENDS LinAlg
CONSTANTS Families, Depth
VARIABLES fam, f, base, h
vars == <<fam, f, base, h>>

Req(t) ==
  CASE t = "is_field" -> {"value_type", "value_bits", "integral_type", "modulus_bits", "modular_type", "arity"}
    [] t = "is_extended_field" -> {"value_type", "value_bits", "integral_type", "modulus_bits", "modular_type", "extension_policy"}
    [] t = "is_curve" -> {"base_field_type", "scalar_field_type", "g1_type", "g2_type", "gt_type"}
    [] t = "is_curve_group" -> {"value_type", "field_type", "value_bits", "curve_type"}
    [] t = "is_group_element" -> {"field_type", "group_type", "zero", "one", "is_zero", "is_well_formed", "double_inplace"}
    [] t = "has_mixed_add" -> {"mixed_add"}
    [] t = "is_codec" -> {"encoded_value_type", "encoded_value_bits", "decoded_value_type", "decoded_value_bits",
                          "encoded_block_type", "encoded_block_bits", "decoded_block_type", "decoded_block_bits", "encode", "decode"}
    [] t = "is_block_cipher" -> {"word_type", "word_bits", "block_type", "block_bits", "key_type", "key_bits", "rounds", "encrypt", "decrypt"}
    [] t = "is_hash" -> {"digest_type", "digest_bits", "construction_type", "construction_params"}
    [] t = "is_mac" -> {"digest_type", "digest_bits", "block_type", "block_bits", "key_type", "key_bits"}
    [] t = "is_kdf" -> {"digest_type", "digest_bits", "key_type", "max_key_bits", "min_key_bits"}
    [] t = "is_passhash" -> {"generate", "check"}
    [] t = "is_range" -> {"iterator", "const_iterator", "begin", "end"}
    [] t = "is_container" -> {"iterator", "const_iterator", "begin", "end"}
Algebra == {"is_field", "is_extended_field", "is_curve", "is_curve_group", "is_group_element", "has_mixed_add"}
Detail == {"is_codec", "is_block_cipher", "is_hash", "is_mac", "is_kdf", "is_passhash", "is_range", "is_container"}
(* members a family of types is built from, and the classifiers asked about it *)
Members(x) ==
  CASE x = "field" -> Req("is_field") \cup Req("is_extended_field")
    [] x = "curve" -> Req("is_curve")
    [] x = "group" -> Req("is_curve_group")
    [] x = "point" -> Req("is_group_element") \cup {"mixed_add"}
    [] x = "codec" -> Req("is_codec")
    [] x = "cipher" -> Req("is_block_cipher")
    [] x = "digest" -> Req("is_hash") \cup Req("is_mac") \cup Req("is_kdf")
    [] x = "passhash" -> Req("is_passhash")
    [] x = "range" -> Req("is_range")
InAlgebra(x) == x \in {"field", "curve", "group", "point"}
Asked(x) == IF InAlgebra(x) THEN Algebra ELSE Detail
Functions == {"zero", "one", "is_zero", "is_well_formed", "double_inplace", "mixed_add"}

Init == /\ h = 0 /\ fam \in Families /\ base = FALSE
        /\ \E v \in {"no", "ok"} : f = [m \in Members(fam) |-> v]

Go == h < Depth /\ h' = h + 1 /\ UNCHANGED fam
Set(m, v) == f[m] /= v /\ f' = [f EXCEPT ![m] = v] /\ UNCHANGED base
Spoilt == \E m \in DOMAIN f : f[m] = "wrong"
Next == Go /\
  \/ \E m \in DOMAIN f : \/ f[m] = "no" /\ Set(m, "ok")
                         \/ f[m] = "ok" /\ Set(m, "no")
                         \/ InAlgebra(fam) /\ ~Spoilt /\ f[m] = "ok" /\ Set(m, "wrong")
                         \/ m \in {"g1_type", "g2_type"} /\ f[m] = "ok" /\ Set(m, "tmpl")
  \/ ~base /\ base' = TRUE /\ fam /= "point" /\ UNCHANGED f
Spec == Init /\ [][Next]_vars

Yes(t) == \A m \in Req(t) : m \in DOMAIN f /\ f[m] \in {"ok", "tmpl"}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})
(* every reachable type is asked every question of its world *)
Export == Emit("type", <<fam, IF base THEN "base" ELSE "own">>,
               LET p == Listed({m \in DOMAIN f : f[m] /= "no"}) IN [i \in 1..Len(p) |-> <<p[i], f[p[i]]>>],
               LET q == Listed(Asked(fam)) IN [i \in 1..Len(q) |-> <<q[i], Yes(q[i])>>])
Laws ==
  /\ Yes("is_extended_field") /\ "arity" \in DOMAIN f /\ f["arity"] = "ok" => Yes("is_field")
  /\ Yes("is_container") = Yes("is_range")
  /\ \A t \in Asked(fam) : Yes(t) => Cardinality({m \in DOMAIN f : f[m] /= "no"}) >= Cardinality(Req(t))
Seen == Export
==============================================================================
