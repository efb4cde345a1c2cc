----------------------------- MODULE KindTable ------------------------------
(* What the library's own types are, and so what its classifiers must say of  *)
(* them.  The wrapper part walks chains of std::complex around a scalar type.  *)
EXTENDS LinAlg
CONSTANTS Kinds       \* set of kinds to be tabulated
VARIABLES done
Number == <<<<"is_complex", FALSE>>, <<"remove_complex", FALSE>>, <<"is_field_element", FALSE>>, <<"is_group_element", FALSE>>, <<"is_iterator", FALSE>>>>
Complex == <<<<"is_complex", TRUE>>, <<"remove_complex", TRUE>>, <<"is_field_element", FALSE>>, <<"is_iterator", FALSE>>>>
\* what the compile-time assertions of detail/assert.hpp let pass
Asserts(f, i, v, a, r, c) == <<<<"assert_FLOATING_POINT", f>>, <<"assert_INTEGRAL", i>>, <<"assert_VALID_COMPLEX", v>>,
                               <<"assert_ARITHMETIC", a>>, <<"assert_REAL", r>>, <<"assert_COMPLEX", c>>>>
Says(kind) ==
  CASE kind = "prime_field" -> <<<<"is_field", TRUE>>, <<"is_extended_field", FALSE>>, <<"is_curve", FALSE>>, <<"is_curve_group", FALSE>>, <<"is_field_element", FALSE>>, <<"is_extended_field_element", FALSE>>, <<"is_group_element", FALSE>>>>
    [] kind = "extension_field" -> <<<<"is_field", TRUE>>, <<"is_extended_field", TRUE>>, <<"is_curve", FALSE>>, <<"is_curve_group", FALSE>>, <<"is_field_element", FALSE>>, <<"is_extended_field_element", FALSE>>, <<"is_group_element", FALSE>>>>
    [] kind = "pairing_curve" -> <<<<"is_curve", TRUE>>, <<"is_field", FALSE>>, <<"is_extended_field", FALSE>>, <<"is_curve_group", FALSE>>, <<"is_group_element", FALSE>>, <<"is_field_element", FALSE>>>>
    [] kind = "plain_curve" -> <<<<"is_field", FALSE>>, <<"is_extended_field", FALSE>>, <<"is_curve_group", FALSE>>, <<"is_group_element", FALSE>>, <<"is_field_element", FALSE>>>>
    [] kind = "group" -> <<<<"is_curve_group", TRUE>>, <<"is_field", FALSE>>, <<"is_extended_field", FALSE>>, <<"is_curve", FALSE>>, <<"is_group_element", FALSE>>, <<"is_field_element", FALSE>>>>
    [] kind = "g1_point" -> <<<<"is_group_element", TRUE>>, <<"is_g1_group_element", TRUE>>, <<"is_g2_group_element", FALSE>>, <<"is_field_element", FALSE>>, <<"is_extended_field_element", FALSE>>, <<"is_field", FALSE>>>>
    [] kind = "g2_point" -> <<<<"is_group_element", TRUE>>, <<"is_g1_group_element", FALSE>>, <<"is_g2_group_element", TRUE>>, <<"is_field_element", FALSE>>, <<"is_extended_field_element", FALSE>>, <<"is_field", FALSE>>>>
    [] kind = "plain_point" -> <<<<"is_group_element", TRUE>>, <<"is_g1_group_element", TRUE>>, <<"is_field_element", FALSE>>, <<"is_extended_field_element", FALSE>>, <<"is_field", FALSE>>>>
    [] kind = "prime_element" -> <<<<"is_field_element", TRUE>>, <<"is_extended_field_element", FALSE>>, <<"is_group_element", FALSE>>, <<"is_field", FALSE>>, <<"is_complex", FALSE>>>>
    [] kind = "extension_element" -> <<<<"is_field_element", TRUE>>, <<"is_extended_field_element", TRUE>>, <<"is_group_element", FALSE>>, <<"is_field", FALSE>>>>
    [] kind = "integer" -> Number \o Asserts(FALSE, TRUE, TRUE, TRUE, TRUE, FALSE)
    [] kind = "real" -> Number \o Asserts(TRUE, FALSE, TRUE, TRUE, TRUE, FALSE)
    [] kind = "complex_number" -> Complex \o Asserts(TRUE, FALSE, TRUE, TRUE, FALSE, TRUE)
    [] kind = "complex_integer" -> Complex \o Asserts(FALSE, FALSE, FALSE, FALSE, FALSE, FALSE)
    [] kind = "no_number" -> Asserts(FALSE, FALSE, TRUE, FALSE, FALSE, FALSE)
    [] kind = "container" -> <<<<"is_range", TRUE>>, <<"is_container", TRUE>>, <<"is_iterator", FALSE>>, <<"is_hash", FALSE>>, <<"is_mac", FALSE>>, <<"is_codec", FALSE>>, <<"is_complex", FALSE>>>>
    [] kind = "iterator" -> <<<<"is_iterator", TRUE>>, <<"is_range", FALSE>>, <<"is_container", FALSE>>>>
    [] kind = "plain" -> <<<<"is_iterator", FALSE>>, <<"is_range", FALSE>>, <<"is_container", FALSE>>, <<"is_hash", FALSE>>, <<"is_mac", FALSE>>, <<"is_kdf", FALSE>>, <<"is_codec", FALSE>>, <<"is_block_cipher", FALSE>>, <<"is_passhash", FALSE>>, <<"is_field", FALSE>>, <<"is_curve", FALSE>>, <<"is_complex", FALSE>>>>
Init == done = {}
Next == \E k \in Kinds \ done : done' = done \cup {k} /\ Cardinality(done') = 1 /\ Emit("kind", <<>>, k, Says(k))
Spec == Init /\ [][Next]_done
\* arithmetic types are the reals and the complex numbers over a floating-point type; nothing is both
Answer(kind, q) == \E i \in 1..Len(Says(kind)) : Says(kind)[i] = <<q, TRUE>>
Asked(kind) == \E i \in 1..Len(Says(kind)) : Says(kind)[i][1] = "assert_REAL"
AssertsAgree == \A k \in Kinds : Asked(k) =>
   /\ Answer(k, "assert_ARITHMETIC") = (Answer(k, "assert_REAL") \/ Answer(k, "assert_COMPLEX"))
   /\ ~(Answer(k, "assert_REAL") /\ Answer(k, "assert_COMPLEX"))
   /\ Answer(k, "assert_INTEGRAL") => Answer(k, "assert_REAL") /\ ~Answer(k, "assert_FLOATING_POINT")
   /\ Answer(k, "assert_COMPLEX") => Answer(k, "is_complex") /\ Answer(k, "assert_VALID_COMPLEX") /\ Answer(k, "assert_FLOATING_POINT")
OneAnswer == \A k \in Kinds : \A i, j \in 1..Len(Says(k)) : Says(k)[i][1] = Says(k)[j][1] => i = j
==============================================================================
