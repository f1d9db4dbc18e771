------------------------------ MODULE Bundles ------------------------------
(* Observed bundles: what C03 and C04 say about every bundle seen.           *)
(* A bundle record is [bad, said, facts, objs, dig, v, len]; `dig` is the    *)
(* digest of the serialized object with its identifier blanked.              *)
EXTENDS OcaContent, OcaRule

Facts(script, i) == IF i = 0 THEN {<<"junk", "none">>} ELSE ToSet(script.bundles[i].facts)

HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Hex(_, _)
Hex(n, k) == IF k = 0 THEN "" ELSE Hex(n \div 16, k - 1) \o HexDigit[(n % 16) + 1]
Version(len) == "OCAS11JSON" \o Hex(len, 6) \o "_"

\* C03: identifiers are digests of the objects that carry them
SaidProblems(b) ==
    (IF b.bad THEN {"unreadable"} ELSE {})
    \cup (IF b.said = b.dig /\ b.said # "" THEN {} ELSE {"bundle-said"})
    \cup (IF \A i \in DOMAIN b.objs : b.objs[i].said = b.objs[i].dig /\ b.objs[i].said # "" THEN {} ELSE {"object-said"})
    \cup (IF \A i \in DOMAIN b.objs : b.objs[i].cb = b.objs[1].said THEN {} ELSE {"overlay-link"})
    \cup (IF b.v = Version(b.len) THEN {} ELSE {"version-length"})

\* the objects of a bundle are those its content prescribes, once each
ObjectProblems(b) ==
    LET F == ToSet(b.facts) IN
    (IF \E f \in F : f[1] = "junk" THEN {"junk"} ELSE {})
    \cup (IF {<<b.objs[i].kind, b.objs[i].sub>> : i \in DOMAIN b.objs} = Keys(F) THEN {} ELSE {"objects"})
    \cup (IF Len(b.objs) = Cardinality(Keys(F)) THEN {} ELSE {"duplicate-object"})
    \cup (IF \A i \in DOMAIN b.objs : ToSet(b.objs[i].f) = OfKey(F, <<b.objs[i].kind, b.objs[i].sub>>) THEN {} ELSE {"object-content"})

\* C04: identifiers and contents correspond one to one
BundleTable(log) == UNION {{<<log[s].bundles[i].said, ToSet(log[s].bundles[i].facts)>> : i \in DOMAIN log[s].bundles} : s \in DOMAIN log}
ObjectTable(log) ==
    UNION {UNION {LET b == log[s].bundles[i]  cbf == ToSet(b.objs[1].f) IN
                  {<<b.objs[j].said, <<b.objs[j].kind, b.objs[j].sub, ToSet(b.objs[j].f), cbf>>>> : j \in DOMAIN b.objs}
                  : i \in DOMAIN log[s].bundles} : s \in DOMAIN log}
OneToOne(T) == Cardinality({p[1] : p \in T}) = Cardinality(T) /\ Cardinality({p[2] : p \in T}) = Cardinality(T)
TableProblems(log) ==
    (IF OneToOne(BundleTable(log)) THEN {} ELSE {"table-bundle"})
    \cup (IF OneToOne(ObjectTable(log)) THEN {} ELSE {"table-object"})
=============================================================================
