------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Meaning of regular expressions over strings of code points.  An         *)
(* expression is one of                                                    *)
(*   <<"lit", c>>  <<"any">> (anything but a line feed)                    *)
(*   <<"cls", negated, <<lo, hi>>, ...>>                                   *)
(*   <<"cat", r...>>  <<"alt", r...>>  <<"rep", r, min, max>> (max 0: oo)  *)
(* Ends(r, s, i) is the set of positions at which a match of r that starts *)
(* before s[i] can end.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

RECURSIVE Ends(_, _, _), CatEnds(_, _, _, _), RepFix(_, _, _, _), Closure(_, _, _)

CatEnds(r, k, s, I) ==
  IF k > Len(r) THEN I ELSE CatEnds(r, k + 1, s, UNION {Ends(r[k], s, i) : i \in I})

\* all positions reachable from I by any number of repetitions
Closure(r, s, I) ==
  LET J == I \cup UNION {Ends(r, s, i) : i \in I} IN IF J = I THEN I ELSE Closure(r, s, J)

RepFix(r, n, s, I) == IF n = 0 THEN I ELSE RepFix(r, n - 1, s, UNION {Ends(r, s, i) : i \in I})

Ends(r, s, i) ==
  CASE r[1] = "lit" -> IF i <= Len(s) /\ s[i] = r[2] THEN {i + 1} ELSE {}
    [] r[1] = "any" -> IF i <= Len(s) /\ s[i] # 10 THEN {i + 1} ELSE {}
    [] r[1] = "cls" -> IF i <= Len(s) /\ (\E k \in 3..Len(r) : r[k][1] <= s[i] /\ s[i] <= r[k][2]) # r[2] THEN {i + 1} ELSE {}
    [] r[1] = "cat" -> CatEnds(r, 2, s, {i})
    [] r[1] = "alt" -> UNION {Ends(r[k], s, i) : k \in 2..Len(r)}
    [] r[1] = "rep" -> IF r[4] = 0 THEN Closure(r[2], s, RepFix(r[2], r[3], s, {i}))
                       ELSE UNION {RepFix(r[2], n, s, {i}) : n \in r[3]..r[4]}

FullMatch(r, s) == (Len(s) + 1) \in Ends(r, s, 1)
=============================================================================
