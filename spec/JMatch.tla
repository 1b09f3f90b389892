------------------------------- MODULE JMatch -------------------------------
(***************************************************************************)
(* Comparison of a predicted tree with an observed one.                    *)
(*                                                                         *)
(* An observed node is <<tag, text, children>>, or                         *)
(* <<tag, text, children, attributes, tail>> if it has attributes or       *)
(* (inside embedded XML) text after it.                                    *)
(* Children with different names may come in any order, the order among    *)
(* children of the same name matters.  Embedded XML is compared strictly.  *)
(* The result is a sequence of differences <<path, expected, observed>>.   *)
(***************************************************************************)
EXTENDS JReport

Same == <<>>
Clip(s) == IF Len(s) > 60 THEN SubSeq(s, 1, 57) \o "..." ELSE s

---------------------------------------------------------------------------
\* Decimal texts
DigitVal == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4)
         @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
Digits == DOMAIN DigitVal

RECURSIVE DigitRun(_, _)
\* first position at or after i that is not a digit
DigitRun(s, i) == IF i > Len(s) \/ SubSeq(s, i, i) \notin Digits THEN i ELSE DigitRun(s, i + 1)

RECURSIVE NFromDigits(_, _, _, _)
NFromDigits(s, i, j, acc) ==        \* characters i .. j
    IF i > j THEN acc
    ELSE NFromDigits(s, i + 1, j, NAdd(NMulSmall(acc, 10), NFromInt(DigitVal[SubSeq(s, i, i)])))

\* [ok, neg, m, dec, e]: (-1)^neg * m / 10^dec * 10^e
ParseDec(s) ==
    LET n  == Len(s)
        neg == n > 0 /\ SubSeq(s, 1, 1) = "-"
        a  == IF neg THEN 2 ELSE 1
        b  == DigitRun(s, a)
        dot == b <= n /\ SubSeq(s, b, b) = "."
        c  == IF dot THEN DigitRun(s, b + 1) ELSE b
        ex == c <= n /\ SubSeq(s, c, c) \in {"e", "E"}
        d  == IF ex THEN (IF c < n /\ SubSeq(s, c + 1, c + 1) \in {"+", "-"} THEN c + 2 ELSE c + 1) ELSE c
        z  == IF ex THEN DigitRun(s, d) ELSE c
        ev == IF ex THEN ZToInt(<<FALSE, NFromDigits(s, d, z - 1, <<>>)>>) ELSE 0
    IN [ ok  |-> b > a /\ (dot => c > b + 1) /\ (ex => z > d) /\ z = n + 1 /\ ev <= 400,
         neg |-> neg,
         m   |-> NAdd(NMul(NFromDigits(s, a, b - 1, <<>>), NPow10(IF dot THEN c - b - 1 ELSE 0)),
                      IF dot THEN NFromDigits(s, b + 1, c - 1, <<>>) ELSE <<>>),
         dec |-> IF dot THEN c - b - 1 ELSE 0,
         e   |-> IF ex /\ SubSeq(s, c + 1, c + 1) = "-" THEN -ev ELSE ev ]

\* Is s the decimal rendering, with at most dec decimals, of q = <<neg, num, den, dec>>?
\* (half a unit of the last decimal, plus 2^-48 of the value for floating point)
IsRendering(s, q) ==
    LET v == ParseDec(s)
    IN /\ v.ok
       /\ v.e = 0 => v.dec <= q[4] \/ (v.dec = 1 /\ v.m = <<>>)
       /\ LET sh == v.e - v.dec                  \* v = m * 10^sh
              up == NPow10(Max2(0, sh))
              dn == NPow10(Max2(0, -sh))
              \* compare m * up * den with num * dn, unit 1 / (den * dn)
              lhs == Z(v.neg, NMul(NMul(v.m, up), q[3]))
              rhs == Z(q[1], NMul(q[2], dn))
              dif == ZSub(lhs, rhs)[2]
              unit == NMul(q[3], dn)
              p48 == NPow2(48)
              two == NMulSmall(NPow10(q[4]), 2)
          IN NLe(NMul(NMul(dif, two), p48), NAdd(NMul(unit, p48), NMul(NMul(rhs[2], two), <<1>>)))

---------------------------------------------------------------------------
OAttrs(o) == IF Len(o) >= 5 THEN {<<o[4][i][1], o[4][i][2]>> : i \in 1..Len(o[4])} ELSE {}
OTail(o)  == IF Len(o) >= 5 THEN o[5] ELSE ""

Idx(tag, k, n) == IF n <= 1 THEN tag ELSE tag \o "[" \o ToString(k) \o "]"

RECURSIVE DiffNode(_, _, _, _), DiffKids(_, _, _, _), DiffXml(_, _, _)

\* lax: list of failing tests only, tests the specification leaves open may be absent
DiffNode(p, o, path, lax) ==
    CASE p[2] = "any" -> Same
      [] p[2] = "x"   -> DiffXml(p, o, path)
      [] p[2] = "q"   -> IF o[3] = <<>> /\ Len(o) = 3 /\ IsRendering(o[2], p[3]) THEN Same
                         ELSE << <<path, "rendering of " \o (IF p[3][1] THEN "-" ELSE "") \o NStr(p[3][2])
                                          \o "/" \o NStr(p[3][3]), o[2]>> >>
      [] OTHER ->
           (IF p[3] # o[2] THEN << <<path, p[3], o[2]>> >> ELSE Same)
           \o (IF Len(o) # 3 THEN << <<path, "no attributes", "attributes">> >> ELSE Same)
           \o DiffKids(p[4], o[3], path, lax)

DiffKids(ps, os, path, lax) ==
    IF \E i \in 1..Len(ps) : ps[i][1] = "*" THEN Same
    ELSE IF ps = <<>> /\ os = <<>> THEN Same
    ELSE LET tags == SetToSeq({ps[i][1] : i \in 1..Len(ps)} \cup {os[i][1] : i \in 1..Len(os)})
             group(tag) ==
                LET pk == SelectSeq(ps, LAMBDA n : n[1] = tag)
                    ok == SelectSeq(os, LAMBDA n : n[1] = tag)
                    here == path \o "/" \o tag
                IN IF Len(pk) # Len(ok)
                   THEN (IF lax /\ \E i \in 1..Len(pk) : Unsure(pk[i]) THEN Same
                         ELSE << <<here, "count " \o ToString(Len(pk)), "count " \o ToString(Len(ok))>> >>)
                   ELSE Flat([k \in 1..Len(pk) |-> DiffNode(pk[k], ok[k], path \o "/" \o Idx(tag, k, Len(pk)), lax)])
         IN Flat([i \in 1..Len(tags) |-> group(tags[i])])

\* p[3] = <<num, den, tn, td>>: a whole number within tn/td of num/den (and 2^-48 of the value)
IsNear(s, v) ==
    LET n == IF DigitRun(s, 1) = Len(s) + 1 /\ s # "" THEN NFromDigits(s, 1, Len(s), <<>>) ELSE <<>>
        a == NMul(n, v[2])
        dif == IF NLe(a, v[1]) THEN NSub(v[1], a) ELSE NSub(a, v[1])
        p48 == NPow2(48)
    IN /\ s # "" /\ DigitRun(s, 1) = Len(s) + 1
       /\ NLe(NMul(NMulSmall(dif, v[4]), p48),
              NAdd(NMul(NMulSmall(v[2], v[3]), p48), NMulSmall(v[1], v[4])))

DiffXml(p, o, path) ==
  IF p[2] = "any" THEN (IF p[1] = o[1] THEN Same ELSE << <<path, "element " \o p[1], "element " \o o[1]>> >>)
  ELSE IF p[2] = "near" THEN
    (IF p[1] = o[1] /\ o[3] = <<>> /\ OAttrs(o) = {} /\ IsNear(o[2], p[3]) THEN Same
     ELSE << <<path, "element " \o p[1] \o " near " \o NStr(p[3][1]) \o "/" \o NStr(p[3][2]), o[1] \o " " \o o[2]>> >>)
  ELSE
    (IF p[1] # o[1] THEN << <<path, "element " \o p[1], "element " \o o[1]>> >> ELSE Same)
    \o (IF p[3][1] # o[2] THEN << <<path, p[3][1], o[2]>> >> ELSE Same)
    \o (IF p[3][2] # OAttrs(o) THEN << <<path, "attributes " \o ToString(p[3][2]), ToString(OAttrs(o))>> >> ELSE Same)
    \o (IF p[3][3] # OTail(o) THEN << <<path, "text after it " \o p[3][3], OTail(o)>> >> ELSE Same)
    \o (IF Len(p[4]) # Len(o[3])
        THEN << <<path, ToString(Len(p[4])) \o " elements", ToString(Len(o[3])) \o " elements">> >>
        ELSE Flat([i \in 1..Len(p[4]) |-> DiffXml(p[4][i], o[3][i], path \o "/" \o p[4][i][1])]))
=============================================================================
