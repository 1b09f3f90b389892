------------------------------- MODULE JSchema -------------------------------
(***************************************************************************)
(* Conformance of recorded documents to the published schema.              *)
(*                                                                         *)
(* The schema comes as data: element name -> type, where a type is         *)
(*   <<"text", name of the simple type, allowed texts, attributes>>        *)
(*   <<"elements", particle, attributes>>                                  *)
(* and a particle is <<kind, min, max, arg>>; kind "one" (arg: name),      *)
(* "any" (arg: "skip" or "lax"), "seq" or "choice" (arg: particles);       *)
(* max = -1 stands for any number.  Attributes: sequence of                *)
(* <<name, allowed texts (none: all), required>>.                          *)
(*                                                                         *)
(* A document is read element by element in document order: the machine    *)
(* judges the element at its place by its type and moves on, into its      *)
(* children unless they match a wildcard that skips them.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Book    == JsonDeserialize(IOEnv.JTRACE)
Docs    == Book.docs            \* [id, tree]
Decl    == Book.schema          \* [name |-> type]
Names   == DOMAIN Decl

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

---------------------------------------------------------------------------
\* Content models: positions after a match that starts at one of S
RECURSIVE Match(_, _, _)
Once(p, names, S) ==
    CASE p[1] = "one" -> {s + 1 : s \in {s \in S : s < Len(names) /\ names[s + 1] = p[4]}}
      [] p[1] = "any" -> {s + 1 : s \in {s \in S : s < Len(names)}}
      [] p[1] = "seq" -> FoldLeft(LAMBDA T, q : IF T = {} THEN T ELSE Match(q, names, T), S, p[4])
      [] p[1] = "choice" -> UNION {Match(p[4][j], names, S) : j \in 1..Len(p[4])}
\* round by round: n done, <<now>> reached by the last of them, acc: accepted so far.  A round that reaches
\* nothing new after the least number of them is the last; there cannot be more than min + Len(names) others.
Round(p, names, r, n) ==
    IF r.over THEN r
    ELSE LET acc == IF n >= p[2] THEN r.acc \cup r.now ELSE r.acc
             new == TLCEval(IF p[3] # -1 /\ n >= p[3] THEN {} ELSE Once(p, names, r.now))
         IN [over |-> new = {} \/ (n >= p[2] /\ new \subseteq acc), now |-> new, acc |-> TLCEval(acc)]
Rounds(p, names) == LET most == p[2] + Len(names) + 1 IN IF p[3] = -1 THEN most ELSE Min2(p[3], most)
Match(p, names, S) ==
    IF S = {} THEN {}
    ELSE FoldLeft(LAMBDA r, n : Round(p, names, r, n), [over |-> FALSE, now |-> S, acc |-> {}],
                  [n \in 1..(Rounds(p, names) + 1) |-> n - 1]).acc

\* wildcards in a content model: "no", or the strictest of those in it
RECURSIVE Wild(_)
Wild(p) ==
    CASE p[1] = "any" -> p[4]
      [] p[1] = "one" -> "no"
      [] OTHER -> LET ws == {Wild(p[4][j]) : j \in 1..Len(p[4])} \ {"no"}
                  IN IF ws = {} THEN "no" ELSE CHOOSE w \in ws : TRUE

---------------------------------------------------------------------------
\* Simple types
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Ch(s, j) == SubSeq(s, j, j)
\* first place from j on where the text has something else (texts can be long: no recursion)
Past(s, j, set) == LET other == {k \in j..Len(s) : Ch(s, k) \notin set}
                   IN IF other = {} THEN Max2(j, Len(s) + 1) ELSE CHOOSE k \in other : \A m \in other : k <= m
Skip(s, j) == Past(s, j, {" "})
Run(s, j) == Past(s, j, Digits)
Sign(s, j) == IF j <= Len(s) /\ Ch(s, j) \in {"+", "-"} THEN j + 1 ELSE j

IsInteger(s) == LET a == Sign(s, Skip(s, 1)) b == Run(s, a) IN b > a /\ Skip(s, b) > Len(s)
\* end of a decimal number that starts at j, 0 if there is none
DecimalEnd(s, j) ==
    LET a == Sign(s, j)
        b == Run(s, a)
        dot == b <= Len(s) /\ Ch(s, b) = "."
        c == IF dot THEN Run(s, b + 1) ELSE b
    IN IF b > a \/ (dot /\ c > b + 1) THEN c ELSE 0
IsDecimal(s) == LET e == DecimalEnd(s, Skip(s, 1)) IN e > 0 /\ Skip(s, e) > Len(s)
IsDouble(s) ==
    LET e == DecimalEnd(s, Skip(s, 1))
        x == e > 0 /\ e <= Len(s) /\ Ch(s, e) \in {"e", "E"}
        a == Sign(s, e + 1)
        b == Run(s, a)
    IN s \in {"INF", "-INF", "NaN"} \/ (e > 0 /\ IF x THEN b > a /\ Skip(s, b) > Len(s) ELSE Skip(s, e) > Len(s))

TextOk(kind, allowed, s) ==
    /\ CASE kind = "integer" -> IsInteger(s)
         [] kind = "decimal" -> IsDecimal(s)
         [] kind \in {"double", "float"} -> IsDouble(s)
         [] kind = "boolean" -> s \in {"true", "false", "0", "1"}
         [] OTHER -> TRUE
    /\ (Len(allowed) = 0 \/ \E j \in 1..Len(allowed) : allowed[j] = s)

---------------------------------------------------------------------------
\* One element: <<tag, text, kids>> or <<tag, text, kids, attributes, tail>>
OAttrs(o) == IF Len(o) > 3 THEN o[4] ELSE <<>>
OTail(o)  == IF Len(o) > 3 THEN o[5] ELSE ""
RECURSIVE Blank(_, _)
Blank(s, j) == IF j > Len(s) THEN TRUE
               ELSE IF Ch(s, j) = " " THEN Blank(s, j + 1)
               ELSE IF Ch(s, j) # "~" THEN FALSE
               ELSE IF Len(s) >= j + 2 /\ SubSeq(s, j, j + 2) = "~9;" THEN Blank(s, j + 3)
               ELSE IF Len(s) >= j + 3 /\ SubSeq(s, j, j + 3) \in {"~10;", "~13;"} THEN Blank(s, j + 4)
               ELSE FALSE

Foreign(name) == Len(name) > 0 /\ Ch(name, 1) = "{"
AttrFaults(as, decls) ==
    {"attribute " \o as[j][1] : j \in {j \in 1..Len(as) : ~Foreign(as[j][1]) /\
         ~\E k \in 1..Len(decls) : decls[k][1] = as[j][1] /\ TextOk("string", decls[k][2], as[j][2])}}
    \cup {"no attribute " \o decls[k][1] : k \in {k \in 1..Len(decls) : decls[k][3] /\ ~\E j \in 1..Len(as) : as[j][1] = decls[k][1]}}

KidNames(o) == TLCEval([j \in 1..Len(o[3]) |-> o[3][j][1]])
Faults(o) ==
    IF o[1] \notin Names THEN {"not declared"}
    ELSE LET d == Decl[o[1]]
         IN IF d[1] = "text"
            THEN (IF o[3] # <<>> THEN {"children in a text element"} ELSE {})
                 \cup (IF TextOk(d[2], d[3], o[2]) THEN {} ELSE {"not of type " \o d[2]})
                 \cup AttrFaults(OAttrs(o), d[4])
            ELSE (IF Len(o[3]) \in Match(d[2], KidNames(o), {0}) THEN {} ELSE {"children not as declared"})
                 \cup (IF Blank(o[2], 1) /\ \A j \in 1..Len(o[3]) : Blank(OTail(o[3][j]), 1) THEN {} ELSE {"stray text"})
                 \cup AttrFaults(OAttrs(o), d[3])

Text(o) == o[1] \in Names /\ Decl[o[1]][1] = "text"
\* is child k to be judged in its turn, in an element with wildcard w
Counts(w, k) == w = "no" \/ (w = "lax" /\ k[1] \in Names)
Wildcard(o) == IF o[1] \notin Names \/ Text(o) THEN "skip" ELSE Wild(Decl[o[1]][2])

---------------------------------------------------------------------------
\* Places in a document: sequences of child numbers
RECURSIVE At(_, _, _), Climb(_, _)
At(o, p, j) == IF j > Len(p) THEN o ELSE At(o[3][p[j]], p, j + 1)
\* first child from the j-th on that has to be visited, 0 if there is none
First(o, w, j) == LET ks == IF w = "skip" THEN {} ELSE {k \in j..Len(o[3]) : Counts(w, o[3][k]) /\ ~Text(o[3][k])}
                  IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A m \in ks : k <= m
Climb(t, p) == IF p = <<>> THEN <<0>>
               ELSE LET q == SubSeq(p, 1, Len(p) - 1)
                        o == At(t, q, 1)
                        k == First(o, Wildcard(o), p[Len(p)] + 1)
                    IN IF k > 0 THEN Append(q, k) ELSE Climb(t, q)
Onward(t, p, o) == LET k == First(o, Wildcard(o), 1) IN IF k > 0 THEN Append(p, k) ELSE Climb(t, p)
End == <<0>>

VARIABLES i, place, seen, bad
vars == <<i, place, seen, bad>>

Init == /\ i \in 1..Len(Docs) /\ place = <<>> /\ seen = 0 /\ bad = 0

Say(o, f) == PrintT("REJECT|" \o ToString(Docs[i].id) \o "|schema/" \o o[1] \o "|as in the schema|" \o f \o ": " \o
                    SubSeq(o[2], 1, Min2(Len(o[2]), 60)) \o " " \o (LET n == KidNames(o) IN ToString(SubSeq(n, 1, Min2(Len(n), 12)))))

\* an element together with its children that hold text only
Wrong(o, w) == IF w = "skip" THEN {}
               ELSE {j \in 1..Len(o[3]) : Text(o[3][j]) /\ Counts(w, o[3][j]) /\ Faults(o[3][j]) # {}}
Take == /\ place # End
        /\ \E o \in {At(Docs[i].tree, place, 1)} : \E w \in {Wildcard(o)} : \E f \in {Faults(o)} : \E n \in {Wrong(o, w)} :
              /\ \A x \in f : Say(o, x)
              /\ \A j \in n : \A x \in Faults(o[3][j]) : Say(o[3][j], x)
              /\ bad' = bad + Cardinality(f) + Cardinality(n)
              /\ place' = Onward(Docs[i].tree, place, o)
              /\ seen' = seen + 1
        /\ UNCHANGED i

Done == /\ place = End /\ seen > 0
        /\ PrintT("JUDGED|" \o ToString(Docs[i].id) \o "|" \o ToString(bad) \o "|" \o ToString(seen))
        /\ seen' = -seen
        /\ UNCHANGED <<i, place, bad>>

Next == Take \/ Done
Spec == Init /\ [][Next]_vars

\* a document is given up only at its end
Progress == seen >= 0 \/ place = End
=============================================================================
