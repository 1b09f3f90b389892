------------------------------ MODULE JTreeGen ------------------------------
(***************************************************************************)
(* Generates trees and arguments for runs of the tool.                     *)
(*                                                                         *)
(* A tree is grown node by node from a fixed universe (a node only once    *)
(* its directory exists); then an argument is chosen.  TLC explores all of *)
(* it; one in JTHIN combinations is printed, to be carried out with the    *)
(* real tool.  The laws of JTree are checked for these, and for every tree *)
(* and argument if JFULL is 1.                                             *)
(***************************************************************************)
EXTENDS JTree, IOUtils

Thin == atoi(IOEnv.JTHIN)
Seed == atoi(IOEnv.JSEED)
Full == IOEnv.JFULL = "1"

Cps(s) == [i \in 1..Len(s) |-> 31 + CHOOSE c \in 1..Len(CharTab) : CharTab[c] = SubSeq(s, i, i)]
P(names) == [i \in 1..Len(names) |-> Cps(names[i])]

Universe == <<
    [n |-> <<"a.jp2">>, k |-> "file"], [n |-> <<"b.x">>, k |-> "file"], [n |-> <<".a.jp2">>, k |-> "file"],
    [n |-> <<"d">>, k |-> "dir"], [n |-> <<"d", "a.jp2">>, k |-> "file"], [n |-> <<"d", "ab.jp2">>, k |-> "odd"],
    [n |-> <<"d", "e">>, k |-> "dir"], [n |-> <<"d", "e", "a.jp2">>, k |-> "file"], [n |-> <<"d", "e", ".b.x">>, k |-> "file"],
    [n |-> <<"dd">>, k |-> "dir"], [n |-> <<"dd", "e">>, k |-> "file"], [n |-> <<"dd", ".h">>, k |-> "dir"],
    [n |-> <<"dd", ".h", "a.jp2">>, k |-> "file"] >>

Args == << <<"a.jp2">>, <<"*">>, <<"*.jp2">>, <<"d">>, <<"d", "*">>, <<"d*">>, <<"*", "*.jp2">>, <<"d*", "e">>, <<"d", "e*">>,
           <<"*", "*">>, <<".*">>, <<"nothing">>, <<"d", "*", "a.jp2">>, <<"*", "e", "*">>, <<"d", "a*">>, <<"dd", "*">>, <<"?*.jp2">>,
           <<"*", "?.x">> >>

UPaths == Force([j \in 1..Len(Universe) |-> P(Universe[j].n)])
APaths == Force([j \in 1..Len(Args) |-> NormR(P(Args[j]), <<>>)])

VARIABLES has, next, arg, rec
vars == <<has, next, arg, rec>>

Init == has = {} /\ next = 1 /\ arg = 0 /\ rec = FALSE

HasDir(n) == Len(n) = 1 \/ \E j \in has : Universe[j].n = SubSeq(n, 1, Len(n) - 1) /\ Universe[j].k = "dir"

Grow == /\ arg = 0 /\ next <= Len(Universe)
        /\ has' \in {has} \cup (IF HasDir(Universe[next].n) THEN {has \cup {next}} ELSE {})
        /\ next' = next + 1
        /\ UNCHANGED <<arg, rec>>

Tree == LET js == SetToSortSeq(has, <)
        IN [j \in 1..Len(js) |-> [p |-> UPaths[js[j]], k |-> Universe[js[j]].k]]

RECURSIVE Weigh(_, _)
Weigh(S, acc) == IF S = {} THEN acc ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN Weigh(S \ {x}, (acc * 31 + x * 17) % 65521)
Chosen(a, r) == Weigh(has, Seed * 7 + a * 131 + (IF r THEN 61 ELSE 0)) % Thin = 0

Ask == /\ next > Len(Universe) /\ arg = 0
       /\ arg' \in 1..Len(Args)
       /\ rec' \in BOOLEAN
       /\ LET t == Tree
              a == APaths[arg']
          IN /\ Full \/ Chosen(arg', rec') => Assert(TreeLaws(t, a), <<"tree law", has, arg'>>)
             /\ Chosen(arg', rec') => PrintT("GEN|" \o ToString(rec') \o "|" \o Join(Args[arg'], "/") \o "|"
                    \o Join([j \in 1..Len(t) |-> Join(Universe[SetToSortSeq(has, <)[j]].n, "/") \o ":" \o t[j].k], "|"))
       /\ UNCHANGED <<has, next>>

Next == Grow \/ Ask
Spec == Init /\ [][Next]_vars

\* a tree grows towards the top of its directories only
Rooted == \A j \in has : HasDir(Universe[j].n)
=============================================================================
