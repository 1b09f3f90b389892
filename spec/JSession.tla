------------------------------ MODULE JSession ------------------------------
(***************************************************************************)
(* The life of one process that uses the library: files come, change and   *)
(* go, and the process asks for analyses, one by one and in batches.       *)
(*                                                                         *)
(* What an analysis answers is a function of what is on the disk at that   *)
(* moment and of the options of the call (Answer); there is no other state *)
(* in the specification that it could depend on.  Results that were given  *)
(* out stay what they are (given), and the caller may take them apart      *)
(* (Spoil) without effect on anything else.  Analyses may also go on at    *)
(* the same time (Both).  Options from 13 on are calls with some           *)
(* arguments left out, by name, or with a relative path.  Behaviours of    *)
(* this                                                                    *)
(* machine are carried out with the real library, and each answer is       *)
(* judged by JTrace (single analyses) or JRun (batches) from the contents  *)
(* at that moment alone.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils

NPaths   == 3
NBlobs   == 8
NOptions == 18
Depth    == atoi(IOEnv.JDEPTH)

Paths == 1..NPaths
Gone  == 0

VARIABLES disk, hist, answer, given, told
vars == <<disk, hist, answer, given, told>>

Init == disk = [p \in Paths |-> Gone] /\ hist = <<>> /\ answer = <<>> /\ given = <<>> /\ told = FALSE

Spoilt == <<"spoilt">>

Step(s) == Len(hist) < Depth /\ hist' = Append(hist, s)

Put(p, b) == /\ disk[p] # b
             /\ disk' = [disk EXCEPT ![p] = b]
             /\ Step(<<"put", p, b>>) /\ answer' = <<>> /\ UNCHANGED given

Remove(p) == /\ disk[p] # Gone
             /\ disk' = [disk EXCEPT ![p] = Gone]
             /\ Step(<<"gone", p, 0>>) /\ answer' = <<>> /\ UNCHANGED given

\* analysis of one file: its contents and the options
Answer(p, o) == <<disk[p], o>>
One(p, o) == /\ disk[p] # Gone
             /\ Step(<<"one", p, o>>) /\ answer' = <<Answer(p, o)>>
             /\ given' = given \o answer'
             /\ UNCHANGED disk

\* two analyses at the same time, with options o and the ones after o
Both(p, q, o) == LET o2 == (o % 12) + 1 IN
                 /\ disk[p] # Gone /\ disk[q] # Gone
                 /\ Step(<<"both", 10 * p + q, o>>) /\ answer' = <<Answer(p, o), Answer(q, o2)>>
                 /\ given' = given \o answer'
                 /\ UNCHANGED disk

\* the caller takes the last result apart
Spoil == /\ given # <<>> /\ given[Len(given)] # Spoilt
         /\ Step(<<"spoil", 0, 0>>) /\ answer' = <<>>
         /\ given' = [given EXCEPT ![Len(given)] = Spoilt]
         /\ UNCHANGED disk

\* a batch over paths p and q in this order: an answer for each that exists
Many(p, q) == /\ Step(<<"many", p, q>>)
              /\ answer' = (IF disk[p] = Gone THEN <<>> ELSE <<Answer(p, 0)>>) \o (IF disk[q] = Gone THEN <<>> ELSE <<Answer(q, 0)>>)
              /\ UNCHANGED <<disk, given>>

\* (the same call over and over, with nothing in between, is not interesting)
Fresh == IF hist = <<>> THEN TRUE ELSE hist'[Len(hist')] # hist[Len(hist)]

RECURSIVE Text(_, _)
Text(h, i) == IF i > Len(h) THEN "" ELSE "|" \o h[i][1] \o "," \o ToString(h[i][2]) \o "," \o ToString(h[i][3]) \o Text(h, i + 1)

\* a complete behaviour is printed, to be carried out
Tell == /\ Len(hist) = Depth /\ ~told
        /\ PrintT("GEN" \o Text(hist, 1))
        /\ told' = TRUE /\ UNCHANGED <<disk, hist, answer, given>>

Use  == \/ \E p \in Paths, b \in 1..NBlobs : Put(p, b)
        \/ \E p \in Paths, o \in 1..NOptions : One(p, o)
        \/ \E p, q \in Paths : Many(p, q)
        \/ \E p \in Paths : Remove(p)
        \/ \E p, q \in Paths : \E o \in {1, 5, 6, 8, 11} : Both(p, q, o)
        \/ Spoil
Next == (Use /\ Fresh /\ UNCHANGED told) \/ Tell
Spec == Init /\ [][Next]_vars

\* the answer is determined by the present contents, whatever led to them
Memoryless == hist # <<>> /\ hist[Len(hist)][1] = "one"
                 => answer = <<Answer(hist[Len(hist)][2], hist[Len(hist)][3])>>

\* what was given out stays, unless its owner takes it apart
Kept == [][/\ Len(given') >= Len(given)
           /\ \A i \in 1..Len(given) : given'[i] \in {given[i], Spoilt}]_vars
=============================================================================
