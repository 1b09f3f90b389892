------------------------------ MODULE JCommand ------------------------------
(***************************************************************************)
(* The options of a command line.                                          *)
(*                                                                         *)
(* Command(ts, n): what is asked for with option words ts (texts, in their *)
(* order, without the n paths): [ask, fl] where ask is                     *)
(*   "work"     analyse files with flags fl = [fmt, verbose, pm, nullxml,  *)
(*              mix, recurse, pretty]                                      *)
(*   "version", "help"   say something about the tool and end              *)
(*   "misuse"   not a command line of this tool                            *)
(* The words are read from left to right; values may follow as the next    *)
(* word, after = (long options) or directly (short ones), short options    *)
(* without value may be joined, and the last one counts.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Plainly == [ fmt |-> "jp2", verbose |-> FALSE, pm |-> FALSE, nullxml |-> FALSE, mix |-> 0,
             recurse |-> FALSE, pretty |-> TRUE ]

Prefixed(p, t) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Rest(p, t)     == SubSeq(t, Len(p) + 1, Len(t))
Dashed(t)      == Prefixed("-", t)

MixOf == [ v \in {"1", "2"} |-> IF v = "1" THEN 1 ELSE 2 ]

Misuse == [ ask |-> "misuse", fl |-> Plainly ]
Asks(a) == [ ask |-> a, fl |-> Plainly ]

RECURSIVE Words(_, _, _), Shorts(_, _, _, _)
Words(ts, j, fl) ==
    IF j > Len(ts) THEN [ ask |-> "work", fl |-> fl ]
    ELSE LET t == ts[j]
             value == j < Len(ts) /\ ~Dashed(ts[j + 1])
         IN CASE t = "--verbose"       -> Words(ts, j + 1, [fl EXCEPT !.verbose = TRUE])
              [] t = "--packetmarkers" -> Words(ts, j + 1, [fl EXCEPT !.pm = TRUE])
              [] t = "--nullxml"       -> Words(ts, j + 1, [fl EXCEPT !.nullxml = TRUE])
              [] t = "--nopretty"      -> Words(ts, j + 1, [fl EXCEPT !.pretty = FALSE])
              [] t = "--recurse"       -> Words(ts, j + 1, [fl EXCEPT !.recurse = TRUE])
              [] t = "--version"       -> Asks("version")
              [] t = "--help"          -> Asks("help")
              [] t = "--format"        -> IF value THEN Words(ts, j + 2, [fl EXCEPT !.fmt = ts[j + 1]]) ELSE Misuse
              [] t = "--mix"           -> IF value /\ ts[j + 1] \in DOMAIN MixOf THEN Words(ts, j + 2, [fl EXCEPT !.mix = MixOf[ts[j + 1]]])
                                          ELSE Misuse
              [] Prefixed("--format=", t) -> Words(ts, j + 1, [fl EXCEPT !.fmt = Rest("--format=", t)])
              [] Prefixed("--mix=", t) -> IF Rest("--mix=", t) \in DOMAIN MixOf THEN Words(ts, j + 1, [fl EXCEPT !.mix = MixOf[Rest("--mix=", t)]])
                                          ELSE Misuse
              [] Prefixed("--", t)     -> Misuse
              [] Dashed(t) /\ Len(t) > 1 -> Shorts(ts, j, 2, fl)
              [] OTHER                 -> Misuse
\* the letters of word j from position c on
Shorts(ts, j, c, fl) ==
    LET t == ts[j]
        x == SubSeq(t, c, c)
    IN IF c > Len(t) THEN Words(ts, j + 1, fl)
       ELSE CASE x = "r" -> Shorts(ts, j, c + 1, [fl EXCEPT !.recurse = TRUE])
              [] x = "p" -> Shorts(ts, j, c + 1, [fl EXCEPT !.pm = TRUE])
              [] x = "v" -> Asks("version")
              [] x = "h" -> Asks("help")
              [] x = "f" -> IF c < Len(t) THEN Words(ts, j + 1, [fl EXCEPT !.fmt = SubSeq(t, c + 1, Len(t))])
                            ELSE IF j < Len(ts) /\ ~Dashed(ts[j + 1]) THEN Words(ts, j + 2, [fl EXCEPT !.fmt = ts[j + 1]])
                            ELSE Misuse
              [] OTHER   -> Misuse

Command(ts, n) == LET c == Words(ts, 1, Plainly) IN IF c.ask = "work" /\ n = 0 THEN Misuse ELSE c
=============================================================================
