------------------------------- MODULE JTree -------------------------------
(***************************************************************************)
(* File trees, and which files an argument of the command line stands for. *)
(*                                                                         *)
(* A name is a sequence of code points, a path a sequence of names below   *)
(* the root of the tree.  A tree is a sequence of nodes [p, k]: path and   *)
(* kind, "file" (a regular file, or a link to one), "dir", or "odd"        *)
(* (dangling link, pipe).  The root itself is not listed.                  *)
(***************************************************************************)
EXTENDS JBase

Star == 42
QMark == 63
Dot  == 46

NodesOf(tree) == Range0(tree)
PathsOf(tree, kinds) == {n.p : n \in {m \in NodesOf(tree) : m.k \in kinds}}
IsFileIn(tree, p) == p \in PathsOf(tree, {"file"})
IsDirIn(tree, p)  == p = <<>> \/ p \in PathsOf(tree, {"dir"})

HasStar(name)  == \E i \in 1..Len(name) : name[i] = Star
PathHasStar(p) == \E i \in 1..Len(p) : HasStar(p[i])
IsMagic(name)  == HasStar(name) \/ \E i \in 1..Len(name) : name[i] = QMark

RECURSIVE MatchR(_, _, _, _)
\* does the rest of the name from j match the rest of the pattern from i
MatchR(pat, i, name, j) ==
    IF i > Len(pat) THEN j > Len(name)
    ELSE IF pat[i] = Star
         THEN MatchR(pat, i + 1, name, j) \/ (j <= Len(name) /\ MatchR(pat, i, name, j + 1))
    ELSE /\ j <= Len(name)
         /\ pat[i] = QMark \/ pat[i] = name[j]
         /\ MatchR(pat, i + 1, name, j + 1)

\* A wildcard does not stand for the dot that hides a name
Matches(pat, name) ==
    IF IsMagic(pat) THEN /\ MatchR(pat, 1, name, 1)
                         /\ name[1] = Dot => pat[1] = Dot
    ELSE pat = name

PathMatches(pat, p) == Len(pat) = Len(p) /\ \A i \in 1..Len(p) : Matches(pat[i], p[i])

\* What a path with wildcards expands to: everything of that name
Expansion(tree, pat) == {p \in PathsOf(tree, {"file", "dir", "odd"}) : PathMatches(pat, p)}

Below(p, d) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
Parent(p)   == SubSeq(p, 1, Len(p) - 1)
LastName(p) == p[Len(p)]

AllBelow(tree, d) == {p \in PathsOf(tree, {"file"}) : Below(p, d)}

\* files that match the pattern, in the directories below d (not in d itself)
MatchingBelow(tree, d, pat) ==
    {p \in PathsOf(tree, {"file"}) : Below(Parent(p), d) /\ Matches(pat, LastName(p))}

TheOnly(S) == CHOOSE x \in S : TRUE
OneDir(tree, S) == Cardinality(S) = 1 /\ IsDirIn(tree, TheOnly(S))

---------------------------------------------------------------------------
\* The files that argument a (a path below the root) stands for.
\* A file stands for itself, whatever its name.  A path with * stands for all
\* files of matching name.
Direct(tree, a) ==
    IF IsFileIn(tree, a) THEN {a}
    ELSE IF PathHasStar(a) THEN {p \in Expansion(tree, a) : IsFileIn(tree, p)}
    ELSE {}

\* In addition, when recursing: a directory stands for all files in its tree,
\* and so does a path with * that matches a directory only; other paths with *
\* stand for files that match the last name anywhere further down.
Deeper(tree, a) ==
    IF IsFileIn(tree, a) THEN {}
    ELSE IF ~PathHasStar(a) THEN (IF IsDirIn(tree, a) THEN AllBelow(tree, a) ELSE {})
    ELSE IF OneDir(tree, Expansion(tree, a)) THEN AllBelow(tree, TheOnly(Expansion(tree, a)))
    ELSE LET up    == Parent(a)
             roots == IF PathHasStar(up) THEN Expansion(tree, up) ELSE {up}
         IN UNION {MatchingBelow(tree, d, LastName(a)) : d \in roots}

Designated(tree, a, recurse) == Direct(tree, a) \cup (IF recurse THEN Deeper(tree, a) ELSE {})

\* Arguments about which the user is warned
Absent(tree, a) == ~IsFileIn(tree, a) /\ ~PathHasStar(a) /\ ~IsDirIn(tree, a)

---------------------------------------------------------------------------
\* Relative and absolute arguments; "." and ".." and empty names
RECURSIVE NormR(_, _)
NormR(p, acc) ==
    IF p = <<>> THEN acc
    ELSE LET h == Head(p)
         IN NormR(Tail(p), CASE h = <<>> \/ h = <<Dot>> -> acc
                             [] h = <<Dot, Dot>> -> (IF acc = <<>> THEN acc ELSE Parent(acc))
                             [] OTHER -> Append(acc, h))
Resolve(cwd, arg) == NormR((IF arg.abs THEN <<>> ELSE cwd) \o arg.p, <<>>)

---------------------------------------------------------------------------
\* Laws, checked on every tree and argument that is generated
TreeLaws(tree, a) ==
    /\ Direct(tree, a) \subseteq PathsOf(tree, {"file"})
    /\ Deeper(tree, a) \subseteq PathsOf(tree, {"file"})
    /\ Direct(tree, a) \cap Deeper(tree, a) = {}
    /\ Designated(tree, a, FALSE) \subseteq Designated(tree, a, TRUE)
    /\ Absent(tree, a) => Designated(tree, a, TRUE) = {}
    /\ IsDirIn(tree, a) /\ ~PathHasStar(a) => /\ Designated(tree, a, FALSE) = {}
                                              /\ Designated(tree, a, TRUE) = AllBelow(tree, a)
    \* without wildcard characters a pattern is a name
    /\ \A n \in NodesOf(tree) : ~PathHasStar(n.p) /\ n.k = "file" =>
            Designated(tree, n.p, FALSE) = {n.p} /\ Designated(tree, n.p, TRUE) = {n.p}
=============================================================================
