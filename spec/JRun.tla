------------------------------- MODULE JRun -------------------------------
(***************************************************************************)
(* A run of the command line tool over a tree of files.                    *)
(*                                                                         *)
(* The run looks up its arguments one by one, refuses to work if they      *)
(* stand for nothing, otherwise writes a document that starts with facts   *)
(* about the tool and has one report for each file, in the order of the    *)
(* arguments, and ends the document.  For every file the machine of        *)
(* JParser runs on its bytes.  A recorded run is followed event by event   *)
(* and everything that differs is printed.                                 *)
(*                                                                         *)
(* Run: [id, tree, cwd, root, args, opts, tz, obs]                         *)
(*   tree   nodes [p, k, blob, size, mt, ok] (JTree); mt = <<day, second,  *)
(*          microsecond>> in UTC, ok = "yes", "denied" or "huge"           *)
(*   root   text of the path of the tree                                   *)
(*   args   [abs, p, raw]: raw are the code points of the text given       *)
(*   opts   option words (JCommand)                                        *)
(*   obs    [code, doc, root, kids, text, err, touched]: exit code, what   *)
(*          standard output is ("none", "ill", "xml"), root element, its   *)
(*          children, or its text, text on standard error, paths that      *)
(*          have changed                                                   *)
(***************************************************************************)
EXTENDS JStep, JTree, JCommand, Json, IOUtils

Book  == JsonDeserialize(IOEnv.JTRACE)
\* with what the option words ask for
Runs  == [ j \in 1..Len(Book.runs) |->
            LET c == Command(Book.runs[j].opts, Len(Book.runs[j].args))
            IN Book.runs[j] @@ [ ask |-> c.ask, fl |-> c.fl ] ]
Blobs == Book.blobs

---------------------------------------------------------------------------
\* Texts of names and dates

\* names that are not Unicode, and characters that XML cannot hold
XmlChar(cp) == cp \in {9, 10, 13} \/ cp \in 32..55295 \/ cp \in 57344..65533 \/ cp \in 65536..1114111
Surrogate(cp) == cp \in 55296..57343
NameText(cps) == Str(SelectSeq([i \in 1..Len(cps) |-> IF Surrogate(cps[i]) THEN QMark ELSE cps[i]], XmlChar))

PathTextOf(r, p) == Cat(<<r.root>> \o [i \in 1..2 * Len(p) |-> IF i % 2 = 1 THEN "/" ELSE NameText(p[i \div 2])])

\* calendar date of a day number (0 = 1970-01-01)
Civil(day) ==
    LET z   == day + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp  == (5 * doy + 2) \div 153
        m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN [ y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1 ]

Stamp(day, sec, us, tz) ==
    LET s == sec + tz
        c == Civil(day + s \div 86400)
        t == s % 86400
    IN Cat(<<Pad(c.y, 4), "-", Pad(c.m, 2), "-", Pad(c.d, 2), "T", Pad(t \div 3600, 2), ":",
             Pad((t \div 60) % 60, 2), ":", Pad(t % 60, 2),
             IF us = 0 THEN "" ELSE "." \o Pad(us, 6)>>)

MtimeText(mt, tz) ==
    IF Civil(mt[1] - 1).y < 1 \/ Civil(mt[1] + 1).y > 9999 THEN Stamp(0, 0, 0, tz) ELSE Stamp(mt[1], mt[2], mt[3], tz)

---------------------------------------------------------------------------
\* Serialisation: line ends, and white space that pretty-printing adds
\* between elements, carry no meaning.
WhiteTok(t) == t \in {" ", "~9;", "~10;", "~13;"}

RECURSIVE TextToks(_, _)
TokEnd(s, i) == IF SubSeq(s, i, i) # "~" THEN i ELSE CHOOSE j \in i..Len(s) : SubSeq(s, j, j) = ";" /\ \A k \in i..(j - 1) : SubSeq(s, k, k) # ";"
TextToks(s, i) == IF i > Len(s) THEN <<>> ELSE LET j == TokEnd(s, i) IN <<SubSeq(s, i, j)>> \o TextToks(s, j + 1)

Odd(s) == \E i \in 1..Len(s) : SubSeq(s, i, i) = "~"
LineEnds(s) ==
    IF ~Odd(s) THEN s
    ELSE LET ts == TextToks(s, 1)
         IN Cat([i \in 1..Len(ts) |-> IF ts[i] # "~13;" THEN (IF ts[i] = "~10;" /\ i > 1 /\ ts[i - 1] = "~13;" THEN "" ELSE ts[i])
                                      ELSE "~10;"])
RECURSIVE Lead(_, _)
Lead(ts, i) == IF i <= Len(ts) /\ WhiteTok(ts[i]) THEN Lead(ts, i + 1) ELSE i
RECURSIVE Trail(_, _)
Trail(ts, i) == IF i >= 1 /\ WhiteTok(ts[i]) THEN Trail(ts, i - 1) ELSE i
StripText(s) == IF s = "" THEN s
            ELSE LET ts == TextToks(s, 1) IN Cat(SubSeq(ts, Lead(ts, 1), Trail(ts, Len(ts))))
BlankText(s) == StripText(s) = ""
\* white space in attributes
Spaces(s) == IF ~Odd(s) THEN s
             ELSE LET ts == TextToks(s, 1) IN Cat([i \in 1..Len(ts) |-> IF WhiteTok(ts[i]) THEN " " ELSE ts[i]])

\* an element of the tool's own name space that was embedded looks like one of the tool
OwnNs == "{http://openpreservation.org/ns/jpylyzer/v2/}"
OwnName(s) == IF Len(s) > Len(OwnNs) /\ SubSeq(s, 1, Len(OwnNs)) = OwnNs THEN SubSeq(s, Len(OwnNs) + 1, Len(s)) ELSE s

TextOf(s, inner, pretty) == LET t == LineEnds(s) IN IF inner /\ pretty THEN StripText(t) ELSE t
AttrsOf(as) == {<<a[1], Spaces(a[2])>> : a \in as}

RECURSIVE Plain(_, _), PlainObs(_, _)
Plain(n, pretty) ==
    LET kids == MapSeq(n[4], LAMBDA k : Plain(k, pretty))
    IN CASE n[2] = "s" -> <<n[1], "s", LineEnds(n[3]), kids>>
         [] n[2] = "x" -> <<OwnName(n[1]), "x", <<TextOf(n[3][1], n[4] # <<>>, pretty), AttrsOf(n[3][2]), TextOf(n[3][3], TRUE, pretty)>>, kids>>
         [] OTHER -> n
PlainObs(o, pretty) ==
    LET kids == MapSeq(o[3], LAMBDA k : PlainObs(k, pretty))
        text == TextOf(o[2], o[3] # <<>>, pretty)
        as   == SetToSeq(AttrsOf(OAttrs(o)))
        tail == TextOf(OTail(o), TRUE, pretty)
    IN IF as = <<>> /\ tail = "" THEN <<o[1], text, kids>> ELSE <<o[1], text, kids, as, tail>>

PlainReport(rep, pretty) ==
    [ f \in DOMAIN rep |-> MapSeq(rep[f], LAMBDA n : Plain(n, pretty)) ]

---------------------------------------------------------------------------
Formats == {"jp2", "jph", "j2c", "jhc"}
UpperTab == [k \in 65..90 |-> CharTab[k - 31]]
LowerCh(ch) == IF \E k \in 65..90 : CharTab[k - 31] = ch THEN CharTab[(CHOOSE k \in 65..90 : CharTab[k - 31] = ch) + 1] ELSE ch
Lower(s) == Cat([i \in 1..Len(s) |-> LowerCh(SubSeq(s, i, i))])

\* options of the analysis that follow from the command line
OptionsOf(fl) ==
    LET f == Lower(fl.fmt)
    IN [ fmt |-> f, verbose |-> fl.verbose, pm |-> fl.pm, nullxml |-> fl.nullxml,
         mix |-> IF f \in {"j2c", "jhc"} THEN 0 ELSE fl.mix ]

NodeAt(r, p) == CHOOSE n \in NodesOf(r.tree) : n.p = p

\* Facts about file p of run r, found through argument a
MetaOf(r, p, a) ==
    LET n == NodeAt(r, p)
    IN [ name  |-> NameText(LastName(p)), path |-> PathTextOf(r, p), size |-> n.size,
         given |-> IF Resolve(r.cwd, a) = p THEN Str(Clean(a.raw))
                   ELSE Cat(<<r.root>> \o [i \in 1..2 * Len(p) |-> IF i % 2 = 1 THEN "/" ELSE Str(Clean(p[i \div 2]))]),
         mtime |-> MtimeText(n.mt, r.tz) ]

FailText(ok) == CASE ok = "denied" -> "I/O error (cannot open file)"
                  [] ok = "huge"   -> "memory error (file size too large)"

---------------------------------------------------------------------------
VARIABLES i, ph, found, k, st, cur, said, bad
vars == <<i, ph, found, k, st, cur, said, bad>>

R == Runs[i]
Obs == R.obs
None == [none |-> TRUE]

RunInit == /\ i \in 1..Len(Runs)
           /\ ph = (IF Runs[i].ask # "work" THEN "answer" ELSE IF Lower(Runs[i].fl.fmt) \in Formats THEN "look" ELSE "refuse")
           /\ found = <<>> /\ k = 1 /\ st = None /\ cur = None /\ said = <<>> /\ bad = 0

ShowDiff(d) == PrintT("REJECT|" \o ToString(R.id) \o "|" \o d[1] \o "|" \o Clip(d[2]) \o "|" \o Clip(d[3]))
Tell(ds) == \A j \in 1..Min2(Len(ds), 12) : ShowDiff(ds[j])
Expect(cond, where, want, have) == IF cond THEN <<>> ELSE << <<where, want, have>> >>

\* Warnings, as they are told on standard error
RawText(cps) == Cat([j \in 1..Len(cps) |-> IF Surrogate(cps[j]) THEN "\\udc" \o HexText(<<cps[j] % 256>>) ELSE Tok(cps[j])])
\* about arguments that stand for nothing that exists
AbsentArgs == {j \in 1..Len(R.args) : Absent(R.tree, Resolve(R.cwd, R.args[j]))}
AbsentSaid == LET js == SelectSeq([j \in 1..Len(R.args) |-> j], LAMBDA j : j \in AbsentArgs)
              IN [j \in 1..Len(js) |-> RawText(R.args[js[j]].raw) \o " does not exist"]
\* the texts of the warnings of a report, in order
RECURSIVE Texts(_)
Texts(ns) == Flat([j \in 1..Len(ns) |-> IF ns[j][4] = <<>> THEN <<ns[j][3]>> ELSE Texts(ns[j][4])])
\* about file p, found through argument a
RawPath(p, a) == IF Resolve(R.cwd, a) = p THEN RawText(a.raw)
                 ELSE Cat(<<R.root>> \o [j \in 1..2 * Len(p) |-> IF j % 2 = 1 THEN "/" ELSE RawText(p[j \div 2])])
EmptySaid(n, p, a) == IF n.size = "0" THEN << "empty file " \o RawPath(p, a) >> ELSE <<>>
Stream(ms) == Cat([j \in 1..Len(ms) |-> "User warning: " \o ms[j] \o "~10;"])
\* ("?": not recorded)
ErrDiff(ms) == Expect(Obs.err \in {Stream(ms), "?"}, "run/warnings", Stream(ms), Obs.err)

Look == /\ ph = "look"
        /\ LET a == Resolve(R.cwd, R.args[Len(found) + 1])
               f == Append(found, Designated(R.tree, a, R.fl.recurse))
           IN /\ found' = f
              /\ ph' = IF Len(f) < Len(R.args) THEN "look"
                       ELSE IF \A j \in 1..Len(f) : f[j] = {} THEN "refuse" ELSE "open"
              /\ said' = IF Len(f) < Len(R.args) THEN said ELSE AbsentSaid
              /\ Assert(TreeLaws(R.tree, a), <<"tree laws", R.id>>)
        /\ UNCHANGED <<i, k, st, cur, bad>>

\* a run only reads
Untouched == Expect(Obs.touched = <<>>, "run/untouched", "files as they were", ToString(Obs.touched))

\* nothing is analysed: a version, a help text, or an error
Inside(w, t) == \E j \in 1..(Len(t) - Len(w) + 1) : SubSeq(t, j, j + Len(w) - 1) = w
HelpWords == <<"--format", "-f", "--mix", "--nopretty", "--nullxml", "--recurse", "-r", "--packetmarkers", "-p", "--verbose", "--version", "-v">>
Answered == /\ ph = "answer"
            /\ LET ds == CASE R.ask = "version" -> Expect(Obs.code = 0, "run/code", "0", ToString(Obs.code))
                                                   \o Expect(Obs.text = Book.version, "run/version", Book.version, Obs.text)
                           [] R.ask = "help"    -> Expect(Obs.code = 0, "run/code", "0", ToString(Obs.code))
                                                   \o Flat([j \in 1..Len(HelpWords) |-> Expect(Inside(HelpWords[j], Obs.text), "run/help", HelpWords[j], "not mentioned")])
                           [] OTHER             -> Expect(Obs.code # 0, "run/code", "not 0", ToString(Obs.code))
                                                   \o Expect(Obs.doc = "none", "run/output", "none", Obs.doc)
                                                   \o Expect(Obs.err # "", "run/misuse", "error message", "none")
               IN Tell(ds \o Untouched) /\ bad' = bad + Len(ds \o Untouched)
            /\ ph' = "done"
            /\ UNCHANGED <<i, found, k, st, cur, said>>

Refuse == /\ ph = "refuse"
          /\ LET known == Lower(R.fl.fmt) \in Formats
                 ds == Expect(Obs.doc = "none", "run/output", "none", Obs.doc)
                       \o Expect(Obs.code # 0, "run/code", "not 0", ToString(Obs.code))
                       \o (IF known THEN ErrDiff(Append(said, "no images to check!"))
                           ELSE Expect(Obs.err # "", "run/format", "error message", "none"))
             IN Tell(ds \o Untouched) /\ bad' = bad + Len(ds \o Untouched)
          /\ ph' = "done"
          /\ UNCHANGED <<i, found, k, st, cur, said>>

\* the document begins
OpenDoc ==
        /\ ph = "open"
        /\ IF Obs.doc # "xml"
           THEN /\ Tell(<< <<"run/output", "well-formed document", Obs.doc>> >>)
                /\ ph' = "done" /\ bad' = bad + 1 /\ UNCHANGED k
           ELSE LET ti == IF Obs.kids = <<>> THEN <<"", "", <<>>>> ELSE Obs.kids[1]
                    names == [j \in 1..Len(ti[3]) |-> ti[3][j][1]]
                    ds == Expect(Obs.root = "jpylyzer", "run/root", "jpylyzer", Obs.root)
                          \o Expect(ti[1] = "toolInfo", "run/toolInfo", "toolInfo", ti[1])
                          \o Expect(names = <<"toolName", "toolVersion">>, "run/toolInfo", "toolName, toolVersion", ToString(names))
                          \o (IF names # <<"toolName", "toolVersion">> THEN <<>>
                              ELSE Expect(ti[3][2][2] = Book.version /\ ti[3][1][2] # "", "run/toolVersion", Book.version, ti[3][2][2]))
                IN Tell(ds) /\ bad' = bad + Len(ds) /\ ph' = "next" /\ k' = 2
        /\ UNCHANGED <<i, found, st, cur, said>>

Left  == {j \in 1..Len(found) : found[j] # {}}
NextArg == CHOOSE j \in Left : \A m \in Left : j <= m

\* path in an observed report
PathIn(o) ==
    LET fi == SelectSeq(o[3], LAMBDA n : n[1] = "fileInfo")
        fp == IF Len(fi) # 1 THEN <<>> ELSE SelectSeq(fi[1][3], LAMBDA n : n[1] = "filePath")
    IN IF Len(fp) # 1 THEN "?" ELSE LineEnds(fp[1][2])

\* the next report must be on one of the files of the first argument that has files left
TakeFile ==
    /\ ph = "next" /\ Left # {}
    /\ IF k > Len(Obs.kids)
       THEN /\ Tell(<< <<"run/files", "report on " \o PathTextOf(R, CHOOSE p \in found[NextArg] : TRUE), "none">> >>)
            /\ bad' = bad + 1 /\ ph' = "done" /\ UNCHANGED <<found, st, cur>>
       ELSE LET here == {p \in found[NextArg] : LineEnds(PathTextOf(R, p)) = PathIn(Obs.kids[k])}
            IN IF here = {}
               THEN /\ Tell(<< <<"run/files", "report on " \o PathTextOf(R, CHOOSE p \in found[NextArg] : TRUE), "report on " \o PathIn(Obs.kids[k])>> >>)
                    /\ bad' = bad + 1 /\ ph' = "done" /\ UNCHANGED <<found, st, cur>>
               ELSE LET p == CHOOSE q \in here : TRUE
                    IN /\ cur' = [p |-> p, arg |-> NextArg, n |-> NodeAt(R, p)]
                       /\ found' = [found EXCEPT ![NextArg] = @ \ {p}]
                       /\ st' = IF NodeAt(R, p).ok = "yes" THEN Init0(Blobs[NodeAt(R, p).blob], OptionsOf(R.fl)) ELSE None
                       /\ ph' = IF NodeAt(R, p).ok = "yes" THEN "file" ELSE "failed"
                       /\ UNCHANGED bad
    /\ UNCHANGED <<i, k, said>>

Work == /\ ph = "file" /\ ~st.done
        /\ st' = ParserStep(st)
        /\ UNCHANGED <<i, ph, found, k, cur, said, bad>>

Compare(rep, v) ==
    LET o  == OptionsOf(R.fl)
        ds == ReportDiff(PlainReport(rep, R.fl.pretty), v, o, PlainObs(Obs.kids[k], R.fl.pretty))
        fs == [j \in 1..Len(ds) |-> <<"file/" \o ds[j][1], ds[j][2], ds[j][3]>>]
    IN Tell(fs) /\ bad' = bad + Len(fs)

FileDone == /\ ph = "file" /\ st.done
            /\ Compare(FileReport(st.res, OptionsOf(R.fl), MetaOf(R, cur.p, R.args[cur.arg])), Verdict(st.res))
            /\ said' = said \o EmptySaid(cur.n, cur.p, R.args[cur.arg]) \o Texts(st.res.w)
            /\ ph' = "next" /\ k' = k + 1 /\ st' = None /\ cur' = None
            /\ UNCHANGED <<i, found>>

FileFailed == /\ ph = "failed"
              /\ Compare(FailReport(OptionsOf(R.fl), MetaOf(R, cur.p, R.args[cur.arg]), FailText(cur.n.ok)), "False")
              /\ said' = Append(said, FailText(cur.n.ok))
              /\ ph' = "next" /\ k' = k + 1 /\ st' = None /\ cur' = None
              /\ UNCHANGED <<i, found>>

Close == /\ ph = "next" /\ Left = {}
         /\ LET ds == Expect(k > Len(Obs.kids), "run/files", "no more reports",
                             IF k > Len(Obs.kids) THEN "" ELSE "report on " \o PathIn(Obs.kids[k]))
                      \o Expect(Obs.code = 0, "run/code", "0", ToString(Obs.code))
                      \o ErrDiff(said) \o Untouched
            IN Tell(ds) /\ bad' = bad + Len(ds)
         /\ ph' = "done"
         /\ UNCHANGED <<i, found, k, st, cur, said>>

Judge == /\ ph = "done"
         /\ PrintT("JUDGED|" \o ToString(R.id) \o "|" \o ToString(bad) \o "|" \o ToString(k - 2))
         /\ ph' = "judged"
         /\ UNCHANGED <<i, found, k, st, cur, said, bad>>

RunNext == Look \/ Answered \/ Refuse \/ OpenDoc \/ TakeFile \/ Work \/ FileDone \/ FileFailed \/ Close \/ Judge
RunSpec == RunInit /\ [][RunNext]_vars

---------------------------------------------------------------------------
\* Nothing is designated that is not a file of the tree, and as long as nothing
\* was found wrong every file is either still to come or has its report.
RECURSIVE SumCard(_, _)
SumCard(f, j) == IF j > Len(f) THEN 0 ELSE Cardinality(f[j]) + SumCard(f, j + 1)
Total == SumCard([j \in 1..Len(R.args) |-> Designated(R.tree, Resolve(R.cwd, R.args[j]), R.fl.recurse)], 1)
Accounted == ph = "next" => SumCard(found, 1) + (k - 2) = Total
OneAtATime == ph \in {"file", "failed"} <=> cur # None
=============================================================================
