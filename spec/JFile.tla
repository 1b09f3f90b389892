------------------------------- MODULE JFile -------------------------------
(***************************************************************************)
(* The report on one file.                                                 *)
(* m: facts about the file, [name, path, given, size, mtime]; given is the *)
(* path under which it was found                                           *)
(***************************************************************************)
EXTENDS JParser, JMix

\* element with one attribute
WithAttr(tag, text, name, value) == <<tag, "x", <<text, {<<name, value>>}, "">>, <<>>>>

\* The report for result r
FileReport(r, o, m) ==
    LET v  == Verdict(r)
        ts == IF o.verbose THEN r.t ELSE Terse(r.t)
        ws == r.w \o (IF m.size = "0" THEN << Leaf("warning", "empty file " \o m.given) >> ELSE <<>>)
    IN [ head |-> << Node("fileInfo", << Leaf("fileName", m.name), Leaf("filePath", m.path),
                                         Leaf("fileSizeInBytes", m.size), Leaf("fileLastModified", m.mtime) >>),
                     Node("statusInfo", << Leaf("success", "True") >>),
                     IF v = "any" THEN AnyLeaf("isValid") ELSE WithAttr("isValid", v, "format", o.fmt) >>,
         tests |-> ts, properties |-> r.p, warnings |-> ws ]

\* The report for a file whose contents could not be had
FailReport(o, m, msg) ==
    [ head |-> << Node("fileInfo", << Leaf("fileName", m.name), Leaf("filePath", m.path),
                                      Leaf("fileSizeInBytes", m.size), Leaf("fileLastModified", m.mtime) >>),
                  Node("statusInfo", << Leaf("success", "False"), Leaf("failureMessage", msg) >>),
                  WithAttr("isValid", "False", "format", o.fmt) >>,
      tests |-> <<>>, properties |-> <<>>, warnings |-> << Leaf("warning", msg) >> ]

\* differences between the report rep, for verdict v, and the observed one
ReportDiff(rep, v, o, obs) ==
    LET kids == obs[3]
        named(tag) == SelectSeq(kids, LAMBDA n : n[1] = tag)
        heads == {"fileInfo", "statusInfo", "isValid"}
        parts == <<"tests", "properties", "warnings">>
        lax(tag) == tag = "tests" /\ ~o.verbose
        want(tag) == CASE tag = "tests" -> rep.tests [] tag = "properties" -> rep.properties
                       [] tag = "warnings" -> rep.warnings
        part(tag) ==
            LET ns == named(tag)
            IN IF Len(ns) # 1 THEN << <<tag, "count 1", "count " \o ToString(Len(ns))>> >>
               ELSE DiffKids(want(tag), ns[1][3], tag, lax(tag))
        \* the extension is there exactly if it was asked for; it has contents exactly
        \* for valid files of a boxed format
        ext  == named("propertiesExtension")
        extension ==
            IF Len(ext) # (IF o.mix = 0 THEN 0 ELSE 1)
            THEN << <<"propertiesExtension", "count " \o (IF o.mix = 0 THEN "0" ELSE "1"), "count " \o ToString(Len(ext))>> >>
            ELSE IF o.mix = 0 \/ v = "any" THEN <<>>
            ELSE IF RawCodestream(o) \/ v # "True"
            THEN (IF Len(ext[1]) = 3 /\ ext[1][2] = "" /\ ext[1][3] = <<>> THEN <<>>
                  ELSE << <<"propertiesExtension", "empty", "not empty">> >>)
            ELSE IF Len(ext[1][3]) # 1
            THEN << <<"propertiesExtension", "one element", ToString(Len(ext[1][3])) \o " elements">> >>
            ELSE MixDiff(rep.properties, o.mix, ext[1][3][1])
        rest == SelectSeq(kids, LAMBDA n : n[1] \notin heads \cup {"tests", "properties", "warnings", "propertiesExtension"})
    IN IF obs[1] # "file" THEN << <<"", "element file", "element " \o obs[1]>> >>
       ELSE DiffKids(rep.head, SelectSeq(kids, LAMBDA n : n[1] \in heads), "", FALSE)
            \o Flat([i \in 1..3 |-> part(parts[i])])
            \o extension
            \o (IF rest = <<>> THEN <<>> ELSE << <<rest[1][1], "count 0", "count 1">> >>)

\* differences between the report for r and the observed one
FileDiff(r, o, m, obs) == ReportDiff(FileReport(r, o, m), Verdict(r), o, obs)
=============================================================================
