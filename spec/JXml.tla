-------------------------------- MODULE JXml --------------------------------
(***************************************************************************)
(* Recogniser for XML documents (XML 1.0 with namespaces), on bytes.       *)
(* Three-valued: "wf" with the document tree, "bad" (not well-formed), or  *)
(* "unk" where the document uses something outside the modelled subset     *)
(* (document type declarations, encodings other than UTF-8/ASCII, bytes    *)
(* above 127, carriage returns, byte order marks).                         *)
(***************************************************************************)
EXTENDS JReport

IsWs(b)        == b \in {9, 10, 13, 32}
IsNameStart(b) == b \in 65..90 \/ b \in 97..122 \/ b = 95
IsNameCh(b)    == IsNameStart(b) \/ b \in 48..57 \/ b \in {45, 46}

RECURSIVE SkipWs(_, _), NameEnd(_, _), FindByte(_, _, _)
SkipWs(s, i)   == IF i <= Len(s) /\ IsWs(s[i]) THEN SkipWs(s, i + 1) ELSE i
NameEnd(s, i)  == IF i <= Len(s) /\ (IsNameCh(s[i]) \/ s[i] = 58) THEN NameEnd(s, i + 1) ELSE i
FindByte(s, i, b) == IF i > Len(s) THEN 0 ELSE IF s[i] = b THEN i ELSE FindByte(s, i + 1, b)

HasAt(s, i, pat) == i + Len(pat) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(pat) - 1) = pat
RECURSIVE FindPat(_, _, _)
FindPat(s, i, pat) == IF i + Len(pat) - 1 > Len(s) THEN 0
                      ELSE IF HasAt(s, i, pat) THEN i ELSE FindPat(s, i + 1, pat)

\* [st, i, ...]; st = "ok" | "bad" | "unk"
Bad == [st |-> "bad"]
Unk == [st |-> "unk"]

\* qualified name at i: [st, i, p (prefix bytes), n (local bytes)]
QName(s, i) ==
    IF i > Len(s) \/ ~IsNameStart(s[i]) THEN (IF i <= Len(s) /\ s[i] = 58 THEN Unk ELSE Bad)
    ELSE LET e == NameEnd(s, i)
             w == SubSeq(s, i, e - 1)
             c == FindByte(w, 1, 58)
         IN IF c = 0 THEN [st |-> "ok", i |-> e, p |-> <<>>, n |-> w]
            ELSE IF c = Len(w) \/ FindByte(w, c + 1, 58) # 0 \/ ~IsNameStart(w[c + 1]) THEN Bad
            ELSE [st |-> "ok", i |-> e, p |-> SubSeq(w, 1, c - 1), n |-> SubSeq(w, c + 1, Len(w))]

\* reference at i (s[i] = "&"): [st, i, cp]
Ref(s, i) ==
    LET e == FindByte(s, i, 59)
        w == IF e = 0 THEN <<>> ELSE SubSeq(s, i + 1, e - 1)
        R(cp) == [st |-> "ok", i |-> e + 1, cp |-> cp]
        isdig(b) == b \in 48..57
        ishex(b) == isdig(b) \/ b \in 65..70 \/ b \in 97..102
        hexv(b)  == IF isdig(b) THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55
        Legal(n) == IF n \in {9, 10} \/ n \in 32..126 THEN R(n) ELSE IF n = 13 \/ n > 126 THEN Unk ELSE Bad
    IN IF e = 0 \/ w = <<>> THEN Bad
       ELSE CASE w = <<97,109,112>> -> R(38)
              [] w = <<108,116>> -> R(60)
              [] w = <<103,116>> -> R(62)
              [] w = <<113,117,111,116>> -> R(34)
              [] w = <<97,112,111,115>> -> R(39)
              [] w[1] = 35 /\ Len(w) \in 2..4 /\ \A k \in 2..Len(w) : isdig(w[k]) ->
                   Legal(FoldLeft(LAMBDA a, b : a * 10 + (b - 48), 0, SubSeq(w, 2, Len(w))))
              [] w[1] = 35 /\ Len(w) \in 3..5 /\ w[2] = 120 /\ \A k \in 3..Len(w) : ishex(w[k]) ->
                   Legal(FoldLeft(LAMBDA a, b : a * 16 + hexv(b), 0, SubSeq(w, 3, Len(w))))
              [] w[1] = 35 -> IF Len(w) > 4 THEN Unk ELSE Bad
              [] OTHER -> Bad

RECURSIVE AttVal(_, _, _, _)
\* attribute value up to quote q: [st, i, v]
AttVal(s, i, q, acc) ==
    IF i > Len(s) THEN Bad
    ELSE CASE s[i] = q -> [st |-> "ok", i |-> i + 1, v |-> acc]
           [] s[i] = 60 -> Bad
           [] s[i] = 38 -> LET r == Ref(s, i) IN IF r.st # "ok" THEN r ELSE AttVal(s, r.i, q, Append(acc, r.cp))
           [] s[i] \in {9, 10} -> AttVal(s, i + 1, q, Append(acc, 32))
           [] OTHER -> AttVal(s, i + 1, q, Append(acc, s[i]))

RECURSIVE Atts(_, _, _)
\* attributes of a start tag, from i: [st, i, as (seq of [p, n, v]), empty]
Atts(s, i, acc) ==
    LET j == SkipWs(s, i)
    IN IF j > Len(s) THEN Bad
       ELSE IF s[j] = 62 THEN [st |-> "ok", i |-> j + 1, as |-> acc, empty |-> FALSE]
       ELSE IF HasAt(s, j, <<47, 62>>) THEN [st |-> "ok", i |-> j + 2, as |-> acc, empty |-> TRUE]
       ELSE IF j = i THEN Bad
       ELSE LET q == QName(s, j)
            IN IF q.st # "ok" THEN q
               ELSE LET k == SkipWs(s, q.i)
                    IN IF k > Len(s) \/ s[k] # 61 THEN Bad
                       ELSE LET m == SkipWs(s, k + 1)
                            IN IF m > Len(s) \/ s[m] \notin {34, 39} THEN Bad
                               ELSE LET v == AttVal(s, m + 1, s[m], <<>>)
                                    IN IF v.st # "ok" THEN v
                                       ELSE Atts(s, v.i, Append(acc, [p |-> q.p, n |-> q.n, v |-> v.v]))

XMLNS == <<120,109,108,110,115>>
XMLPFX == <<120,109,108>>
XmlUri == <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,88,77,76,47,49,57,57,56,47,110,97,109,101,115,112,97,99,101>>

\* namespace scope: function from prefix to uri
Scope0 == (<<>> :> <<>>) @@ (XMLPFX :> XmlUri)
IsDecl(a) == a.p = XMLNS \/ (a.p = <<>> /\ a.n = XMLNS)
DeclPrefix(a) == IF a.p = XMLNS THEN a.n ELSE <<>>
RECURSIVE Extend(_, _)
Extend(sc, as) == IF as = <<>> THEN sc
                  ELSE LET a == as[1]
                       IN Extend(IF IsDecl(a) THEN (DeclPrefix(a) :> a.v) @@ sc ELSE sc, Tail(as))

Expand(uri, n) == IF uri = <<>> THEN Str(n) ELSE "{" \o Str(uri) \o "}" \o Str(n)

\* comment / processing instruction / CDATA at i ("<!" or "<?"): [st, i, text]
Misc(s, i) ==
    IF HasAt(s, i, <<60,33,45,45>>) THEN
        LET e == FindPat(s, i + 4, <<45,45>>)
        IN IF e = 0 \/ e + 2 > Len(s) \/ s[e + 2] # 62 THEN Bad ELSE [st |-> "ok", i |-> e + 3, text |-> <<>>]
    ELSE IF HasAt(s, i, <<60,63>>) THEN
        LET e == FindPat(s, i + 2, <<63,62>>)
            q == NameEnd(s, i + 2)
            nm == SubSeq(s, i + 2, q - 1)
        IN IF e = 0 \/ nm = <<>> \/ ~IsNameStart(nm[1]) \/ q > e \/ (q < e /\ ~IsWs(s[q])) THEN Bad
           ELSE IF Len(nm) = 3 /\ nm[1] \in {88, 120} /\ nm[2] \in {77, 109} /\ nm[3] \in {76, 108} THEN Bad
           ELSE IF FindByte(nm, 1, 58) # 0 THEN Unk
           ELSE [st |-> "ok", i |-> e + 2, text |-> <<>>]
    ELSE Bad

CDataOpen == <<60,33,91,67,68,65,84,65,91>>

RECURSIVE Content(_, _, _, _, _, _), Elem(_, _, _)
\* content of an element from i.  kids: children so far; txt: text since the
\* last child; head: text before the first child (once there is a child)
Content(s, i, sc, kids, txt, head) ==
    IF i > Len(s) THEN Bad
    ELSE IF s[i] = 60 THEN
        IF HasAt(s, i, <<60,47>>) THEN
            LET ks == IF kids = <<>> THEN <<>>
                      ELSE [kids EXCEPT ![Len(kids)] = [@ EXCEPT ![3] = <<@[1], @[2], Str(txt)>>]]
            IN [st |-> "ok", i |-> i + 2, kids |-> ks, text |-> IF kids = <<>> THEN txt ELSE head]
        ELSE IF HasAt(s, i, CDataOpen) THEN
            LET e == FindPat(s, i + 9, <<93,93,62>>)
            IN IF e = 0 THEN Bad
               ELSE Content(s, e + 3, sc, kids, txt \o SubSeq(s, i + 9, e - 1), head)
        ELSE IF i + 1 <= Len(s) /\ s[i + 1] \in {33, 63} THEN
            LET m == Misc(s, i)
            IN IF m.st # "ok" THEN m ELSE Content(s, m.i, sc, kids, txt, head)
        ELSE
            LET el == Elem(s, i, sc)
            IN IF el.st # "ok" THEN el
               ELSE LET ks == IF kids = <<>> THEN <<>>
                              ELSE [kids EXCEPT ![Len(kids)] = [@ EXCEPT ![3] = <<@[1], @[2], Str(txt)>>]]
                    IN Content(s, el.i, sc, Append(ks, el.node), <<>>, IF kids = <<>> THEN txt ELSE head)
    ELSE IF s[i] = 38 THEN
        LET r == Ref(s, i) IN IF r.st # "ok" THEN r ELSE Content(s, r.i, sc, kids, Append(txt, r.cp), head)
    ELSE IF HasAt(s, i, <<93,93,62>>) THEN Bad
    ELSE Content(s, i + 1, sc, kids, Append(txt, s[i]), head)

Elem(s, i, sc) ==
    LET q == QName(s, i + 1)
    IN IF q.st # "ok" THEN q
    ELSE LET a == Atts(s, q.i, <<>>)
    IN IF a.st # "ok" THEN a
    ELSE LET as   == a.as
             sc1  == Extend(sc, as)
             bind == SelectSeq(as, LAMBDA x : ~IsDecl(x))
             odd  == \E k \in 1..Len(as) : IsDecl(as[k]) /\
                        (DeclPrefix(as[k]) \in {XMLNS, XMLPFX} \/ as[k].v = XmlUri)
             undecl == \E k \in 1..Len(as) : IsDecl(as[k]) /\ DeclPrefix(as[k]) # <<>> /\ as[k].v = <<>>
             dup  == \E k, m \in 1..Len(as) : k < m /\ as[k].p = as[m].p /\ as[k].n = as[m].n
             unb  == q.p \notin DOMAIN sc1 \/ \E k \in 1..Len(bind) : bind[k].p \notin DOMAIN sc1
             name(x) == IF x.p = <<>> THEN Str(x.n) ELSE Expand(sc1[x.p], x.n)
             tag  == Expand(sc1[q.p], q.n)
             atts == {<<name(bind[k]), Str(bind[k].v)>> : k \in 1..Len(bind)}
             dup2 == Cardinality({name(bind[k]) : k \in 1..Len(bind)}) # Len(bind)
         IN IF dup THEN Bad
            ELSE IF odd THEN Unk
            ELSE IF undecl \/ unb THEN Bad
            ELSE IF dup2 THEN Bad
            ELSE IF a.empty THEN [st |-> "ok", i |-> a.i, node |-> <<tag, "x", <<"", atts, "">>, <<>>>>]
            ELSE LET c == Content(s, a.i, sc1, <<>>, <<>>, <<>>)
                 IN IF c.st # "ok" THEN c
                    ELSE LET e == QName(s, c.i)
                         IN IF e.st # "ok" THEN e
                            ELSE LET z == SkipWs(s, e.i)
                                 IN IF e.p # q.p \/ e.n # q.n \/ z > Len(s) \/ s[z] # 62 THEN Bad
                                    ELSE [st |-> "ok", i |-> z + 1,
                                          node |-> <<tag, "x", <<Str(c.text), atts, "">>, c.kids>>]

RECURSIVE Prolog(_, _), Epilog(_, _)
Prolog(s, i) ==
    LET j == SkipWs(s, i)
    IN IF j > Len(s) \/ s[j] # 60 THEN Bad
       ELSE IF j + 1 <= Len(s) /\ s[j + 1] \in {33, 63} THEN
           IF HasAt(s, j, <<60,33,68>>) THEN Unk
           ELSE LET m == Misc(s, j) IN IF m.st # "ok" THEN m ELSE Prolog(s, m.i)
       ELSE [st |-> "ok", i |-> j]
Epilog(s, i) ==
    LET j == SkipWs(s, i)
    IN IF j > Len(s) THEN [st |-> "ok", i |-> j]
       ELSE IF s[j] = 60 /\ j + 1 <= Len(s) /\ s[j + 1] \in {33, 63} THEN
            LET m == Misc(s, j) IN IF m.st # "ok" THEN m ELSE Epilog(s, m.i)
       ELSE Bad

XmlDecl(n) == <<60,63,120,109,108,32,118,101,114,115,105,111,110,61,34,49,46,48,34>>   \* <?xml version="1.0"
EncUtf8 == <<32,101,110,99,111,100,105,110,103,61,34,85,84,70,45,56,34>>               \*  encoding="UTF-8"
DeclEnd == <<63,62>>

\* the document: [st |-> "wf", node] or [st |-> "bad"] or [st |-> "unk"]
Xml(s) ==
    IF s = <<>> THEN Bad
    ELSE IF Len(s) >= 2 /\ (s[1] = 0 \/ s[2] = 0) THEN Unk
    ELSE IF \E i \in 1..Len(s) : s[i] > 126 \/ s[i] = 13 THEN Unk
    ELSE IF \E i \in 1..Len(s) : s[i] < 32 /\ s[i] \notin {9, 10} THEN Bad
    ELSE LET d == IF HasAt(s, 1, <<60,63,120,109,108>>) /\ Len(s) > 5 /\ IsWs(s[6])
                  THEN IF HasAt(s, 1, XmlDecl(0) \o DeclEnd) THEN 22
                       ELSE IF HasAt(s, 1, XmlDecl(0) \o EncUtf8 \o DeclEnd) THEN 39 ELSE 0
                  ELSE 1
         IN IF d = 0 THEN Unk
            ELSE LET p == Prolog(s, d)
                 IN IF p.st # "ok" THEN p
                    ELSE LET e == Elem(s, p.i, Scope0)
                         IN IF e.st # "ok" THEN e
                            ELSE LET z == Epilog(s, e.i)
                                 IN IF z.st # "ok" THEN z ELSE [st |-> "wf", node |-> e.node]
=============================================================================
