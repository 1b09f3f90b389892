------------------------------ MODULE JParser ------------------------------
(***************************************************************************)
(* The analysis of one file, as a state machine.                           *)
(*                                                                         *)
(* The state is [o, stack, done, res]: the options, a stack of frames and  *)
(* the final result.  A frame is                                           *)
(*   "boxes"  a file or superbox of which the boxes are read one by one    *)
(*   "code"   a codestream, read marker segment by marker segment          *)
(*   "tile"   a tile-part header of the codestream frame below it          *)
(* Every named action below is one transition.  Step is the whole          *)
(* transition function, Analyse iterates it; both use the same actions.    *)
(***************************************************************************)
EXTENDS JMarkers

NoSiz == [found |-> FALSE]

BoxesFrame(name, type, data) ==
    [ kind |-> "boxes", name |-> name, type |-> type, data |-> data, pos |-> 0,
      open |-> TRUE,                       \* another box may follow
      kids |-> <<>>, t |-> <<>>, p |-> <<>>, w |-> <<>> ]

CodeFrame(type, data) ==
    [ kind |-> "code", name |-> "contiguousCodestreamBox", type |-> type, data |-> data, pos |-> 0,
      phase |-> "soc", siz |-> NoSiz, n |-> 0, seen |-> {}, plm |-> 0, ppm |-> 0,
      ccocs |-> <<>>, cqccs |-> <<>>,
      tiles |-> <<>>,                      \* one [isot, tnsot] per tile-part read
      tt |-> <<>>, tp |-> <<>>, tw |-> <<>>,
      t |-> <<>>, p |-> <<>>, w |-> <<>> ]

TileFrame(start, sot, pos, open, r) ==
    [ kind |-> "tile", start |-> start, pos |-> pos, open |-> open, sot |-> sot,
      sod |-> FALSE, seen |-> {}, plt |-> 0, ppt |-> 0, ccocs |-> <<>>, cqccs |-> <<>>,
      t |-> r.t, p |-> r.p, w |-> r.w ]

Init0(bytes, o) ==
    [ o |-> o, done |-> FALSE, res |-> Nothing,
      stack |-> << IF RawCodestream(o) THEN CodeFrame(TJp2c, bytes) ELSE BoxesFrame("file", <<>>, bytes) >> ]

Top(st)   == st.stack[Len(st.stack)]
Under(st) == st.stack[Len(st.stack) - 1]
SetTop(st, f)  == [st EXCEPT !.stack[Len(st.stack)] = f]
Push(st, f)    == [st EXCEPT !.stack = Append(@, f)]
Pop(st)        == [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]

\* containers: tests and warnings only when there are any, properties always
Wrap(name, ns) == IF ns = <<>> THEN <<>> ELSE <<Node(name, ns)>>
Put(f, name, r) == [f EXCEPT !.t = @ \o Wrap(name, r.t), !.p = @ \o <<Node(name, r.p)>>,
                             !.w = @ \o Wrap(name, r.w)]

---------------------------------------------------------------------------
\* Box at offset a of data d
BoxAt(d, a) ==
    LET len32 == U32Sat(Sl(d, a, a + 4))
        raw   == Sl(d, a + 4, a + 8)
        type  == raw \o [i \in 1..(4 - Len(raw)) |-> 0]
        ext   == len32 = 1
        len1  == IF ext THEN U64Sat(Sl(d, a + 8, a + 16)) ELSE len32
        len   == IF len1 = 0 THEN Len(d) - a ELSE len1
        body  == Sl(d, a + (IF ext THEN 16 ELSE 8), a + len)
    IN [type |-> type, len |-> len, end |-> a + len, body |-> body]

Kid(type, body, kids, siz) == [type |-> type, body |-> body, kids |-> kids, siz |-> siz]

\* the box b has been read from frame f: move on
After(f, b, kid) == [f EXCEPT !.pos = b.end, !.open = (b.len # Missing), !.kids = Append(@, kid)]

CanReadBox(st) == ~st.done /\ Top(st).kind = "boxes" /\ Top(st).open /\ Top(st).pos < Len(Top(st).data)

\* a box without sub-boxes
CanReadLeafBox(st) ==
    /\ CanReadBox(st)
    /\ LET b == BoxAt(Top(st).data, Top(st).pos)
       IN NameOf(b.type) \notin SuperBoxes \cup {"contiguousCodestreamBox"}
ReadLeafBox(st) ==
    LET f == Top(st)
        b == BoxAt(f.data, f.pos)
        name == NameOf(b.type)
        r == LeafBox(name, b.type, b.body, st.o)
    IN SetTop(st, Put(After(f, b, Kid(b.type, b.body, <<>>, NoSiz)), name, r))

CanOpenSuperBox(st) ==
    /\ CanReadBox(st)
    /\ NameOf(BoxAt(Top(st).data, Top(st).pos).type) \in SuperBoxes
OpenSuperBox(st) ==
    LET f == Top(st)
        b == BoxAt(f.data, f.pos)
    IN Push(SetTop(st, [f EXCEPT !.pos = b.end, !.open = (b.len # Missing)]),
            BoxesFrame(NameOf(b.type), b.type, b.body))

CanOpenCodestream(st) ==
    /\ CanReadBox(st)
    /\ NameOf(BoxAt(Top(st).data, Top(st).pos).type) = "contiguousCodestreamBox"
OpenCodestream(st) ==
    LET f == Top(st)
        b == BoxAt(f.data, f.pos)
    IN Push(SetTop(st, [f EXCEPT !.pos = b.end, !.open = (b.len # Missing)]), CodeFrame(b.type, b.body))

---------------------------------------------------------------------------
\* Rules on the boxes of a superbox or file
Types(kids) == [i \in 1..Len(kids) |-> kids[i].type]
Count(kids, type) == Len(SelectSeq(kids, LAMBDA k : k.type = type))
Has(kids, type) == \E i \in 1..Len(kids) : kids[i].type = type
All(kids, type) == SelectSeq(kids, LAMBDA k : k.type = type)
First(kids, type) == CHOOSE i \in 1..Len(kids) : kids[i].type = type /\ \A j \in 1..(i - 1) : kids[j].type # type
AtMostOne(test, kids, type) == T(test, Count(kids, type) <= 1)

Variable(ihdr) == U8(Sl(ihdr, 10, 11)) = 255     \* depth differs between components

HeaderRules(kids, o) ==
    LET ih   == All(kids, TIhdr)
        unkC == IF ih = <<>> THEN Missing ELSE U8(Sl(ih[1].body, 12, 13))
        col  == {i \in 1..Len(kids) : kids[i].type = TColr}
        ctyp == UNION {ChannelTypes(kids[i].body) : i \in {i \in 1..Len(kids) : kids[i].type = TCdef}}
    IN << T("containsImageHeaderBox", Has(kids, TIhdr)) >>
       \o (IF Jp2(o) THEN << T("containsColourSpecificationBox", Has(kids, TColr)) >>
           ELSE IF Jph(o)
           THEN (IF unkC = 0 THEN << T("containsColourSpecificationBox", Has(kids, TColr)) >> ELSE <<>>)
                \o (IF Has(kids, TColr) THEN <<>> ELSE << T("noZeroCTypesIfNoColourBox", 0 \notin ctyp) >>)
           ELSE <<>>)
       \o (IF ih # <<>> /\ Variable(ih[1].body)
           THEN << T("containsBitsPerComponentBox", Has(kids, TBpcc)) >> ELSE <<>>)
       \o << T("firstJP2HeaderBoxIsImageHeaderBox", kids # <<>> /\ kids[1].type = TIhdr),
             AtMostOne("noMoreThanOneImageHeaderBox", kids, TIhdr),
             AtMostOne("noMoreThanOneBitsPerComponentBox", kids, TBpcc),
             AtMostOne("noMoreThanOnePaletteBox", kids, TPclr),
             AtMostOne("noMoreThanOneComponentMappingBox", kids, TCmap),
             AtMostOne("noMoreThanOneChannelDefinitionBox", kids, TCdef),
             AtMostOne("noMoreThanOneResolutionBox", kids, TRes),
             T("colourSpecificationBoxesAreContiguous",
               \A i, j \in col : \A k \in i..j : k \in col),
             T("paletteAndComponentMappingBoxesOnlyTogether", Has(kids, TPclr) <=> Has(kids, TCmap)) >>

ResolutionRules(kids) ==
    << T("containsCaptureOrDisplayResolutionBox", Has(kids, TResc) \/ Has(kids, TResd)),
       AtMostOne("noMoreThanOneCaptureResolutionBox", kids, TResc),
       AtMostOne("noMoreThanOneDisplayResolutionBox", kids, TResd) >>

UuidInfoRules(kids) ==
    << T("containsOneListBox", Count(kids, TUlst) = 1), T("containsOneURLBox", Count(kids, TUrl) = 1) >>

\* bodies of the boxes of this type in the JP2 header boxes
InHeader(kids, type) ==
    Flat([i \in 1..Len(kids) |-> IF kids[i].type = TJp2h THEN All(kids[i].kids, type) ELSE <<>>])

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

\* uncompressed size over compressed size: bits * height * width / 8 / size
Ratio(depths, height, width, size) ==
    Q("compressionRatio", ZMul(ZInt(SumSeq(depths)), ZMul(height, width)), ZInt(8 * size), 2)

FileRules(kids, size, o) ==
    LET ih   == InHeader(kids, TIhdr)
        bpcs == InHeader(kids, TBpcc)
        cs   == SelectSeq(kids, LAMBDA k : k.type = TJp2c /\ k.siz.found)
        h    == ih[1].body
        s    == cs[1].siz
        nC   == Max2(0, U16(Sl(h, 8, 10)))
        bpc  == U8(Sl(h, 10, 11))
        comp == IF Variable(h) THEN (IF bpcs = <<>> THEN <<>> ELSE bpcs[1].body)
                ELSE Force([i \in 1..nC |-> bpc])
        signs  == MapSeq(comp, Sign8)
        depths == MapSeq(comp, Depth8)
        height == U32(Sl(h, 0, 4))
        width  == U32(Sl(h, 4, 8))
        both   == ih # <<>> /\ cs # <<>>
    IN Res(<< T("containsSignatureBox", Has(kids, TSig)), T("containsFileTypeBox", Has(kids, TFtyp)),
              T("containsJP2HeaderBox", Has(kids, TJp2h)),
              T("containsContiguousCodestreamBox", Has(kids, TJp2c)) >>
           \o (IF ih # <<>> /\ U8(Sl(h, 13, 14)) = 1
               THEN << T("containsIntellectualPropertyBox", Has(kids, TJp2i)) >> ELSE <<>>)
           \o << T("firstBoxIsSignatureBox", kids # <<>> /\ kids[1].type = TSig),
                 T("secondBoxIsFileTypeBox", Len(kids) >= 2 /\ kids[2].type = TFtyp),
                 T("locationJP2HeaderBoxIsValid",
                   /\ Has(kids, TJp2h) /\ Has(kids, TJp2c)
                   /\ First(kids, TJp2h) > 2 /\ First(kids, TJp2h) < First(kids, TJp2c)),
                 AtMostOne("noMoreThanOneSignatureBox", kids, TSig),
                 AtMostOne("noMoreThanOneFileTypeBox", kids, TFtyp),
                 AtMostOne("noMoreThanOneJP2HeaderBox", kids, TJp2h) >>
           \o (IF ~both THEN <<>>
               ELSE << T("heightConsistentWithSIZ", height = SizHeight(s)),
                       T("widthConsistentWithSIZ", width = SizWidth(s)),
                       T("nCConsistentWithSIZ", U16(Sl(h, 8, 10)) = s.csiz),
                       T("bPCSignConsistentWithSIZ", signs = SizSigns(s)),
                       T("bPCDepthConsistentWithSIZ", depths = SizDepths(s)) >>),
           IF both THEN << Ratio(depths, height, width, size) >> ELSE <<>>, <<>>)

\* All boxes of the top frame have been read
CanCloseBoxes(st) == ~st.done /\ Top(st).kind = "boxes" /\ ~CanReadBox(st)

CanCloseSuperBox(st) == CanCloseBoxes(st) /\ Len(st.stack) > 1
CloseSuperBox(st) ==
    LET f == Top(st)
        rules == CASE f.name = "jp2HeaderBox"  -> HeaderRules(f.kids, st.o)
                   [] f.name = "resolutionBox" -> ResolutionRules(f.kids)
                   [] f.name = "uuidInfoBox"   -> UuidInfoRules(f.kids)
        st1 == Pop(st)
        u   == Top(st1)
    IN SetTop(st1, Put([u EXCEPT !.kids = Append(@, Kid(f.type, <<>>, f.kids, NoSiz))],
                       f.name, Res(f.t \o rules, f.p, f.w)))

CanFinishFile(st) == CanCloseBoxes(st) /\ Len(st.stack) = 1
FinishFile(st) ==
    LET f == Top(st)
        r == FileRules(f.kids, Len(f.data), st.o)
    IN [st EXCEPT !.done = TRUE, !.res = Res(f.t \o r.t, f.p \o r.p, f.w)]

---------------------------------------------------------------------------
\* Marker segment at offset a
Delimiters == {SOC, SOD, EOC, EPH}

SegAt(d, a) ==
    LET mk  == Sl(d, a, a + 2)
        m   == IF Len(mk) = 2 /\ mk[1] = 255 THEN mk[2] ELSE -1
        len == IF m \in Delimiters THEN 0 ELSE U16(Sl(d, a + 2, a + 4))
    IN [m |-> m, len |-> len, body |-> Sl(d, a + 2, a + 2 + len),
        end |-> IF len = Missing THEN Missing ELSE a + 2 + len]

InPhase(st, ph) == ~st.done /\ Top(st).kind = "code" /\ Top(st).phase = ph

\* The first marker must be SOC
CanReadSOC(st) == InPhase(st, "soc")
ReadSOC(st) ==
    LET f == Top(st)
        g == SegAt(f.data, 0)
    IN SetTop(st, [f EXCEPT !.pos = g.end, !.phase = "siz",
                            !.t = Append(@, T("codestreamStartsWithSOCMarker", g.m = SOC))])

\* The second must be SIZ; without it there is nothing more to analyse
CanReadSIZ(st) == InPhase(st, "siz")
ReadSIZ(st) ==
    LET f  == Top(st)
        g  == SegAt(f.data, f.pos)
        ok == g.m = SIZ
        f1 == [f EXCEPT !.t = Append(@, T("foundSIZMarker", ok))]
        s  == [found |-> TRUE] @@ SizOf(g.body)
    IN SetTop(st, IF ~ok THEN [f1 EXCEPT !.phase = "end"]
                  ELSE Put([f1 EXCEPT !.phase = IF g.end = Missing THEN "mainend" ELSE "main",
                                      !.siz = s, !.n = s.csiz, !.pos = g.end],
                           "siz", Siz(g.body, st.o)))

Report(f, m, r, o) ==
    LET name == SegmentName[m]
    IN IF m \in PacketSegments /\ ~o.pm
       THEN [f EXCEPT !.t = @ \o Wrap(name, r.t), !.w = @ \o Wrap(name, r.w)]
       ELSE Put(f, name, r)

\* Next marker segment of the main header
CanReadMainSegment(st) == InPhase(st, "main") /\ SegAt(Top(st).data, Top(st).pos).m # SOT
ReadMainSegment(st) ==
    LET f == Top(st)
        g == SegAt(f.data, f.pos)
        f1 == [f EXCEPT !.pos = g.end, !.phase = IF g.end = Missing THEN "mainend" ELSE "main",
                        !.seen = @ \cup {g.m},
                        !.plm = IF g.m = PLM THEN @ + 1 ELSE @,
                        !.ppm = IF g.m = PPM THEN @ + 1 ELSE @,
                        !.ccocs = IF g.m = COC THEN Append(@, CcocOf(g.body, f.n)) ELSE @,
                        !.cqccs = IF g.m = QCC THEN Append(@, CqccOf(g.body, f.n)) ELSE @]
    IN SetTop(st, IF g.m \in MainSegments THEN Report(f1, g.m, Segment(g.m, g.body, f.n, st.o), st.o)
                  ELSE f1)

\* SOT marker, or nothing more to read: end of the main header
CanEndMainHeader(st) ==
    \/ InPhase(st, "mainend")
    \/ InPhase(st, "main") /\ SegAt(Top(st).data, Top(st).pos).m = SOT
EndMainHeader(st) ==
    LET f == Top(st)
    IN SetTop(st, [f EXCEPT !.phase = IF f.phase = "main" THEN "tiles" ELSE "wrapup",
                     !.t = @ \o << T("foundCODMarker", COD \in f.seen), T("foundQCDMarker", QCD \in f.seen) >>
                             \o (IF NeedsCap(f.siz.rsiz) THEN << T("foundCAPMarker", CAP \in f.seen) >> ELSE <<>>),
                     !.p = @ \o << P("ppmCount", f.ppm), P("plmCount", f.plm) >>])

\* Number of tiles that must be there
MaxTiles == 65535
ExpectedTiles(s) == Min2(ZToInt(NumberOfTiles(s)), MaxTiles)

\* A tile-part starts at the current position
CanOpenTilePart(st) == InPhase(st, "tiles") /\ Sl(Top(st).data, Top(st).pos, Top(st).pos + 2) = <<255, SOT>>
OpenTilePart(st) ==
    LET f   == Top(st)
        g   == SegAt(f.data, f.pos)
        r   == Sot(g.body)
        sot == SotOf(g.body)
    IN Push(st, TileFrame(f.pos, sot, g.end, g.end # Missing,
                          Res(Wrap("sot", r.t), <<Node("sot", r.p)>>, Wrap("sot", r.w))))

OnTile(st) == ~st.done /\ Top(st).kind = "tile"

CanReadTileSegment(st) == OnTile(st) /\ Top(st).open
ReadTileSegment(st) ==
    LET f == Top(st)
        c == Under(st)
        g == SegAt(c.data, f.pos)
        f1 == [f EXCEPT !.pos = g.end, !.sod = (g.m = SOD),
                        !.open = (g.m # SOD /\ g.end # Missing),
                        !.seen = @ \cup {g.m},
                        !.plt = IF g.m = PLT THEN @ + 1 ELSE @,
                        !.ppt = IF g.m = PPT THEN @ + 1 ELSE @,
                        !.ccocs = IF g.m = COC THEN Append(@, CcocOf(g.body, c.n)) ELSE @,
                        !.cqccs = IF g.m = QCC THEN Append(@, CqccOf(g.body, c.n)) ELSE @]
    IN SetTop(st, IF g.m \in TileSegments THEN Report(f1, g.m, Segment(g.m, g.body, c.n, st.o), st.o)
                  ELSE f1)

Distinct(s) == Cardinality(Range0(s)) = Len(s)

\* End of a tile-part header.  The next tile-part is expected where this one
\* ends; there is none if its length is not given (psot = 0), or if the tile
\* index does not exist.
CanCloseTilePart(st) == OnTile(st) /\ ~Top(st).open
CloseTilePart(st) ==
    LET f == Top(st)
        c == Under(st)
        allowed(test, m) == IF m \in f.seen THEN << T(test, f.sot.tpsot = 0) >> ELSE <<>>
        once(test, s) == IF s = <<>> THEN <<>> ELSE << T(test, Distinct(s)) >>
        next == f.start + f.sot.psot
        t == << T("foundSODMarker", f.sod) >>
             \o allowed("CODAllowed", COD) \o allowed("COCAllowed", COC) \o allowed("QCDAllowed", QCD)
             \o allowed("QCCAllowed", QCC) \o allowed("RGNAllowed", RGN)
             \o once("maxOneCcocPerComponentTP", f.ccocs) \o once("maxOneCqccPerComponentTP", f.cqccs)
             \o (IF f.sot.psot = 0 THEN <<>>
                 ELSE << T("foundNextTilePartOrEOC",
                           Sl(c.data, next, next + 2) \in {<<255, SOT>>, <<255, EOC>>}) >>)
        p == << P("pltCount", f.plt), P("pptCount", f.ppt) >>
        goOn == /\ f.sot.isot \in 0..(ExpectedTiles(c.siz) - 1)
                /\ f.sot.psot > 0
    IN SetTop(Pop(st),
         [c EXCEPT !.tiles = Append(@, [isot |-> f.sot.isot, tnsot |-> f.sot.tnsot]),
                   !.pos = IF goOn THEN next ELSE @,
                   !.phase = IF goOn THEN "tiles" ELSE "wrapup",
                   !.tt = @ \o Wrap("tilePart", f.t \o t),
                   !.tp = Append(@, Node("tilePart", f.p \o p)),
                   !.tw = @ \o Wrap("tilePart", f.w)])

\* No further tile-part
CanEndTileParts(st) == InPhase(st, "tiles") /\ ~CanOpenTilePart(st)
EndTileParts(st) == SetTop(st, [Top(st) EXCEPT !.phase = "wrapup"])

\* What must hold for the codestream as a whole
TileRules(f) ==
    LET want  == ExpectedTiles(f.siz)
        ids   == {f.tiles[i].isot : i \in 1..Len(f.tiles)}
        inR(i) == 0 <= i /\ i < want
        found(i) == Cardinality({j \in 1..Len(f.tiles) : f.tiles[j].isot = i})
        declared(i) == {j \in 1..Len(f.tiles) : f.tiles[j].isot = i /\ f.tiles[j].tnsot # 0}
        decl  == {i \in ids : declared(i) # {}}
        \* the last declaration counts
        value(i) == f.tiles[CHOOSE j \in declared(i) : \A k \in declared(i) : k <= j].tnsot
    IN << T("foundExpectedNumberOfTiles", Cardinality(ids) = want /\ \A i \in ids : inR(i)) >>
       \o (IF decl = {} THEN <<>>
           ELSE << T("foundExpectedNumberOfTileParts",
                     \A i \in decl : inR(i) /\ found(i) = value(i)) >>)

CanWrapUpCodestream(st) == InPhase(st, "wrapup")
WrapUpCodestream(st) ==
    LET f == Top(st)
        once(test, s) == IF s = <<>> THEN <<>> ELSE << T(test, Distinct(s)) >>
        n == Len(f.data)
    IN SetTop(st, [f EXCEPT !.phase = "end",
          !.t = @ \o TileRules(f) \o Wrap("tileParts", f.tt)
                  \o once("maxOneCcocPerComponentMain", f.ccocs) \o once("maxOneCqccPerComponentMain", f.cqccs)
                  \o << T("foundEOCMarker", Sl(f.data, n - 2, n) = <<255, EOC>>) >>,
          !.p = @ \o << Node("tileParts", f.tp) >>
                  \o (IF RawCodestream(st.o)
                      THEN << Ratio(SizDepths(f.siz), SizHeight(f.siz), SizWidth(f.siz), n) >> ELSE <<>>),
          !.w = @ \o Wrap("tileParts", f.tw)])

CanCloseCodestream(st) == InPhase(st, "end") /\ Len(st.stack) > 1
CloseCodestream(st) ==
    LET f == Top(st)
        st1 == Pop(st)
    IN SetTop(st1, Put([Top(st1) EXCEPT !.kids = Append(@, Kid(f.type, <<>>, <<>>, f.siz))],
                       f.name, Res(f.t, f.p, f.w)))

CanFinishCodestream(st) == InPhase(st, "end") /\ Len(st.stack) = 1
FinishCodestream(st) ==
    LET f == Top(st) IN [st EXCEPT !.done = TRUE, !.res = Res(f.t, f.p, f.w)]

---------------------------------------------------------------------------
Step(st) ==
    CASE CanReadLeafBox(st)      -> ReadLeafBox(st)
      [] CanOpenSuperBox(st)     -> OpenSuperBox(st)
      [] CanOpenCodestream(st)   -> OpenCodestream(st)
      [] CanCloseSuperBox(st)    -> CloseSuperBox(st)
      [] CanFinishFile(st)       -> FinishFile(st)
      [] CanReadSOC(st)          -> ReadSOC(st)
      [] CanReadSIZ(st)          -> ReadSIZ(st)
      [] CanReadMainSegment(st)  -> ReadMainSegment(st)
      [] CanEndMainHeader(st)    -> EndMainHeader(st)
      [] CanOpenTilePart(st)     -> OpenTilePart(st)
      [] CanReadTileSegment(st)  -> ReadTileSegment(st)
      [] CanCloseTilePart(st)    -> CloseTilePart(st)
      [] CanEndTileParts(st)     -> EndTileParts(st)
      [] CanWrapUpCodestream(st) -> WrapUpCodestream(st)
      [] CanCloseCodestream(st)  -> CloseCodestream(st)
      [] CanFinishCodestream(st) -> FinishCodestream(st)

RECURSIVE RunFrom(_)
RunFrom(st) == IF st.done THEN st.res ELSE RunFrom(Step(st))

\* Result of analysing a file: [t, p, w]
Analyse(bytes, o) == RunFrom(Init0(bytes, o))

\* Verdict: "True", "False", or "any" if the specification leaves it open
Verdict(r) == IF \E i \in 1..Len(r.t) : Fails(r.t[i]) THEN "False"
              ELSE IF \E i \in 1..Len(r.t) : Unsure(r.t[i]) THEN "any" ELSE "True"
=============================================================================
