------------------------------- MODULE JBoxes -------------------------------
(***************************************************************************)
(* What is tested and reported for each box that has no sub-boxes          *)
(* (ISO/IEC 15444-1 Annex I, ISO/IEC 15444-15 Annex D).                    *)
(* c: contents of the box (bytes); o: options [fmt, verbose, pm, nullxml]. *)
(***************************************************************************)
EXTENDS JXml

Jp2(o) == o.fmt = "jp2"
Jph(o) == o.fmt = "jph"
PartFifteen(o) == o.fmt \in {"jph", "jhc"}
RawCodestream(o) == o.fmt \in {"j2c", "jhc"}

\* box types
TSig  == <<106,80,32,32>>     \* jP
TFtyp == <<102,116,121,112>>
TJp2h == <<106,112,50,104>>
TIhdr == <<105,104,100,114>>
TBpcc == <<98,112,99,99>>
TColr == <<99,111,108,114>>
TPclr == <<112,99,108,114>>
TCmap == <<99,109,97,112>>
TCdef == <<99,100,101,102>>
TRes  == <<114,101,115,32>>
TResc == <<114,101,115,99>>
TResd == <<114,101,115,100>>
TJp2c == <<106,112,50,99>>
TJp2i == <<106,112,50,105>>
TXml  == <<120,109,108,32>>
TUuid == <<117,117,105,100>>
TUinf == <<117,105,110,102>>
TUlst == <<117,108,115,116>>
TUrl  == <<117,114,108,32>>

BoxName == (TSig :> "signatureBox") @@ (TFtyp :> "fileTypeBox") @@ (TJp2h :> "jp2HeaderBox")
        @@ (TIhdr :> "imageHeaderBox") @@ (TBpcc :> "bitsPerComponentBox")
        @@ (TColr :> "colourSpecificationBox") @@ (TPclr :> "paletteBox")
        @@ (TCmap :> "componentMappingBox") @@ (TCdef :> "channelDefinitionBox")
        @@ (TRes :> "resolutionBox") @@ (TResc :> "captureResolutionBox")
        @@ (TResd :> "displayResolutionBox") @@ (TJp2c :> "contiguousCodestreamBox")
        @@ (TJp2i :> "intellectualPropertyBox") @@ (TXml :> "xmlBox") @@ (TUuid :> "uuidBox")
        @@ (TUinf :> "uuidInfoBox") @@ (TUlst :> "uuidListBox") @@ (TUrl :> "urlBox")

NameOf(type) == IF type \in DOMAIN BoxName THEN BoxName[type] ELSE "unknownBox"
SuperBoxes   == {"jp2HeaderBox", "resolutionBox", "uuidInfoBox"}

---------------------------------------------------------------------------
Signature(c) == Res(<< T("boxLengthIsValid", Len(c) = 4),
                       T("signatureIsValid", Sl(c, 0, 4) = <<13, 10, 135, 10>>) >>, <<>>, <<>>)

BrandJp2 == <<106,112,50,32>>
BrandJph == <<106,112,104,32>>

FileType(c, o) ==
    LET n    == Len(c)
        br   == Sl(c, 0, 4)
        minV == U32(Sl(c, 4, 8))
        k    == IF n >= 12 THEN (n - 8) \div 4 ELSE 0
        cl   == [i \in 1..k |-> Sl(c, 4 + 4 * i, 8 + 4 * i)]
        want == IF Jp2(o) THEN BrandJp2 ELSE BrandJph
    IN Res(<<T("boxLengthIsValid", n % 4 = 0)>>
           \o (IF RawCodestream(o) THEN <<>> ELSE <<T("brandIsValid", br = want)>>)
           \o <<T("minorVersionIsValid", minV = ZZero)>>
           \o (IF RawCodestream(o) THEN <<>> ELSE <<T("compatibilityListIsValid", want \in Range0(cl))>>),
           <<PB("br", br), PZ("minV", minV)>> \o [i \in 1..k |-> PB("cL", cl[i])],
           <<>>)

---------------------------------------------------------------------------
Sign8(b)  == BitP(b, 1)
Depth8(b) == Low(b, 7) + 1
DepthOk(d) == 1 <= d /\ d <= 38

ImageHeader(c) ==
    LET height == U32(Sl(c, 0, 4))
        width  == U32(Sl(c, 4, 8))
        nC     == U16(Sl(c, 8, 10))
        bpc    == U8(Sl(c, 10, 11))
        comp   == U8(Sl(c, 11, 12))
        unkC   == U8(Sl(c, 12, 13))
        iPR    == U8(Sl(c, 13, 14))
        pos(z) == ~z[1] /\ z[2] # <<>>
    IN Res(<< T("boxLengthIsValid", Len(c) = 14),
              T("heightIsValid", pos(height)), T("widthIsValid", pos(width)),
              T("nCIsValid", 1 <= nC /\ nC <= 16384),
              T("bPCIsValid", DepthOk(Depth8(bpc)) \/ bpc = 255),
              T("cIsValid", comp = 7),
              T("unkCIsValid", unkC \in {0, 1}),
              T("iPRIsValid", iPR \in {0, 1}) >>,
           << PZ("height", height), PZ("width", width), P("nC", nC),
              P("bPCSign", Sign8(bpc)), P("bPCDepth", Depth8(bpc)),
              P("c", comp), P("unkC", unkC), P("iPR", iPR) >>, <<>>)

BitsPerComponent(c) ==
    Res([i \in 1..Len(c) |-> T("bPCIsValid", DepthOk(Depth8(c[i])))],
        Flat([i \in 1..Len(c) |-> <<P("bPCSign", Sign8(c[i])), P("bPCDepth", Depth8(c[i]))>>]),
        <<>>)

---------------------------------------------------------------------------
\* ICC profile; the result also has the values that the colour box looks at
IccTagMax == 4096

Icc(c) ==
    LET size  == U32(Sl(c, 0, 4))
        v1    == U8(Sl(c, 8, 9))
        v2    == U8(Sl(c, 9, 10))
        year  == U16(Sl(c, 24, 26))
        month == U8(Sl(c, 27, 28))
        day   == U8(Sl(c, 29, 30))
        hour  == U8(Sl(c, 31, 32))
        min   == U8(Sl(c, 33, 34))
        sec   == U8(Sl(c, 35, 36))
        two(x) == IF x < 0 THEN ToString(x) ELSE Pad(x, 2)
        flags == U8(Sl(c, 47, 48))
        attr  == U8(Sl(c, 63, 64))
        illum(tag, a) == Q(tag, U32(Sl(c, a, a + 4)), ZInt(65536), 4)
        cnt   == U32Sat(Sl(c, 128, 132))
        n     == IF cnt < 0 THEN 0 ELSE Min2(cnt, IccTagMax)
        sig   == [i \in 1..n |-> Sl(c, 120 + 12 * i, 124 + 12 * i)]
        descs == {i \in 1..n : sig[i] = <<100,101,115,99>>}
        desc  == IF descs = {} THEN <<>>
                 ELSE LET i   == CHOOSE i \in descs : \A j \in descs : i <= j
                          off == U32Sat(Sl(c, 124 + 12 * i, 128 + 12 * i))
                          sz  == U32Sat(Sl(c, 128 + 12 * i, 132 + 12 * i))
                          end == IF off >= Far \/ sz >= Far THEN Far ELSE off + sz
                          tag == IF off >= Far THEN <<>> ELSE Sl(c, off, end)
                          len == U32Sat(Sl(tag, 8, 12))
                      IN Sl(tag, 12, IF len >= Far THEN Far ELSE 12 + len - 1)
    IN [size |-> size, class |-> Sl(c, 12, 16), sigs |-> Range0(sig),
        p |-> << PZ("profileSize", size),
                 PB("preferredCMMType", Sl(c, 4, 8)),
                 Leaf("profileVersion", ToString(v1) \o "." \o ToString(Shr(v2, 4)) \o "." \o ToString(Low(v2, 4))),
                 PB("profileClass", Sl(c, 12, 16)),
                 PB("colourSpace", Sl(c, 16, 20)),
                 PB("profileConnectionSpace", Sl(c, 20, 24)),
                 Leaf("dateTimeString", ToString(year) \o "/" \o two(month) \o "/" \o two(day) \o ", "
                                        \o two(hour) \o ":" \o two(min) \o ":" \o two(sec)),
                 PB("profileSignature", Sl(c, 36, 40)),
                 PB("primaryPlatform", Sl(c, 40, 44)),
                 P("embeddedProfile", BitP(flags, 8)),
                 P("profileCannotBeUsedIndependently", BitP(flags, 7)),
                 PB("deviceManufacturer", Sl(c, 48, 52)),
                 PB("deviceModel", Sl(c, 52, 56)),
                 P("transparency", BitP(attr, 8)), P("glossiness", BitP(attr, 7)),
                 P("polarity", BitP(attr, 6)), P("colour", BitP(attr, 5)),
                 P("renderingIntent", U16(Sl(c, 66, 68))),
                 illum("connectionSpaceIlluminantX", 68),
                 illum("connectionSpaceIlluminantY", 72),
                 illum("connectionSpaceIlluminantZ", 76),
                 PB("profileCreator", Sl(c, 80, 84)),
                 Leaf("profileID", HexText(Sl(c, 84, 100))) >>
              \o [i \in 1..n |-> PB("tag", sig[i])]
              \o << PB("description", desc) >>]

ColPrimsSet  == {1, 2} \cup 4..12 \cup {22}
TransfCSet   == {1, 2} \cup 4..18
MatCoeffsSet == {0, 1, 2} \cup 4..14

ColourSpecification(c, o) ==
    LET meth   == U8(Sl(c, 0, 1))
        prec   == U8(Sl(c, 1, 2))
        approx == U8(Sl(c, 2, 3))
        rest   == From(c, 3)
        methT  == IF Jp2(o) THEN <<T("methIsValid", meth \in {1, 2})>>
                  ELSE IF Jph(o) THEN <<T("methIsValid", meth \in {1, 2, 3, 5})>> ELSE <<>>
        t0     == methT \o <<T("precIsValid", prec = 0), T("approxIsValid", approx = 0)>>
        p0     == <<P("meth", meth), P("prec", prec), P("approx", approx)>>
    IN CASE meth = 1 ->
              LET e == U32(rest)
              IN Res(t0 \o <<T("enumCSIsValid", ZToInt(e) \in {16, 17, 18})>>, p0 \o <<PZ("enumCS", e)>>, <<>>)
         [] meth = 2 ->
              LET icc == Icc(rest)
              IN Res(t0 \o << T("iccSizeIsValid", icc.size = ZInt(Len(rest))),
                              T("iccPermittedProfileClass",
                                icc.class \in {<<115,99,110,114>>, <<109,110,116,114>>}),
                              T("iccNoLUTBasedProfile", <<65,50,66,48>> \notin icc.sigs) >>,   \* A2B0
                     p0 \o <<Node("icc", icc.p)>>, <<>>)
         [] meth = 3 -> Res(t0, p0 \o <<Node("icc", Icc(rest).p)>>, <<>>)
         [] meth = 5 ->
              LET prims == U16(Sl(c, 3, 5))
                  transf == U16(Sl(c, 5, 7))
                  mat   == U16(Sl(c, 7, 9))
                  rng   == U8(Sl(c, 9, 10))
              IN Res(t0 \o (IF Jph(o) THEN << T("colPrimsIsValid", prims \in ColPrimsSet),
                                              T("transfCIsValid", transf \in TransfCSet),
                                              T("matCoeffsIsValid", mat \in MatCoeffsSet) >> ELSE <<>>),
                     p0 \o << P("colPrims", prims), P("transfC", transf), P("matCoeffs", mat),
                              P("vidFRng", BitP(rng, 1)) >>, <<>>)
         [] OTHER -> Res(t0, p0, <<>>)

---------------------------------------------------------------------------
Palette(c) ==
    LET nE   == U16(Sl(c, 0, 2))
        nPC  == U8(Sl(c, 2, 3))
        cols == Max2(nPC, 0)
        b(i) == U8(Sl(c, 2 + i, 3 + i))
        wide == Force([i \in 1..cols |-> (Depth8(b(i)) + 7) \div 8])      \* bytes per value
        left == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + x), <<nPC + 3>>, wide)
        row  == left[Len(left)] - (nPC + 3)                               \* bytes per entry
        col(i) ==
            LET ent(k) == LET off == left[i] + (k - 1) * row
                              s == Sl(c, off, off + wide[i])
                          IN IF s = <<>> THEN P("cP", Missing) ELSE PZ("cP", <<FALSE, NFromBytes(s)>>)
            IN [t |-> <<T("bDepthIsValid", DepthOk(Depth8(b(i))))>>,
                p |-> <<P("bSign", Sign8(b(i))), P("bDepth", Depth8(b(i)))>> \o [k \in 1..Max2(nE, 0) |-> ent(k)]]
        all == Force([i \in 1..cols |-> col(i)])
    IN Res(<<T("nEIsValid", 1 <= nE /\ nE <= 1024), T("nPCIsValid", 1 <= nPC /\ nPC <= 255)>>
             \o Flat([i \in 1..cols |-> all[i].t]),
           <<P("nE", nE), P("nPC", nPC)>> \o Flat([i \in 1..cols |-> all[i].p]), <<>>)

ComponentMapping(c) ==
    LET n == Len(c) \div 4
        ch(i) == LET a    == 4 * (i - 1)
                     cMP  == U16(Sl(c, a, a + 2))
                     mTyp == c[a + 3]
                     pCol == c[a + 4]
                 IN [t |-> << T("cMPIsValid", cMP <= 16384), T("mTypIsValid", mTyp <= 1),
                              T("pColIsValid", mTyp = 0 => pCol = 0) >>,
                     p |-> << P("cMP", cMP), P("mTyp", mTyp), P("pCol", pCol) >>]
        all == Force([i \in 1..n |-> ch(i)])
    IN Res(Flat([i \in 1..n |-> all[i].t]), Flat([i \in 1..n |-> all[i].p]), <<>>)

\* values of cTyp in a channel definition box
ChannelTypes(c) == LET n == U16(Sl(c, 0, 2))
                   IN {U16(Sl(c, 6 * i - 2, 6 * i)) : i \in 1..Max2(n, 0)}

ChannelDefinition(c, o) ==
    LET n == U16(Sl(c, 0, 2))
        m == Max2(n, 0)
        typ(i)   == U16(Sl(c, 6 * i - 2, 6 * i))
        assoc(i) == U16(Sl(c, 6 * i, 6 * i + 2))
        ch(i) == LET a  == 6 * i - 4
                     cN == U16(Sl(c, a, a + 2))
                 IN [t |-> << T("cNIsValid", 0 <= cN) >>
                           \o (IF Jp2(o) THEN <<T("cTypIsValid", typ(i) \in {0, 1, 2, 65535})>>
                               ELSE IF Jph(o) THEN <<T("cTypIsValid", typ(i) \in {0, 1, 2, 3, 65535})>> ELSE <<>>)
                           \o << T("cAssocIsValid", 0 <= assoc(i)) >>,
                     p |-> << P("cN", cN), P("cTyp", typ(i)), P("cAssoc", assoc(i)) >>]
        all == Force([i \in 1..m |-> ch(i)])
        alpha == SelectSeq([i \in 1..m |-> i], LAMBDA i : typ(i) \in {1, 2})
    IN Res(<<T("nIsValid", 1 <= n), T("boxLengthIsValid", Len(c) - 2 = n * 6)>>
             \o Flat([i \in 1..m |-> all[i].t])
             \o (IF Jph(o) THEN <<T("noMoreThanOneAlphaChannel", Len(alpha) <= 1)>>
                                \o [k \in 1..Len(alpha) |-> T("cAssocAlphaChannelIsZero", assoc(alpha[k]) = 0)]
                 ELSE <<>>),
           <<P("n", n)>> \o Flat([i \in 1..m |-> all[i].p]), <<>>)

---------------------------------------------------------------------------
\* capture (x = "c") and default display (x = "d") resolution
Resolution(c, x) ==
    LET vN == U16(Sl(c, 0, 2))
        vD == U16(Sl(c, 2, 4))
        hN == U16(Sl(c, 4, 6))
        hD == U16(Sl(c, 6, 8))
        vE == S8(Sl(c, 8, 9))
        hE == S8(Sl(c, 9, 10))
        r(v) == 1 <= v
        e(v) == v # Missing
        ppm(tag, n, d, ex, k1, k2) ==
            IF d = 0 THEN AnyLeaf(tag)
            ELSE IF ex = Missing THEN Q(tag, ZZero, ZInt(1), 2)
            ELSE IF ex >= 0 THEN Q(tag, ZMul(ZMul(ZInt(n), <<FALSE, NPow10(ex)>>), ZInt(k1)), ZMul(ZInt(d), ZInt(k2)), 2)
            ELSE Q(tag, ZMul(ZInt(n), ZInt(k1)), ZMul(ZMul(ZInt(d), <<FALSE, NPow10(-ex)>>), ZInt(k2)), 2)
        nm(a, b) == a \o "R" \o x \o b
        rs(a, b) == a \o "Res" \o x \o "InPixelsPer" \o b
    IN Res(<< T("boxLengthIsValid", Len(c) = 10),
              T(nm("v", "NIsValid"), r(vN)), T(nm("v", "DIsValid"), r(vD)),
              T(nm("h", "NIsValid"), r(hN)), T(nm("h", "DIsValid"), r(hD)),
              T(nm("v", "EIsValid"), e(vE)), T(nm("h", "EIsValid"), e(hE)) >>,
           << P(nm("v", "N"), vN), P(nm("v", "D"), vD), P(nm("h", "N"), hN), P(nm("h", "D"), hD),
              P(nm("v", "E"), vE), P(nm("h", "E"), hE),
              ppm(rs("v", "Meter"), vN, vD, vE, 1, 1), ppm(rs("h", "Meter"), hN, hD, hE, 1, 1),
              ppm(rs("v", "Inch"), vN, vD, vE, 254, 10000), ppm(rs("h", "Inch"), hN, hD, hE, 254, 10000) >>, <<>>)

---------------------------------------------------------------------------
RECURSIVE StripNulls(_)
StripNulls(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN StripNulls(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* XML content: must be well-formed; a null-terminated document is not, but its
\* tree is reported if this was asked for
XmlContent(data, o) ==
    LET x == Xml(data)
    IN CASE x.st = "wf"  -> Res(<<T("containsWellformedXML", TRUE)>>, <<x.node>>, <<>>)
         [] x.st = "unk" -> Res(<<AnyLeaf("containsWellformedXML")>>, <<AnyLeaf("*")>>, <<>>)
         [] x.st = "bad" ->
              LET y == Xml(StripNulls(data))
              IN Res(<<T("containsWellformedXML", FALSE)>>,
                     IF ~o.nullxml THEN <<>>
                     ELSE IF y.st = "wf" THEN <<y.node>>
                     ELSE IF y.st = "unk" THEN <<AnyLeaf("*")>> ELSE <<>>, <<>>)

UuidText(s) == HexText(SubSeq(s, 1, 4)) \o "-" \o HexText(SubSeq(s, 5, 6)) \o "-" \o HexText(SubSeq(s, 7, 8))
               \o "-" \o HexText(SubSeq(s, 9, 10)) \o "-" \o HexText(SubSeq(s, 11, 16))

\* be7acfcb-97a9-42e8-9c71-999491e3afac
XmpUuid == <<190,122,207,203,151,169,66,232,156,113,153,148,145,227,175,172>>

Uuid(c, o) ==
    LET len == <<T("boxLengthIsValid", Len(c) > 16)>>
        id  == Sl(c, 0, 16)
    IN IF Len(id) < 16 THEN Res(len, <<>>, <<>>)
       ELSE IF id = XmpUuid THEN JoinRes(<<Res(len, <<>>, <<>>), XmlContent(From(c, 16), o)>>)
       ELSE Res(len, <<Leaf("uuid", UuidText(id))>>, <<>>)

UuidList(c) ==
    LET nU == U16(Sl(c, 0, 2))
        k  == Min2(Max2(nU, 0), Max2(0, (Len(c) - 2) \div 16))
    IN Res(<<T("boxLengthIsValid", Len(c) = nU * 16 + 2)>>,
           <<P("nU", nU)>> \o [i \in 1..k |-> Leaf("uuid", UuidText(Sl(c, 16 * i - 14, 16 * i + 2)))], <<>>)

Url(c) ==
    LET version == U8(Sl(c, 0, 1))
        loc     == From(c, 4)
        bare    == StripNulls(loc)
    IN Res(<< T("versionIsValid", version = 0),
              T("flagIsValid", Sl(c, 1, 4) = <<0, 0, 0>>),
              T("locHasNullTerminator", loc # <<>> /\ loc[Len(loc)] = 0),
              T("locIsUTF8", Utf8(bare).ok) >>,
           << P("version", version), PB("loc", bare) >>, <<>>)

Unknown(type) ==
    LET txt == BytesText(type)
    IN Res(<<>>, <<Leaf("boxType", txt)>>, <<Leaf("warning", "ignoring unknown box '" \o txt \o "'")>>)

\* result of a box without sub-boxes that is not a codestream
LeafBox(name, type, c, o) ==
    CASE name = "signatureBox"           -> Signature(c)
      [] name = "fileTypeBox"            -> FileType(c, o)
      [] name = "imageHeaderBox"         -> ImageHeader(c)
      [] name = "bitsPerComponentBox"    -> BitsPerComponent(c)
      [] name = "colourSpecificationBox" -> ColourSpecification(c, o)
      [] name = "paletteBox"             -> Palette(c)
      [] name = "componentMappingBox"    -> ComponentMapping(c)
      [] name = "channelDefinitionBox"   -> ChannelDefinition(c, o)
      [] name = "captureResolutionBox"   -> Resolution(c, "c")
      [] name = "displayResolutionBox"   -> Resolution(c, "d")
      [] name = "xmlBox"                 -> XmlContent(c, o)
      [] name = "uuidBox"                -> Uuid(c, o)
      [] name = "uuidListBox"            -> UuidList(c)
      [] name = "urlBox"                 -> Url(c)
      [] name = "intellectualPropertyBox" -> Nothing
      [] name = "unknownBox"             -> Unknown(type)
=============================================================================
