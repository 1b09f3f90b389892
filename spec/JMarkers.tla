------------------------------ MODULE JMarkers ------------------------------
(***************************************************************************)
(* What is tested and reported for each codestream marker segment          *)
(* (ISO/IEC 15444-1 Annex A, ISO/IEC 15444-15 Annex A).                    *)
(* c: contents of the segment, starting with its length field;             *)
(* n: number of components (csiz) of the codestream; o: options.           *)
(***************************************************************************)
EXTENDS JBoxes

\* quotient truncated towards zero, as used for the number of list entries;
\* only the non-negative case matters
Entries(x, d) == IF x < 0 THEN 0 ELSE x \div d

Wide(n) == n >= 257             \* component indices take two bytes
Ix(n)   == IF Wide(n) THEN 2 ELSE 1
Index(c, a, n) == IF Wide(n) THEN U16(Sl(c, a, a + 2)) ELSE U8(Sl(c, a, a + 1))
IndexOk(i, n)  == 0 <= i /\ i <= (IF Wide(n) THEN 16383 ELSE 255)

In(x, lo, hi) == lo <= x /\ x <= hi

---------------------------------------------------------------------------
Capability(rsiz) ==
    LET ext  == Low(Shr(rsiz, 14), 4)
        prof == Low(Shr(rsiz, 8), 4)
        sub  == Low(Shr(rsiz, 4), 4)
        main == Low(rsiz, 4)
        ml   == ", Mainlevel " \o ToString(main)
        msl  == ml \o "; Sublevel " \o ToString(sub)
        unknown == "Unknown (value not defined in ISO/IEC 15444-1)"
        plain == << "ISO/IEC 15444-1", "Profile 0", "Profile 1", "2K digital cinema profile",
                    "4K digital cinema profile", "Scalable 2K digital cinema profile",
                    "Scalable 4K digital cinema profile", "Long-term storage profile" >>
    IN CASE ext = 1 -> "CAP"
         [] ext = 2 -> "ISO/IEC 15444-2"
         [] ext = 3 -> "ISO/IEC 15444-2 + CAP"
         [] OTHER ->
            CASE prof = 0 -> IF main <= 7 THEN plain[main + 1] ELSE unknown
              [] prof = 1 -> "Broadcast Contribution Single Tile Profile" \o ml
              [] prof = 2 -> "Broadcast Contribution Multi-tile Profile" \o ml
              [] prof = 3 -> "Broadcast Contribution Multi-tile Reversible Profile" \o ml
              [] prof = 4 -> "2k IMF Single Tile Lossy Profile" \o msl
              [] prof = 5 -> "4k IMF Single Tile Lossy Profile" \o msl
              [] prof = 6 -> "8k IMF Single Tile Lossy Profile" \o msl
              [] prof = 7 -> "2k IMF Single/Multi Tile Reversible Profile" \o msl
              [] prof = 8 -> "4k IMF Single/Multi Tile Reversible Profile" \o msl
              [] prof = 9 -> "8k IMF Single/Multi Tile Reversible Profile" \o msl
              [] prof = 15 /\ sub = 15 /\ main = 15 -> "Profile signalled in Profile Marker"
              [] OTHER -> unknown

\* the CAP marker segment is required
NeedsCap(rsiz) == Low(Shr(rsiz, 14), 4) = 1

\* The fields of a SIZ segment
SizOf(c) ==
    [ lsiz |-> U16(Sl(c, 0, 2)), rsiz |-> U16(Sl(c, 2, 4)),
      xsiz |-> U32(Sl(c, 4, 8)), ysiz |-> U32(Sl(c, 8, 12)),
      xOsiz |-> U32(Sl(c, 12, 16)), yOsiz |-> U32(Sl(c, 16, 20)),
      xTsiz |-> U32(Sl(c, 20, 24)), yTsiz |-> U32(Sl(c, 24, 28)),
      xTOsiz |-> U32(Sl(c, 28, 32)), yTOsiz |-> U32(Sl(c, 32, 36)),
      csiz |-> U16(Sl(c, 36, 38)),
      comp |-> Force([i \in 1..Max2(0, U16(Sl(c, 36, 38))) |-> U8(Sl(c, 35 + 3 * i, 36 + 3 * i))]) ]

\* number of tiles, as a Z number
NumberOfTiles(s) ==
    IF s.xTsiz = ZZero \/ s.yTsiz = ZZero THEN ZZero
    ELSE ZMul(ZCeilDiv(ZSub(s.xsiz, s.xTOsiz), s.xTsiz),
              ZCeilDiv(ZSub(s.ysiz, s.yTOsiz), s.yTsiz))

SizHeight(s) == ZSub(s.ysiz, s.yOsiz)
SizWidth(s)  == ZSub(s.xsiz, s.xOsiz)
SizSigns(s)  == MapSeq(s.comp, Sign8)
SizDepths(s) == MapSeq(s.comp, Depth8)

MaxU32Less1 == ZSub(MaxU32, ZInt(1))

Siz(c, o) ==
    LET s == SizOf(c)
        dim(z) == ~z[1] /\ z[2] # <<>>                  \* 1 .. 2^32 - 1
        off(z) == ~z[1] /\ ZLe(z, MaxU32Less1)          \* 0 .. 2^32 - 2
        comp(i) ==
            LET b  == s.comp[i]
                xr == U8(Sl(c, 36 + 3 * i, 37 + 3 * i))
                yr == U8(Sl(c, 37 + 3 * i, 38 + 3 * i))
            IN [t |-> << T("ssizIsValid", DepthOk(Depth8(b))),
                         T("xRsizIsValid", In(xr, 1, 255)), T("yRsizIsValid", In(yr, 1, 255)) >>,
                p |-> << P("ssizSign", Sign8(b)), P("ssizDepth", Depth8(b)),
                         P("xRsiz", xr), P("yRsiz", yr) >>]
        all == Force([i \in 1..Len(s.comp) |-> comp(i)])
    IN Res(<< T("lsizIsValid", In(s.lsiz, 41, 49190)),
              T("rsizIsValid", IF PartFifteen(o) THEN BitP16(s.rsiz, 2) = 1
                               ELSE Low(Shr(s.rsiz, 12), 4) = 0),
              T("xsizIsValid", dim(s.xsiz)), T("ysizIsValid", dim(s.ysiz)),
              T("xOsizIsValid", off(s.xOsiz)), T("yOsizIsValid", off(s.yOsiz)),
              T("xTsizIsValid", dim(s.xTsiz)), T("yTsizIsValid", dim(s.yTsiz)),
              T("xTOsizIsValid", off(s.xTOsiz)), T("yTOsizIsValid", off(s.yTOsiz)),
              T("csizIsValid", In(s.csiz, 1, 16384)),
              T("lsizConsistentWithCsiz", s.lsiz = 38 + 3 * s.csiz) >>
             \o Flat([i \in 1..Len(s.comp) |-> all[i].t]),
           << P("lsiz", s.lsiz), P("rsiz", s.rsiz), Leaf("capability", Capability(s.rsiz)),
              PZ("xsiz", s.xsiz), PZ("ysiz", s.ysiz), PZ("xOsiz", s.xOsiz), PZ("yOsiz", s.yOsiz),
              PZ("xTsiz", s.xTsiz), PZ("yTsiz", s.yTsiz), PZ("xTOsiz", s.xTOsiz), PZ("yTOsiz", s.yTOsiz),
              PZ("numberOfTiles", NumberOfTiles(s)), P("csiz", s.csiz) >>
             \o Flat([i \in 1..Len(s.comp) |-> all[i].p]), <<>>)

---------------------------------------------------------------------------
\* Coding parameters common to COD and COC; a: offset of the levels field
CodingParameters(c, a, precincts, o) ==
    LET levels == U8(Sl(c, a, a + 1))
        wByte  == U8(Sl(c, a + 1, a + 2))
        hByte  == U8(Sl(c, a + 2, a + 3))
        style  == U8(Sl(c, a + 3, a + 4))
        transf == U8(Sl(c, a + 4, a + 5))
        onlyHT == PartFifteen(o) /\ Low(Shr(style, 6), 2) = 1
        pow(tag, b) == IF b = Missing THEN AnyLeaf(tag) ELSE Leaf(tag, NStr(NPow2(b + 2)))
        flag(tag, bit) == <<P(tag, BitP(style, bit))>>
        k      == Max2(0, levels + 1)
        prec(i) == LET b == U8(Sl(c, a + 4 + i, a + 5 + i)) IN   \* i = 1 .. k
                   [x |-> Low(b, 4), y |-> Low(Shr(b, 4), 4)]
    IN [levels |-> levels,
        t |-> << T("levelsIsValid", In(levels, 0, 32)),
                 T("codeBlockWidthExponentIsValid", In(wByte, 0, 8)),
                 T("codeBlockHeightExponentIsValid", In(hByte, 0, 8)),
                 T("sumHeightWidthExponentIsValid", wByte + hByte <= 8),
                 T("transformationIsValid", transf \in {0, 1}) >>
              \o (IF precincts = 1
                  THEN Flat([i \in 1..k |-> << T("precinctSizeXIsValid", i = 1 \/ prec(i).x >= 1),
                                               T("precinctSizeYIsValid", i = 1 \/ prec(i).y >= 1) >>])
                  ELSE <<>>),
        p |-> << P("levels", levels), pow("codeBlockWidth", wByte), pow("codeBlockHeight", hByte) >>
              \o flag("codingBypass", 8)
              \o (IF onlyHT THEN <<>> ELSE flag("resetOnBoundaries", 7))
              \o flag("termOnEachPass", 6) \o flag("vertCausalContext", 5)
              \o (IF onlyHT THEN <<>> ELSE flag("predTermination", 4) \o flag("segmentationSymbols", 3))
              \o << P("transformation", transf) >>
              \o Flat([i \in 1..k |->
                         IF precincts = 1
                         THEN << P("precinctSizeX", 2 ^ prec(i).x), P("precinctSizeY", 2 ^ prec(i).y) >>
                         ELSE << P("precinctSizeX", 32768), P("precinctSizeY", 32768) >>])]

Cod(c, o) ==
    LET lcod   == U16(Sl(c, 0, 2))
        scod   == U8(Sl(c, 2, 3))
        prec   == BitP(scod, 8)
        order  == U8(Sl(c, 3, 4))
        layers == U16(Sl(c, 4, 6))
        mct    == U8(Sl(c, 6, 7))
        cp     == CodingParameters(c, 7, prec, o)
    IN Res(<< T("lcodIsValid", In(lcod, 12, 45)), T("orderIsValid", In(order, 0, 4)),
              T("layersIsValid", In(layers, 1, 65535)),
              T("multipleComponentTransformationIsValid", mct \in {0, 1}),
              T("lcodConsistencyCheck", lcod = (IF prec = 1 THEN 13 + cp.levels ELSE 12)) >> \o cp.t,
           << P("lcod", lcod), P("precincts", prec), P("sop", BitP(scod, 7)), P("eph", BitP(scod, 6)),
              P("order", order), P("layers", layers), P("multipleComponentTransformation", mct) >> \o cp.p,
           <<>>)

CcocOf(c, n) == Index(c, 2, n)

Coc(c, n, o) ==
    LET lcoc == U16(Sl(c, 0, 2))
        ccoc == CcocOf(c, n)
        a    == 2 + Ix(n)
        prec == BitP(U8(Sl(c, a, a + 1)), 8)
        cp   == CodingParameters(c, a + 1, prec, o)
        base == IF Wide(n) THEN 10 ELSE 9
    IN Res(<< T("lcocIsValid", In(lcoc, 9, 43)), T("ccocIsValid", IndexOk(ccoc, n)),
              T("lcocConsistencyCheck", lcoc = (IF prec = 1 THEN base + 1 + cp.levels ELSE base)) >> \o cp.t,
           << P("lcoc", lcoc), P("ccoc", ccoc), P("precincts", prec) >> \o cp.p, <<>>)

Rgn(c, n, o) ==
    LET lrgn == U16(Sl(c, 0, 2))
        crgn == Index(c, 2, n)
        a    == 2 + Ix(n)
        style == U8(Sl(c, a, a + 1))
        shift == U8(Sl(c, a + 1, a + 2))
    IN Res(<< T("lrgnIsValid", In(lrgn, 5, 6)), T("crgnIsValid", IndexOk(crgn, n)),
              T("roiStyleIsValid", style = 0),
              T("roiShiftIsValid", In(shift, 0, IF PartFifteen(o) THEN 37 ELSE 255)) >>,
           << P("lrgn", lrgn), P("crgn", crgn), P("roiStyle", style), P("roiShift", shift) >>, <<>>)

\* Quantization parameters common to QCD and QCC; a: offset of the style field,
\* k0 and k2: number of entries for styles 0 and 2
Quantization(c, a, k0, k2) ==
    LET sq == U8(Sl(c, a, a + 1))
        style == Low(sq, 5)
        mueps(b) == LET v == U16(Sl(c, b, b + 2))
                    IN << P("mu", Low(v, 11)), P("epsilon", Low(Shr(v, 11), 5)) >>
    IN [t |-> << T("qStyleIsValid", style \in {0, 1, 2}) >>,
        p |-> << P("qStyle", style), P("guardBits", Low(Shr(sq, 5), 3)) >>
              \o CASE style = 0 -> [i \in 1..k0 |-> P("epsilon", Low(Shr(U8(Sl(c, a + i, a + 1 + i)), 3), 5))]
                   [] style = 1 -> mueps(a + 1)
                   [] style = 2 -> Flat([i \in 1..k2 |-> mueps(a + 2 * i - 1)])
                   [] OTHER -> <<>>]

Qcd(c) ==
    LET lqcd == U16(Sl(c, 0, 2))
        q    == Quantization(c, 2, Entries(lqcd - 4, 3), Entries(lqcd - 5, 6))
    IN Res(<< T("lqcdIsValid", In(lqcd, 4, 197)) >> \o q.t, << P("lqcd", lqcd) >> \o q.p, <<>>)

CqccOf(c, n) == Index(c, 2, n)

Qcc(c, n) ==
    LET lqcc == U16(Sl(c, 0, 2))
        a    == 2 + Ix(n)
        q    == Quantization(c, a, Entries(lqcc - 4 - Ix(n), 3), Entries(lqcc - 5 - Ix(n), 6))
    IN Res(<< T("lqccIsValid", In(lqcc, 5, 199)) >> \o q.t,
           << P("lqcc", lqcc), P("cqcc", CqccOf(c, n)) >> \o q.p, <<>>)

Poc(c, n) ==
    LET lpoc == U16(Sl(c, 0, 2))
        w    == 5 + 2 * Ix(n)
        k    == Entries(lpoc - 2, w)
        entry(i) ==
            LET a  == 2 + (i - 1) * w
                rs == U8(Sl(c, a, a + 1))
                cs == Index(c, a + 1, n)
                b  == a + 1 + Ix(n)
                ly == U16(Sl(c, b, b + 2))
                re == U8(Sl(c, b + 2, b + 3))
                ce == Index(c, b + 3, n)
                d  == b + 3 + Ix(n)
                order == U8(Sl(c, d, d + 1))
            IN [t |-> << T("rspocIsValid", In(rs, 0, 32)), T("cspocIsValid", IndexOk(cs, n)),
                         T("lyepocIsValid", In(ly, 1, 65535)), T("repocIsValid", In(re, rs + 1, 33)),
                         T("cepocIsValid", ce = 0 \/ In(ce, cs + 1, IF Wide(n) THEN 16384 ELSE 255)),
                         T("orderIsValid", In(order, 0, 4)) >>,
                p |-> << P("rspoc", rs), P("cspoc", cs), P("lyepoc", ly), P("repoc", re),
                         P("cepoc", ce), P("order", order) >>]
        all == Force([i \in 1..k |-> entry(i)])
    IN Res(<< T("lpocIsValid", In(lpoc, 9, 65535)) >> \o Flat([i \in 1..k |-> all[i].t]),
           << P("lpoc", lpoc) >> \o Flat([i \in 1..k |-> all[i].p]), <<>>)

Crg(c, n) ==
    LET lcrg == U16(Sl(c, 0, 2))
        k    == Max2(0, n)
        x(i) == U16(Sl(c, 4 * i - 2, 4 * i))
        y(i) == U16(Sl(c, 4 * i, 4 * i + 2))
    IN Res(<< T("lcrgIsValid", In(lcrg, 6, 65534)) >>
             \o Flat([i \in 1..k |-> << T("xcrgIsValid", 0 <= x(i)), T("ycrgIsValid", 0 <= y(i)) >>]),
           << P("lcrg", lcrg) >> \o Flat([i \in 1..k |-> << P("xcrg", x(i)), P("ycrg", y(i)) >>]), <<>>)

---------------------------------------------------------------------------
\* ISO 8859-15
Latin9 == (164 :> 8364) @@ (166 :> 352) @@ (168 :> 353) @@ (180 :> 381) @@ (184 :> 382)
          @@ (188 :> 338) @@ (189 :> 339) @@ (190 :> 376)
FromLatin9(s) == [i \in 1..Len(s) |-> IF s[i] \in DOMAIN Latin9 THEN Latin9[s[i]] ELSE s[i]]

Com(c) ==
    LET lcom == U16(Sl(c, 0, 2))
        rcom == U16(Sl(c, 2, 4))
        body == Sl(c, 4, lcom)
        cps  == FromLatin9(body)
        ok   == \/ rcom = 0
                \/ rcom = 1 /\ \A i \in 1..Len(cps) : ~Unprintable(cps[i])
    IN Res(<< T("lcomIsValid", In(lcom, 5, 65535)), T("rcomIsValid", rcom \in {0, 1}),
              T("commentIsValid", ok) >>,
           << P("lcom", lcom), P("rcom", rcom) >>
             \o (IF ~ok THEN <<>> ELSE << Leaf("comment", IF rcom = 0 THEN HexText(body) ELSE Str(cps)) >>),
           <<>>)

\* largest bit depth parameter of the MAGB set
HtB(p) == CASE p = 0 -> 8 [] p \in 1..19 -> p + 8 [] p \in 20..30 -> 4 * (p - 19) + 27 [] p = 31 -> 74

Cap(c, o) ==
    LET lcap  == U16(Sl(c, 0, 2))
        raw   == Sl(c, 2, 6)
        pcap  == IF Len(raw) = 4 THEN raw ELSE <<255, 255, 216, 241>>   \* -9999
        bit(i) == BitP(pcap[((i - 1) \div 8) + 1], ((i - 1) % 8) + 1)
        parts == SelectSeq([i \in 1..32 |-> i], LAMBDA i : bit(i) = 1)
        k     == Len(parts)
        has15 == 15 \in Range0(parts)
        pos   == CHOOSE j \in 1..k : parts[j] = 15
        ccap  == U16(Sl(c, 4 + 2 * pos, 6 + 2 * pos))
    IN Res(<< T("lcapIsValid", lcap = 6 + 2 * k) >>
             \o (IF PartFifteen(o) THEN << T("pcap15IsValid", has15) >> ELSE <<>>),
           << P("lcap", lcap) >> \o [i \in 1..k |-> P("pcapPart", parts[i])]
             \o (IF PartFifteen(o) /\ has15
                 THEN << P("htCodeBlocks", 16384 * Low(Shr(ccap, 14), 2)),
                         P("htSets", BitP16(ccap, 3)), P("htRegion", BitP16(ccap, 4)),
                         P("htHomogeneous", BitP16(ccap, 5)), P("htReversible", BitP16(ccap, 11)),
                         P("htB", HtB(Low(ccap, 5))) >>
                 ELSE <<>>), <<>>)

\* Profile numbers: little-endian list of 16 bit values
MaxProfileWords == 40
RECURSIVE WordSum(_, _, _)
WordSum(c, i, k) ==     \* sum of word(i) * 2^(16 (i - 1)), .., for i <= k
    IF i > k THEN ZZero
    ELSE ZAdd(ZInt(U16(Sl(c, 2 * i, 2 * i + 2))), ZMul(ZInt(65536), WordSum(c, i + 1, k)))

Prf(c) ==
    LET lprf == U16(Sl(c, 0, 2))
        k    == Entries(lprf - 2, 2)
        num  == ZAdd(ZInt(4095), WordSum(c, 1, k))
        big  == k > MaxProfileWords
    IN Res(<< T("lprfIsValid", In(lprf, 4, 65534)) >>
             \o (IF k > 0 THEN << T("pprfIsValid", U16(Sl(c, 2 * k, 2 * k + 2)) # 0) >> ELSE <<>>)
             \o << IF big THEN AnyLeaf("PRFnumIsValid") ELSE T("PRFnumIsValid", ~ZLe(num, ZInt(4095))) >>,
           << P("lprf", lprf), IF big THEN AnyLeaf("PRFnum") ELSE PZ("PRFnum", num) >>, <<>>)

Cpf(c, o) ==
    LET lcpf == U16(Sl(c, 0, 2))
        k    == Entries(lcpf - 2, 2)
        num  == ZAdd(ZInt(-1), WordSum(c, 1, k))
    IN Res(IF ~PartFifteen(o) THEN <<>>
           ELSE << T("lcpfIsValid", In(lcpf, 4, 65534)) >>
                \o (IF k > 0 THEN << T("pcpfIsValid", U16(Sl(c, 2 * k, 2 * k + 2)) # 0) >> ELSE <<>>),
           << P("lcpf", lcpf), IF k > MaxProfileWords THEN AnyLeaf("CPFnum") ELSE PZ("CPFnum", num) >>, <<>>)

---------------------------------------------------------------------------
\* Packet lengths: 7 bits per byte, the first bit says that more follow.  Each
\* length is reported as a hexadecimal number with two digits per byte.
SeptetHex(s) ==
    LET n    == Len(s)
        \* bit b (1 = most significant) of the 8n bit number
        bit(b) == IF b <= n THEN 0
                  ELSE BitP(s[((b - n - 1) \div 7) + 1], ((b - n - 1) % 7) + 2)
        digit(d) == HexUpper[8 * bit(4 * d - 3) + 4 * bit(4 * d - 2) + 2 * bit(4 * d - 1) + bit(4 * d) + 1]
    IN Cat([d \in 1..(2 * n) |-> digit(d)])

\* a packet length starts at position i, and wherever another one has ended
PacketLengths(c, i) ==
    LET starts == SelectSeq([j \in 1..Len(c) |-> j], LAMBDA j : j = i \/ (j > i /\ c[j - 1] < 128))
        ends   == [k \in 1..Len(starts) |-> IF k < Len(starts) THEN starts[k + 1] - 1 ELSE Len(c)]
    IN [k \in 1..Len(starts) |-> SeptetHex(SubSeq(c, starts[k], ends[k]))]

Plm(c) ==
    LET l == U16(Sl(c, 0, 2)) IN
    Res(<<>>, << P("lplm", l), P("zplm", U8(Sl(c, 2, 3))), P("nplm", U8(Sl(c, 3, 4))),
                 Leaf("iplm", Join(PacketLengths(c, 5), ",")) >>, <<>>)

Plt(c) ==
    LET l == U16(Sl(c, 0, 2)) IN
    Res(<<>>, << P("lplt", l), P("zplt", U8(Sl(c, 2, 3))),
                 Leaf("iplt", Join(PacketLengths(c, 4), ",")) >>, <<>>)

---------------------------------------------------------------------------
\* fields of a SOT segment; psot as a position (saturated)
SotOf(c) == [ isot |-> U16(Sl(c, 2, 4)), psot |-> U32Sat(Sl(c, 4, 8)),
              tpsot |-> U8(Sl(c, 8, 9)), tnsot |-> U8(Sl(c, 9, 10)) ]

Sot(c) ==
    LET s == SotOf(c)
        l == U16(Sl(c, 0, 2))
    IN Res(<< T("lsotIsValid", l = 10), T("isotIsValid", In(s.isot, 0, 65534)),
              T("psotIsValid", ~In(s.psot, 1, 13)), T("tpsotIsValid", In(s.tpsot, 0, 254)) >>,
           << P("lsot", l), P("isot", s.isot), PZ("psot", U32(Sl(c, 4, 8))),
              P("tpsot", s.tpsot), P("tnsot", s.tnsot) >>, <<>>)

---------------------------------------------------------------------------
\* marker codes (second byte; the first is 255)
SOC == 79   CAP == 80   SIZ == 81   COD == 82   COC == 83   TLM == 85   PRF == 86
PLM == 87   PLT == 88   CPF == 89   QCD == 92   QCC == 93   RGN == 94   POC == 95
PPM == 96   PPT == 97   CRG == 99   COM == 100  SOT == 144  EPH == 146  SOD == 147  EOC == 217

\* segments that are looked at in the main header and in tile-part headers
MainSegments == {CAP, COD, COC, TLM, PRF, PLM, CPF, QCD, QCC, RGN, POC, PPM, CRG, COM}
TileSegments == {COD, COC, PLT, QCD, QCC, RGN, POC, PPT, COM}
\* reported only if information on packets was asked for
PacketSegments == {PLM, PPM, PLT, PPT}

SegmentName == (CAP :> "cap") @@ (COD :> "cod") @@ (COC :> "coc") @@ (TLM :> "tlm") @@ (PRF :> "prf")
    @@ (PLM :> "plm") @@ (PLT :> "plt") @@ (CPF :> "cpf") @@ (QCD :> "qcd") @@ (QCC :> "qcc")
    @@ (RGN :> "rgn") @@ (POC :> "poc") @@ (PPM :> "ppm") @@ (PPT :> "ppt") @@ (CRG :> "crg") @@ (COM :> "com")

Segment(m, c, n, o) ==
    CASE m = CAP -> Cap(c, o)
      [] m = COD -> Cod(c, o)
      [] m = COC -> Coc(c, n, o)
      [] m = PRF -> Prf(c)
      [] m = CPF -> Cpf(c, o)
      [] m = QCD -> Qcd(c)
      [] m = QCC -> Qcc(c, n)
      [] m = RGN -> Rgn(c, n, o)
      [] m = POC -> Poc(c, n)
      [] m = CRG -> Crg(c, n)
      [] m = COM -> Com(c)
      [] m = PLM -> Plm(c)
      [] m = PLT -> Plt(c)
      [] m \in {TLM, PPM, PPT} -> Nothing
=============================================================================
