------------------------------ MODULE JWriter ------------------------------
(***************************************************************************)
(* A machine that writes files, used to generate behaviours for replay.    *)
(*                                                                         *)
(* The state is a family, a variant and the list of items written so far   *)
(* at the one place of the file that the family varies; every action       *)
(* appends one item.  Every reachable state is a complete file, with its   *)
(* bytes and with a declarative statement of whether it is legal there.    *)
(* TLC explores all of them up to the length given for the family; the     *)
(* states that are selected are printed as                                 *)
(*    GEN|family|format|legal|number of broken rules|bytes in hex          *)
(* Replaying them in the real code and judging the result with JTrace      *)
(* binds the code to the specification; JTrace also checks that the        *)
(* analysis machine's verdict is the declarative one (Theorem).            *)
(***************************************************************************)
EXTENDS JBase, IOUtils

B2(n) == <<n \div 256, n % 256>>
B4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Zeros(n) == [i \in 1..n |-> 0]

Ascii(t) == CHOOSE b \in {
    <<"jP  ", <<106, 80, 32, 32>>>>, <<"ftyp", <<102, 116, 121, 112>>>>, <<"jp2h", <<106, 112, 50, 104>>>>,
    <<"jp2c", <<106, 112, 50, 99>>>>, <<"jp2i", <<106, 112, 50, 105>>>>, <<"xml ", <<120, 109, 108, 32>>>>,
    <<"uuid", <<117, 117, 105, 100>>>>, <<"uinf", <<117, 105, 110, 102>>>>, <<"ulst", <<117, 108, 115, 116>>>>,
    <<"url ", <<117, 114, 108, 32>>>>, <<"ihdr", <<105, 104, 100, 114>>>>, <<"bpcc", <<98, 112, 99, 99>>>>,
    <<"colr", <<99, 111, 108, 114>>>>, <<"pclr", <<112, 99, 108, 114>>>>, <<"cmap", <<99, 109, 97, 112>>>>,
    <<"cdef", <<99, 100, 101, 102>>>>, <<"res ", <<114, 101, 115, 32>>>>, <<"resc", <<114, 101, 115, 99>>>>,
    <<"resd", <<114, 101, 115, 100>>>>, <<"unkn", <<117, 110, 107, 110>>>>, <<"jp2 ", <<106, 112, 50, 32>>>>,
    <<"jph ", <<106, 112, 104, 32>>>> } : b[1] = t
A4(t) == Ascii(t)[2]

WBox(t, body) == B4(Len(body) + 8) \o A4(t) \o body
WSeg(m, body) == <<255, m>> \o B2(Len(body) + 2) \o body

---------------------------------------------------------------------------
\* Boxes, as small as possible
SigB     == WBox("jP  ", <<13, 10, 135, 10>>)
FtypB(f) == WBox("ftyp", A4(f) \o B4(0) \o A4(f))
IhdrB(w, h, n, bpc, unk, ipr) == WBox("ihdr", B4(h) \o B4(w) \o B2(n) \o <<bpc, 7, unk, ipr>>)
ColrB    == WBox("colr", <<1, 0, 0>> \o B4(16))
BpccB(n) == WBox("bpcc", [i \in 1..n |-> 7])
PclrB    == WBox("pclr", B2(1) \o <<1, 7, 200>>)
CmapB    == WBox("cmap", B2(0) \o <<1, 0>>)
CdefB(t) == WBox("cdef", B2(1) \o B2(0) \o B2(t) \o B2(1 - t))
RescB    == WBox("resc", B2(300) \o B2(1) \o B2(300) \o B2(1) \o <<2, 2>>)
ResdB    == WBox("resd", B2(72) \o B2(1) \o B2(72) \o B2(1) \o <<2, 2>>)
ResB     == WBox("res ", RescB)
XmlB     == WBox("xml ", <<60, 97, 47, 62>>)
UlstB    == WBox("ulst", B2(1) \o Zeros(16))
UrlB     == WBox("url ", Zeros(4) \o <<97, 0>>)
UuidB    == WBox("uuid", [i \in 1..16 |-> i] \o <<1>>)
UnknB    == WBox("unkn", <<1, 2>>)
Jp2iB    == WBox("jp2i", <<1>>)

\* Marker segments
SocM == <<255, 79>>
SodM == <<255, 147>>
EocM == <<255, 217>>
SizM(rsiz, xs, ys, xt, n) == WSeg(81, B2(rsiz) \o B4(xs) \o B4(ys) \o Zeros(8) \o B4(xt) \o B4(ys) \o Zeros(8) \o B2(n)
                                      \o Flat([i \in 1..n |-> <<7, 1, 1>>]))
SpM   == <<1, 4, 4, 0, 1>>
CodM  == WSeg(82, <<0, 0, 0, 1, 0>> \o SpM)
QcdM  == WSeg(92, <<64, 8, 8, 8, 8>>)
CocM(c) == WSeg(83, <<c, 0>> \o SpM)
QccM(c) == WSeg(93, <<c, 64, 8, 8, 8, 8>>)
RgnM  == WSeg(94, <<0, 0, 7>>)
PocM  == WSeg(95, <<0, 0, 0, 1, 1, 1, 0>>)
CapM  == WSeg(80, B4(131072) \o B2(0))
ComM  == WSeg(100, <<0, 1, 97>>)
PltM  == WSeg(88, <<0, 5>>)
PlmM  == WSeg(87, <<0, 1, 5>>)
UnkM  == WSeg(102, <<0>>)

\* tile-part: index, part, number of parts, header, stated length (0: none stated)
TileP(t, p, n, hdr, zero) ==
    WSeg(144, B2(t) \o B4(IF zero THEN 0 ELSE 12 + Len(hdr) + 2 + 3) \o <<p, n>>) \o hdr \o SodM \o <<0, 0, 0>>

---------------------------------------------------------------------------
\* A complete file around a codestream
Code(rsiz, xs, xt, n, main, tiles) == SocM \o SizM(rsiz, xs, 16, xt, n) \o main \o tiles \o EocM
PlainCode(rsiz, n) == Code(rsiz, 16, 16, n, (IF rsiz >= 16384 THEN CapM ELSE <<>>) \o CodM \o QcdM,
                           TileP(0, 0, 1, <<>>, FALSE))
RsizOf(fmt) == IF fmt = "jph" \/ fmt = "jhc" THEN 16384 ELSE 0
Brand(fmt) == IF fmt = "jph" THEN "jph " ELSE "jp2 "
HeadB(w, n) == WBox("jp2h", IhdrB(w, 16, n, 7, 0, 0) \o ColrB)
InFile(fmt, cs, w, n) == IF fmt = "j2c" \/ fmt = "jhc" THEN cs
                         ELSE SigB \o FtypB(Brand(fmt)) \o HeadB(w, n) \o WBox("jp2c", cs)

---------------------------------------------------------------------------
(* Families.  Each gives: alphabet of items, variants, maximal length, the  *)
(* bytes of a list of items, and the rules that make it legal.              *)

Cnt(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Is(s, i, x) == Len(s) >= i /\ s[i] = x
FirstOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
OneAt(s, x) == Cnt(s, x) <= 1

\* --- top: the boxes of a file.  variant = <<format, intellectual property flag>>
TopItem(v, x) ==
    CASE x = "sig"  -> SigB
      [] x = "ftyp" -> FtypB(Brand(v[1]))
      [] x = "jp2h" -> WBox("jp2h", IhdrB(16, 16, 1, 7, 0, v[2]) \o ColrB)
      [] x = "jp2c" -> WBox("jp2c", PlainCode(RsizOf(v[1]), 1))
      [] x = "jp2i" -> Jp2iB
      [] x = "xml"  -> XmlB
      [] x = "uuid" -> UuidB
      [] x = "unkn" -> UnknB
TopRules(v, s) == <<
    Is(s, 1, "sig"), Is(s, 2, "ftyp"), Cnt(s, "sig") = 1, Cnt(s, "ftyp") = 1, Cnt(s, "jp2h") = 1,
    Cnt(s, "jp2c") >= 1,
    Cnt(s, "jp2h") >= 1 /\ Cnt(s, "jp2c") >= 1 /\ FirstOf(s, "jp2h") > 2 /\ FirstOf(s, "jp2h") < FirstOf(s, "jp2c"),
    v[2] = 1 /\ Cnt(s, "jp2h") >= 1 => Cnt(s, "jp2i") >= 1 >>

\* --- hdr: the boxes of the JP2 header. variant = <<format, bits per component, colour space unknown>>
HdrItem(v, x) ==
    CASE x = "ihdr" -> IhdrB(16, 16, 1, v[2], v[3], 0)
      [] x = "colr" -> ColrB
      [] x = "bpcc" -> BpccB(1)
      [] x = "pclr" -> PclrB
      [] x = "cmap" -> CmapB
      [] x = "cdef" -> CdefB(0)
      [] x = "opac" -> CdefB(1)
      [] x = "res"  -> ResB
      [] x = "unkn" -> UnknB
HdrRules(v, s) == LET defs == Cnt(s, "cdef") + Cnt(s, "opac") IN <<
    Is(s, 1, "ihdr"), Cnt(s, "ihdr") = 1,
    IF v[1] = "jp2" THEN Cnt(s, "colr") >= 1
    ELSE \/ Cnt(s, "colr") >= 1
         \/ v[3] = 1 /\ Cnt(s, "cdef") = 0,
    v[2] = 255 => Cnt(s, "bpcc") = 1,
    v[2] # 254,                                \* no such depth
    OneAt(s, "bpcc"), OneAt(s, "pclr"), OneAt(s, "cmap"), defs <= 1, OneAt(s, "res"),
    \A i, j \in {i \in 1..Len(s) : s[i] = "colr"} : \A k \in i..j : s[k] = "colr",
    (Cnt(s, "pclr") > 0) = (Cnt(s, "cmap") > 0) >>

\* --- res, uinf: the boxes of a resolution box, UUID info box
ResItem(v, x) == CASE x = "resc" -> RescB [] x = "resd" -> ResdB [] x = "unkn" -> UnknB
ResRules(v, s) == << Cnt(s, "resc") + Cnt(s, "resd") >= 1, OneAt(s, "resc"), OneAt(s, "resd") >>

UinfItem(v, x) == CASE x = "ulst" -> UlstB [] x = "url" -> UrlB [] x = "unkn" -> UnknB
UinfRules(v, s) == << Cnt(s, "ulst") = 1, Cnt(s, "url") = 1 >>

\* --- main: what follows the start of the codestream. variant = <<format, rsiz, components>>
MainItem(v, x) ==
    CASE x = "soc" -> SocM [] x = "siz" -> SizM(v[2], 16, 16, 16, v[3])
      [] x = "cod" -> CodM [] x = "qcd" -> QcdM [] x = "coc0" -> CocM(0) [] x = "coc1" -> CocM(1)
      [] x = "qcc0" -> QccM(0) [] x = "qcc1" -> QccM(1) [] x = "com" -> ComM [] x = "cap" -> CapM
      [] x = "unk" -> UnkM [] x = "poc" -> PocM [] x = "plm" -> PlmM
\* the first two items must be soc and siz; they are part of the list
MainRules(v, s) == <<
    Is(s, 1, "soc"), Is(s, 2, "siz"), Cnt(s, "cod") >= 1, Cnt(s, "qcd") >= 1,
    v[2] >= 16384 => Cnt(s, "cap") >= 1,
    OneAt(s, "coc0"), OneAt(s, "coc1"), OneAt(s, "qcc0"), OneAt(s, "qcc1") >>

\* --- tiles: histories of tile-parts <<tile, number of parts stated>>.  variant = <<format, number of tiles>>
TileItems == {<<t, n>> : t \in 0..2, n \in 0..2}
PartNo(s, i) == Cardinality({j \in 1..(i - 1) : s[j][1] = s[i][1]})
TilesBytes(v, s) == Code(RsizOf(v[1]), 8 * v[2], 8, 1,
                         (IF RsizOf(v[1]) = 16384 THEN CapM ELSE <<>>) \o CodM \o QcdM,
                         Flat([i \in 1..Len(s) |-> TileP(s[i][1], PartNo(s, i), s[i][2], <<>>, FALSE)]))
TilesRules(v, s) ==
    LET ids == {s[i][1] : i \in 1..Len(s)}
        of(t) == {i \in 1..Len(s) : s[i][1] = t}
        stated(t) == {i \in of(t) : s[i][2] # 0}
    IN << ids = 0..(v[2] - 1),
          \* the number of parts of a tile is the one stated last, where any is stated
          \A t \in ids : stated(t) # {} =>
             s[CHOOSE i \in stated(t) : \A j \in stated(t) : j <= i][2] = Cardinality(of(t)) >>

\* --- tph: header of the second of two tile-parts.  variant = <<format, part number of that tile-part>>
TphItem(v, x) ==
    CASE x = "cod" -> CodM [] x = "qcd" -> QcdM [] x = "coc0" -> CocM(0) [] x = "coc1" -> CocM(1)
      [] x = "qcc0" -> QccM(0) [] x = "qcc1" -> QccM(1) [] x = "rgn" -> RgnM [] x = "com" -> ComM
      [] x = "plt" -> PltM [] x = "poc" -> PocM
TphRules(v, s) == <<
    v[2] = 0 \/ \A i \in 1..Len(s) : s[i] \notin {"cod", "qcd", "coc0", "coc1", "qcc0", "qcc1", "rgn"},
    OneAt(s, "coc0"), OneAt(s, "coc1"), OneAt(s, "qcc0"), OneAt(s, "qcc1") >>

FourFormats == {"jp2", "jph", "j2c", "jhc"}
Families == {"top", "hdr", "res", "uinf", "main", "tiles", "tph"}

Variants(f) ==
    CASE f = "top"   -> {<<fmt, i>> : fmt \in {"jp2", "jph"}, i \in {0, 1}}
      [] f = "hdr"   -> {<<"jp2", 7, 0>>, <<"jp2", 255, 0>>, <<"jp2", 254, 1>>,
                         <<"jph", 7, 0>>, <<"jph", 255, 1>>, <<"jph", 7, 1>>}
      [] f \in {"res", "uinf"} -> {<<"jp2">>, <<"jph">>}
      [] f = "main"  -> {<<"jp2", 0, 2>>, <<"jp2", 16384, 2>>, <<"jph", 16384, 2>>, <<"j2c", 0, 1>>, <<"jhc", 16384, 3>>}
      [] f = "tiles" -> {<<fmt, n>> : fmt \in FourFormats, n \in 1..3}
      [] f = "tph"   -> {<<fmt, p>> : fmt \in FourFormats, p \in {0, 1}}

Alphabet(f) ==
    CASE f = "top"   -> <<"sig", "ftyp", "jp2h", "jp2c", "jp2i", "xml", "uuid", "unkn">>
      [] f = "hdr"   -> <<"ihdr", "colr", "bpcc", "pclr", "cmap", "cdef", "opac", "res", "unkn">>
      [] f = "res"   -> <<"resc", "resd", "unkn">>
      [] f = "uinf"  -> <<"ulst", "url", "unkn">>
      [] f = "main"  -> <<"cod", "qcd", "coc0", "coc1", "qcc0", "qcc1", "com", "cap", "unk", "poc", "plm", "soc", "siz">>
      [] f = "tiles" -> SetToSeq(TileItems)
      [] f = "tph"   -> <<"cod", "qcd", "coc0", "coc1", "qcc0", "qcc1", "rgn", "com", "plt", "poc">>

Items(item(_, _), v, s) == Flat([i \in 1..Len(s) |-> item(v, s[i])])

Bytes(f, v, s) ==
    CASE f = "top"   -> Items(TopItem, v, s)
      [] f = "hdr"   -> SigB \o FtypB(Brand(v[1])) \o WBox("jp2h", Items(HdrItem, v, s))
                        \o WBox("jp2c", PlainCode(RsizOf(v[1]), 1))
      [] f = "res"   -> SigB \o FtypB(Brand(v[1]))
                        \o WBox("jp2h", IhdrB(16, 16, 1, 7, 0, 0) \o ColrB \o WBox("res ", Items(ResItem, v, s)))
                        \o WBox("jp2c", PlainCode(RsizOf(v[1]), 1))
      [] f = "uinf"  -> InFile(v[1], PlainCode(RsizOf(v[1]), 1), 16, 1) \o WBox("uinf", Items(UinfItem, v, s))
      [] f = "main"  -> InFile(v[1], Items(MainItem, v, s) \o TileP(0, 0, 1, <<>>, FALSE) \o EocM, 16, v[3])
      [] f = "tiles" -> InFile(v[1], TilesBytes(v, s), 8 * v[2], 1)
      [] f = "tph"   -> InFile(v[1], Code(RsizOf(v[1]), 32, 16, 2,
                                    (IF RsizOf(v[1]) = 16384 THEN CapM ELSE <<>>) \o CodM \o QcdM,
                                    TileP(0, 0, 0, <<>>, FALSE)
                                    \o TileP(IF v[2] = 0 THEN 1 ELSE 0, v[2], 0, Items(TphItem, v, s), FALSE)
                                    \o (IF v[2] = 0 THEN <<>> ELSE TileP(1, 0, 0, <<>>, FALSE))), 32, 2)

Rules(f, v, s) ==
    CASE f = "top" -> TopRules(v, s) [] f = "hdr" -> HdrRules(v, s) [] f = "res" -> ResRules(v, s)
      [] f = "uinf" -> UinfRules(v, s) [] f = "main" -> MainRules(v, s) [] f = "tiles" -> TilesRules(v, s)
      [] f = "tph" -> TphRules(v, s)

Legal(f, v, s) == \A i \in DOMAIN Rules(f, v, s) : Rules(f, v, s)[i]
Broken(f, v, s) == LET r == Rules(f, v, s) IN Cardinality({i \in DOMAIN r : ~r[i]})

---------------------------------------------------------------------------
VARIABLES fam, var, items
vars == <<fam, var, items>>

\* family to explore and its bounds, from the environment
Fam == IOEnv.JFAM
MaxLen == atoi(IOEnv.JLEN)       \* items
MaxBroken == atoi(IOEnv.JBROKEN) \* files with at most this many broken rules are all written ..
Stride == atoi(IOEnv.JSTRIDE)    \* .. and one in Stride of the others (0: none)
Seed == atoi(IOEnv.JSEED)
\* of the files with few broken rules one in Thin is written
Thin == atoi(IOEnv.JTHIN)

Init == /\ fam = Fam
        /\ var \in Variants(Fam)
        /\ items \in (IF Fam = "main"
                      THEN {<<"soc", "siz">>, <<"siz", "soc">>, <<"soc">>, <<"siz">>, <<"soc", "cod", "siz">>}
                      ELSE {<<>>})

AppendItem(x) == items' = Append(items, x) /\ UNCHANGED <<fam, var>>
Next == /\ Len(items) < MaxLen
        /\ \E k \in 1..Len(Alphabet(fam)) : AppendItem(Alphabet(fam)[k])
Spec == Init /\ [][Next]_vars

\* a number that spreads over designs
Index(s) == LET a == Alphabet(fam)
                ix(x) == CHOOSE k \in 1..Len(a) : a[k] = x
            IN FoldLeft(LAMBDA acc, x : (acc * 31 + ix(x)) % 100003, Seed % 100003, s)
VarIndex == LET vs == SetToSeq(Variants(fam)) IN 17 * (CHOOSE k \in 1..Len(vs) : vs[k] = var)

Selected ==
    LET b == Broken(fam, var, items)
        h == Index(items) + VarIndex
    IN IF b <= MaxBroken THEN h % Thin = 0 ELSE Stride > 0 /\ h % Stride = 0

Emit == Selected =>
          PrintT("GEN|" \o fam \o "|" \o var[1] \o "|" \o (IF Legal(fam, var, items) THEN "True" ELSE "False")
                 \o "|" \o ToString(Broken(fam, var, items)) \o "|" \o HexText(Force(Bytes(fam, var, items))))
=============================================================================
