------------------------------- MODULE JReport -------------------------------
(***************************************************************************)
(* The report: trees of named nodes.                                       *)
(*                                                                         *)
(* A predicted node is <<tag, kind, value, children>>:                     *)
(*   "s"    value is exactly this text                                     *)
(*   "q"    value is the decimal rendering of a rational, see Q            *)
(*   "x"    element of an embedded XML document; value = <<text, attributes*)
(*          (a set of <<name, value>>), tail>>                             *)
(*   "any"  the specification says nothing about this value                *)
(* The result of analysing one box is [t, p, w]: the children of its       *)
(* tests, properties and warnings elements.                                *)
(***************************************************************************)
EXTENDS JBase, JUnicode

Leaf(tag, text)      == <<tag, "s", text, <<>>>>
Node(tag, children)  == <<tag, "s", "", children>>
Tag(n)      == n[1]
Kids(n)     == n[4]

T(name, b)  == Leaf(name, IF b THEN "True" ELSE "False")

Res(t, p, w) == [t |-> t, p |-> p, w |-> w]
Nothing      == Res(<<>>, <<>>, <<>>)

RECURSIVE JoinRes(_)
JoinRes(rs) == Res(Flat([i \in 1..Len(rs) |-> rs[i].t]),
                   Flat([i \in 1..Len(rs) |-> rs[i].p]),
                   Flat([i \in 1..Len(rs) |-> rs[i].w]))

\* rational value num / den (signed), rendered with at most dec decimals
Q(tag, num, den, dec) == <<tag, "q", <<num[1] # den[1], num[2], den[2], dec>>, <<>>>>
AnyLeaf(tag)          == <<tag, "any", "", <<>>>>

---------------------------------------------------------------------------
\* Raw property values and the texts they are reported as
YesNo   == (0 :> "no") @@ (1 :> "yes")
SignMap == (0 :> "unsigned") @@ (1 :> "signed")

Remap == [
  unkC |-> YesNo, iPR |-> YesNo, embeddedProfile |-> YesNo, vidFRng |-> YesNo,
  profileCannotBeUsedIndependently |-> YesNo,
  sop |-> YesNo, eph |-> YesNo, multipleComponentTransformation |-> YesNo,
  codingBypass |-> YesNo, resetOnBoundaries |-> YesNo, termOnEachPass |-> YesNo,
  vertCausalContext |-> YesNo, predTermination |-> YesNo, segmentationSymbols |-> YesNo,
  transparency |-> (0 :> "Reflective") @@ (1 :> "Transparent"),
  glossiness |-> (0 :> "Glossy") @@ (1 :> "Matte"),
  polarity |-> (0 :> "Positive") @@ (1 :> "Negative"),
  colour |-> (0 :> "Colour") @@ (1 :> "Black and white"),
  renderingIntent |-> (0 :> "Perceptual") @@ (1 :> "Media-Relative Colorimetric")
                      @@ (2 :> "Saturation") @@ (3 :> "ICC-Absolute Colorimetric"),
  bSign |-> SignMap, bPCSign |-> SignMap, ssizSign |-> SignMap,
  mTyp |-> (0 :> "direct use") @@ (1 :> "palette mapping"),
  precincts |-> (0 :> "default") @@ (1 :> "user defined"),
  c |-> (7 :> "jpeg2000"),
  meth |-> (1 :> "Enumerated") @@ (2 :> "Restricted ICC") @@ (3 :> "Any ICC")
           @@ (4 :> "Vendor Colour") @@ (5 :> "Parameterized Colourspace"),
  enumCS |-> (16 :> "sRGB") @@ (17 :> "greyscale") @@ (18 :> "sYCC"),
  cTyp |-> (0 :> "colour") @@ (1 :> "opacity") @@ (2 :> "premultiplied opacity")
           @@ (3 :> "application-defined") @@ (65535 :> "not specified"),
  cAssoc |-> (0 :> "all colours") @@ (65535 :> "no colours"),
  order |-> (0 :> "LRCP") @@ (1 :> "RLCP") @@ (2 :> "RPCL") @@ (3 :> "PCRL") @@ (4 :> "CPRL"),
  roiStyle |-> (0 :> "Implicit ROI (maximum shift)"),
  transformation |-> (0 :> "9-7 irreversible") @@ (1 :> "5-3 reversible"),
  qStyle |-> (0 :> "no quantization") @@ (1 :> "scalar derived") @@ (2 :> "scalar expounded"),
  rcom |-> (0 :> "binary") @@ (1 :> "ISO/IEC 8859-15 (Latin)"),
  htCodeBlocks |-> (0 :> "HTONLY") @@ (32768 :> "HTDECLARED") @@ (49152 :> "MIXED"),
  htSets |-> (0 :> "SINGLEHT") @@ (1 :> "MULTIHT"),
  htRegion |-> (0 :> "RGNFREE") @@ (1 :> "RGN"),
  htHomogeneous |-> (0 :> "HOMOGENEOUS") @@ (1 :> "HETEROGENEOUS"),
  htReversible |-> (0 :> "HTREV") @@ (1 :> "HTIRV")
]
RemapTags == DOMAIN Remap

\* the four characters as bytes
B4(a, b, c, d) == <<a, b, c, d>>
RemapClass ==    (<<115,99,110,114>> :> "Input Device Profile")           \* scnr
              @@ (<<109,110,116,114>> :> "Display Device Profile")        \* mntr
              @@ (<<112,114,116,114>> :> "Output Device Profile")         \* prtr
              @@ (<<108,105,110,107>> :> "DeviceLink Profile")            \* link
              @@ (<<115,112,97,99>> :> "ColorSpace Conversion Profile")   \* spac
              @@ (<<97,98,115,116>> :> "Abstract Profile")                \* abst
              @@ (<<110,109,99,108>> :> "Named Colour Profile")           \* nmcl
RemapPlatform == (<<65,80,80,76>> :> "Apple Computer, Inc.")              \* APPL
              @@ (<<77,83,70,84>> :> "Microsoft Corporation")             \* MSFT
              @@ (<<83,71,73>> :> "Silicon Graphics, Inc.")               \* SGI
              @@ (<<83,85,78,87>> :> "Sun Microsystems, Inc.")            \* SUNW

\* number property
P(tag, v) == Leaf(tag, IF tag \in RemapTags /\ v \in DOMAIN Remap[tag]
                       THEN Remap[tag][v] ELSE ToString(v))
\* large number property
PZ(tag, z) == IF tag \in RemapTags /\ Len(z[2]) <= 2 THEN P(tag, ZToInt(z))
              ELSE Leaf(tag, ZStr(z))

\* text of a byte field: UTF-8 without unprintable characters, empty if not UTF-8
Clean(cps)  == SelectSeq(cps, LAMBDA cp : ~Unprintable(cp))
BytesText(s) == LET u == Utf8(s) IN IF u.ok THEN Str(Clean(u.cps)) ELSE ""

\* byte field property
PB(tag, s) ==
    CASE tag = "profileClass" /\ s \in DOMAIN RemapClass -> Leaf(tag, RemapClass[s])
      [] tag = "primaryPlatform" /\ s \in DOMAIN RemapPlatform -> Leaf(tag, RemapPlatform[s])
      [] OTHER -> Leaf(tag, BytesText(s))
---------------------------------------------------------------------------
\* Failing and undetermined tests in a tree of tests
RECURSIVE Fails(_), Unsure(_)
Fails(n)  == IF Kids(n) = <<>> THEN n[2] = "s" /\ n[3] = "False"
             ELSE \E i \in 1..Len(Kids(n)) : Fails(Kids(n)[i])
Unsure(n) == IF Kids(n) = <<>> THEN n[2] = "any"
             ELSE \E i \in 1..Len(Kids(n)) : Unsure(Kids(n)[i])

\* What the terse report keeps of a list of tests: the failing ones, and the
\* elements that contain them
RECURSIVE Terse(_)
Terse(ns) ==
    LET keep == SelectSeq(ns, LAMBDA n : Fails(n) \/ Unsure(n))
    IN [i \in 1..Len(keep) |->
          IF Kids(keep[i]) = <<>> THEN keep[i]
          ELSE Node(Tag(keep[i]), Terse(Kids(keep[i])))]

KidsNamed(ns, tag) == SelectSeq(ns, LAMBDA n : n[1] = tag)
=============================================================================
