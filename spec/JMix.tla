-------------------------------- MODULE JMix --------------------------------
(***************************************************************************)
(* The MIX section of the report on a valid JP2 or JPH file: a function of *)
(* the properties of the file and the version (1 or 2) of MIX.             *)
(* Nodes are compared strictly (names, order, texts).                      *)
(***************************************************************************)
EXTENDS JMatch

\* ---------------------------------------------------------------- lookup
RECURSIVE FindAll(_, _)
\* all nodes on the path of tags, in order
FindAll(ns, path) ==
    LET here == SelectSeq(ns, LAMBDA n : n[1] = path[1])
    IN IF Len(path) = 1 THEN here
       ELSE Flat([i \in 1..Len(here) |-> FindAll(Kids(here[i]), Tail(path))])

\* ---------------------------------------------------------------- texts
RECURSIVE Toks(_, _, _)
\* characters of an encoded text, as encoded tokens
Toks(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE IF SubSeq(s, i, i) # "~" THEN Toks(s, i + 1, Append(acc, SubSeq(s, i, i)))
    ELSE LET j == CHOOSE k \in (i + 1)..Len(s) : SubSeq(s, k, k) = ";" /\ \A m \in (i + 1)..(k - 1) : SubSeq(s, m, m) # ";"
         IN Toks(s, j + 1, Append(acc, SubSeq(s, i, j)))
Tokens(s) == Toks(s, 1, <<>>)

LF == "~10;"
Blank == {" ", "~9;", LF, "~11;", "~12;", "~13;", "~28;", "~29;", "~30;", "~31;", "~133;", "~160;"}
RECURSIVE LStrip(_), RStrip(_)
LStrip(t) == IF t # <<>> /\ t[1] \in Blank THEN LStrip(Tail(t)) ELSE t
RStrip(t) == IF t # <<>> /\ t[Len(t)] \in Blank THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Strip(s)  == Cat(RStrip(LStrip(Tokens(s))))

NumCh == Digits \cup {"."}
RECURSIVE NumRun(_, _)
NumRun(t, i) == IF i > Len(t) \/ t[i] \notin NumCh THEN i ELSE NumRun(t, i + 1)

\* ---------------------------------------------------------------- nodes
MX(tag, kids)  == <<"mix:" \o tag, "x", <<"", {}, "">>, kids>>
ML(tag, text)  == <<"mix:" \o tag, "x", <<text, {}, "">>, <<>>>>
\* a leaf with the text of property n
MC(tag, n)     == IF n[2] = "any" THEN <<"mix:" \o tag, "any", "", <<>>>> ELSE ML(tag, n[3])

\* ---------------------------------------------------------------- parts
FormatInfo(ps, ver) ==
    LET br  == FindAll(ps, <<"fileTypeBox", "br">>)
        tr  == FindAll(ps, <<"contiguousCodestreamBox", "cod", "transformation">>)[1]
        q   == FindAll(ps, <<"compressionRatio">>)[1][3]
    IN MX("BasicDigitalObjectInformation", <<
         MX("FormatDesignation", << ML("formatName", "image/" \o Strip(br[1][3])) >>),
         ML("byteOrder", IF ver = 1 THEN "big_endian" ELSE "big endian"),
         MX("Compression", <<
            ML("compressionScheme", IF tr[3] = "5-3 reversible" THEN "JPEG 2000 Lossless" ELSE "JPEG 2000 Lossy"),
            IF ver = 1
            \* a whole number: the ratio shown, which has two decimals, rounded
            THEN <<"mix:compressionRatio", "near", <<q[2], q[3], 505, 1000>>, <<>>>>
            ELSE MX("compressionRatio", <<
                    <<"mix:numerator", "near", <<NMulSmall(q[2], 100), q[3], 1005, 2000>>, <<>>>>,
                    ML("denominator", "100") >>) >>) >>)

\* codec and version announced by a comment: name-vVERSION
Codec(comment) ==
    LET t == Tokens(comment)
        n == Len(t)
        lineStart(i) == i = 1 \/ t[i - 1] = LF
        lineEnd(i) == CHOOSE j \in i..(n + 1) : (j = n + 1 \/ t[j] = LF) /\ \A k \in i..(j - 1) : t[k] # LF
        dashes == {i \in 1..(n - 1) : t[i] = "-" /\ t[i + 1] = "v"}
        starts == {i \in 1..n : lineStart(i) /\ \E d \in dashes : i <= d /\ d < lineEnd(i)}
    IN IF starts = {} THEN <<>>
       ELSE LET s == CHOOSE i \in starts : \A j \in starts : i <= j
                d == CHOOSE i \in dashes : /\ s <= i /\ i < lineEnd(s)
                                           /\ \A j \in dashes : s <= j /\ j < lineEnd(s) => j <= i
            IN << MX("CodecCompliance", << ML("codec", Cat(SubSeq(t, s, d - 1))),
                                           ML("codecVersion", Cat(SubSeq(t, d + 2, NumRun(t, d + 2) - 1))) >>) >>

ImageInfo(ps, ver) ==
    LET hdr(x) == FindAll(ps, <<"jp2HeaderBox", "imageHeaderBox", x>>)[1]
        cs(a, b) == FindAll(ps, <<"contiguousCodestreamBox", a, b>>)[1]
        icc == FindAll(ps, <<"jp2HeaderBox", "colourSpecificationBox", "icc">>)
        iccp(x) == FindAll(ps, <<"jp2HeaderBox", "colourSpecificationBox", "icc", x>>)[1]
        enum == FindAll(ps, <<"jp2HeaderBox", "colourSpecificationBox", "enumCS">>)
        com == FindAll(ps, <<"contiguousCodestreamBox", "com", "comment">>)
        unlessZero(tag, n) == IF n[3] = "0" THEN <<>> ELSE << MC(tag, n) >>
        colour == IF icc # <<>>
                  THEN << MX("PhotometricInterpretation", <<
                            ML("colorSpace", Strip(iccp("colourSpace")[3])),
                            MX("ColorProfile", << MX("IccProfile", << MC("iccProfileName", iccp("description")) >>) >>) >>) >>
                  ELSE IF enum # <<>> THEN << MX("PhotometricInterpretation", << ML("colorSpace", Strip(enum[1][3])) >>) >>
                  ELSE <<>>
        tiles == IF ver = 1 THEN ML("tiles", cs("siz", "xTsiz")[3] \o "x" \o cs("siz", "yTsiz")[3])
                 ELSE MX("Tiles", << MC("tileWidth", cs("siz", "xTsiz")), MC("tileHeight", cs("siz", "yTsiz")) >>)
    IN MX("BasicImageInformation", <<
         MX("BasicImageCharacteristics",
            << MC("imageWidth", hdr("width")), MC("imageHeight", hdr("height")) >> \o colour),
         MX("SpecialFormatCharacteristics", <<
            MX("JPEG2000",
               (IF com = <<>> THEN <<>> ELSE Codec(com[1][3]))
               \o << MX("EncodingOptions",
                        << tiles >> \o unlessZero("qualityLayers", cs("cod", "layers"))
                        \o unlessZero("resolutionLevels", cs("cod", "levels"))) >>) >>) >>)

RdfNs == "{http://www.w3.org/1999/02/22-rdf-syntax-ns#}"
Xap   == "{http://ns.adobe.com/xap/1.0/}"
Tiff  == "{http://ns.adobe.com/tiff/1.0/}"
Aux   == "{http://ns.adobe.com/exif/1.0/aux/}"

\* value of a field in RDF: <<>> or <<text>>; an element takes precedence over an attribute
RdfValue(rdf, name) ==
    LET desc == FindAll(Kids(rdf), <<RdfNs \o "Description">>)
        el   == FindAll(Kids(rdf), <<RdfNs \o "Description", name>>)
        at   == IF desc = <<>> THEN {} ELSE {a \in desc[1][3][2] : a[1] = name /\ a[2] # ""}
    IN IF el # <<>> THEN (IF el[1][3][1] = "" THEN <<>> ELSE << el[1][3][1] >>)
       ELSE IF at = {} THEN <<>> ELSE << (CHOOSE a \in at : TRUE)[2] >>

\* name and version of software: everything up to the last blank, and the number after it
Software(text) ==
    LET t0 == Tokens(text)
        n0 == Len(t0)
        t  == IF n0 > 0 /\ t0[n0] = LF THEN SubSeq(t0, 1, n0 - 1) ELSE t0
        n  == Len(t)
        blanks == {i \in 1..n : t[i] = " "}
        b  == CHOOSE i \in blanks : \A j \in blanks : j <= i
    IN IF (\A i \in 1..n : t[i] # LF) /\ blanks # {} /\ NumRun(t, b + 1) = n + 1
       THEN << ML("scanningSoftwareName", Cat(SubSeq(t, 1, b - 1))),
               ML("scanningSoftwareVersionNo", Cat(SubSeq(t, b + 1, n))) >>
       ELSE << ML("scanningSoftwareName", text) >>

CaptureInfo(ps) ==
    LET rdfIn(b) == FindAll(ps, <<b, "{adobe:ns:meta/}xmpmeta", RdfNs \o "RDF">>)
        ofBox(b) == LET r == rdfIn(b) IN IF r # <<>> /\ Kids(r[1]) # <<>> THEN << r[1] >> ELSE <<>>
        rdf == IF ofBox("xmlBox") # <<>> THEN ofBox("xmlBox") ELSE ofBox("uuidBox")
        v(name) == RdfValue(rdf[1], name)
        leaf(tag, name) == LET x == v(name) IN IF x = <<>> THEN <<>> ELSE << ML(tag, Strip(x[1])) >>
        model == leaf("scannerModelName", Tiff \o "Model") \o leaf("scannerModelSerialNo", Aux \o "SerialNumber")
        tool  == v(Xap \o "CreatorTool")
        scan  == leaf("scannerManufacturer", Tiff \o "Make")
                 \o (IF model = <<>> THEN <<>> ELSE << MX("ScannerModel", model) >>)
                 \o (IF tool = <<>> THEN <<>> ELSE << MX("ScanningSystemSoftware", Software(tool[1])) >>)
    IN IF rdf = <<>> THEN <<>>
       ELSE << MX("ImageCaptureMetadata",
                  << MX("GeneralCaptureInformation",
                        leaf("dateTimeCreated", Xap \o "CreateDate") \o leaf("imageProducer", Tiff \o "Artist")) >>
                  \o (IF scan = <<>> THEN <<>> ELSE << MX("ScannerCapture", scan) >>)) >>

AssessmentInfo(ps, ver) ==
    LET box(b) == FindAll(ps, <<"jp2HeaderBox", "resolutionBox", b>>)
        cap  == box("captureResolutionBox")
        dis  == box("displayResolutionBox")
        res  == IF cap # <<>> THEN cap ELSE dis
        x    == IF cap # <<>> THEN "c" ELSE "d"
        freq(tag, dir) ==
            LET q == FindAll(Kids(res[1]), <<dir \o "Res" \o x \o "InPixelsPerMeter">>)[1][3]
            IN MX(tag, << <<"mix:numerator", "near", <<NMulSmall(q[2], 100), q[3], 3, 2>>, <<>>>>, ML("denominator", "10000") >>)
        siz  == FindAll(ps, <<"contiguousCodestreamBox", "siz">>)[1]
        dep  == KidsNamed(Kids(siz), "ssizDepth")
        unit == ML("bitsPerSampleUnit", "integer")
    IN MX("ImageAssessmentMetadata",
          (IF res = <<>> THEN <<>>
           ELSE << MX("SpatialMetrics", << ML("samplingFrequencyUnit", IF ver = 1 THEN "3" ELSE "cm"),
                                           freq("xSamplingFrequency", "h"), freq("ySamplingFrequency", "v") >>) >>)
          \o << MX("ImageColorEncoding", <<
                  IF ver = 1
                  THEN MX("bitsPerSample", << ML("bitsPerSampleValue", Join([i \in 1..Len(dep) |-> dep[i][3]], ",")), unit >>)
                  ELSE MX("BitsPerSample", [i \in 1..Len(dep) |-> MC("bitsPerSampleValue", dep[i])] \o << unit >>),
                  MC("samplesPerPixel", KidsNamed(Kids(siz), "csiz")[1]) >>) >>)

---------------------------------------------------------------------------
MixAttrs(ver) ==
    LET ns == IF ver = 1 THEN "http://www.loc.gov/mix/v10" ELSE "http://www.loc.gov/mix/v20"
    IN {<<"xmlns:mix", ns>>, <<"xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance">>,
        <<"xsi:schemaLocation", ns \o (IF ver = 1 THEN " http://www.loc.gov/standards/mix/mix10/mix10.xsd"
                                                  ELSE " http://www.loc.gov/standards/mix/mix.xsd")>>}

\* embedded XML about which the specification says nothing
RECURSIVE Open(_)
Open(ns) == \E i \in 1..Len(ns) : ns[i][1] = "*" \/ (ns[i][1] \in {"xmlBox", "uuidBox"} /\ Open(Kids(ns[i])))

\* What is expected inside the MIX section; the capture metadata can be left open
Mix(ps, ver) ==
    LET capture == IF Open(ps) THEN << <<"?", "", "", <<>>>> >> ELSE CaptureInfo(ps)
    IN <<"mix:mix", "x", <<"", MixAttrs(ver), "">>,
         << FormatInfo(ps, ver), ImageInfo(ps, ver) >> \o capture \o << AssessmentInfo(ps, ver) >>>>

MixDiff(ps, ver, obs) ==
    LET p == Mix(ps, ver)
        noCapture(o) == [o EXCEPT ![3] = SelectSeq(o[3], LAMBDA n : n[1] # "mix:ImageCaptureMetadata")]
    IN IF Open(ps) THEN DiffXml([p EXCEPT ![4] = SelectSeq(@, LAMBDA n : n[1] # "?")], noCapture(obs), "propertiesExtension/mix")
       ELSE DiffXml(p, obs, "propertiesExtension/mix")
=============================================================================
