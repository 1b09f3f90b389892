"""Writes ../properties.jsonl and ../MANIFEST.json from the texts below (run by hand, not by checks)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PROPERTIES  # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BV = "jpylyzer/boxvalidator.py"
JP = "jpylyzer/jpylyzer.py"
ET = "jpylyzer/etpatch.py"

TESTS = ("The existing tests only compare isValid for about a hundred sample files; ")


def P(title, statement, over, text, why, files, mech, observe=("the XML report of checkOneFile / checkFiles",)):
    return dict(title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                mech=mech, observe=list(observe))


TEXT = {
    "P01": P("The verdict is exactly the conjunction of the format's requirements",
             "For every byte string and each of the four formats, the report says the file is valid exactly when all "
             "requirements of that format that apply to the bytes are met, and every requirement is tested against what "
             "the bytes say. The verdict equals the conjunction of the tests listed in the full report; the short report "
             "lists exactly the failing ones, so it lists none exactly when the file is valid.",
             "inputs configurations", "all byte strings, all formats, full and short report",
             TESTS + "the claim is about every byte string, and a test that is never run or always passes leaves their outcome unchanged.",
             BV + " " + JP, [("testFor / addFailed tests and isValid accumulation", BV), ("checkOneFile", JP)]),
    "P02": P("Every input gets a report of a completed analysis",
             "Whatever the bytes of a readable file are, analysing it in any format with any options ends in reasonable "
             "time with a report that says the analysis succeeded. No byte string makes the analysis raise an error, run "
             "forever, or end with a failure message.",
             "inputs configurations", "all byte strings (of moderate size and nesting), all formats and options",
             TESTS + "they contain a few dozen broken files, while one length field out of 2^32 can be the one that loops or crashes.",
             BV + " " + JP + " jpylyzer/byteconv.py " + ET,
             [("bounds of all reads, progress of the box, segment and tile-part loops", BV), ("try/except in checkOneFile", JP)]),
    "P03": P("Top-level boxes: presence, order and number",
             "For every sequence of top-level boxes, the presence, order and multiplicity tests come out as the format "
             "demands: signature box first, file type box second, the header box after these two and before the first "
             "codestream, at least one codestream, no second signature, file type or header box, and an intellectual "
             "property box when the header announces one. Other boxes may stand anywhere after the second place and never "
             "affect these tests.",
             "inputs", "all sequences of boxes at the top level",
             TESTS + "few of them reorder, repeat or omit boxes.", BV,
             [("validate_jp2 (rules on the list of top-level box types)", BV)]),
    "P04": P("Box framing: every box is found, delimited and attributed correctly",
             "For every sequence and nesting of boxes, whether a length is given in 32 bits, in 64 bits or as 'until the "
             "end', the report contains each box once, in its container, read from exactly its own bytes, and reading "
             "resumes where the box ends. Boxes of unknown type are reported as unknown with their type, and do not "
             "disturb what follows.",
             "inputs", "all sequences of boxes, all length encodings, all nestings, overlong and short lengths",
             TESTS + "hardly any uses 64-bit or open lengths, unknown boxes or boxes that overrun their container.", BV,
             [("_getBox, box loops of validate_* for superboxes", BV), ("boxTagMap and unknown boxes", BV)]),
    "P05": P("Header and resolution superboxes: which boxes they must and may hold",
             "For every sequence of boxes inside the header superbox and inside a resolution superbox, the structural "
             "tests come out as the format demands: image header present and first, colour specification present "
             "(with the exceptions of JPH) and contiguous, bits per component box present when depths vary, at most one "
             "of each single box, palette and component mapping only together, and at least one capture or display "
             "resolution, neither of them twice.",
             "inputs", "all sequences of sub-boxes, in JP2 and JPH",
             TESTS + "they hold a handful of arrangements.", BV,
             [("validate_jp2HeaderBox, validate_resolutionBox", BV)]),
    "P06": P("Fields of the signature, file type and header boxes are judged correctly",
             "For every content of a signature, file type, image header, bits per component, colour specification, "
             "palette, component mapping, channel definition or resolution box, of any length, each field is reported "
             "with the value its bytes have and each field test passes exactly for the values the format allows.",
             "inputs", "all contents and lengths of these boxes",
             TESTS + "a field of 16 or 32 bits has far more values, and boundary values are not sampled.", BV,
             [("validate_signatureBox .. validate_channelDefinitionBox, validate_captureResolutionBox", BV)]),
    "P07": P("ICC profiles are read and judged correctly",
             "For every restricted or unrestricted ICC profile embedded in a colour specification, header fields, tag "
             "signatures and the description are reported as the bytes say, and the tests on size, profile class and "
             "absence of look-up tables pass exactly when the profile satisfies them. This includes profiles that are "
             "truncated or whose tag table points outside.",
             "inputs", "all profile bytes",
             TESTS + "only a few embed a profile, all from common tools.", BV, [("getICCCharacteristics", BV)]),
    "P08": P("XML, UUID and UUID-info boxes are judged and extracted correctly",
             "For every content of an XML box the well-formedness test tells exactly whether it is well-formed, and a "
             "well-formed document is reproduced in the report; the same holds for XMP in a UUID box, other UUIDs are "
             "reported as identifiers. UUID info boxes must hold one list and one URL, whose counts, identifiers and "
             "texts are reported and tested as their bytes say.",
             "inputs configurations", "all contents of these boxes, with and without tolerance for null-terminated XML",
             TESTS + "they contain a few XML documents, and none that is nearly well-formed.", BV,
             [("validate_xmlBox, validate_uuidBox, validate_uuidInfoBox, validate_uuidListBox, validate_urlBox", BV)]),
    "P09": P("Codestream main header: required and permitted marker segments",
             "For every codestream, the tests on its main header come out as the format demands: it starts with the "
             "start marker and the image size segment, contains coding and quantization defaults and, if the capability "
             "field asks for it, a capability segment, gives component overrides at most once per component, and the "
             "codestream ends with the end marker. Unknown segments are skipped over and every known one is reported in order.",
             "inputs", "all sequences of main header segments, including segments with odd lengths",
             TESTS + "few main headers differ in structure.", BV, [("validate_contiguousCodestreamBox, _getMarkerSegment", BV)]),
    "P10": P("The image size segment is read and judged correctly",
             "For every image size segment, of any length and with any number of components, each field is reported "
             "with the value its bytes have, every range and length test passes exactly for the values the standard "
             "allows in the chosen format, and the number of tiles follows from the stated geometry.",
             "inputs", "all values of the fields, all numbers of components, all lengths",
             TESTS + "they use a few sizes and offsets.", BV, [("validate_siz", BV)]),
    "P11": P("Coding, quantization, region and progression segments are judged correctly",
             "For every coding style, quantization, component override, region of interest and progression order change "
             "segment, in codestreams with few and with many components, each field is reported as its bytes say and "
             "each test passes exactly for the values the standard allows.",
             "inputs", "all contents and lengths of these segments",
             TESTS + "component overrides, precincts and progression changes hardly occur.", BV,
             [("validate_cod, validate_coc, validate_qcd, validate_qcc, validate_rgn, validate_poc", BV)]),
    "P12": P("Comment, registration, capability, profile and packet segments judged correctly",
             "For every comment, component registration, capability, profile and packet length segment, each field is "
             "reported as its bytes say (packet lengths of any number of bytes included) and each test passes exactly "
             "for the values the standard allows.",
             "inputs", "all contents and lengths of these segments",
             TESTS + "capability, profile and packet segments occur in very few files.", BV,
             [("validate_com, validate_crg, validate_cap, validate_prf, validate_cpf, validate_plt, validate_plm, validate_ppm, validate_ppt", BV)]),
    "P13": P("Tile-parts are followed and accounted for exactly",
             "For every sequence of tile-parts, each one reachable through the stated lengths is found and reported "
             "once, in order; a missing or misplaced tile-part, a wrong length, a tile index outside the image, a "
             "missing tile, or a number of tile-parts other than the stated one makes the file invalid. A complete "
             "sequence in any interleaving is accepted.",
             "inputs", "all sequences of tile-parts, numberings and lengths",
             TESTS + "most have one tile or a regular sequence.", BV,
             [("tile-part loop of validate_contiguousCodestreamBox, validate_tilePart, validate_sot", BV)]),
    "P14": P("Tile-part headers: permitted segments and terminator",
             "For every tile-part header, segments that are only allowed in the first tile-part of a tile are accepted "
             "there and rejected in later ones, overrides occur at most once per component, the start of data must be "
             "found, the next tile-part or the end must follow at the stated length, and every known segment is "
             "reported and judged as in the main header.",
             "inputs", "all sequences of segments in first and later tile-part headers",
             TESTS + "tile-part headers of their files are nearly empty.", BV, [("validate_tilePart", BV)]),
    "P15": P("Image header and codestream are compared correctly",
             "For every combination of image header, bits per component box and image size segment, the consistency "
             "tests for height, width, number of components, signs and depths pass exactly when the two descriptions "
             "agree in that respect.",
             "inputs", "all pairs of header and codestream parameters",
             TESTS + "only a few contradict themselves.", BV, [("consistency tests at the end of validate_jp2", BV)]),
    "P16": P("Derived numbers are exact",
             "For every file, the compression ratio, the number of tiles, the resolutions in pixels per metre and per "
             "inch, and code-block, precinct and quantization values equal what the definitions give for the stored "
             "fields, up to the decimals shown.",
             "inputs", "all field values, including offsets, zero denominators and extreme exponents",
             TESTS + "no test looks at these numbers.", BV,
             [("_calculateCompressionRatio, numberOfTiles, validate_captureResolutionBox, precinct sizes", BV)]),
    "P17": P("Each format is judged by its own rules",
             "The same bytes judged as JP2, JPH, raw JPEG 2000 codestream or raw HTJ2K codestream are tested against "
             "exactly the requirements of the chosen format: brand, colour methods, capability values and segments "
             "differ as the standards say, and nothing else does.",
             "inputs configurations", "all byte strings in all four formats",
             TESTS + "each file is only tested in its own format.", BV, [("validationFormat / self.format tests", BV)]),
    "P18": P("Reported properties are the values in the file",
             "For every file, each property in the report has the value that the bytes at its place encode, in the "
             "documented textual form (names of enumerated values, decimal numbers, hexadecimal numbers, cleaned text), and properties "
             "appear once per occurrence, in file order. Values outside an enumeration are shown as they are.",
             "inputs", "all files", TESTS + "no test looks at property values except for a few sample values.",
             BV + " jpylyzer/byteconv.py " + ET + " " + JP,
             [("addCharacteristic and the byte conversions", BV), ("makeHumanReadable and remap table", ET)]),
    "P19": P("Truncated and damaged files are never passed as valid",
             "Every strict prefix of a valid file that ends with its codestream, and every such file from which a "
             "tile-part, a marker or a header piece is lost, is reported as invalid unless what remains is itself a "
             "complete file of the format; the analysis still reports all that can be read.",
             "inputs", "all cut points and lost pieces of all valid files",
             TESTS + "one or two truncated files are sampled, at one cut point each.", BV,
             [("EOC, psot, tile count and box presence tests", BV)]),
    "P20": P("Reporting options never change the verdict or the facts",
             "For the same bytes and format, switching between full and short report and switching packet marker output "
             "on or off change only what is listed: the verdict is the same, the short report lists exactly the failing "
             "tests of the full one (each inside the elements that contain it), and properties are the same except that packet "
             "length and packed header segments are only listed on request, while their numbers are always reported.",
             "inputs configurations", "all files, all combinations of options",
             TESTS + "no test compares reports under different options.", BV + " " + JP,
             [("verboseFlag / packetmarkersFlag handling", BV)]),
    "P21": P("The MIX extension restates the properties of valid files",
             "With the MIX option (version 1.0 or 2.0) the report of every valid JP2 or JPH file contains one MIX document "
             "of that version whose values (size, object identification, compression scheme and ratio, dimensions, colour space and "
             "profile, coding options, resolutions, bits per sample, and facts taken from XMP metadata where present) follow from the "
             "reported properties. Invalid files and raw codestreams get an empty extension or none; without "
             "the option there is no extension, and the option changes nothing else in the report.",
             "inputs configurations", "all files, both versions, all formats",
             TESTS + "MIX output is tested for the fact that it validates for a few files only.", "jpylyzer/mix.py " + JP,
             [("Mix.generateMix and its parts", "jpylyzer/mix.py"), ("mixFlag handling", JP)]),
    "P22": P("A batch reports every file, in order, each as if it were alone",
             "For every list of input files, a run ends with exit code 0 and one well-formed document that names the tool and "
             "its version and contains one report per designated file, in the order of the arguments (a file named twice is reported "
             "twice). Each report is the one the file gets when analysed alone: files that are broken, empty, unreadable or too "
             "large for memory neither stop the batch nor influence the reports of others.",
             "inputs histories", "all lists of files, with faults at any place in the list",
             TESTS + "none runs a batch with a fault in it.", JP,
             [("checkFiles loop", JP), ("try/except in checkOneFile", JP)],
             ("standard output, standard error and exit code of the command line tool",)),
    "P23": P("Exactly the designated files are analysed",
             "For every tree of files and every list of arguments, the files analysed are exactly those the arguments stand for: "
             "a path to a file stands for that file whatever its name, a path with * for the files whose path matches it (hidden names "
             "only if the pattern starts with a dot), and, when recursing, a directory (also as the only match of a pattern) for all files below it and any other "
             "pattern also for the files in all subdirectories that match its last name. Each is analysed once per argument; directories, dangling links and pipes are never "
             "analysed. A path without * that does not exist is warned about; if nothing is designated, the run says so, "
             "exits with a nonzero code and writes no document.",
             "inputs configurations", "all trees, all arguments, with and without recursion",
             TESTS + "none exercises wildcards or recursion.", JP,
             [("findFiles, getFiles, getFilesFromTree, getFilesWithPatternFromTree", JP), ("checkNoInput", JP)],
             ("standard output, standard error and exit code of the command line tool",)),
    "P24": P("Reports do not depend on what was analysed before",
             "In any history of one process, with files created, changed, replaced and removed in between, every analysis and every "
             "batch gives the report that the present contents and the options of that call require, whatever was analysed before, "
             "in which order and with which options, and also when two analyses go on at the same time. Results given out stay what "
             "they are, whatever is analysed later. Analysing never changes the files analysed and leaves nothing behind.",
             "histories inputs", "all sequences of analyses, batches and changes of files",
             TESTS + "each looks at one call at a time.", JP + " " + BV + " jpylyzer/config.py",
             [("EXISTING_FILES, config, class attributes of BoxValidator", JP)]),
    "P25": P("The document written is well-formed and says what the report says",
             "For every file and every combination of options, what is written to standard output is one well-formed XML document in UTF-8 "
             "in the tool's name space which, read back, is the report required by the chosen options: texts, attributes and embedded "
             "XML are preserved whatever characters they contain, up to line ends and, in indented output, white space between elements. "
             "Options mean what the help says (format in upper or lower case, verbose, packetmarkers, nullxml, mix, nopretty) "
             "in each of their spellings and orders, through all entry points. A command line with an unknown option, value or format, or "
             "without a path, is refused with a message, a nonzero exit code and no document; version and help are told without analysing.",
             "inputs configurations", "all files, all combinations of command line options",
             TESTS + "none reads back what was written for texts that need escaping.", JP + " " + ET + " jpylyzer/__main__.py cli.py",
             [("writeElement, checkFiles", JP), ("parseCommandLine, main", JP)],
             ("standard output, standard error and exit code of the command line tool",)),
    "P26": P("File facts are right, and unreadable files are reported as such",
             "For every file, whatever its name, time stamp and size, the report states its name, absolute path, size and time of last "
             "modification in local time (characters that cannot be written in XML are dropped, bytes that are not UTF-8 shown as ?; "
             "times that cannot be shown replaced by the epoch). A file that cannot be opened or does not fit in memory is reported with "
             "success=False, the corresponding failure message, isValid=False, no tests and properties, and the message as the only warning.",
             "inputs configurations", "all names, times, sizes, permissions and time zones",
             TESTS + "all their files are readable and have plain names.", JP,
             [("fileInfo and failureMessage in checkOneFile", JP), ("stripSurrogatePairs, fileToMemoryMap", JP)],
             ("standard output of the command line tool",)),
    "P27": P("Warnings appear exactly when there is something to warn about",
             "For every file the report carries exactly one warning for each box of unknown type, naming the type and placed under the "
             "elements of the boxes that contain it, one for an empty file, and no others. "
             "Warnings never affect the verdict. A run tells each of them on standard error too, once, in the order of the reports, "
             "after a warning for each argument that stands for nothing that exists.",
             "inputs", "all files and batches", TESTS + "no test looks at warnings.", BV + " " + JP, [("addWarning", BV), ("fileToMemoryMap", JP)]),
    "P28": P("Every document follows the schema it names",
             "Whatever the files, formats and options, the document that the tool writes names, for its own namespace, a schema that the "
             "repository publishes, and conforms to it: the elements of the document and of the report of each file are "
             "declared there, occur in the declared order and number, and hold text of the declared type. What boxes and "
             "codestreams say can be arbitrary; it never makes the document violate the schema.",
             "inputs configurations", "all files, all formats and options, all batches",
             TESTS + "no test validates a report against the schema.", BV + " " + JP + " xsd/jpylyzer-v-2-2.xsd",
             [("addCharacteristic: names, order and types of properties", BV), ("xsd/jpylyzer-v-2-2.xsd", "xsd/jpylyzer-v-2-2.xsd"),
              ("checkOneFile, writeElement", JP)], ("the XML document on standard output",)),
}

LEVEL_NOTE = ("TLC runs the TLA+ specification's state machine on the same bytes, checks its invariants and progress in every state, "
              "and compares the complete observed report with the one specified. Sound and complete for the inputs explored; "
              "inputs are enumerated or sampled per family (see DESIGN.md), so absence of a violation is bounded evidence.")

props, checks = [], []
for pid in sorted(TEXT):
    t = TEXT[pid]
    assert len(t["title"]) <= 80, pid
    props.append({"id": pid, "title": t["title"], "statement": t["statement"],
                  "quantifier": {"over": t["over"], "text": t["text"]}, "why_tests_cant": t["why"],
                  "anchors": {"files": t["files"], "mechanism": [{"name": a, "where": b} for a, b in t["mech"]],
                              "observe_at": t["observe"], "hook_needed": None}})
    if pid in PROPERTIES:
        checks.append({"property": pid, "quick_cmd": "python3 harness/check.py %s quick" % pid,
                       "thorough_cmd": "python3 harness/check.py %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": PROPERTIES[pid].get("technique", "TLA+ state machine of the analysis, TLC trace conformance"),
                       "level": "model_checking",
                       "level_note": PROPERTIES[pid].get("note", LEVEL_NOTE)})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks,
               "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props
                                  if p["id"] not in PROPERTIES],
               "notes": "TLA+ checked with TLC. No hooks in /repo are needed: all observations are public reports."}, f, indent=1)
