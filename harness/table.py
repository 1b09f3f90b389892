"""Which inputs and which parts of the report decide which property.

families: name -> {scale (quick), deep (thorough), max (cases in the quick tier, 8 times as many in the
thorough one), domain (differences that count, a regular expression on the path in the report)}.
writer: family of JWriter -> arguments for the quick and the thorough tier.
observed: families whose reports go to a check of their own (in extra) and not to JTrace.
A family with no domain is dedicated to the property: any difference counts.
An analysis that does not complete always counts.
"""
from lib import SEED

ALL = ("f_valid f_damaged f_soup f_framing f_framing_systematic f_sigftyp f_ihdr f_bpcc f_colr f_palette f_cmap f_cdef "
       "f_res f_icc f_xml f_uuid f_unknown f_siz f_tilegrid f_cod f_coc f_qcd f_qcc f_rgn f_poc f_comcrg f_cap f_prf "
       "f_packets f_markers f_tileparts f_sot f_tileheader f_tileheader_order f_consistency f_ratio f_prefixes "
       "f_prefixes_rich f_lost f_random_fields f_formats f_twins f_capneed f_overrides f_tpsot f_many_boxes f_many_fields "
       "f_many_comps f_many_icc f_many_meta f_many_segs f_many_tiles").split()

W = {
    "top": ((5, 1, 401, SEED, 1), (6, 1, 997, SEED, 1)),
    "hdr": ((4, 1, 101, SEED, 8), (5, 1, 101, SEED, 12)),
    "res": ((5, 3, 0, SEED, 1), (6, 3, 0, SEED, 1)),
    "uinf": ((5, 3, 0, SEED, 1), (6, 3, 0, SEED, 1)),
    "main": ((5, 1, 401, SEED, 20), (5, 1, 101, SEED, 4)),
    "tiles": ((4, 1, 101, SEED, 40), (4, 1, 31, SEED, 8)),
    "tph": ((3, 1, 11, SEED, 7), (3, 1, 3, SEED, 1)),
}


def w(*names):
    return {n: W[n] for n in names}


def fam(text, **kw):
    return {n: dict(kw) for n in text.split()}


def mix(cap, domain, names=ALL):
    return {n: {"max": cap, "domain": domain, "deep": 2} for n in names}


BACK = "f_valid f_damaged f_random_fields".split()     # background: all parts together

SUBBOX = "imageHeaderBox|bitsPerComponentBox|colourSpecificationBox|paletteBox|componentMappingBox|channelDefinitionBox"
SEG = r"(contiguousCodestreamBox/)?(tileParts/tilePart(\[\d+\])?/)?"
TOPTEST = r"^tests/(contains|firstBox|secondBox|location|noMoreThan)\w*$"

PROPERTIES = {
    "P01": dict(families=mix(400, r"^/isValid|^tests")),
    "P02": dict(families={**mix(40, r"^$"), **fam("f_junk", domain=r"^$")},
                observed={**fam(" ".join(ALL) + " f_mix f_junk", scale=3, deep=20)}, extra=["completion", "totality"]),
    "P03": dict(writer=w("top"), families={**mix(500, TOPTEST + "|^/isValid", BACK), "f_many_boxes": {}}),
    "P04": dict(families={**fam("f_framing f_framing_systematic f_unknown", scale=4, deep=12), "f_many_boxes": {"scale": 2}}),
    "P05": dict(writer=w("hdr", "res"),
                families=mix(400, r"^tests/jp2HeaderBox(\[\d+\])?/(resolutionBox(\[\d+\])?/)?\w+$", BACK + ["f_many_boxes"])),
    "P06": dict(families={**fam("f_sigftyp f_ihdr f_bpcc f_colr f_palette f_cmap f_cdef f_res", scale=4, deep=16), "f_many_fields": {}}),
    "P07": dict(families={**fam("f_icc", scale=3, deep=12), "f_many_icc": {}}),
    "P08": dict(writer=w("uinf"), families={**fam("f_xml f_uuid", scale=3, deep=12), "f_huge_uuid": {}, "f_many_meta": {}}),
    "P09": dict(writer=w("main"), families={**fam("f_markers f_capneed f_overrides", scale=3, deep=12), "f_many_segs": {}}),
    "P10": dict(families={**fam("f_siz f_tilegrid", scale=4, deep=16), "f_huge_siz": {}}),
    "P11": dict(families={**fam("f_cod f_coc f_qcd f_qcc f_rgn f_poc", scale=4, deep=16), "f_huge_poc": {}, "f_many_segs": {}}),
    "P12": dict(families={**fam("f_comcrg f_cap f_prf f_packets", scale=4, deep=16), "f_huge_seg": {}, "f_many_segs": {}}),
    "P13": dict(writer=w("tiles"), families={**fam("f_tileparts", scale=3, deep=12), "f_sot": {"max": 1200, "deep": 6}, "f_many_tiles": {"scale": 2}}),
    "P14": dict(writer=w("tph"), families={**fam("f_tileheader f_tileheader_order f_tpsot f_overrides", scale=2, deep=8), "f_many_segs": {}}),
    "P15": dict(families={**fam("f_consistency", scale=6, deep=40), "f_many_comps": {"scale": 2, "deep": 8}}),
    "P16": dict(families={**fam("f_ratio f_tilegrid", scale=3, deep=12), **fam("f_res f_cod f_qcd", scale=3, deep=12),
                          **mix(300, r"compressionRatio|numberOfTiles|InPixels|precinct|codeBlock|mu|epsilon|grids", BACK)}),
    "P17": dict(families={**fam("f_formats", scale=5, deep=20), "f_markers": {"max": 300}, "f_cap": {"max": 150}}),
    "P18": dict(families=mix(350, r"^properties")),
    "P19": dict(families=fam("f_prefixes f_prefixes_rich f_lost", scale=3, deep=12)),
    "P20": dict(families=fam("f_twins", scale=12, deep=80)),
    "P21": dict(families=fam("f_mix", scale=4, deep=16)),
    "P22": dict(extra=["batch"]),
    "P23": dict(extra=["discovery"]),
    "P24": dict(extra=["sessions"]),
    "P25": dict(extra=["output"]),
    "P26": dict(extra=["strange"]),
    "P27": dict(families={**mix(50, r"^warnings"), **fam("f_unknown", scale=4, deep=12), "f_framing": {"max": 600, "deep": 4}},
                extra=["warned"]),
    "P28": dict(observed={**mix(80, ""), **fam("f_mix", max=200)}, extra=["documents"]),
}
