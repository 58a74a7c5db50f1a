"""Which TLC runs decide which property."""
from engine import Job
import recorded

SQL_CONSTS = dict(Chars="{1, 3, 65, 127, 128, 259, 2047, 8195, 65533, 128512}", MaxLen=("3", "4"),
                  Alphabet="{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 64, 65, 144, 195, 188, 216}", MaxBytes=("3", "5"))
SQL_INV = ["Lossless", "LosslessIsrc", "Fits", "NeverPastEnd"]

DB_INV = ["ChainOk", "NoGarbage", "RowsExact"]
DB_PROPS = ["WriteOnlyByFlush", "MemoryStays", "Untouched"]
ALL_OPS = '{"open", "load", "pages", "rows", "setpage", "setrow", "alloc", "sethdr", "settab", "flush", "close", "drop", "fault"}'


def db(name, family, ops=ALL_OPS, maxops=3, quiet='{"open"}', store='"whole"', deep=("FALSE", "TRUE"), inv=(), gap=(0, 0), **kw):
    kw.setdefault("view", "StateView")
    kw.setdefault("workers", 8)
    return Job(name, "MCPdbDb", dict(GapAt=gap[0], GapLen=gap[1], Ops=ops, MaxOps=maxops, Quiet=quiet, Store=store, Family='"%s"' % family, Deep=deep,
                                     Shared='"f"' if family in ("hist", "fault", "retry", "large") else '""'),
               inv=DB_INV + list(inv), props=DB_PROPS, **kw)


def walk(name, enabled, length=(14, 24), num=(1000, 15000), store='"whole"', **kw):
    """Long random histories on random databases."""
    o = enabled
    return db(name, "walk", o, tuple(map(str, length)), o, store=store, simulate=((num[0], length[0] + 3), (num[1], length[1] + 3)), view=None,
              inv=["Persisted", "ReadsBack", "SpaceOk", "SpaceBalance", "CountsOk"], workers=1, **kw)


def ops(s):
    return "{" + ", ".join('"%s"' % x for x in s.split()) + "}"


PROPS = {
    "C01": {"jobs": [db("chain", "chain", ops("open load pages"), 3), db("large", "large", maxops=3, workers=4), db("far", "large", maxops=3, store='"stretch"', workers=4),
                      db("gap", "large", maxops=3, gap=(151, 65280), workers=4)]},
    "C02": {"jobs": [db("access", "hist", ops("open load pages rows setpage setrow drop flush"), ("4", "5")), walk("walk", ALL_OPS), walk("walk_gap2", ALL_OPS, num=(400, 4000), gap=(3, 65530), salt=5)]},
    "C03": {"jobs": [db("flush", "hist", ops("open load pages rows setpage setrow alloc sethdr flush close"), ("4", "5"), inv=["Persisted", "ReadsBack"]), walk("walk_flush", ALL_OPS, salt=1), walk("walk_gap", ALL_OPS, num=(500, 4000), gap=(3, 65530), salt=4)]},
    "C04": {"jobs": [db("fault", "fault", ALL_OPS, ("4", "5"), inv=["Persisted"]),
                      db("bits", "hist", ALL_OPS, ("3", "4"), store='"bits"', inv=["Persisted"]),
                      walk("walk_bits", ALL_OPS, store='"bits"', salt=2),
                      walk("walk_uses", ALL_OPS.replace(', "fault"', ""), num=(1000, 8000), store='"uses"', salt=3),
                      db("retry_bits", "retry", ALL_OPS, ("8", "8"), '{"open", "load", "pages", "setpage", "setrow", "alloc", "sethdr"}', '"bits"', ("FALSE", "FALSE"), inv=["Persisted"], view=None),
                      db("retry", "retry", ALL_OPS, ("8", "9"), '{"open", "load", "pages", "setpage", "setrow", "alloc", "sethdr"}', inv=["Persisted"], view=None)]},
    "C05": {"jobs": [db("rows", "rows", ops("open rows flush"), 3)]},
    "C06": {"jobs": [db("alloc", "alloc", ops("open alloc flush"), ("4", "6"), inv=["ReadsBack", "SpaceOk", "SpaceBalance", "CountsOk"]),
                      db("allocbig", "allocbig", ops("open alloc flush"), ("4", "4"), '{"open"}', inv=["SpaceOk", "SpaceBalance", "CountsOk"], workers=4)]},
    "C09": {"jobs": [Job("sql_" + p, "MCDeviceSql", dict(SQL_CONSTS, Part='"%s"' % p), inv=SQL_INV)
                     for p in ("texts", "long", "bytes", "struct")]},
}

ANLZ_KINDS = ["BeatGrid", "CueList", "ExtendedCueList", "Path", "VBR", "WaveformPreview", "TinyWaveformPreview", "WaveformDetail",
              "WaveformColorPreview", "WaveformColorDetail", "Waveform3BandPreview", "Waveform3BandDetail", "SongStructure", "Unknown"]
ANLZ_INV = ["Placed", "Unchanged", "WellFormedLoads", "CountsDerived", "OneMeaning"]


def anlz(name, family, kinds=(), edits=0, deep=("FALSE", "TRUE"), tool="FALSE", **kw):
    kw.setdefault("workers", 8)
    return Job(name, "MCAnlz", dict(Tool=tool, Family='"%s"' % family, Kind="{%s}" % ", ".join('"%s"' % k for k in kinds), MaxEdits=edits, Deep=deep),
               inv=ANLZ_INV, **kw)


PROPS["C14"] = {"jobs": [anlz("seq", "seq"), anlz("big", "big"), anlz("huge", "huge", workers=6, heap="8g"), anlz("anlz_recorded", "recorded", workers=3, prepare=recorded.anlz, heap="6g"), anlz("edit", "edit", ANLZ_KINDS + ["Two"], ("2", "3")),
                         anlz("fill", "fill", [k for k in ANLZ_KINDS if k not in ("Path", "VBR", "SongStructure", "Unknown")]), anlz("fields_a", "fields", ["Unknown", "Nested", "Two", "VBR"])]}
PROPS["C15"] = {"jobs": [anlz("fields_b", "fields", [k for k in ANLZ_KINDS if k not in ("Unknown", "VBR", "SongStructure")]), anlz("text", "text"), anlz("cols", "cols")]}
PROPS["C16"] = {"jobs": [anlz("mask", "mask"), anlz("fields_c", "fields", ["SongStructure"])]}
PROPS["C16"]["jobs"].append(Job("xor", "MCXor", dict(Size="5", MaxOps=("4", "5"), Piece="{0, 1, 2}"),
                                inv=["Aligned", "Involution"], workers=8, view="StateView"))


def setting(family, **kw):
    return Job("setting_" + family, "MCSetting", dict(Family='"%s"' % family, Deep=("FALSE", "TRUE")), inv=["WellFormed", "ValidChecksum", "Unchanged", "ReadsBack", "OneKind"], **kw)


PROPS["C17"] = {"jobs": [setting(f, workers=4) for f in ("fields", "options", "combos", "texts")] + [setting("recorded", prepare=recorded.settings)]}
LOAD_ALL = '{"absent", "dir", "default", "alt1", "cut", "bad", "wrong", "empty", "crc", "tail"}'
PROPS["C18"] = {"jobs": [Job("load", "MCLoader", dict(Tool="FALSE", Family='"all"', Classes=('{"absent", "alt1", "cut", "bad", "wrong"}', LOAD_ALL)), inv=["Independent"], workers=8),
                         Job("load_more", "MCLoader", dict(Tool="FALSE", Family='"more"', Classes=('{"dir", "default", "empty", "tail"}', '{"alt2", "default", "absent"}')), inv=["Independent"], workers=8)]}
PROPS["C18"]["jobs"].append(Job("load_values", "MCLoader", dict(Tool="FALSE", Family='"values"', Classes="{}"), inv=["Independent"]))


def xml(name, family, nodes=("4", "6"), deep=("FALSE", "TRUE"), tool="FALSE"):
    return Job(name, "MCXml", dict(Tool=tool, Family='"%s"' % family, MaxNodes=nodes, Deep=deep), inv=["Survives", "StoredCounts"], workers=4)


PROPS["C19"] = {"jobs": [xml("xml_" + f, f) for f in ("tracks", "frame", "trees", "nodes", "bulk")]}

PLAIN_ROWS = ["Tracks", "Genres", "Artists", "Albums", "Labels", "Keys", "Colors", "PlaylistTree", "PlaylistEntries", "HistoryPlaylists", "HistoryEntries",
              "Artwork", "Columns", "Menu", "History"]
ALL_ROWS = PLAIN_ROWS + ["Tag", "TrackTag"]


def rows(family, **kw):
    return Job("row_" + family, "MCRows", dict(Family='"%s"' % family, Types="{%s}" % ", ".join('"%s"' % t for t in ALL_ROWS), Deep=("FALSE", "TRUE")),
               inv=["WellFormed", "Unchanged", "SameAgain"], workers=6, **kw)


PROPS["C08"] = {"jobs": [rows("rows"), rows("damage"), rows("edit")]}
PROPS["C10"] = {"jobs": [rows("arrange")] + [Job("offs_" + f, "MCOffsets", dict(Family='"%s"' % f, Deep=("FALSE", "TRUE")), inv=["WellFormed"], workers=4)
                                             for f in ("given", "bad", "fresh")]}


def page(family, **kw):
    return Job("page_" + family, "MCPage", dict(Family='"%s"' % family, Deep=("FALSE", "TRUE")), inv=["WellFormed", "Unchanged", "SameAgain"], workers=6, **kw)


def kinds(family, maxops):
    return Job("kinds_" + family, "MCKinds", dict(Family='"%s"' % family, Deep="FALSE", MaxOps=maxops), inv=["WellFormed", "FromBytes", "OthersStay"], workers=8, view="View2")


PROPS["C05"]["jobs"] += [kinds("one", ("2", "3")), kinds("mixed", ("1", "2")), kinds("all", ("2", "2"))]
PROPS["C04"]["jobs"] += [kinds("faults", ("1", "2"))]
PROPS["C07"] = {"jobs": [page(f) for f in ("types", "groups", "counts", "flags", "index", "damage", "edit", "big")] + [page("recorded", prepare=recorded.pages(40, 400), heap="5g")]}


def header(family, **kw):
    return Job("header_" + family, "MCHeader", dict(Family='"%s"' % family, Deep=("FALSE", "TRUE")), inv=["WellFormed", "Unchanged"], workers=4, **kw)


PROPS["C11"] = {"jobs": [header(f) for f in ("tables", "damage", "edit")] + [header("recorded", prepare=recorded.headers)]
                + [Job("header_numbers", "MCHeader", dict(Family='"numbers"', Deep="FALSE"), init="NInit", next="NNext", workers=1)]}


def device(family, maxn="0", **kw):
    kw.setdefault("replay", "harness")
    return Job("dev_" + family, "MCDevice", dict(Family='"%s"' % family, Max=maxn, Deep=("FALSE", "TRUE")), inv=["TreeLaws", "ExportLaws", "Stored"], workers=kw.pop("workers", 4), **kw)


PROPS["C12"] = {"jobs": [device("tree", ("3", "4"), workers=8), device("odd"), device("missing"), device("broken")]}
PROPS["C13"] = {"jobs": [device("names"), device("xentries", ("2", "3")), device("xodd"), device("xmissing"), device("xbulk"), device("xtext"), device("xfull"), device("xbroken")]}
PROPS["C21"] = {"jobs": [device("listtree"), device("entries", ("3", "3")), device("tracks"), device("listodd"), device("listmissing"), device("listbulk"), device("listtext"), device("listbroken")]}


def library(kind, quick, thorough, **kw):
    return Job("dev_recorded_" + kind, "MCRecorded", dict(Family='"r%s"' % kind, Max="0", Deep="FALSE", Variants=(quick, thorough)), inv=["TreeLaws", "ExportLaws", "AllRows"], workers=8,
               init="RInit", next="RNext", prepare=recorded.libraries, replay="harness", heap="10g", **kw)


PROPS["C12"]["jobs"].append(library("tree", "2", "6"))
PROPS["C13"]["jobs"].append(library("export", "1", "6"))
PROPS["C21"]["jobs"].append(library("list", "2", "6"))


def cli(family, **kw):
    return Job("cli_" + family, "MCCli", dict(Family='"%s"' % family, Deep=("FALSE", "TRUE")), inv=["Sound", "Complete"], workers=4, **kw)


PROPS["C21"]["jobs"] += [cli(f) for f in ("dump", "types", "guess", "setting")]
PROPS["C21"]["jobs"].append(cli("recorded", prepare=recorded.databases))
PROPS["C21"]["jobs"] += [anlz("cli_anlz_" + f, f, tool="TRUE", deep="FALSE") for f in ("seq", "text", "cols")]
PROPS["C21"]["jobs"].append(anlz("cli_anlz_fields", "fields", ANLZ_KINDS, tool="TRUE", deep="FALSE", tiers=("thorough",)))
PROPS["C21"]["jobs"] += [xml("cli_xml_" + f, f, ("3", "4"), "FALSE", "TRUE") for f in ("frame", "trees")] + [xml("cli_xml_tracks", "tracks", deep="FALSE", tool="TRUE")]
PROPS["C21"]["jobs"].append(Job("cli_load", "MCLoader", dict(Tool="TRUE", Family='"all"', Classes=('{"absent", "alt1", "cut"}', LOAD_ALL)), inv=["Independent"], workers=4))


def robust(family, maxh="1", name=None, **kw):
    kw.setdefault("workers", 4)
    return Job("robust_" + (name or family), "MCRobust", dict(Family='"%s"' % family, Max=maxh, Deep=("FALSE", "TRUE")), inv=["Sane"], mem=1, **kw)


PROPS["C20"] = {"jobs": [robust(f) for f in ("pdb", "types", "device", "anlz", "setting", "xml", "bombs", "calls")]
                + [robust(f, "3", simulate=((3000, 5), (60000, 5)), workers=1) for f in ("multipdb", "multianlz", "multixml")]}
