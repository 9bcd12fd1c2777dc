"""What each check explores: configurations of the specifications and the
conformance run that replays them (or judges what was recorded)."""
import json, os
from vlib import *


def docs(c, checks, name, **over):
    """documents of LawDocs.tla, replayed with the given checks"""
    k = dict(MaxKids=0, MaxAttrs=0, KidLevels={0}, FocusLevels={0, 1}, Injuries=False, Surface=False,
             Texts=False, Copies={1}, FocusTags=set(), Foreign={"Foo", "LawBody", "Rt"})
    k.update(over)
    st, files = tlc_sharded("LawDocs", k, c.out, name=name, timeout=max(60, c.left()))
    c.spec_run(st)
    f = join(files, os.path.join(c.out, name + ".cases"))
    if checks:
        c.sample(f)
        c.harness(["docs", f, checks])
    return f


BASIC = dict(MaxKids=1, MaxAttrs=1, KidLevels={0, 1})
PAIRS = dict(MaxKids=2, MaxAttrs=2, KidLevels={0})


def copies(c, checks):
    """children that stand there twice, or very often, all alike"""
    docs(c, checks, "copies", Copies=c.pick({2, 33}, {2, 3, 17, 33, 70, 130, 260}), MaxKids=1, KidLevels=c.pick({0}, {0, 1}), FocusLevels={0})
    if not c.quick: docs(c, checks, "copies2", Copies={2, 3}, MaxKids=2, FocusLevels={0})


TOPS = {"TOC", "Part", "Chapter", "Section", "Subsection", "Division", "Article", "Paragraph", "Item", "Subitem1", "Subitem3", "Subitem5", "Subitem7",
        "Subitem9", "List", "Sentence", "AmendProvision", "AppdxTable", "AppdxNote", "AppdxStyle", "Appdx", "AppdxFig", "AppdxFormat",
        "SupplProvisionAppdxStyle", "SupplProvisionAppdxTable", "SupplProvisionAppdx", "TableStruct", "TableRow", "FigStruct", "NoteStruct",
        "StyleStruct", "FormatStruct", "Remarks", "LawBody"}


def drawn(c, checks, noise=False, injured=False, n=None):
    """whole documents drawn from the schema (LawRandom.tla)"""
    n = n or c.pick(240, 20000)
    k = dict(From=SEED * 100003, Noises={noise}, Injured={injured}, Fuels={40, 160, 400}, Count=n, Tops=set())
    for name, over in (("drawn", {}), ("drawntop", dict(Fuels={60}, Count=max(8, n // 20), Tops=TOPS)),
                       ("drawnbig", dict(Fuels={6000}, Count=max(8, n // 15)))):
        st, files = tlc_sharded("LawRandom", {**k, **over}, c.out, name=name, timeout=max(60, c.left()))
        c.spec_run(st)
        f = join(files, os.path.join(c.out, name + ".cases"))
        c.sample(f, 1)
        c.harness(["docs", f, checks])
    c.exhaustive = False
    return f


def judged(c, made, checks, name):
    """documents from elsewhere, judged by LawJudge.tla and then held against the library"""
    d = os.path.join(c.out, name)
    c.produce(made + [d] if made[0] != "pieces" else [made[0], made[1], d, made[2]])
    st, files = tlc_sharded("LawJudge", dict(InFile=d), c.out, name=name, timeout=max(60, c.left()))
    c.spec_run(st)
    f = join(files, os.path.join(c.out, name + ".cases"))
    c.sample(f, 1)
    c.harness(["docs", f, checks])
    c.exhaustive = False
    return f


REAL = "/repo/src/tests/129AC0000000089_20230614_505AC0000000053.xml"


def edited(c, checks, n=None, real=True):
    """drawn documents edited at random, and a real law (if it is there)"""
    k = dict(From=SEED * 200003, Noises={False}, Injured={False}, Fuels={30, 90, 200}, Count=c.pick(80, 400), Tops=set())
    st, files = tlc_sharded("LawRandom", k, c.out, name="pool", timeout=max(60, c.left()))
    c.spec_run(st)
    st, more = tlc_sharded("LawRandom", {**k, "Fuels": {60}, "Count": c.pick(4, 20), "Tops": TOPS}, c.out, name="pooltop", timeout=max(60, c.left()))
    c.spec_run(st)
    f = join(files + more, os.path.join(c.out, "pool.cases"))
    judged(c, ["mutants", f, n or c.pick(4000, 200000), SEED], checks, "edited")
    if real and os.path.exists(REAL):
        judged(c, ["pieces", REAL, "pieces"], checks, "real")
        if not c.quick: judged(c, ["pieces", REAL, "whole"], checks, "whole")


def P01(c):
    docs(c, "read", "basic", **BASIC)
    docs(c, "read", "pairs", **c.pick(PAIRS, dict(MaxKids=3, MaxAttrs=3)))
    copies(c, "read")
    drawn(c, "read")
    edited(c, "read")


def P02(c):
    docs(c, "write", "basic", **BASIC)
    docs(c, "write", "pairs", **c.pick(PAIRS, dict(MaxKids=3, MaxAttrs=3)))
    copies(c, "write")
    drawn(c, "write")
    edited(c, "write")


def P03(c):
    f = docs(c, "roundtrip", "basic", **BASIC)
    docs(c, "roundtrip", "pairs", **c.pick(PAIRS, dict(MaxKids=3, MaxAttrs=3)))
    copies(c, "roundtrip")
    drawn(c, "roundtrip")
    edited(c, "roundtrip")
    # whatever else the library accepts must survive as well
    c.harness(["corrupt", f, c.pick(300000, 5000000), SEED, "roundtrip"])
    c.exhaustive = False


def P04(c):
    docs(c, "reject", "inj", Injuries=True)
    docs(c, "reject", "place", Injuries=True, FocusLevels={0}, Foreign={"*", "~"})
    drawn(c, "reject", injured=True, n=c.pick(500, 30000))
    edited(c, "reject", n=c.pick(10000, 400000), real=False)
    if not c.quick:
        docs(c, "reject", "place1", Injuries=True, FocusLevels={1}, Foreign={"*", "~"})


def P05(c):
    f = docs(c, "total", "inj", Injuries=True, **BASIC)
    docs(c, "total", "place", Injuries=True, FocusLevels={0}, Foreign={"*", "~"})
    drawn(c, "total", injured=True)
    c.harness(["corrupt", f, c.pick(1000000, 20000000), SEED, "total"])
    c.exhaustive = False


def P06(c):
    docs(c, "read,roundtrip,write", "texts", Texts=True, MaxKids=c.pick(1, 2), MaxAttrs=c.pick(1, 2))
    drawn(c, "read,roundtrip,write")


def P07(c):
    docs(c, "read", "surface", Surface=True, FocusLevels=c.pick({0, 1}, {0, 1, 2}))
    drawn(c, "read", noise=True)


def P10(c):
    docs(c, "json", "basic", **BASIC)
    docs(c, "json", "pairs", **c.pick(PAIRS, dict(MaxKids=3, MaxAttrs=3)))
    copies(c, "json")
    drawn(c, "json")
    edited(c, "json", real=False)


HEADINGS = {"part", "chapter", "section", "subsection", "division", "article"}
PATTERNS = ["Kansuji", "IrohaKatakana", "IrohaHiragana", "ZenkakuNum", "ZenkakuRomanUpper", "ZenkakuRomanLower",
            "ZenkakuUpper", "ZenkakuLower"]
ITEMS = {k + p for k in ("Paren", "NoParen") for p in PATTERNS}
S = lambda *xs: {str(x) for x in xs}


def nums(c, name, **over):
    k = dict(Forms=set(), Bases=set(), Edas=S(), MaxEda=0, MaxREda=0, Ranges=S(), MutAt=S(), Styles={"own"})
    k.update(over)
    st, files = tlc_sharded("LawNum", k, c.out, name=name, timeout=max(60, c.left()))
    c.spec_run(st)
    f = join(files, os.path.join(c.out, name + ".cases"))
    c.sample(f)
    c.harness(["nums", f])


U32, I64, U64 = 1 << 32, 1 << 63, 1 << 64
# magnitudes at which a narrower number would give way
MARKS = S(*[x + d for x in (10, 100, 128, 256, 1000, 10000, 32768, 65536, 1 << 24, 1 << 31, 1 << 32, 10 ** 10, 1 << 53, I64, 10 ** 19) for d in (-1, 0, 1)])


def P11(c):
    bases = S(0, 1, 2, 3, 7, 9, 10, 11, 12, 99, 100, 101, 1234567, U32 - 1, U32, 999999999999, U64 - 1)
    nums(c, "attr", Forms={"attr"}, Bases=bases, Edas=S(0, 1, 2, 10, U64 - 1), MaxEda=c.pick(2, 3), MaxREda=c.pick(1, 2),
         Ranges=S(0, 2, 11, U64 - 1))
    nums(c, "long", Forms={"attr"}, Bases=S(0, 4, 300), Edas=S(1, 70000), MaxEda=c.pick(4, 6), MaxREda=c.pick(5, 6), Ranges=S(6))
    nums(c, "sizes", Forms={"attr"}, Bases=MARKS, Edas=c.pick(S(128, 65536, U32, I64), MARKS), MaxEda=1, MaxREda=1, Ranges=c.pick(S(256, U32 + 1), S(256, 65535, U32 + 1)))
    nums(c, "edit", Forms={"attr"}, Bases=S(0, 1, 2, 3, 4, 5, 6, 12, U64 - 1), Edas=S(2, 10), MaxEda=c.pick(1, 2), MaxREda=1,
         Ranges=S(3, 11), MutAt=S(0, 1, 2, 3, 4, 5, 6, 12, U64 - 1))


def P12(c):
    forms = HEADINGS | {"paragraph"}
    nums(c, "all", Forms=c.pick({"article", "paragraph"}, forms), Bases=S(*range(1, 10000)))
    nums(c, "some", Forms=forms, Bases=S(*range(1, 130), *range(990, 1120), 2000, 2011, 3333, 9999))
    nums(c, "compound", Forms=forms, Bases=S(1, 2, 10, 11, 20, 100, 101, 1000, 1110, 9999), Edas=S(1, 2, 10, 12, 103), MaxEda=c.pick(2, 3),
         MaxREda=c.pick(1, 2), Ranges=S(3, 10, 115))
    wide = S(1, 9, 12, 99, 255, 256, 300, 999, 1023, 9999)
    nums(c, "wide", Forms=c.pick({"article", "paragraph", "division"}, forms), Bases=wide, Edas=S(3, 110, 257, 9999), MaxEda=1, MaxREda=1, Ranges=wide)
    nums(c, "long", Forms=c.pick({"article", "paragraph", "part"}, forms), Bases=S(3, 300), Edas=S(2, 1000), MaxEda=c.pick(4, 5), MaxREda=c.pick(4, 5), Ranges=S(5, 2222))
    # headings and paragraphs are read in any numerals
    nums(c, "read", Forms=forms, Bases=c.pick(S(*range(1, 130), 255, 256, 257, 1000, 9999), S(*range(1, 10000))), Styles={"ascii", "zen"})
    nums(c, "styles", Forms=c.pick({"article", "paragraph", "chapter"}, forms), Bases=S(1, 10, 300, 9999), Edas=c.pick(S(2, 256), S(2, 10, 256, 4321)), MaxEda=2, MaxREda=2, Ranges=S(9, 10, 256, 1200),
         Styles={"ascii", "zen", "mixed", "mixed2"})
    nums(c, "big", Forms={"paragraph"}, Bases=S(10000, 65535, 65536, 99999, 1234567, 16777217, 999999999, 2000000000), Edas=S(70000), MaxEda=1, MaxREda=0, Ranges=S(123456), Styles={"own", "ascii"})
    nums(c, "edit", Forms=c.pick({"article", "part", "paragraph"}, forms), Bases=S(1, 12, 110, 1234), Edas=S(2, 10), MaxEda=1, MaxREda=1, Ranges=S(3, 21),
         MutAt=S(1, 12, 110, 1234))


def P13(c):
    nums(c, "all", Forms=ITEMS, Bases=S(*range(1, c.pick(800, 10000)), *range(800, 10000, 97)))
    nums(c, "compound", Forms=ITEMS, Bases=S(1, 2, 3, 10, 14, 26, 27, 47, 100), Edas=c.pick(S(1, 14, 26), S(1, 2, 3, 14, 26, 30)),
         MaxEda=c.pick(2, 3), MaxREda=c.pick(1, 2), Ranges=c.pick(S(3, 26), S(3, 4, 14, 46)))
    nums(c, "long", Forms=ITEMS, Bases=S(1, 5, 47), Edas=S(3, 40), MaxEda=c.pick(4, 5), MaxREda=c.pick(4, 5), Ranges=S(9))
    nums(c, "wide", Forms=ITEMS, Bases=S(9, 46, 47, 99, 100, 199, 255, 256, 300, 398, 399, 702, 703, 9999), Edas=S(46, 256), MaxEda=1, MaxREda=1,
         Ranges=S(47, 99, 257, 399, 9999))
    nums(c, "edit", Forms=ITEMS, Bases=c.pick(S(1, 4, 14, 26, 90), S(1, 2, 3, 4, 14, 26, 28, 39, 90)), Edas=c.pick(S(26), S(2, 26)), MaxEda=1,
         MaxREda=c.pick(0, 1), Ranges=S(3), MutAt=S(1, 2, 3, 4, 14, 26, 28, 39, 90))


def texts(c, checks, name, simulate=None, **over):
    k = dict(Words=[], MaxLines=3, Decos={"plain"}, Starts={""}, Edits=False, Strays=set(), Least=0, Random=bool(simulate))
    k.update(over)
    kw = dict(simulate=simulate, depth=k["MaxLines"] + 2) if simulate else {}
    st, files = tlc_sharded("TextLaw", k, c.out, name=name, timeout=max(60, c.left()), **kw)
    if simulate: c.exhaustive = False
    c.spec_run(st)
    f = join(files, os.path.join(c.out, name + ".cases"))
    if checks:
        c.sample(f)
        c.harness(["text", f, checks])
    return f


FRAME = ["part", "chapter", "section", "subsection", "division", "article", "paragraph", "caption", "suppl", "supplaw", "text",
         "NoParenKansuji", "NoParenIrohaKatakana"]
NEST = ["article", "paragraph", "NoParenKansuji", "NoParenIrohaKatakana", "ParenKansuji", "ParenZenkakuNum", "text"]
VARIANTS = ["part2", "partx", "chapter2", "chapterx", "section2", "sectionx", "subsectionx", "divisionx", "article2", "articlex",
            "articlez", "paragraph2", "paragraphx", "supplx", "suppls", "text2", "text3", "text4", "text5", "text6", "text7",
            "itemx", "item2", "itemr", "title", "lawnum"]
NOTATIONS = sorted(ITEMS)
LADDER = ["NoParenKansuji", "NoParenIrohaKatakana", "ParenKansuji", "ParenIrohaKatakana", "ParenZenkakuNum",
          "ParenZenkakuRomanLower", "NoParenZenkakuRomanUpper", "ParenIrohaHiragana", "NoParenZenkakuUpper", "ParenZenkakuLower",
          "ParenZenkakuUpper", "NoParenIrohaHiragana"]
ALLWORDS = FRAME + VARIANTS + [n for n in NOTATIONS if n not in FRAME]
DECOS = {"plain", "ascii", "wide", "crlf"}


ODD = ["o" + x for x in "123456789abcdefghijklmnopqrstuvwxyz"]
CHARS = ["every" + x for x in "123456"] + ["other" + x for x in "12356"] + ["long" + x for x in "2456789"]
DELETED = [n + x for n in LADDER for x in "xy"]


def ladders(ks, ns, head="paragraph"):
    """texts that go down n levels of items, in the ladder's order from its k-th notation on"""
    return {" ".join([head] + (LADDER[k:] + LADDER[:k])[:n]) for k in ks for n in ns}


HEADS = ["part", "chapter", "section", "subsection", "division"]


def chains(under=("", "part", "suppl")):
    """every chain of headings that may stand under one another"""
    legal = {"": ["part", "chapter", "section"], "part": ["chapter"], "chapter": ["section"], "section": ["subsection", "division"], "subsection": ["division"], "division": [],
             "suppl": ["chapter"]}
    out = set()
    def go(path, last):
        if path: out.add(" ".join(path))
        for n in legal[last]: go(path + [n], n)
    go([], "")
    if "suppl" in under: go(["suppl"], "suppl")
    return out


def structures(c, checks):
    """the texts on which P14, P15 and P19 are judged"""
    texts(c, checks, "frame", Words=FRAME, MaxLines=c.pick(4, 5))
    texts(c, checks, "chains", Words=["caption", "article", "paragraph", "text", "NoParenKansuji", "suppl"] + c.pick(["division", "section"], HEADS + VARIANTS), Starts=chains(),
          MaxLines=3)
    texts(c, checks, "nest", Words=NEST, Starts={"article"}, MaxLines=c.pick(4, 6))
    c.pool = texts(c, checks, "words", Words=ALLWORDS, MaxLines=2, Decos=DECOS)
    # every depth of items
    texts(c, checks, "deep", Words=LADDER + ["paragraph", "text", "same"], Starts=ladders(c.pick([0], range(12)), range(0, 13)), MaxLines=2)
    texts(c, checks, "deleted", Words=DELETED + ["text"], Starts=ladders(c.pick([0, 7], range(12)), range(0, 13)), MaxLines=c.pick(1, 2))
    texts(c, checks, "same", Words=["same", "text", "paragraph", "NoParenKansujiz", "ParenKansujiz", "NoParenKansujix"],
          Starts=ladders(c.pick([0, 5], range(12)), range(0, 12)), MaxLines=c.pick(3, 4))
    # every character, and long lines
    texts(c, checks, "chars", Words=CHARS, Starts=c.pick({"", "article", "chapter section paragraph NoParenKansuji", "suppl"}, {"", "article", "chapter", "suppl", "article NoParenKansuji", "paragraph NoParenKansuji text"}),
          MaxLines=c.pick(1, 2))
    # long texts, at random
    n = c.pick(60, 5000)
    texts(c, checks, "long", simulate=2 * n, Words=ALLWORDS + DELETED + ["same"] + NEST, Starts={"", "article", "chapter", "suppl"}, MaxLines=14, Least=9, Decos=DECOS)
    texts(c, checks, "longdeep", simulate=n, Words=NOTATIONS * 2 + DELETED[:6] + ["same", "text", "paragraph", "article"], Starts=ladders([0, 3, 7], [0, 1, 4]), MaxLines=24, Least=21)


def recorded(c, f, n, keep, mode, seed=SEED, kind="sharp"):
    """random texts run into the library; what it made of them is judged by TextTrace.tla"""
    tr = os.path.join(c.out, "traces.ndjson")
    j = c.harness(["textfuzz", f, n, seed, kind, keep, tr])
    c.exhaustive = False
    c.samples.append({"random text": j.get("extra", {}).get("sample")})
    if not keep or not os.path.exists(tr): return
    st, outs = tlc_sharded("TextTrace", dict(Mode=mode, InFile=tr), c.out, name="judge", timeout=max(60, c.left()))
    c.spec_run(st)
    recs, ok, bad = {}, 0, 0
    for i in range(CORES):
        o = os.path.join(c.out, f"TextTrace_judge_{i}.cases")
        if os.path.exists(o + ".ok"): ok += sum(1 for _ in open(o + ".ok"))
        for b in (cases_of(o) if os.path.exists(o) else []):
            if not recs: recs = {r["id"]: r for r in map(json.loads, open(tr))}
            bad += 1
            c.fails.append({"id": b["id"], "what": "trace", "detail": b["detail"], "case": recs.get(b["id"])})
    c.traces += ok + bad
    c.runs.append({"recorded traces judged": ok + bad, "disagreeing": bad})


def P14(c):
    structures(c, "structure")
    recorded(c, c.pool, c.pick(20000, 1000000), c.pick(20000, 400000), "structure")


def P15(c):
    structures(c, "words")
    recorded(c, c.pool, c.pick(20000, 1000000), c.pick(20000, 400000), "words")


def P16(c):
    f = texts(c, "total", "words", Words=ALLWORDS, MaxLines=2, Decos=DECOS)
    texts(c, "total", "deep", Words=NOTATIONS + ["paragraph"], Starts=ladders([0], [12]), MaxLines=c.pick(2, 3))
    # odd numbers in every place
    texts(c, "total", "odd", Words=ODD + ["text", "NoParenKansuji"], Starts=ladders(range(12), range(0, 13)), MaxLines=c.pick(1, 2))
    texts(c, "total", "odd2", Words=ODD + FRAME, Starts={"", "article", "article NoParenKansuji", "suppl", "suppl paragraph", "part chapter section", "caption"}, MaxLines=2)
    texts(c, "total", "lost", Words=FRAME, MaxLines=c.pick(3, 5))
    texts(c, "total", "chars", Words=CHARS, Starts={"", "article", "chapter", "suppl", "article NoParenKansuji", "paragraph NoParenKansuji text"}, MaxLines=c.pick(1, 2), Decos=DECOS)
    c.harness(["textfuzz", f, c.pick(60000, 3000000), SEED, "wild", 0, os.path.join(c.out, "none")])
    c.exhaustive = False


def P17(c):
    f = texts(c, "structure", "kinds", Words=ALLWORDS, MaxLines=1, Decos=DECOS)
    strays = {"第", "条", "章", "の", "（", "）", "　", " ", "一", "十", "１", "2", "イ", "ノ", "、", "・", "附", "則", "抄", "ⅱ", "Ⅴ", "か", "①", "目", "項"}
    texts(c, "structure", "edit", Words=ALLWORDS, MaxLines=1, Edits=True, Strays=c.pick(strays, strays | set("編節款及びからまで号ａＺをん：〇千ー")), Starts={"article"})
    recorded(c, f, c.pick(20000, 1000000), c.pick(20000, 400000), "structure", seed=SEED + 1000)


def metas(c, checks, years, metas=True):
    st, files = tlc_sharded("LawMeta", dict(Years=years, Metas=metas), c.out, timeout=max(60, c.left()))
    c.spec_run(st)
    f = join(files, os.path.join(c.out, "meta.cases"))
    c.sample(f)
    c.harness(["meta", f, checks])


AROUND = {1, 600, 1700, 1866, 1867, 1868, 1869, 1873, 1900, 1904, 1911, 1912, 1913, 1923, 1925, 1926, 1927, 1945, 1988, 1989, 1990,
          1999, 2000, 2018, 2019, 2020, 2024, 2026, 2100, 2400, 9999}


def P18(c):
    metas(c, "meta", c.pick(AROUND, AROUND | set(range(1860, 2110))))


def P19(c):
    structures(c, "xml")
    metas(c, "xml", {1868, 1912, 1926, 1989, 2019, 2026})
    judged(c, ["written", c.pool], "standard,read", "written")
    c.harness(["textfuzz", c.pool, c.pick(20000, 1000000), SEED, "sharp", 0, os.path.join(c.out, "none")])
    c.exhaustive = False


def walks(c, what, **over):
    for naming, less in (("own", 0), ("equal", 1)):
        k = dict(Roots={"Main", "Suppl"}, MaxNodes=5, Namings={naming})
        k.update(over)
        k["MaxNodes"] -= less
        st, files = tlc_sharded("WalkLaw", k, c.out, name=naming, timeout=max(60, c.left()))
        c.spec_run(st)
        f = join(files, os.path.join(c.out, f"walk-{naming}.cases"))
        c.sample(f)
        c.harness(["walk", what, f])


def laws(c, what, tops, n=None):
    """whole laws drawn from the schema, and what is listed from them (LawWalk.tla)"""
    n = n or c.pick(160, 12000)
    k = dict(From=SEED * 100003 + 7, Noises={False}, Injured={False}, Fuels={60, 240, 600}, Count=n, Tops=set())
    for name, over in (("laws", {}), ("lawstop", dict(Fuels={60, 300}, Count=max(8, n // 4), Tops=tops)),
                       ("lawsbig", dict(Fuels={4000}, Count=max(8, n // 15)))):
        st, files = tlc_sharded("LawWalk", {**k, **over}, c.out, name=name, timeout=max(60, c.left()), invariants=("Walks",))
        c.spec_run(st)
        f = join(files, os.path.join(c.out, name + ".cases"))
        c.sample(f, 1)
        c.harness(["lawwalk", what, f])
    c.exhaustive = False


def P20(c):
    walks(c, "articles", MaxNodes=c.pick(6, 8))
    laws(c, "articles", {"Part", "Chapter", "Section"})


def P21(c):
    walks(c, "toc", MaxNodes=c.pick(6, 8))
    laws(c, "toc", {"Part", "Chapter", "Section"})


BODIES = {"s0", "s1", "s3", "rich", "q2", "c1", "c3", "t0", "t1", "t9"}


def P22(c):
    for chain, cb in c.pick([(0, "s1"), (4, "c1"), (9, "t1"), (11, "rich")], [(n, b) for n in range(12) for b in ("s1", "c3", "t9")]):
        st, files = tlc_sharded("WalkText", dict(Chain=chain, ChainBody=cb if chain else "s1", Bodies=BODIES, MaxNodes=c.pick(2, 2)), c.out, name=f"chain{chain}",
                                timeout=max(60, c.left()))
        c.spec_run(st)
        f = join(files, os.path.join(c.out, f"chain{chain}.cases"))
        c.sample(f)
        c.harness(["walk", "text", f])
    laws(c, "text", {"Article", "Paragraph"})


def P08(c):
    # the machine itself: every run of a small document, through every sink, ends as it must
    st = must(tlc("Sink", dict(Total=4, Pieces={1, 2, 3}, Chunks={0, 1, 2}, Intrs={0, 2, 3}, Faults={"none", "fail"}, Ats=set(range(6)),
                               Shard=0, Shards=1, OutFile=""), c.out, name="machine", properties=("Ends",), workers=4))
    c.spec_run(st)
    st, files = tlc_sharded("Sink", dict(Total=2, Pieces={1}, Chunks=c.pick({0, 1, 7}, {0, 1, 2, 3, 7, 16, 61}), Intrs=c.pick({0, 2}, {0, 2, 3, 5}),
                                         Faults={"none", "fail", "fail-once", "zero", "zero-once", "block-once", "pipe", "flush"} | c.pick({"timedout", "nospace"}, {"block", "timedout", "timedout-once", "nospace", "reset", "eof", "invalid-once"}),
                                         Ats=set(range(c.pick(700, 1500)))), c.out, timeout=max(60, c.left()))
    c.spec_run(st)
    f = join(files, os.path.join(c.out, "sink.cases"))
    c.sample(f)
    c.harness(["sink", f])


KINDS = {"law", "other", "long", "page", "page1", "bom", "utf16", "sjis", "broken", "badutf8", "tail", "nolaw", "blank", "empty"}


def P09(c):
    st, files = tlc_sharded("Files", dict(Contents=KINDS | c.pick(set(), {"huge"}), Piped=c.pick({"law", "long", "broken"}, KINDS | {"huge"}),
                                          Paths={"plain", "japanese", "deep", "bare", "odd", "upper", "hidden", "noext", "longest", "nul", "toolong", "none", "under", "loop"},
                                          MaxOps=c.pick(2, 3)), c.out, name="each", timeout=max(60, c.left()))
    c.spec_run(st)
    f = join(files, os.path.join(c.out, "each.cases"))
    c.sample(f)
    c.harness(["files", f, os.path.join(c.out, "fs")])
    st, files = tlc_sharded("Files", dict(Contents=c.pick({"law", "other", "broken"}, {"law", "other", "long", "broken", "huge"}), Piped={"other"}, Paths={"plain"}, MaxOps=6), c.out, name="histories",
                            timeout=max(60, c.left()))
    c.spec_run(st)
    f = join(files, os.path.join(c.out, "histories.cases"))
    c.sample(f)
    c.harness(["files", f, os.path.join(c.out, "fs")])
