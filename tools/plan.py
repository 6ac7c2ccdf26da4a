"""What each check explores.  Families are generators of gen.py, models are the bounded TLC models of spec/."""
from gen import EDGE_GIANT, EDGE_HUGE

# name -> (generator, args)
FAM = {
    "history": ("sc_history", (7, 0.03, True, 0.1, 2)),
    "edits": ("sc_edits", (12,)),
    "audio": ("sc_audio", ()),
    "coincide": ("sc_coincide", ()),
    "wellformed": ("sc_wellformed", ()),
    "foreign": ("sc_foreign", ()),
    "foreignbig": ("sc_foreign", (0.3,)),
    "many": ("sc_many", (20, 300)),
    "manymore": ("sc_many", (520, 1200)),
    "preserve": ("sc_preserve", ()),
    "garbage": ("sc_garbage", ()),
    "truncations": ("sc_truncations", ()),
    "header": ("sc_header", ()),
    "absent": ("sc_absent", ()),
    "owner": ("sc_owner", ()),
    "compat": ("sc_compat", ()),
    "save": ("sc_save", ()),
    "text": ("sc_text", ()),
    "sizes": ("sc_sizes", ()),
    "interleave": ("sc_interleave", ()),
    "query": ("sc_query", ()),
    "huge": ("sc_giant", (EDGE_HUGE,)),
    "giant": ("sc_giant", (EDGE_GIANT,)),
    "hugeread": ("sc_giantread", (EDGE_HUGE,)),
    "giantread": ("sc_giantread", (EDGE_GIANT,)),
    "colossal": ("sc_colossal", ([(1 << 27) + 1000],)),
    "colossalmore": ("sc_colossal", ([1 << 24, 1 << 26, (1 << 27) - 40, (1 << 27) + 5000, (1 << 28) - 4000],)),
    "bigaudio": ("sc_bigaudio", ([1 << 20, (1 << 24) + 3],)),
    "hugeaudio": ("sc_bigaudio", ([(1 << 26) + 1],)),
}

# model configurations: (module, environment, epilogue appended to every emitted call sequence)
SAVE = [dict(op="write", f=0, h=0), dict(op="read", h=1, f=0)]
RESAVE = SAVE + [dict(op="write", f=0, h=1), dict(op="write", f=0, h=0), dict(op="del", f=0)]
ASK = [dict(op="getn", h=0, name="title"), dict(op="getn", h=0, name="comment"), dict(op="getn", h=0, name="cover"),
       dict(op="getn", h=0, name="artist"), dict(op="gets", h=0, id=[84, 88, 88, 88]), dict(op="getcs", h=0), dict(op="getas", h=0),
       dict(op="get", h=0, id=[80, 82, 73, 86])]


def edit(depth, starts="23014"):
    """the two richest starting tags make the most work: one call less for them where it would be too much"""
    return [("MCEdit", dict(START=s, DEPTH=str(depth - (depth > 5 and s in "23")))) for s in starts]


def files(depth):
    return [("MCFile", dict(DEPTH=str(depth)))]


def compat(depth):
    return [("MCCompat", dict(DEPTH=str(depth)))]


def inter(depth):
    return [("MCInter", dict(DEPTH=str(depth)))]


def dialect(depth, wide="0"):
    return [("MCDialect", dict(DEPTH=str(depth), WIDE=wide, PART=str(k), PARTS="8")) for k in range(8)]


def inputs(mode, wide="0"):
    return [("MCInputs", dict(MODE=mode, WIDE=wide))]


def tables(*modes, wide="0"):
    return [("MCTables", dict(MODE=m, WIDE=wide, PART=str(k), PARTS="8")) for m in modes for k in range(8)]


def deep(*modes):
    return tables(*modes, wide="1")


# property -> tier -> (families with counts, models, epilogue for MCEdit sequences, cap on replayed sequences)
# thorough families are repeated with fresh seeds until the time budget ends
PLAN = {
    "C01": dict(fam=dict(colossal=1, history=900, wellformed=250, foreignbig=100, huge=4, giant=2, many=6, manymore=2), models=tables("set", "lens", "flags") + edit(4), deep=deep("set", "lens", "flags") + edit(6), epi=SAVE, cap=3500,
                more=dict(giant=4, giantread=4, manymore=8, colossalmore=3)),
    "C02": dict(fam=dict(coincide=250, audio=1200, save=250, preserve=200, bigaudio=3), models=tables("audio", "ends") + files(5), deep=deep("audio", "ends") + files(8), cap=4000, more=dict(bigaudio=8, hugeaudio=2)),
    "C03": dict(fam=dict(coincide=100, colossal=1, wellformed=700, history=250, preserve=250, audio=150, huge=3, giant=2, many=4, manymore=1), models=tables("set", "lens") + edit(4), deep=deep("set", "lens") + edit(6) + files(6), epi=SAVE[:1],
                cap=3500, more=dict(giant=4, manymore=4, colossalmore=3)),
    "C04": dict(fam=dict(foreign=1200, foreignbig=250, many=10, manymore=3, hugeread=3, giantread=2), models=tables("read", "ids", "flags", "raws") + dialect(3), deep=deep("read", "ids", "flags", "raws") + dialect(3, "1"), cap=4000,
                more=dict(manymore=8, giantread=6)),
    "C05": dict(fam=dict(preserve=1000, many=6, manymore=2, foreign=80, hugeread=2), models=tables("keep", "ids", "flags", "raws") + dialect(5), deep=deep("keep", "ids", "flags", "raws") + dialect(6, "1"), cap=2500, more=dict(manymore=6, giantread=4)),
    "C06": dict(fam=dict(edits=1300, history=150, many=8, manymore=2), models=tables("names", "ids", "lists", "sized") + edit(4), deep=deep("names", "ids", "lists", "sized") + edit(6), epi=ASK, cap=3500, more=dict(manymore=8)),
    "C07": dict(fam=dict(garbage=1100, truncations=50, compat=60), models=inputs("cut") + inputs("damage") + inputs("compat"), deep=inputs("cut", "1") + inputs("damage", "1") + inputs("compat", "1"), cap=6000),
    "C08": dict(fam=dict(header=600, foreign=150, garbage=250, hugeread=2), models=inputs("header") + files(4), deep=inputs("header", "1") + files(7), cap=3500, bundle=10,
                more=dict(giantread=4, colossalmore=2)),
    "C09": dict(fam=dict(absent=1100), models=tables("lists", "ids") + edit(4) + files(4), deep=deep("lists", "ids") + edit(6) + files(7), epi=SAVE, cap=3500),
    "C10": dict(fam=dict(owner=800, compat=250, garbage=150, history=120, absent=100), models=tables("lists", "set", "sized", "csized") + edit(4) + compat(4) + inputs("compat"), deep=deep("lists", "set", "sized", "csized") + edit(6) + compat(6), epi=SAVE, cap=3000),
    "C11": dict(fam=dict(compat=1200, hugeread=2), models=tables("cset", "cnames", "read", "ids", "csized") + compat(5) + inputs("compat"), deep=deep("cset", "cnames", "read", "ids", "csized") + compat(7), cap=4000, more=dict(giantread=6)),
    "C13": dict(fam=dict(coincide=150, save=1100, audio=150, huge=2, many=4, bigaudio=1), models=tables("lens", "set") + edit(4) + files(4), deep=deep("lens", "set") + edit(5) + files(7), epi=RESAVE, cap=3000,
                more=dict(giant=4, bigaudio=4)),
    "C14": dict(fam=dict(text=900), models=inputs("text"), deep=inputs("text", "1"), cap=4000),
    "C15": dict(fam=dict(coincide=100, colossal=1, sizes=900, history=150, foreign=150, huge=3, giant=2, garbage=100, many=5, manymore=1), models=tables("lens", "lists", "sized") + edit(4) + files(4), deep=deep("lens", "lists", "sized") + edit(6) + files(6), epi=SAVE,
                cap=3000, more=dict(giant=4, giantread=4, colossalmore=3)),
    "C16": dict(fam=dict(interleave=700), models=inter(7), deep=inter(9), cap=2500, full=True),
    "C17": dict(fam=dict(query=800, edits=150, header=100, garbage=100, compat=300), models=tables("read", "names") + files(4) + inter(7) + compat(3), deep=deep("read", "names") + files(7) + inter(8) + compat(5), cap=2500, full=True),
}

# laws about sizes decided for all integers by Apalache (thorough runs; they do not depend on the code)
LAWS = {
    "C03": [("SizesLaws", "Inv")],
    "C13": [("LedgerLaws", "Twice")],
    "C15": [("SizesLaws", "Inv"), ("LedgerLaws", "Inv"), ("LedgerLaws", "Twice")],
}
