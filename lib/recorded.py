"""Files recorded from real devices (the ones /repo ships for its tests), as input for TLC."""
import os, random

DATA = "/repo/data"


def walk(ends):
    out = []
    for d, _, fs in os.walk(DATA):
        out += [os.path.join(d, f) for f in fs if f.endswith(ends)]
    return sorted(out)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def pages(quick, thorough):
    """Pages of all recorded databases: all of the hand-picked ones and a sample of the rest."""
    def go(tier, seed):
        picked, rest = [], []
        for p in walk((".bin", ".pdb")):
            b, n = read(p), os.path.basename(p)
            kind = "Ext" if n in ("tag_page.bin", "track_tag_page.bin", "exportExt.pdb") else "Plain"
            for at in range(4096 if n.endswith(".pdb") else 0, len(b) - 4095, 4096):
                (picked if n.endswith(".bin") else rest).append({"k": kind, "size": 4096, "b": list(b[at:at + 4096])})
        random.Random(seed).shuffle(rest)
        return picked + rest[:quick if tier == "quick" else thorough]
    return go


def anlz(tier, seed):
    fs = walk((".DAT", ".EXT", ".2EX"))
    return [list(read(p)) for p in fs if os.path.basename(p).startswith("ANLZ")]


def settings(tier, seed):
    names = {"DEVSETTING.DAT": "DevSetting", "DJMMYSETTING.DAT": "DJMMySetting", "MYSETTING.DAT": "MySetting", "MYSETTING2.DAT": "MySetting2"}
    return [{"k": names[os.path.basename(p)], "b": list(read(p))} for p in walk(".DAT") if os.path.basename(p) in names]


def headers(tier, seed):
    return [{"k": "Ext" if "Ext" in p else "Plain", "b": list(read(p)[:4096])} for p in walk(".pdb")]


def databases(tier, seed):
    return [{"name": os.path.basename(p), "b": list(read(p))} for p in walk(".pdb") if os.path.getsize(p) < 1 << 20 and "demo" in p]


def libraries(tier, seed):
    """Databases with playlists; pages of tables that nothing is read from are left out."""
    out = []
    for p in walk("export.pdb"):
        b = read(p)
        pages = [list(b[at:at + 4096]) for at in range(4096, len(b) - 4095, 4096)]
        used = [q if q[8] in (0, 2, 7, 8) else [] for q in pages]
        if any(q and q[8] == 7 and q[24] for q in used):
            out.append({"path": p, "head": list(b[:4096]), "pages": used})
    return out
