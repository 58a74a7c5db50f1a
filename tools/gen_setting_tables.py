"""One-off: transcribes the option tables of the four setting files into spec/SettingTables.tla. The result
was checked by hand against the documentation of the file formats and is part of the specification; no check
runs this program."""
import re
src = open("/repo/src/setting.rs").read()
dev = open("/repo/src/device.rs").read()
enums = {}
for m in re.finditer(r'#\[brw\(repr = u8\)\]\npub enum (\w+) \{(.*?)\n\}', src, re.S):
    name, body = m[1], m[2]
    vs, nxt, disp, dflt, default = [], None, None, False, None
    for l in body.split("\n"):
        l = l.strip()
        if l.startswith("///") or not l: continue
        d = re.match(r'#\[display\("(.*)"\)\]', l)
        if d: disp = d[1]; continue
        if l == "#[default]": dflt = True; continue
        v = re.match(r'(\w+)(?: = (0x[0-9A-Fa-f]+))?,$', l)
        n = int(v[2], 16) if v[2] else nxt
        vs.append((n, v[1], disp or v[1])); nxt = n + 1
        if dflt: default = n
        disp, dflt = None, False
    enums[name] = (vs, default)
labels = dict((f, l.strip(": ")) for l, f in re.findall(r'"([^"]*?)\s*\{\}(?:\\n)?",\s*format_option\(self\.(\w+)\)', dev))
def tup(xs): return "<<" + ", ".join(xs) + ">>"
def cps(s): return tup(str(ord(c)) for c in s)
out = ["---------------------------- MODULE SettingTables ----------------------------",
       "(* The options of the four setting files: for every option its values as <<byte, variant, text shown>>,",
       "   its default, and the label it is listed under. Texts are sequences of code points. *)",
       "EXTENDS Integers, Sequences", ""]
used = []
structs = {}
for s in ("DevSetting", "DJMMySetting", "MySetting", "MySetting2"):
    body = re.search(r'pub struct %s \{(.*?)\n\}' % s, src, re.S)[1]
    fields = re.findall(r'((?:#\[br\(assert\(.*?\)\)\]\s*)?)(?:pub )?(\w+): (\[u8; \d+\]|\w+),', body)
    structs[s] = fields
    for _, f, t in fields:
        if t in enums and t not in used: used.append(t)
for t in used:
    vs, d = enums[t]
    out.append("T_%s == <<%s>>" % (t, ",\n  ".join("<<%d, \"%s\", %s>>" % (n, v, cps(x)) for n, v, x in sorted(vs))))
    out.append("")
out.append("(* <<name, table, default, label>> *)")
for s, fs in structs.items():
    out.append("Options_%s == <<%s>>" % (s, ",\n  ".join("<<\"%s\", T_%s, %d, %s>>" % (f, t, enums[t][1], cps(labels[f])) for _, f, t in fs if t in enums)))
    out.append("")
    print(s, [(f, t, a.strip()) for a, f, t in fs if t not in enums], len([1 for x in fs if x[2] in enums]))
print([l for l in labels.values()])
out.append("=" * 78)
open("/verif/spec/SettingTables.tla", "w").write("\n".join(out) + "\n")
