"""Small changes of the source: mutants(repo) -> list of dict(id, file, line, old, new) with whole lines."""
import os, re
FILES = ["src/anlz.rs", "src/device.rs", "src/main.rs", "src/setting.rs", "src/util.rs", "src/xml.rs", "src/xor.rs", "src/pdb/bitfields.rs", "src/pdb/ext.rs",
         "src/pdb/io.rs", "src/pdb/mod.rs", "src/pdb/offset_array.rs", "src/pdb/string.rs"]
SUBS = [(r"(?<![<=>!-])<(?!=|<|\w+>|'|[A-Z_&\[(])", "<="), (r"<=(?!>)", "<"), (r"(?<![-=<>])>(?![>=])(?=\s)", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|(?= )", "&&"),
        (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\*(?= )", "+"), (r"(?<= )/(?= )", "*"), (r"(?<= )%(?= )", "/"), (r"<<(?= )", ">>"), (r"(?<= )>>(?= )", "<<"),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\+=", "-="), (r"-=", "+="), (r"(?<=[ (])!(?=[\w(])", ""),
        (r"checked_add", "checked_sub"), (r"checked_sub", "checked_add"), (r"saturating_sub", "saturating_add"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
        (r"\.is_empty\(\)", ".is_empty() == false"), (r"\.\.=", ".."), (r"(?<=\w)\.\.(?=\w)", "..="), (r"\.rev\(\)", ""), (r"SeekFrom::Start", "SeekFrom::Current"), (r"\bbig\b", "little"), (r"\blittle\b", "big"),
        (r"Endian::Big", "Endian::Little"), (r"Endian::Little", "Endian::Big"), (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"), (r"\?;$", ".ok();"), (r"\bOk\(None\)", "Err(todo_err())"),
        (r" & (?=\w)", " | "), (r" \| (?=\w)", " & "), (r" \^ ", " | "), (r"u16\b(?=>|\()", "u8"), (r"as u16", "as u8 as u16"), (r"as u32", "as u16 as u32"), (r"as usize", "as u8 as usize"), (r"as u64", "as u32 as u64"),
        (r"\.unwrap_or\(", ".xor(None).unwrap_or("), (r"\.filter\(", ".skip_while("), (r"next_multiple_of", "div_ceil")]


def code_lines(text):
    """(number, line) of the lines that are code and not tests"""
    out = []
    ls = text.split("\n")
    for i, l in enumerate(ls):
        if re.match(r"#\[cfg\(test\)\]", l) and ls[i + 1].endswith("{"):
            break
        s = l.strip()
        if s and not s.startswith("//"):
            out.append((i, l))
    return out


def mutants(repo):
    res = []
    for f in FILES:
        text = open(os.path.join(repo, f)).read()
        lines = text.split("\n")
        code = code_lines(text)
        seen = set()

        def add(i, n, new, op):
            old = "\n".join(lines[i:i + n])
            if new != old and (i, n, new) not in seen:
                seen.add((i, n, new))
                res.append(dict(id="%s:%d:%d" % (f, i + 1, len([1 for r in res if r["file"] == f and r["line"] == i])), file=f, line=i, n=n, old=old, new=new, op=op))
        nums = [i for i, _ in code]
        for k, (i, l) in enumerate(code):
            body, ind = l.strip(), l[:len(l) - len(l.lstrip())]
            cut = l.find(" // ")
            head = l if cut < 0 else l[:cut]
            if body.startswith(("use ", "pub use ", "mod ", "pub mod ", "#[derive", "#![")):
                continue
            for pat, rep in SUBS:
                for m in re.finditer(pat, head):
                    add(i, 1, head[:m.start()] + rep + head[m.end():], pat)
            for m in re.finditer(r"(?<![\w.\"'])(0x[0-9A-Fa-f_]+|\d[\d_]*)(?![\w.\"'])(_?[ui]\d+|_?usize)?", head):
                t = m.group(1)
                v = int(t.replace("_", ""), 0)
                suf = m.group(2) or ""
                for nv in {v + 1, max(0, v - 1)} - {v}:
                    add(i, 1, head[:m.start()] + (hex(nv) if t.startswith("0x") else str(nv)) + suf + head[m.end():], "number")
            if re.match(r"#\[(br|bw|brw|serde|arg|command)\(", body) and body.endswith("]"):
                add(i, 1, ind + "// (removed)", "attribute")
            if body.endswith(";") and not re.match(r"(let|use|pub|return|const|type|break|continue|impl|static|})", body):
                add(i, 1, ind + "// (removed)", "statement")
            for m in re.finditer(r'"([^"\\{}]{2,})"', head):
                if f in ("src/main.rs", "src/setting.rs", "src/xml.rs", "src/device.rs", "src/pdb/string.rs", "src/util.rs"):
                    add(i, 1, head[:m.start(1)] + m.group(1)[:-1] + "~" + head[m.end(1):], "text")
            if k + 1 < len(code) and code[k + 1][0] == i + 1:
                n = code[k + 1][1]
                # neighbours changing place: fields, arms, statements
                if re.match(r"(pub )?\w+: ", body) and re.match(r"(pub )?\w+: ", n.strip()) and body.endswith(",") and n.strip().endswith(","):
                    add(i, 2, n + "\n" + l, "swap")
                if re.match(r".* => .*,$", body) and re.match(r".* => .*,$", n.strip()):
                    a, b = body.split(" => ", 1), n.strip().split(" => ", 1)
                    add(i, 2, ind + a[0] + " => " + b[1] + "\n" + ind + b[0] + " => " + a[1], "arms")
                if body.endswith(";") and n.strip().endswith(";") and n[:len(ind)] == ind and not body.startswith("let"):
                    add(i, 2, n + "\n" + l, "order")
    return res


if __name__ == "__main__":
    import collections, sys
    r = mutants(sys.argv[1])
    print(len(r), collections.Counter(x["file"] for x in r))
