"""P01: the INI grammar."""
import json
import os
import random

import build
from common import Violation, ModelError, run_exe

REPO = build.REPO


def exe():
    return build.build_plain("ini_driver", [os.path.join(REPO, "vendor/inih/src/ini.c"), os.path.join(REPO, "vendor/inih/src/INIReader.cpp"), os.path.join(build.VERIF, "harness/ini_driver.cpp")])


LINES = [
    "[s1]\n", "[S2 ]\n", "  [s3]\n", "[bad\n", "[b ; c]\n", "[]\n",
    "a=1\n", "A : 2\n", "b = x ; note\n", "a=\n", "a=;v\n", "nosep\n", "x ;=3\n", "=v\n", "a==b:c\n", "p:q=r\n",
    "  more\n", "\tand = more ; kept\n", " ; indented comment\n", " # c\n", "# c = 1\n", ";x=1\n", "\n", "   \n", " [in]\n",
    "c = a#b;c \r\n", "\xef\xbb\xbfk=1\n", "d = last\n",
]
SHORT = ["[s1]\n", "[bad\n", "a=1\n", "A : 2 ; n\n", "b =\n", "nosep\n", "  more\n", "# c\n", "\n", " [x] ;\n", "=v\n"]


def hexs(b):
    return "".join("%02x" % c for c in b)


def random_text(rng):
    frag = ["[", "]", "=", ":", ";", "#", " ", "\t", "\n", "\n", "\n", "\r\n", "a", "b", "Name", "sec", "1", "2.5", " ;", " #", "  ", "\n ", "\n\t", "\n[", "rej", "\xef\xbb\xbf", "\x0b", "\x0c", "é", "\xff", "="]
    r = rng.random()
    n = rng.choice([3, 6, 12, 25, 60])
    t = "".join(rng.choice(frag) for _ in range(n))
    if r < 0.25:  # structured: mostly valid lines
        out = []
        if rng.random() < 0.2:
            out.append("\xef\xbb\xbf")
        for _ in range(rng.randint(1, 10)):
            k = rng.random()
            ind = rng.choice(["", "", "", " ", "\t "])
            if k < 0.2:
                out.append(ind + "[" + rng.choice(["Run", "run", "Grid", "Perfect Gas", "x" * rng.choice([48, 49, 50, 51, 60])]) + "]" + rng.choice(["", " ; c", " junk"]))
            elif k < 0.7:
                out.append(ind + rng.choice(["t_end", "T_END", "Nx", "n" * rng.choice([1, 48, 49, 50, 55]), "key with space", "rej"]) + rng.choice([" = ", "=", ":", " :", "= "]) + rng.choice(["", "1", "0.5 ; half", "a b  c", "v;w", "v ;w", "; all", " \"q\"", "x=y", "z:"]) + rng.choice(["", "  ", "\r"]))
            elif k < 0.8:
                out.append(rng.choice(["  cont", "\tcont = 2", "  ; c", " # c", "  [not a section]"]))
            elif k < 0.9:
                out.append(rng.choice(["; comment", "# comment", "", "   "]))
            else:
                out.append(rng.choice(["novalue", "[unclosed", "[x ;]", "name ; =1"]))
        t = "\n".join(out) + rng.choice(["", "\n"])
        if t.startswith("\xef\xbb\xbf\n"):
            t = "\xef\xbb\xbf" + t[4:]
    elif r < 0.45:  # around the line length limit
        base = rng.choice([198, 199, 200, 201, 397, 398, 399, 410])
        pre = rng.choice(["a=", "[s]\nkey = ", "# ", "[", "x=1\n  ", "b:", "nosep"])
        fill = rng.choice(["v", "v ", "w; ", " ", "=z"])
        body = (fill * 450)[:max(0, base - len(pre.split("\n")[-1]) + rng.choice([-1, 0, 1]))]
        t = pre + body + rng.choice(["\n", " ; c\n", ""]) + rng.choice(["", "b=2\n", "  c\n", "bad\n", "[t]\nq=1"])
    return t.encode("latin-1", "replace") if all(ord(ch) < 256 for ch in t) else t.encode("utf-8")


def queries(text, rng):
    import re
    t = text.decode("latin-1")
    secs = [""] + [m for m in re.findall(r"\[([^\]\n]*)\]", t)]
    names = [m.strip() for m in re.findall(r"(?m)^\s*([^=:\n]*?)\s*[=:]", t)]
    names = [n for n in names if "=" not in n][:8] + ["a", "zz"]
    secs = [s for s in secs if "=" not in s][:6] + ["nosuch"]
    q = set()
    for s in secs:
        for n in names:
            for s2 in {s, s[:49], s.swapcase()}:
                q.add((s2, rng.choice([n, n.upper(), n.swapcase(), n[:49]])))
    q = sorted(q)
    rng.shuffle(q)
    return [(s.encode("latin-1", "replace"), n.encode("latin-1", "replace")) for s, n in q[:14]]


def run_cases(c, texts, rng):
    e = exe()
    f = os.path.join(c.dir, "case.ini")
    lines = []
    for t in texts:
        lines.append("T t" + hexs(t) + "".join(" %s:%s" % (hexs(s), hexs(n)) for s, n in queries(t, rng)))
    rc, out, err = run_exe([e, f], stdin="\n".join(lines) + "\n", timeout=200)
    recs = [json.loads(l) for l in out.splitlines() if l.strip()]
    if rc != 0:
        n = len(recs)
        bad = texts[n] if n < len(texts) else b""
        raise Violation(f"the reader did not survive an input (exit {rc}): {bad!r}", {"text": list(bad), "rc": rc})
    miss = recs.pop()
    if miss["missing"] == 0 or not miss["threw"]:
        raise Violation("a missing file is not reported as a failure", miss)
    if len(recs) != len(texts):
        raise ModelError("driver records")
    return recs


def seqs(lines):
    from common import Raw
    return Raw("<<" + ", ".join("<<" + ",".join(str(b) for b in l.encode("latin-1")) + ">>" for l in lines) + ">>")


def check(c):
    rng = random.Random(c.seed)
    inv = ("FirstBadLine", "NoCollateral", "CallsCount", "ValuesTrimmed", "Emit")
    texts = []
    # the model's own behaviours, exhaustively: all files of up to n lines
    for name, lines, depth in (("wide", LINES, c.pick(2, 3)), ("deep", SHORT, c.pick(4, 5))):
        r = c.model("IniModel", name="IniModel-" + name, constants={"Alphabet": seqs(lines), "MaxLines": depth, "MinEmit": 1}, invariants=inv, timeout=800)
        cases = r.printed("CASE")
        if len(cases) < len(lines) ** depth:
            raise ModelError("IniModel printed %d cases" % len(cases))
        gen = [bytes(k["text"]) for k in cases]
        recs = run_cases(c, gen, rng)
        for k, rec in zip(cases, recs):
            exp = (k["err"], [list(map(list, x)) for x in k["calls"]])
            if (rec["ret"], rec["calls"]) != exp or (rec["sret"], rec["scalls"]) != exp:
                raise Violation("replay of a specified file: the reader found other settings or another error line", {"text": bytes(k["text"]).decode("latin-1"), "expected": exp, "got": [rec["ret"], rec["calls"], rec["sret"], rec["scalls"]]})
        c.traces += len(cases)
        c.details.setdefault("replayed_model_behaviours", {})[name] = len(cases)
        rng.shuffle(recs)
        c.conform("IniTrace", recs[: c.pick(400, 4000)], name="IniTrace-" + name, what="readings of specified files")
    rnd = [random_text(rng) for _ in range(c.pick(2500, 30000))]
    # every letter in names and sections, and files long enough for a large line number
    rnd.append(b"[ABCDEFGHIJKLMNOPQRSTUVWXYZ]\nabcdefghijklmnopqrstuvwxyz0123456789_=1\n[the quick]\nBROWN_FOX.JUMPS-over = 2\n[LAZY DOG]\nZz=3\nAa=4\n")
    for n, bad in ((300, 270), (700, 0), (260, 257)):
        rnd.append(b"".join(b"nothing here\n" if i == bad else b"[sec%d]\n" % i if i % 9 == 0 else b"Key%d = value %d ; c\n" % (i, i) for i in range(1, n)))
    rnd = [t.replace(b"\0", b"") for t in rnd]
    for fn in ("normal.ini", "bom.ini", "multi_line.ini", "bad_multi.ini", "bad_section.ini", "bad_comment.ini"):
        p = os.path.join(REPO, "vendor/inih/tests", fn)
        if os.path.exists(p):
            rnd.append(open(p, "rb").read())
    for d, _, fs in os.walk(os.path.join(REPO, "inputs")):
        for f in sorted(fs):
            if f.endswith(".ini"):
                rnd.append(open(os.path.join(d, f), "rb").read())
    recs = run_cases(c, rnd, rng)
    c.conform("IniTrace", recs, name="IniTrace-random", what="readings of random files")
    c.sample({"text": rnd[0].decode("latin-1"), "calls": len(recs[0]["calls"]), "err": recs[0]["ret"]})
    c.sample({"text": rnd[7].decode("latin-1"), "calls": len(recs[7]["calls"]), "err": recs[7]["ret"]})
    c.assumptions = ["texts contain no NUL byte", "INI_MAX_LINE, MAX_NAME and MAX_SECTION keep their documented defaults"]
