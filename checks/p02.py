"""P02: typed lookups."""
import itertools
import json
import os
import random

import build
from common import ModelError, Raw, Violation, run_exe

REPO = build.REPO


def exe():
    return build.build_plain("typed_driver", [os.path.join(REPO, "vendor/inih/src/ini.c"), os.path.join(REPO, "vendor/inih/src/INIReader.cpp"), os.path.join(build.VERIF, "harness/typed_driver.cpp")])


WORDS = ["true", "True", "TRUE", "yes", "YES", "on", "On", "1", "false", "False", "no", "NO", "off", "oFF", "0", "tru", "truee", "yess", "y", "n", "t", "f", "o", "2", "-1", "00", "01", "enable", "on1", "1.0", "offf", "yes no"]
INTS = ["2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0x7fffffff", "0x80000000", "0xFFFFFFFF", "0x100000000", "0X7FFFFFFFFFFFFFFF", "0x8000000000000000", "0xffffffffffffffff", "0x10000000000000000", "-0x10", "+0x10", "+5", "-5", "007", "010", "08", "0x4D2", "0x4d2", "1234", "-1234", "0xg", "x10", "10 # comment", "12abc", "1 2", "- 1", "+-1", "--1", "0x-1", "1,000", "1e3", "1.9", "-1.9", ".5"]
REALS = ["1e308", "1.7976931348623157e308", "1.8e308", "1e309", "-1e309", "1e-307", "1e-310", "1e-400", "3.4e38", "3.5e38", "1e39", "1e-38", "1e-46", "0.1", "-0.1", "+0.1", ".1", "1.", ".", "-.", "1.e3", "1.5E+10", "1e+", "1e", "1e5.5", "1E-2x", "inf", "-inf", "INF", "infinity", "nan", "NaN", "-nan", "nano", "info", "e5", "-", "+", "1d3", "1,5", "1e4930", "1e4950", "0.30000000000000004", "123456789.123456789", "9007199254740993", "1.0000000000000002", "6.6743e-8", "1.380649e-16", "0e0", "-0", "0.0", "000.5", "5e-324", "2.5 ; x", "2.5;x", "2.5 #c", "1e0002", "1e-0002"]


def texts(c, rng):
    out = [""]
    alpha = "01-+x.e"
    for n in range(1, c.pick(5, 6)):
        out += ["".join(t) for t in itertools.product(alpha, repeat=n)] if n < 5 or c.thorough else []
    if not c.thorough:
        out += ["".join(rng.choice("0189-+xXeE. aAf#") for _ in range(rng.randint(4, 9))) for _ in range(1500)]
    out += WORDS + INTS + REALS
    for _ in range(c.pick(600, 8000)):
        k = rng.random()
        if k < 0.3:
            out.append(rng.choice(["", "-", "+"]) + str(rng.getrandbits(rng.choice([8, 16, 31, 32, 33, 63, 64, 65]))))
        elif k < 0.45:
            out.append(rng.choice(["", "-", "+"]) + rng.choice(["0x", "0X"]) + rng.choice(["%x", "%X"]) % rng.getrandbits(rng.choice([8, 31, 32, 33, 63, 64, 65])))
        elif k < 0.85:
            out.append(rng.choice(["", "-"]) + repr(rng.uniform(0, 10)) + rng.choice(["e", "E"]) + str(rng.choice([rng.randint(-320, 320), rng.randint(-45, 45), rng.randint(-5, 5)])))
        else:
            out.append("".join(rng.choice([x.upper(), x.lower()]) for x in rng.choice(WORDS)) + rng.choice(["", "", " ", "x"]))
    return [t for t in out if not t.lstrip().startswith((";",)) and "\n" not in t]


def check(c):
    rng = random.Random(c.seed)
    c.model("TypedModel", constants={"Alphabet": Raw("{48, 49, 57, 45, 43, 46, 101, 120, 97, 32}"), "MaxLen": c.pick(4, 5)}, invariants=("IntegersAreReals", "NoLoss", "SignNegates", "TrailingIgnored", "BooleanExclusive"))
    ts = texts(c, rng)
    inp = "\n".join(["A"] * 12 + ["T" + t.encode("latin-1").hex() for t in ts]) + "\n"
    rc, out, err = run_exe([exe(), os.path.join(c.dir, "t.ini")], stdin=inp, timeout=300)
    recs = [json.loads(l) for l in out.splitlines()]
    if rc != 0 or len(recs) != len(ts) + 12:
        t = ts[len(recs) - 12] if 0 <= len(recs) - 12 < len(ts) else "(absent)"
        raise Violation(f"typed lookup did not survive the text {t!r} (exit {rc})", {"text": t, "stderr": err[-500:]})
    c.conform("TypedTrace", recs, what="typed lookups")
    for r in recs[200:203]:
        c.sample({"text": r["shown"], "int": r["res"][0]["a"], "double": r["res"][7]["a"]})
    c.assumptions = ["hexadecimal real notation, values between the type's range and its first unrepresentable neighbour, and denormal values are left open"]
