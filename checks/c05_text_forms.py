import math
import re
import numpy as np
import ref
from vh import Check

import rainbow.math.vector3 as V3
import rainbow.math.quaternion as Q

ck = Check("C05", "texts generated from the grammar (lists of 3..7 numbers, rand:lo:hi, rx/ry/rz/ru with degrees, keywords) with decimals, leading-zero fractions, signed exponents, "
                  "white space and letter case, the shortest repr of random doubles, and single/double character corruptions of such texts; non-trivial: not a keyword.")

NUM = r"-?(?:0|[1-9]\d*)(?:\.\d+)?(?:e[+-]\d+)?"
LIST = re.compile(r"\[\s*%s\s*(?:,\s*%s\s*)*\]" % (NUM, NUM))
LOOSE = r"[+-]?(?:\d+\.?\d*|\.\d+)(?:e[+-]?\d+)?"


def number(rng):
    """(text, value)"""
    k = rng.integers(0, 8)
    sign = "-" if rng.uniform() < 0.4 else ""
    ip = str(int(rng.choice([0, 0, 1, 9, 10, 123, int(rng.integers(0, 10 ** 6))])))
    fp = "".join(str(d) for d in rng.integers(0, 10, size=int(rng.integers(1, 8))))
    if k == 0:
        t = sign + ip
    elif k == 1:
        t = sign + ip + "." + fp
    elif k == 2:
        t = sign + ip + ".0" + fp
    elif k == 3:
        t = sign + ip + "e" + rng.choice(["+", "-"]) + str(int(rng.integers(0, 30)) if rng.uniform() < 0.8 else int(rng.integers(100, 290)))
    elif k == 4:
        t = sign + ip + "." + fp + "e" + rng.choice(["+", "-"]) + "0" + str(int(rng.integers(0, 10)))
    else:
        x = float(rng.choice([rng.normal(), rng.normal() * 10.0 ** rng.uniform(-30, 30), float(np.round(rng.normal(), 2)), rng.uniform(0, 0.1)]))
        t = repr(x)
    return t, float(t)


def nlist(rng, n):
    ws = lambda: rng.choice(["", "", "", " ", "  "])
    xs = [number(rng) for _ in range(n)]
    # no white space right after the bracket's number list start is forbidden by the grammar
    return "[" + ws() + ",".join(ws() * (i > 0) + t + ws() for i, (t, _) in enumerate(xs)) + "]", [v for _, v in xs]


def randcase(rng, s):
    return "".join(c.upper() if rng.uniform() < 0.3 else c for c in s)


def valid(ck):
    rng = ck.rng("valid")
    kw = {"ones": [1, 1, 1], "zero": [0, 0, 0], "i": [1, 0, 0], "j": [0, 1, 0], "k": [0, 0, 1]}
    for k in range(ck.n(1200, 20000)):
        n = int(rng.integers(3, 8))
        t, vals = nlist(rng, n)
        t = randcase(rng, t)
        ck.case(dict(text=t))
        with ck.guard("text.rejected_legal", "legal text rejected"):
            ck.expect(np.array_equal(V3.from_string(t), vals[:3]), "text.vector", "", text=t, got=V3.from_string(t))
        if n >= 4:
            with ck.guard("text.rejected_legal", "legal text rejected"):
                ck.expect(np.array_equal(Q.from_string(t), vals[:4]), "text.quaternion", "", text=t, got=Q.from_string(t))
        else:
            ck.expect_error(lambda: Q.from_string(t), "text.too_short", "three numbers accepted as a quaternion", text=t)
        short, _ = nlist(rng, int(rng.integers(1, 3)))
        ck.expect_error(lambda: V3.from_string(short), "text.too_short", "fewer than three numbers accepted as a vector", text=short)
        # rotations in degrees
        a, av = number(rng)
        if abs(av) > 1e4:
            a, av = "%.3f" % (av % 720.0), float("%.3f" % (av % 720.0))
        half = math.radians(av) / 2
        ax = int(rng.integers(0, 3))
        t = randcase(rng, "r" + "xyz"[ax] + ":" + rng.choice(["", " "]) + a)
        want = [math.cos(half), 0, 0, 0]
        want[1 + ax] = math.sin(half)
        ck.case(dict(text=t))
        with ck.guard("text.rejected_legal", "legal text rejected"):
            ck.close(Q.from_string(t), want, "text.axis_rotation", tol=1e-11, text=t)
        tl, axis = nlist(rng, int(rng.choice([3, 3, 3, 4])))
        axis = np.array(axis[:3])
        if 1e-100 < np.linalg.norm(axis) < 1e100:
            t = randcase(rng, "ru:" + rng.choice(["", " "]) + a + ":" + rng.choice(["", ""]) + tl)
            ck.case(dict(text=t))
            with ck.guard("text.rejected_legal", "legal text rejected"):
                ck.close(Q.from_string(t), ref.quat(axis, math.radians(av)), "text.general_rotation", tol=1e-11, text=t)
        # uniform random ranges
        (lo, lv), (hi, hv) = number(rng), number(rng)
        if lv > hv:
            lo, lv, hi, hv = hi, hv, lo, lv
        if abs(lv) < 1e15 and abs(hv) < 1e15:
            t = randcase(rng, "rand:" + lo + ":" + hi)
            ck.case(dict(text=t))
            with ck.guard("text.rejected_legal", "legal text rejected"):
                got = V3.from_string(t)
                ck.expect(np.shape(got) == (3,) and np.all(got >= lv) and np.all(got <= hv), "text.random_range", "", text=t, got=got)
        for w, val in kw.items():
            with ck.guard("text.rejected_legal", "legal text rejected"):
                ck.expect(np.array_equal(V3.from_string(randcase(rng, w)), val), "text.keyword", "", text=w)
        with ck.guard("text.rejected_legal", "legal text rejected"):
            ck.expect(np.array_equal(Q.from_string(randcase(rng, "identity")), [1, 0, 0, 0]), "text.keyword")
        # write and read back
        v = rng.normal(size=3) * 10.0 ** rng.uniform(-20, 20)
        for tx in (str(list(map(float, v))), np.array2string(v, separator=", ", precision=17, floatmode="unique")):
            if "e" in tx and not re.search(r"e[+-]", tx):
                continue
            if re.search(r"\d\.[,\] e]", tx):
                continue  # '1.' is not in the grammar
            with ck.guard("text.rejected_legal", "legal text rejected"):
                ck.expect(np.array_equal(V3.from_string(tx), v), "text.round_trip", "", text=tx, v=v)
    s = np.array([V3.from_string("rand:-1:2") for _ in range(400)])
    ck.expect(s.min() < -0.7 and s.max() > 1.7 and np.abs(s.mean(axis=0) - 0.5).max() < 0.35 and np.abs(np.corrcoef(s.T) - np.eye(3)).max() < 0.4,
              "text.random_range_spread", "range not filled", min=s.min(), max=s.max())


def denotes(text, kind):
    """The values a (possibly sloppily written) text may denote, or None when it is malformed."""
    t = text.lower()
    num = r"\s*(%s)\s*" % LOOSE
    m = re.fullmatch(r"\s*\[%s(?:,%s)*\]\s*" % (num, num), t)
    if m:
        xs = [float(x) for x in re.findall(LOOSE, t)]
        if kind == "v" and len(xs) >= 3:
            return xs[:3]
        if kind == "q" and len(xs) >= 4:
            return xs[:4]
        return None
    if kind == "v":
        s = t.strip()
        if s in ("ones", "zero", "i", "j", "k"):
            return {"ones": [1, 1, 1], "zero": [0, 0, 0], "i": [1, 0, 0], "j": [0, 1, 0], "k": [0, 0, 1]}[s]
        if re.fullmatch(r"\s*rand\s*:%s:%s" % (num, num), t):
            return "any"
        return None
    if t.strip() == "identity":
        return [1, 0, 0, 0]
    m = re.fullmatch(r"\s*r([xyz])\s*:%s" % num, t)
    if m and not abs(float(m.group(2))) < 1e4:
        return "any"
    if m:
        q = [math.cos(math.radians(float(m.group(2))) / 2), 0, 0, 0]
        q[1 + "xyz".index(m.group(1))] = math.sin(math.radians(float(m.group(2))) / 2)
        return q
    m = re.fullmatch(r"\s*ru\s*:%s:(.*)" % num, t, re.S)
    if m:
        ax = denotes(m.group(2), "v")
        if ax is None or isinstance(ax, str) or not m.group(2).strip().startswith("["):
            return None
        if not 1e-100 < np.linalg.norm(ax) < 1e100 or not abs(float(m.group(1))) < 1e4:
            return "any"
        return list(ref.quat(np.array(ax), math.radians(float(m.group(1)))))
    return None


def malformed(ck):
    rng = ck.rng("bad")
    alphabet = list("0123456789.,:[]e+-axrzyuij \n\t;()") + ["--", "..", "nan", "inf", "1_0", "0x1"]
    for k in range(ck.n(4000, 80000)):
        kind = rng.choice(["v", "q"])
        c = rng.integers(0, 4)
        if c <= 1:
            base, _ = nlist(rng, int(rng.integers(3, 6)))
        elif c == 2:
            base = "rand:%s:%s" % (number(rng)[0], number(rng)[0]) if kind == "v" else "r%s:%s" % (rng.choice(list("xyz")), number(rng)[0])
        else:
            base = "ones" if kind == "v" else "ru:%s:%s" % (number(rng)[0], nlist(rng, 3)[0])
        t = base
        for _ in range(int(rng.integers(1, 3))):
            i = int(rng.integers(0, len(t) + 1))
            op = rng.integers(0, 3)
            if op == 0:
                t = t[:i] + str(rng.choice(alphabet)) + t[i:]
            elif op == 1:
                t = t[:i] + t[i + 1:]
            else:
                t = t[:i] + str(rng.choice(alphabet)) + t[i + 1:]
        want = denotes(t, kind)
        ck.case(dict(text=t, kind=str(kind)))
        f = V3.from_string if kind == "v" else Q.from_string
        try:
            got = f(t)
        except Exception:  # noqa
            ck.event("rejected")
            continue
        if want is None:
            ck.expect(False, "text.malformed_accepted", "malformed text silently turned into a value", text=t, got=got)
        elif not isinstance(want, str):
            ck.event("still_legal")
            ck.expect(np.shape(got) == np.shape(want) and np.allclose(got, want, rtol=1e-10, atol=1e-11), "text.value_of_variant", "wrong value", text=t, got=got, want=want)
    for t in ("", "[]", "[1,2,3", "1,2,3]", "1,2,3", "[1,2,3]]", "[[1,2,3]", "[1 2 3]", "[1,2,,3]", "[1,2,3,]", "hello", "[1,2,3] [4,5,6]", "[1,2,3]\n[4,5,6]",
              "[1, 2, 3 . 5]", "[1, 2, 3e+1.5]", "[1,2,x]", "rand:1", "rand:1:2:3", "[1,2,- 3]"):
        ck.case(dict(text=t))
        ck.expect_error(lambda: V3.from_string(t), "text.malformed_accepted", "malformed text accepted", text=t)
    for t in ("", "[1,2,3]", "rx", "rx:", "rx:1:2", "rw:10", "ru:10", "ru:10:[1,2]", "ru:[1,0,0]:10", "identityx", "rx:[1,2,3]", "[1,2,3,4]]", "[1,2,3, 4 . 5]"):
        ck.case(dict(text=t))
        ck.expect_error(lambda: Q.from_string(t), "text.malformed_accepted", "malformed text accepted", text=t)


ck.require(rejected=100, still_legal=50, **{"text.vector": 100, "text.general_rotation": 100})
ck.run(valid, malformed)
