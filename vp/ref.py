"""Independent reference computations (the oracles' side)."""
import datetime as dtm
import math
import re
from collections import Counter



def is_null(cell, pats=None):
    """pats: {regex: flag}; None = documented defaults."""
    s = str(cell)
    low = s.lower()
    if pats is None:
        return (low in ("", "nan", "none", "null") or (s != "" and set(s) == {" "})
                or (s != "" and set(s) == {"-"}) or (s != "" and set(s) == {"_"}))
    return any(re.fullmatch(p, s, fl) for p, fl in pats.items())


def to_float(s):
    try:
        return float(s)
    except ValueError:
        return None


def is_int(s):
    f = to_float(s)
    return f is not None and math.isfinite(f) and f == int(f)


def is_float(s):
    return to_float(s) is not None


FORMATS = [
    "%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%Y-%m-%dT%H:%M:%S.%fZ", "%Y-%m-%dt%H:%M:%S.%fz",
    "%m/%d/%y %H:%M", "%m/%d/%Y %H:%M", "%Y%m%dT%H%M%S", "%Y-%m-%d", "%m/%d/%Y", "%m/%d/%y",
    "%b %d, %Y", "%B %d, %Y", "%d%b%y", "%b-%d-%y", "%m%d%Y", "%H:%M:%S.%f",
]


def parse_date(s):
    t = re.sub(r"(\d{1,2})(st|nd|rd|th)", r"\1", s)
    for f in FORMATS:
        try:
            return dtm.datetime.strptime(t, f), f
        except ValueError:
            pass
    return None


def moments(xs):
    """sum, mean, sample var, bias-corrected skew and excess kurtosis (two-pass, fsum)."""
    n = len(xs)
    d = {"n": n}
    s = math.fsum(xs)
    d["sum"] = s
    if n == 0:
        return d
    m = s / n
    d["mean"] = m
    dev = [x - m for x in xs]
    m2 = math.fsum(e * e for e in dev)
    m3 = math.fsum(e ** 3 for e in dev)
    m4 = math.fsum(e ** 4 for e in dev)
    d["m2"] = m2
    d["var"] = m2 / (n - 1) if n > 1 else float("nan")
    d["std"] = math.sqrt(d["var"]) if n > 1 else float("nan")
    const = len(set(xs)) == 1
    d["const"] = const
    if n > 2 and m2 > 0:
        g1 = math.sqrt(n) * m3 / m2 ** 1.5
        d["skew"] = math.sqrt(n * (n - 1)) / (n - 2) * g1
    else:
        d["skew"] = float("nan")
    if n > 3 and m2 > 0:
        g2 = n * m4 / m2 ** 2 - 3
        d["kurt"] = (n - 1) / ((n - 2) * (n - 3)) * ((n + 1) * g2 + 6)
    else:
        d["kurt"] = float("nan")
    return d


def sig_figs(s):
    """digits that carry precision: sign, leading zeros, trailing zeros, point and exponent do not count."""
    s = s.strip()
    s = s.lstrip("+-")
    parts = re.split("[eE]", s)
    mant, has_exp = parts[0], len(parts) > 1
    if not has_exp:
        if "." in mant:
            ip, fp = mant.split(".", 1)
            mant = ip + fp.rstrip("0")
        else:
            mant = mant.rstrip("0")
    digits = "".join(ch for ch in mant if ch.isdigit()).lstrip("0")
    return len(digits)


def column(cells, pats=None):
    """reference facts about one column given its cells (in order)."""
    n = len(cells)
    strs = [str(c) for c in cells]
    nul = [is_null(s, pats) for s in strs]
    vals = [s for s, z in zip(strs, nul) if not z]
    d = {"n": n, "null_mask": nul, "null_count": sum(nul), "values": vals}
    d["null_types"] = {}
    for i, (s, z) in enumerate(zip(strs, nul)):
        if z:
            d["null_types"].setdefault(s, set()).add(i)
    d["counts"] = Counter(vals)
    nn = len(vals)
    if nn:
        d["int_ratio"] = sum(map(is_int, vals)) / nn
        d["float_ratio"] = sum(map(is_float, vals)) / nn
    return d


def order(vals):
    if not vals:
        return None
    if all(is_float(v) for v in vals):
        vals = [float(v) for v in vals]
        if any(v != v for v in vals):
            return None
    const = all(v == vals[0] for v in vals)
    if const:
        return "constant value"
    if all(a <= b for a, b in zip(vals, vals[1:])):
        return "ascending"
    if all(a >= b for a, b in zip(vals, vals[1:])):
        return "descending"
    return "random"
