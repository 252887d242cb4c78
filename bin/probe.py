"""Corrupt one recorded field of a line: the binding probe.  A trace
specification that is bound to the recorded values rejects (nearly) every
such line; what it does not is reported as a number in the evidence."""
import copy
from fractions import Fraction

OUTPUTS = ("r", "got", "w", "b", "v", "ok", "fail", "kept", "regs", "slots", "subs", "std", "text2", "io", "env", "a2", "b2", "good", "post", "past")


def is_num(x):
    return isinstance(x, list) and len(x) >= 2 and all(isinstance(i, int) for i in x) and \
        (x in ([0, 0], [0, 1], [2, 0], [3, 0], [4, 0]) or (len(x) >= 3 and x[0] in (-1, 1) and x[-1] > 0 and x[2] % 2 == 1))


def value(x):
    return Fraction(x[0] * sum(l << (30 * i) for i, l in enumerate(x[2:]))) * Fraction(2) ** x[1]


def encode(m, e):
    if m == 0:
        return [0, 0]
    s = -1 if m < 0 else 1
    m = abs(m)
    while m % 2 == 0:
        m //= 2
        e += 1
    limbs = []
    while m:
        limbs.append(m & (2 ** 30 - 1))
        m >>= 30
    return [s, e] + limbs


def bump(x, kind):
    """A wrong number in place of x."""
    if x[0] not in (-1, 1):
        return [1, 0, 1]
    m = x[0] * sum(l << (30 * i) for i, l in enumerate(x[2:]))
    if kind == "sign":
        return [-x[0]] + x[1:]
    k = 52 - abs(m).bit_length()
    m, e = (m << k, x[1] - k) if k > 0 else (m, x[1])
    return encode(m + (abs(m) >> 20 if kind == "slight" else 1), e)


def places(x, path=()):
    """Every (path, leaf) below x, a leaf being a number tuple, an integer, or a string."""
    if is_num(x):
        yield path, x
    elif isinstance(x, dict):
        for k, v in x.items():
            if k != "t":
                yield from places(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from places(v, path + (i,))
    elif isinstance(x, (int, str)):
        yield path, x


def put(x, path, v):
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = v


def weight(leaf):
    return abs(value(leaf)) if is_num(leaf) and leaf[0] in (-1, 1) else 0


def corrupt(rec, rng, kind="sign"):
    """A copy of rec with one output leaf changed; (copy, path) or None."""
    fields = [k for k in OUTPUTS if k in rec and (k != "b" or "w" in rec and "before" in rec)]
    fields = [k for k in fields if next(places(rec[k]), None)]
    if not fields:
        return None
    f = rng.choice(fields) if rng.random() < 0.5 else fields[0]
    leaves = list(places(rec[f], (f,)))
    if is_num(leaves[0][1]):                 # the greatest component
        path, leaf = max((p for p in leaves if is_num(p[1])), key=lambda p: weight(p[1]))
    else:
        path, leaf = rng.choice(leaves)
    if is_num(leaf):
        new = bump(leaf, kind)
    elif isinstance(leaf, str):
        i = rng.randrange(len(leaf)) if leaf and len(leaf) != 16 else 0   # of the 16 digits of a double, the first
        new = leaf[:i] + ("1" if leaf[i:i + 1] == "0" else "0") + leaf[i + 1:]
    elif leaf in (0, 1):
        new = 1 - leaf
    else:
        new = leaf + 1
    out = copy.deepcopy(rec)
    put(out, path, new)
    return out, path
