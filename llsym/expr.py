"""Bit-vector expressions: hash-consed terms with constant folding.

Constants are plain Python ints (unsigned, already masked); everything else is
an `E`.  Booleans are one-bit vectors.  The simplifier only rewrites by
identities that hold for every value; what it leaves goes to the solver.
"""

MASK = [(1 << i) - 1 for i in range(0, 600)]
_TAB = {}


class E:
    __slots__ = ("op", "a", "w", "id", "z", "div")

    def __repr__(self):
        return show(self)


def show(e, d=6):
    if type(e) is int:
        return hex(e)
    if e.op == "var":
        return e.a[0]
    if d == 0:
        return "..."
    if e.op == "cat":
        return "cat(%s)" % ",".join("%s:%d" % (show(p, d - 1), w) for p, w in e.a)
    return "%s%d(%s)" % (
        e.op,
        e.w,
        ",".join(show(x, d - 1) if isinstance(x, (E, int)) else str(x) for x in e.a),
    )


def _key(x):
    return x if type(x) is int else (x.id,)


def mk(op, w, *a):
    if op == "cat":
        k = (op, w, tuple((_key(p), pw) for p, pw in a))
    elif op == "var":
        k = (op, w, a)
    else:
        k = (op, w) + tuple(_key(x) for x in a)
    e = _TAB.get(k)
    if e is None:
        e = E()
        e.op = op
        e.w = w
        e.a = a
        e.id = len(_TAB) + 1
        e.z = None
        # is there a division by a constant in it?
        if op == "cat":
            e.div = any(type(p) is not int and p.div for p, _ in a)
        elif op == "var":
            e.div = False
        else:
            e.div = (op in ("udiv", "urem") and type(a[1]) is int) or any(type(x) is not int and x.div for x in a)
        _TAB[k] = e
    return e


def var(name, w):
    return mk("var", w, name)


# ---------------------------------------------------------------- structure
def segs(x, w):
    """MSB-first list of (part, width)."""
    if type(x) is not int and x.op == "cat":
        return x.a
    return ((x, w),)


def cat(parts):
    """Concatenate MSB-first (part,width) pairs."""
    out = []
    for p, w in parts:
        if w == 0:
            continue
        for q, qw in segs(p, w):
            if out:
                r, rw = out[-1]
                if type(q) is int and type(r) is int:
                    out[-1] = ((r << qw) | q, rw + qw)
                    continue
                if type(q) is not int and type(r) is not int:
                    rb, rlo = (r.a[0], r.a[1]) if r.op == "ext" else (r, 0)
                    qb, qlo = (q.a[0], q.a[1]) if q.op == "ext" else (q, 0)
                    if rb is qb and rlo == qlo + qw:
                        out[-1] = (ext(rb, qlo, rw + qw), rw + qw)
                        continue
            out.append((q, qw))
    if len(out) == 1:
        return out[0][0]
    return mk("cat", sum(w for _, w in out), *out)


def ext(x, lo, w):
    """Bits lo .. lo+w-1 of x."""
    if type(x) is int:
        return (x >> lo) & MASK[w]
    if lo == 0 and w == x.w:
        return x
    op = x.op
    if op == "cat":
        res = []
        pos = x.w
        for p, pw in x.a:
            pos -= pw
            a = max(lo, pos)
            b = min(lo + w, pos + pw)
            if a < b:
                res.append((ext(p, a - pos, b - a), b - a))
        return cat(res)
    if op == "ext":
        return ext(x.a[0], x.a[1] + lo, w)
    if op == "ite":
        c, p, q = x.a
        if type(p) is int or type(q) is int or w <= 8:
            return ite(c, ext(p, lo, w), ext(q, lo, w), w)
    if op == "sext":
        y = x.a[0]
        if lo + w <= y.w:
            return ext(y, lo, w)
        if lo >= y.w:
            return sext(ext(y, y.w - 1, 1), 1, w)
    if op in ("and", "or", "xor"):
        f = {"and": and_, "or": or_, "xor": xor}[op]
        return f(ext(x.a[0], lo, w), ext(x.a[1], lo, w), w)
    if lo == 0 and op in ("add", "sub", "mul"):
        f = {"add": add, "sub": sub, "mul": mul}[op]
        return f(ext(x.a[0], 0, w), ext(x.a[1], 0, w), w)
    return mk("ext", w, x, lo)


RAW = frozenset(("add", "sub", "mul", "ite"))


def split(x, n):
    """The n bytes of x, least significant first, such that cat makes x of them again."""
    if x.op in RAW and n > 1:
        return [mk("ext", 8, x, i) for i in range(0, n * 8, 8)]
    return [ext(x, i, 8) for i in range(0, n * 8, 8)]


def norm(x):
    """Bits taken out of what split left whole."""
    if type(x) is int:
        return x
    if x.op == "ext" and x.a[0].op in RAW:
        return ext(x.a[0], x.a[1], x.w)
    if x.op == "cat":
        for p, _ in x.a:
            if type(p) is not int and p.op == "ext" and p.a[0].op in RAW:
                return cat([(norm(q), w) for q, w in x.a])
    return x


def zext(x, fw, tw):
    if type(x) is int or fw == tw:
        return x
    return cat(((0, tw - fw), (x, fw)))


def sext(x, fw, tw):
    if type(x) is int:
        return x | (MASK[tw] ^ MASK[fw]) if x >> (fw - 1) else x
    if fw == tw:
        return x
    if x.op == "cat" and type(x.a[0][0]) is int:
        p, pw = x.a[0]
        if not p >> (pw - 1):
            return zext(x, fw, tw)
        return cat(((MASK[tw - fw], tw - fw), (x, fw)))
    if x.op == "sext":
        x = x.a[0]
    return mk("sext", tw, x)


def trunc(x, fw, tw):
    return ext(x, 0, tw)


def umax(x, w):
    if type(x) is int:
        return x
    if x.op == "cat":
        v = 0
        for p, pw in x.a:
            v = (v << pw) | (p if type(p) is int else umax(p, pw))
        return v
    if x.op == "ite":
        return max(umax(x.a[1], w), umax(x.a[2], w))
    if x.op == "urem" and type(x.a[1]) is int and x.a[1]:
        return x.a[1] - 1
    if x.op == "and" and type(x.a[1]) is int:
        return x.a[1]
    if x.op == "udiv" and type(x.a[1]) is int and x.a[1]:
        return umax(x.a[0], w) // x.a[1]
    if x.op == "add":
        m = umax(x.a[0], w) + umax(x.a[1], w)
        if m <= MASK[w]:
            return m
    if x.op == "mul":
        m = umax(x.a[0], w) * umax(x.a[1], w)
        if m <= MASK[w]:
            return m
    return MASK[w]


def umin_(x, w):
    if type(x) is int:
        return x
    if x.op == "cat":
        v = 0
        for p, pw in x.a:
            v = (v << pw) | (p if type(p) is int else umin_(p, pw))
        return v
    if x.op == "ite":
        return min(umin_(x.a[1], w), umin_(x.a[2], w))
    if x.op == "add" and umax(x.a[0], w) + umax(x.a[1], w) <= MASK[w]:
        return umin_(x.a[0], w) + umin_(x.a[1], w)
    return 0


# ---------------------------------------------------------------- bitwise
def _runs(c, w):
    """LSB-first runs (bit, length) of constant c."""
    r = []
    i = 0
    while i < w:
        b = (c >> i) & 1
        j = i + 1
        while j < w and ((c >> j) & 1) == b:
            j += 1
        r.append((b, i, j - i))
        i = j
    return r


def _split(a, b, w):
    """Common MSB-first segmentation of a and b."""
    cuts = {0, w}
    for x in (a, b):
        pos = w
        for _, pw in segs(x, w):
            cuts.add(pos)
            pos -= pw
    cuts = sorted(cuts, reverse=True)
    res = []
    for hi, lo in zip(cuts, cuts[1:]):
        res.append((ext(a, lo, hi - lo), ext(b, lo, hi - lo), hi - lo))
    return res


def _iscat(x):
    return type(x) is not int and x.op == "cat"


def _seg_op(f, a, b, w):
    if (_iscat(a) and any(type(p) is int for p, _ in a.a)) or (
        _iscat(b) and any(type(p) is int for p, _ in b.a)
    ):
        parts = _split(a, b, w)
        if len(parts) > 1:
            return cat([(f(p, q, pw), pw) for p, q, pw in parts])
    return None


def and_(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a & b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == MASK[w]:
            return a
        runs = _runs(b, w)
        if len(runs) <= 6:
            return cat([(ext(a, lo, n) if bit else 0, n) for bit, lo, n in reversed(runs)])
        return mk("and", w, a, b)
    if a is b:
        return a
    if w == 1:
        if (a.op == "not" and a.a[0] is b) or (b.op == "not" and b.a[0] is a):
            return 0
    r = _seg_op(and_, a, b, w)
    if r is not None:
        return r
    if a.id > b.id:
        a, b = b, a
    return mk("and", w, a, b)


def or_(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a | b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if b == MASK[w]:
            return b
        runs = _runs(b, w)
        if len(runs) <= 6:
            return cat([(MASK[n] if bit else ext(a, lo, n), n) for bit, lo, n in reversed(runs)])
        return mk("or", w, a, b)
    if a is b:
        return a
    if w == 1:
        if (a.op == "not" and a.a[0] is b) or (b.op == "not" and b.a[0] is a):
            return 1
    r = _seg_op(or_, a, b, w)
    if r is not None:
        return r
    if a.id > b.id:
        a, b = b, a
    return mk("or", w, a, b)


def xor(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a ^ b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if w == 1:
            return not_(a)
        if a.op == "xor" and type(a.a[1]) is int:
            return xor(a.a[0], a.a[1] ^ b, w)
        return mk("xor", w, a, b)
    if a is b:
        return 0
    r = _seg_op(xor, a, b, w)
    if r is not None:
        return r
    if a.id > b.id:
        a, b = b, a
    return mk("xor", w, a, b)


def not_(a):
    """Negation of a one-bit value."""
    if type(a) is int:
        return a ^ 1
    if a.op == "not":
        return a.a[0]
    return mk("not", 1, a)


# ---------------------------------------------------------------- shifts
def shl(a, b, w):
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return (a << b) & MASK[w]
        if b == 0:
            return a
        return cat(((ext(a, 0, w - b), w - b), (0, b)))
    return mk("shl", w, a, b)


def lshr(a, b, w):
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return a >> b
        if b == 0:
            return a
        return cat(((0, b), (ext(a, b, w - b), w - b)))
    if type(a) is int and a == 0:
        return 0
    return mk("lshr", w, a, b)


def ashr(a, b, w):
    if type(b) is int:
        if b >= w:
            b = w - 1
        return sext(ext(a, b, w - b), w - b, w)
    return mk("ashr", w, a, b)


# ---------------------------------------------------------------- arithmetic
def add(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return (a + b) & MASK[w]
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if a.op == "add" and type(a.a[1]) is int:
            return add(a.a[0], (a.a[1] + b) & MASK[w], w)
        if w == 1:
            return not_(a)
        # low zero bits of a: no carry
        if a.op == "cat":
            p, pw = a.a[-1]
            if p == 0 and type(p) is int and b <= MASK[pw]:
                return or_(a, b, w)
        return mk("add", w, a, b)
    if w == 1:
        return xor(a, b, 1)
    if a.op == "add" and type(a.a[1]) is int:
        return add(add(a.a[0], b, w), a.a[1], w)
    if b.op == "add" and type(b.a[1]) is int:
        return add(add(a, b.a[0], w), b.a[1], w)
    if a.id > b.id:
        a, b = b, a
    return mk("add", w, a, b)


def sub(a, b, w):
    if type(b) is int:
        if type(a) is int:
            return (a - b) & MASK[w]
        return add(a, (-b) & MASK[w], w)
    if a is b:
        return 0
    if w == 1:
        return xor(a, b, 1)
    if type(a) is not int and a.op == "add":
        if a.a[0] is b:
            return a.a[1]
        if a.a[1] is b:
            return a.a[0]
    return mk("sub", w, a, b)


def mul(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return (a * b) & MASK[w]
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(a, b.bit_length() - 1, w)
        return mk("mul", w, a, b)
    if a.id > b.id:
        a, b = b, a
    return mk("mul", w, a, b)


def multiples(a, b, w):
    """a = quotient * b + rest as far as a is a sum with multiples of b, none of it wrapping; or None."""
    if a.op not in ("add", "mul"):
        return None
    todo, terms = [a], []
    while todo:
        x = todo.pop()
        if type(x) is not int and x.op == "add":
            todo.extend(x.a)
        else:
            terms.append(x)
    if sum(umax(x, w) for x in terms) > MASK[w]:
        return None
    quotient = rest = 0
    found = False
    for x in terms:
        if type(x) is int:
            quotient, rest = add(quotient, x // b, w), add(rest, x % b, w)
        elif x.op == "mul" and type(x.a[1]) is int and x.a[1] % b == 0 and umax(x.a[0], w) * x.a[1] <= MASK[w]:
            quotient = add(quotient, mul(x.a[0], x.a[1] // b, w), w)
            found = True
        else:
            rest = add(rest, x, w)
    return (quotient, rest) if found else None


def udiv(a, b, w):
    if type(b) is int and b:
        if type(a) is int:
            return a // b
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
        if umax(a, w) < b:
            return 0
        m = multiples(a, b, w)
        if m:
            return add(m[0], udiv(m[1], b, w), w)
    return mk("udiv", w, a, b)


def urem(a, b, w):
    if type(b) is int and b:
        if type(a) is int:
            return a % b
        if b & (b - 1) == 0:
            return and_(a, b - 1, w)
        if umax(a, w) < b:
            return a
        m = multiples(a, b, w)
        if m:
            return urem(m[1], b, w)
    return mk("urem", w, a, b)


def sg(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def sdiv(a, b, w):
    if type(a) is int and type(b) is int and b:
        x, y = sg(a, w), sg(b, w)
        q = abs(x) // abs(y)
        return (-q if (x < 0) != (y < 0) else q) & MASK[w]
    if type(b) is int and 0 < b < 1 << (w - 1) and umax(a, w) < 1 << (w - 1):
        return udiv(a, b, w)
    if type(b) is int and 0 < b < 1 << (w - 1):
        n = ext(a, w - 1, 1)
        r = udiv(ite(n, sub(0, a, w), a, w), b, w)
        return ite(n, sub(0, r, w), r, w)
    return mk("sdiv", w, a, b)


def srem(a, b, w):
    if type(a) is int and type(b) is int and b:
        x, y = sg(a, w), sg(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & MASK[w]
    if type(b) is int and 0 < b < 1 << (w - 1) and umax(a, w) < 1 << (w - 1):
        return urem(a, b, w)
    if type(b) is int and 0 < b < 1 << (w - 1):
        n = ext(a, w - 1, 1)
        r = urem(ite(n, sub(0, a, w), a, w), b, w)
        return ite(n, sub(0, r, w), r, w)
    return mk("srem", w, a, b)


# ---------------------------------------------------------------- compare
def eq(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return 1 if a == b else 0
        a, b = b, a
    if a is b:
        return 1
    if w == 1:
        if type(b) is int:
            return a if b else not_(a)
        return not_(xor(a, b, 1))
    op = a.op
    if type(b) is int:
        if op == "cat":
            r = 1
            pos = w
            for p, pw in a.a:
                pos -= pw
                c = (b >> pos) & MASK[pw]
                if type(p) is int:
                    if p != c:
                        return 0
            pos = w
            for p, pw in a.a:
                pos -= pw
                if type(p) is not int:
                    r = and_(r, eq(p, (b >> pos) & MASK[pw], pw), 1)
                    if type(r) is int and r == 0:
                        return 0
            return r
        if op == "ite":
            c, p, q = a.a
            if type(p) is int or type(q) is int:
                return ite(c, eq(p, b, w), eq(q, b, w), 1)
        if op == "sext":
            y = a.a[0]
            c = b & MASK[y.w]
            if sext(c, y.w, w) != b:
                return 0
            return eq(y, c, y.w)
        if op == "add" and type(a.a[1]) is int:
            return eq(a.a[0], (b - a.a[1]) & MASK[w], w)
        if op == "xor" and type(a.a[1]) is int:
            return eq(a.a[0], b ^ a.a[1], w)
        if op == "sub":
            if b == 0:
                return eq(a.a[0], a.a[1], w)
        if not (umin_(a, w) <= b <= umax(a, w)):
            return 0
    else:
        if op == "cat" and b.op == "cat":
            parts = _split(a, b, w)
            for p, q, pw in parts:
                if type(p) is int and type(q) is int and p != q:
                    return 0
            if all(type(p) is int and type(q) is int or p is q for p, q, _ in parts):
                return 1
            if any(type(p) is int or type(q) is int for p, q, _ in parts):
                r = 1
                for p, q, pw in parts:
                    r = and_(r, eq(p, q, pw), 1)
                return r
        # x + j = x + k
        x, j = (a.a[0], a.a[1]) if op == "add" and type(a.a[1]) is int else (a, 0)
        y, k = (b.a[0], b.a[1]) if b.op == "add" and type(b.a[1]) is int else (b, 0)
        if x is y:
            return 1 if j == k else 0
        if a.id > b.id:
            a, b = b, a
    return mk("eq", 1, a, b)


def ne(a, b, w):
    return not_(eq(a, b, w))


def ult(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return eq(a, 0, w)
    if type(a) is int:
        if a == MASK[w]:
            return 0
        if a == 0:
            return ne(b, 0, w)
    if umax(a, w) < umin_(b, w):
        return 1
    if umin_(a, w) >= umax(b, w):
        return 0
    # common leading zero segments
    la, lb = segs(a, w), segs(b, w)
    na = la[0][1] if type(a) is not int and type(la[0][0]) is int and la[0][0] == 0 else (
        w - a.bit_length() if type(a) is int else 0)
    nb = lb[0][1] if type(b) is not int and type(lb[0][0]) is int and lb[0][0] == 0 else (
        w - b.bit_length() if type(b) is int else 0)
    n = min(na, nb, w - 1)
    if n > 0:
        return ult(ext(a, 0, w - n), ext(b, 0, w - n), w - n)
    if w == 1:
        return and_(not_(a), b, 1)
    return mk("ult", 1, a, b)


def ule(a, b, w):
    return not_(ult(b, a, w))


def ugt(a, b, w):
    return ult(b, a, w)


def uge(a, b, w):
    return not_(ult(a, b, w))


def slt(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if sg(a, w) < sg(b, w) else 0
    if a is b:
        return 0
    h = 1 << (w - 1)
    if type(b) is int and b == 0:
        return ext(a, w - 1, 1)
    if type(a) is int and a == MASK[w]:  # -1 < b
        return not_(ext(b, w - 1, 1))
    if umax(a, w) < h and umax(b, w) < h:
        return ult(a, b, w)
    if type(b) is int and b == h or type(a) is int and a == h - 1:
        return 0
    return mk("slt", 1, a, b)


def sle(a, b, w):
    return not_(slt(b, a, w))


def sgt(a, b, w):
    return slt(b, a, w)


def sge(a, b, w):
    return not_(slt(a, b, w))


def ite(c, a, b, w):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if c.op == "not":
        c, a, b = c.a[0], b, a
    if w == 1:
        if type(a) is int:
            return or_(c, b, 1) if a else and_(not_(c), b, 1)
        if type(b) is int:
            return or_(not_(c), a, 1) if b else and_(c, a, 1)
    if type(a) is not int and a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if type(b) is not int and b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    return mk("ite", w, c, a, b)


def ite_segs(c, a, b, w):
    """ite, keeping what a and b have in common out of it"""
    sa, sb = list(segs(a, w)), list(segs(b, w))
    if len(sa) == 1 and len(sb) == 1:
        return ite(c, a, b, w)
    out = []
    i = j = 0
    pa = pb = 0      # bits of sa[i], sb[j] consumed, from the top
    while i < len(sa):
        n = min(sa[i][1] - pa, sb[j][1] - pb)
        x = ext(sa[i][0], sa[i][1] - pa - n, n)
        y = ext(sb[j][0], sb[j][1] - pb - n, n)
        out.append((x, y, n))
        pa += n
        pb += n
        if pa == sa[i][1]:
            i += 1
            pa = 0
        if pb == sb[j][1]:
            j += 1
            pb = 0
    # bits by which constants differ
    fine = []
    for x, y, n in out:
        if type(x) is int and type(y) is int and x != y and n > 1:
            fine.extend((ext(x, k, 1), ext(y, k, 1), 1) for k in range(n - 1, -1, -1))
        else:
            fine.append((x, y, n))
    if not any(x is y or x == y for x, y, _ in fine):
        return ite(c, a, b, w)
    return cat([(ite(c, x, y, n), n) for x, y, n in fine])


# ---------------------------------------------------------------- compound
def bswap(x, w):
    if type(x) is int:
        return int.from_bytes(x.to_bytes(w // 8, "little"), "big")
    return cat([(ext(x, i, 8), 8) for i in range(0, w, 8)])


def bitreverse(x, w):
    if type(x) is int:
        return int(bin(x)[2:].zfill(w)[::-1], 2)
    return cat([(ext(x, i, 1), 1) for i in range(0, w)])


def ctlz(x, w):
    if type(x) is int:
        return w - x.bit_length()
    r = w & MASK[w]
    for i in range(w):
        r = ite(ext(x, i, 1), w - 1 - i, r, w)
    return r


def cttz(x, w):
    if type(x) is int:
        return w if x == 0 else (x & -x).bit_length() - 1
    r = w & MASK[w]
    for i in range(w - 1, -1, -1):
        r = ite(ext(x, i, 1), i, r, w)
    return r


def ctpop(x, w):
    if type(x) is int:
        return bin(x).count("1")
    r = 0
    for i in range(w):
        r = add(r, zext(ext(x, i, 1), 1, w), w)
    return r


# ---------------------------------------------------------------- evaluation
def ev(e, env, memo):
    """Value of e with every variable read from env (missing: 0)."""
    if type(e) is int:
        return e
    r = memo.get(e.id)
    if r is not None:
        return r
    op, a, w = e.op, e.a, e.w
    if op == "var":
        r = env.get(a[0], 0) & MASK[w]
    elif op == "cat":
        r = 0
        for p, pw in a:
            r = (r << pw) | (p if type(p) is int else ev(p, env, memo))
    elif op == "ext":
        r = (ev(a[0], env, memo) >> a[1]) & MASK[w]
    elif op == "ite":
        r = ev(a[1], env, memo) if ev(a[0], env, memo) else ev(a[2], env, memo)
    elif op == "not":
        r = ev(a[0], env, memo) ^ 1
    elif op == "sext":
        r = sext(ev(a[0], env, memo), a[0].w, w)
    else:
        x = ev(a[0], env, memo)
        y = ev(a[1], env, memo)
        if op == "add":
            r = (x + y) & MASK[w]
        elif op == "sub":
            r = (x - y) & MASK[w]
        elif op == "mul":
            r = (x * y) & MASK[w]
        elif op == "and":
            r = x & y
        elif op == "or":
            r = x | y
        elif op == "xor":
            r = x ^ y
        elif op == "eq":
            r = 1 if x == y else 0
        elif op == "ult":
            r = 1 if x < y else 0
        elif op == "slt":
            aw = a[0].w if type(a[0]) is not int else a[1].w
            r = 1 if sg(x, aw) < sg(y, aw) else 0
        elif op == "shl":
            r = (x << y) & MASK[w] if y < w else 0
        elif op == "lshr":
            r = x >> y if y < w else 0
        elif op == "ashr":
            r = (sg(x, w) >> min(y, w - 1)) & MASK[w]
        elif op == "udiv":
            r = x // y if y else MASK[w]
        elif op == "urem":
            r = x % y if y else x
        elif op == "sdiv":
            r = sdiv(x, y, w) if y else (1 if x >> (w - 1) else MASK[w])
        elif op == "srem":
            r = srem(x, y, w) if y else x
        else:
            raise Exception("ev: " + op)
    memo[e.id] = r
    return r


# ---------------------------------------------------------------- z3
_DIVS = {}


def division(a, b, w, z3):
    """Quotient and remainder of a by the constant b: fresh constants, and
    the constraints that define them."""
    k = (a.id, b)
    d = _DIVS.get(k)
    if d is None:
        m = umax(a, w)
        qw = max(1, (m // b).bit_length())
        rw = b.bit_length()
        ww = m.bit_length() + 2
        q, r = z3.BitVec("quo!%d!%d" % k, qw), z3.BitVec("rem!%d!%d" % k, rw)
        x = to_z3(ext(a, 0, min(w, m.bit_length())), min(w, m.bit_length()), z3)
        x = z3.ZeroExt(ww - x.size(), x)
        defs = [z3.ULE(q, z3.BitVecVal(m // b, qw)), z3.ULT(r, z3.BitVecVal(b, rw)),
                x == z3.ZeroExt(ww - qw, q) * z3.BitVecVal(b, ww) + z3.ZeroExt(ww - rw, r)]
        d = _DIVS[k] = (z3.ZeroExt(w - qw, q), z3.ZeroExt(w - rw, r), defs)
    return d


def divisions(e, z3, seen=None):
    """The definitions of the divisions in e."""
    if type(e) is int or not e.div:
        return []
    seen = set() if seen is None else seen
    if e.id in seen:
        return []
    seen.add(e.id)
    r = []
    if e.op in ("udiv", "urem") and type(e.a[1]) is int:
        r += division(e.a[0], e.a[1], e.w, z3)[2]
    for x in e.a:
        x = x[0] if e.op == "cat" else x
        r += divisions(x, z3, seen)
    return r


def to_z3(e, w, z3):
    """z3 bit-vector term."""
    if type(e) is int:
        return z3.BitVecVal(e, w)
    if e.z is not None and e.z[0] is not None:
        return e.z[0]
    if e.z is None:
        e.z = [None, None]
    op, a, w = e.op, e.a, e.w
    if op == "var":
        r = z3.BitVec(a[0], w)
    elif op == "cat":
        r = z3.Concat(*[to_z3(p, pw, z3) for p, pw in a])
    elif op == "ext":
        r = z3.Extract(a[1] + w - 1, a[1], to_z3(a[0], a[0].w, z3))
    elif op == "sext":
        r = z3.SignExt(w - a[0].w, to_z3(a[0], a[0].w, z3))
    elif op == "ite":
        if w == 1:
            r = z3.If(to_z3b(e, z3), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        else:
            r = z3.If(to_z3b(a[0], z3), to_z3(a[1], w, z3), to_z3(a[2], w, z3))
    elif op in ("eq", "ult", "slt", "not") or (w == 1 and op in ("and", "or", "xor")):
        r = z3.If(to_z3b(e, z3), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    elif op in ("udiv", "urem") and type(a[1]) is int and a[1]:
        r = division(a[0], a[1], w, z3)[op == "urem"]
    else:
        x = to_z3(a[0], w, z3)
        y = to_z3(a[1], w, z3)
        if op == "add":
            r = x + y
        elif op == "sub":
            r = x - y
        elif op == "mul":
            r = x * y
        elif op == "and":
            r = x & y
        elif op == "or":
            r = x | y
        elif op == "xor":
            r = x ^ y
        elif op == "shl":
            r = x << y
        elif op == "lshr":
            r = z3.LShR(x, y)
        elif op == "ashr":
            r = x >> y
        elif op == "udiv":
            r = z3.UDiv(x, y)
        elif op == "urem":
            r = z3.URem(x, y)
        elif op == "sdiv":
            r = x / y
        elif op == "srem":
            r = z3.SRem(x, y)
        else:
            raise Exception("to_z3: " + op)
    e.z[0] = r
    return r


def to_z3b(e, z3):
    """z3 boolean for a one-bit expression."""
    if type(e) is int:
        return z3.BoolVal(bool(e))
    if e.z is not None and e.z[1] is not None:
        return e.z[1]
    if e.z is None:
        e.z = [None, None]
    op, a = e.op, e.a
    if op == "not":
        r = z3.Not(to_z3b(a[0], z3))
    elif op == "and":
        r = z3.And(to_z3b(a[0], z3), to_z3b(a[1], z3))
    elif op == "or":
        r = z3.Or(to_z3b(a[0], z3), to_z3b(a[1], z3))
    elif op == "xor":
        r = z3.Xor(to_z3b(a[0], z3), to_z3b(a[1], z3))
    elif op == "ite":
        r = z3.If(to_z3b(a[0], z3), to_z3b(a[1], z3), to_z3b(a[2], z3))
    elif op in ("eq", "ult", "slt"):
        w = a[0].w if type(a[0]) is not int else a[1].w
        x = to_z3(a[0], w, z3)
        y = to_z3(a[1], w, z3)
        r = x == y if op == "eq" else z3.ULT(x, y) if op == "ult" else x < y
    else:
        r = to_z3(e, 1, z3) == z3.BitVecVal(1, 1)
    e.z[1] = r
    return r
