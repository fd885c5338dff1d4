"""Reading textual LLVM IR: an index of the module, and a compiler from one
LLVM function to Python source operating on `expr` values and the engine's
memory primitives."""

import re

from expr import MASK

TOK = re.compile(
    r'c"(?:[^"\\]|\\.)*"|[@%]"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[@%$][-a-zA-Z$._0-9]+|'
    r"![-a-zA-Z$._0-9]*|#\d+|0x[0-9A-Fa-fKLMHR]+|-?\d+\.\d*(?:e[-+]?\d+)?|-?\d+|\.\.\.|"
    r"[a-zA-Z_$][\w.$-]*:?|[()\[\]{}<>,=*|]"
)
INT = re.compile(r"i(\d+)$")


class Unsupported(Exception):
    pass


def tokens(s):
    return TOK.findall(s)


def unq(name):
    """Strip sigil and quotes."""
    n = name[1:]
    return n[1:-1] if n.startswith('"') else n


VALWORDS = {
    "true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "ptrtoint",
    "inttoptr", "bitcast", "trunc", "add", "sub", "xor", "blockaddress", "asm", "none", "ptrtoaddr",
}


class Mod:
    def __init__(self, path):
        self.funcs = {}      # name -> (first line index, last line index)
        self.globs = {}      # name -> line
        self.decls = {}
        self.types = {}
        self.alias = {}
        self.md = {}
        lines = open(path).read().split("\n")
        self.lines = lines
        i, n = 0, len(lines)
        gname = re.compile(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)')
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                m = gname.search(l)
                nm = m.group(1).strip('"')
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.funcs[nm] = (i, j)
                i = j
            elif l.startswith("declare "):
                self.decls[gname.search(l).group(1).strip('"')] = l
            elif l.startswith("@"):
                m = gname.match(l)
                nm = m.group(1).strip('"')
                rest = l[m.end():]
                if re.match(r"\s*=.*\balias\b", rest):
                    self.alias[nm] = rest
                else:
                    self.globs[nm] = rest
            elif l.startswith("%"):
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)', l)
                if m:
                    self.types[unq(m.group(1))] = m.group(2)
            elif l.startswith("!") and " = " in l:
                k, v = l.split(" = ", 1)
                self.md[k] = v
            i += 1
        self.gaddr = {}
        self.gnames = {}
        self.nextid = 16
        self.faddr = {}
        self.fnames = {}

    # -------------------------------------------------------- addresses
    def addr(self, name):
        a = self.gaddr.get(name)
        if a is None:
            if name in self.alias:
                t = tokens(self.alias[name])
                tgt = [x for x in t if x.startswith("@")][0]
                return self.addr(unq(tgt))
            a = self.nextid << 32
            self.nextid += 1
            self.gaddr[name] = a
            self.gnames[a >> 32] = name
            if name in self.funcs or name in self.decls:
                self.fnames[a] = name
        return a

    # -------------------------------------------------------- types
    def ptype(self, t, p):
        x = t[p]
        m = INT.match(x)
        if m:
            return ("i", int(m.group(1))), p + 1
        if x == "ptr":
            p += 1
            if p < len(t) and t[p] == "addrspace":
                p += 4
            return ("ptr",), p
        if x == "void":
            return ("void",), p + 1
        if x in ("float", "double", "half"):
            return ("f", {"half": 16, "float": 32, "double": 64}[x]), p + 1
        if x in ("metadata", "label", "token"):
            return (x,), p + 1
        if x == "[":
            n = int(t[p + 1])
            e, p = self.ptype(t, p + 3)
            return ("arr", n, e), p + 1
        if x == "<" and t[p + 1] == "{":
            ty, p = self.ptype(t, p + 1)
            return ("st", ty[1], True), p + 1
        if x == "<":
            n = int(t[p + 1])
            e, p = self.ptype(t, p + 3)
            return ("vec", n, e), p + 1
        if x == "{":
            es = []
            p += 1
            while t[p] != "}":
                e, p = self.ptype(t, p)
                es.append(e)
                if t[p] == ",":
                    p += 1
            return ("st", tuple(es), False), p + 1
        if x.startswith("%"):
            ty, _ = self.ptype(tokens(self.types[unq(x)]), 0)
            return ty, p + 1
        raise Unsupported("type " + " ".join(t[p:p + 8]))

    def align(self, ty):
        k = ty[0]
        if k == "i":
            b = (ty[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if k == "ptr":
            return 8
        if k == "f":
            return ty[1] // 8
        if k == "arr":
            return self.align(ty[2])
        if k == "st":
            if ty[2] or not ty[1]:
                return 1
            return max(self.align(e) for e in ty[1])
        if k == "vec":
            return max(1, self.size(ty))
        raise Unsupported("align %r" % (ty,))

    def store_size(self, ty):
        k = ty[0]
        if k == "i":
            return (ty[1] + 7) // 8
        return self.size(ty)

    def size(self, ty):
        k = ty[0]
        if k == "i":
            a = self.align(ty)
            b = (ty[1] + 7) // 8
            return (b + a - 1) // a * a
        if k == "ptr":
            return 8
        if k == "f":
            return ty[1] // 8
        if k == "arr":
            return ty[1] * self.size(ty[2])
        if k == "vec":
            return (ty[1] * self.bits(ty[2]) + 7) // 8
        if k == "st":
            return self.layout(ty)[1]
        raise Unsupported("size %r" % (ty,))

    def bits(self, ty):
        return ty[1] if ty[0] in ("i", "f") else 64

    def layout(self, ty):
        o, offs, mx = 0, [], 1
        for e in ty[1]:
            a = 1 if ty[2] else self.align(e)
            mx = max(mx, a)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(e)
        return offs, (o + mx - 1) // mx * mx

    def zero(self, ty):
        k = ty[0]
        if k in ("i", "ptr", "f"):
            return 0
        if k in ("arr", "vec"):
            return (self.zero(ty[2]),) * ty[1]
        if k == "st":
            return tuple(self.zero(e) for e in ty[1])
        if k in ("metadata", "token", "void", "label"):
            return 0
        raise Unsupported("zero %r" % (ty,))

    # -------------------------------------------------------- constants
    def const(self, ty, t, p):
        """Parse a constant of type ty at t[p]; returns (python value, next)."""
        x = t[p]
        k = ty[0]
        if x in ("undef", "poison", "zeroinitializer", "null", "none"):
            return self.zero(ty), p + 1
        if x == "true":
            return 1, p + 1
        if x == "false":
            return 0, p + 1
        if x[0] == "@":
            return self.addr(unq(x)), p + 1
        if k == "i":
            if x in ("ptrtoint", "trunc", "bitcast", "add", "sub", "xor", "ptrtoaddr"):
                return self.constexpr(ty, t, p)
            return int(x) & ((1 << ty[1]) - 1), p + 1
        if k == "f":
            if x.startswith("0x"):
                bits = int(x[2:], 16)
                if ty[1] == 32:
                    import struct
                    bits = struct.unpack("<I", struct.pack("<f", struct.unpack("<d", struct.pack("<Q", bits))[0]))[0]
                return bits, p + 1
            import struct
            return struct.unpack("<I" if ty[1] == 32 else "<Q", struct.pack("<f" if ty[1] == 32 else "<d", float(x)))[0], p + 1
        if k == "ptr":
            return self.constexpr(ty, t, p)
        if x.startswith('c"'):
            s = x[2:-1]
            out = []
            i = 0
            while i < len(s):
                if s[i] == "\\":
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.extend(s[i].encode())
                    i += 1
            return tuple(out), p + 1
        if x in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[x]
            p += 1
            if x == "<" and t[p] == "{":
                p += 1
                close = "}"
            vals = []
            while t[p] != close:
                ety, p = self.ptype(t, p)
                v, p = self.const(ety, t, p)
                vals.append(v)
                if t[p] == ",":
                    p += 1
            p += 1
            if x == "<" and close == "}":
                p += 1
            return tuple(vals), p
        if x == "splat":
            ety, p = self.ptype(t, p + 2)
            v, p = self.const(ety, t, p)
            return (v,) * ty[1], p + 1
        raise Unsupported("const " + " ".join(t[p:p + 10]))

    def constexpr(self, ty, t, p):
        x = t[p]
        if x == "getelementptr":
            p += 1
            while t[p] != "(":
                p += 1
                if t[p - 1] == "inrange":
                    while t[p] != ")":
                        p += 1
                    p += 1
            p += 1
            ety, p = self.ptype(t, p)
            p += 1
            _, p = self.ptype(t, p)
            base, p = self.const(("ptr",), t, p)
            first = True
            while t[p] == ",":
                ity, p = self.ptype(t, p + 1)
                v, p = self.const(ity, t, p)
                if v >> (ity[1] - 1):
                    v -= 1 << ity[1]
                if first:
                    base += v * self.size(ety)
                    first = False
                elif ety[0] == "st":
                    base += self.layout(ety)[0][v]
                    ety = ety[1][v]
                else:
                    base += v * self.size(ety[2])
                    ety = ety[2]
            return base & MASK[64], p + 1
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "ptrtoaddr"):
            sty, p = self.ptype(t, p + 2)
            v, p = self.const(sty, t, p)
            dty, p = self.ptype(t, p + 1)
            if dty[0] == "i":
                v &= MASK[dty[1]]
            return v, p + 1
        if x in ("add", "sub", "xor"):
            p += 1
            while t[p] != "(":
                p += 1
            a_ty, p = self.ptype(t, p + 1)
            a, p = self.const(a_ty, t, p)
            b_ty, p = self.ptype(t, p + 1)
            b, p = self.const(b_ty, t, p)
            r = a + b if x == "add" else a - b if x == "sub" else a ^ b
            return r & MASK[a_ty[1]], p + 1
        raise Unsupported("constexpr " + " ".join(t[p:p + 10]))

    def flatten(self, ty, v, out, base=0):
        """Write constant v of type ty into byte list out at base."""
        k = ty[0]
        if k in ("i", "ptr", "f"):
            n = self.store_size(ty)
            out[base:base + n] = list((v & MASK[n * 8]).to_bytes(n, "little"))
        elif k == "arr":
            if type(v) is tuple and ty[2] == ("i", 8):
                out[base:base + len(v)] = list(v)
                return
            s = self.size(ty[2])
            for i, e in enumerate(v):
                self.flatten(ty[2], e, out, base + i * s)
        elif k == "vec":
            s = self.size(ty[2])
            for i, e in enumerate(v):
                self.flatten(ty[2], e, out, base + i * s)
        elif k == "st":
            offs, _ = self.layout(ty)
            for o, e, x in zip(offs, ty[1], v):
                self.flatten(e, x, out, base + o)

    def global_bytes(self, name):
        """(initial bytes, is_constant) or None for an external."""
        s = self.globs[name]
        t = tokens(s)
        p = 1
        external = False
        while True:
            x = t[p]
            if x in ("constant", "global"):
                const = x == "constant"
                p += 1
                break
            if x in ("external", "extern_weak"):
                external = True
            if p + 1 < len(t) and t[p + 1] == "(":
                while t[p] != ")":
                    p += 1
            p += 1
        ty, p = self.ptype(t, p)
        n = self.size(ty)
        if external:
            return [0] * n, False
        out = [0] * n
        v, _ = self.const(ty, t, p)
        self.flatten(ty, v, out)
        return out, const

    # -------------------------------------------------------- functions
    def compile(self, name):
        self.arms = getattr(self, "arms", {})
        return FnGen(self, name).gen()


class FnGen:
    def __init__(self, mod, name):
        self.m = mod
        self.name = name
        self.lmap = {}

    def loc(self, x):
        n = unq(x)
        v = self.lmap.get(n)
        if v is None:
            v = "v%d" % len(self.lmap)
            self.lmap[n] = v
        return v

    def val(self, ty, t, p):
        """Parse a value operand -> (python source, next)."""
        x = t[p]
        if x[0] == "%":
            return self.loc(x), p + 1
        if ty[0] == "metadata":
            # skip to the end of this operand
            d = 0
            while p < len(t):
                if t[p] in "([{":
                    d += 1
                elif t[p] in ")]}":
                    if d == 0:
                        break
                    d -= 1
                elif t[p] == "," and d == 0:
                    break
                p += 1
            return "0", p
        v, p = self.m.const(ty, t, p)
        return repr(v), p

    def skip_attrs(self, t, p):
        while True:
            x = t[p]
            if x in VALWORDS or x[0] in "@%" or x[0] in "-0123456789" or x in ("{", "[", "<", "splat") or x.startswith('c"') or x[0] == "!":
                return p
            if x == "align":
                p += 1
                if t[p] == "(":
                    while t[p] != ")":
                        p += 1
                p += 1
                continue
            if x[0] == '"':
                p += 1
                if t[p] == "=":
                    p += 2
                continue
            p += 1
            if t[p] == "(":
                d = 0
                while True:
                    if t[p] == "(":
                        d += 1
                    elif t[p] == ")":
                        d -= 1
                        if d == 0:
                            break
                    p += 1
                p += 1

    def is_type(self, x):
        return bool(INT.match(x)) or x in ("ptr", "void", "float", "double", "half", "{", "[", "<", "metadata", "token") or x[0] == "%"

    def gen(self):
        m = self.m
        a, b = m.funcs[self.name]
        head = m.lines[a]
        ht = tokens(head)
        # parameters
        p = next(i for i, x in enumerate(ht) if x[0] == "@" and unq(x) == self.name) + 1
        assert ht[p] == "("
        p += 1
        params = []
        while ht[p] != ")":
            if ht[p] == "...":
                p += 1
                continue
            ty, p = m.ptype(ht, p)
            nm = None
            d = 0
            while True:
                x = ht[p]
                if x in "([{":
                    d += 1
                elif x in ")]}":
                    if d == 0:
                        break
                    d -= 1
                elif x == "," and d == 0:
                    break
                elif x[0] == "%" and d == 0:
                    nm = x
                p += 1
            params.append((ty, nm if nm else "%" + str(len(params))))
            if ht[p] == ",":
                p += 1
        pnames = [self.loc(nm) for _, nm in params]
        # logical lines grouped in blocks
        blocks = []
        cur = None
        pend = None
        for l in m.lines[a + 1:b]:
            if not l or l.lstrip().startswith(";"):
                continue
            if l[0] not in " ":
                lab = l.split(":")[0] if l[0] != '"' else l[:l.rindex('":') + 1]
                lab = lab.strip('"')
                cur = (lab, [])
                blocks.append(cur)
                continue
            if cur is None:
                cur = ("%entry%", [])
                blocks.append(cur)
            if l.startswith("    ") or l.startswith("  ]"):
                cur[1][-1] += " " + l.strip()
            elif l.lstrip().startswith("#dbg"):
                continue
            else:
                cur[1].append(l.strip())
        if blocks and blocks[0][0] == "%entry%":
            blocks[0] = (str(len(params)), blocks[0][1])
        self.bidx = {lab: i for i, (lab, _) in enumerate(blocks)}
        parsed = []
        self.phis = {}
        self.phity = {}
        self.armj = None
        for lab, ins in blocks:
            body = []
            for l in ins:
                t = tokens(l)
                if len(t) > 3 and t[1] == "=" and t[2] == "phi":
                    ty, p = m.ptype(t, 3)
                    inc = {}
                    while True:
                        assert t[p] == "["
                        v, p = self.val(ty, t, p + 1)
                        inc[unq(t[p + 1])] = v
                        p += 3
                        if p < len(t) and t[p] == "," and t[p + 1] == "[":
                            p += 1
                        else:
                            break
                    self.phis.setdefault(lab, []).append((self.loc(t[0]), inc))
                    self.phity.setdefault(lab, []).append(ty)
                else:
                    body.append((l, t))
            parsed.append((lab, body))
        self.edges = []      # extra blocks for switch edges with phis
        self.nblocks = len(blocks)
        self.has_alloca = False
        code = []
        self.dbg = []
        self.parsed = parsed
        self.regions = {}
        self.uses = {}
        for _, body in parsed:
            for l, t in body:
                for x in t:
                    if x[0] == "%":
                        n = unq(x)
                        self.uses[n] = self.uses.get(n, 0) + 1
        for ph in self.phis.values():
            for _, inc in ph:
                for v in inc.values():
                    self.uses[v] = self.uses.get(v, 0) + 1
        self.postdominators()
        for i, (lab, body) in enumerate(parsed):
            dbgs = set()
            for l, t in body:
                if "!dbg" in l:
                    mm = re.search(r"!dbg (!\d+)", l)
                    if mm:
                        dbgs.add(mm.group(1))
            code.append(self.block(i))
            self.dbg.append(dbgs)
        for lab, e in self.edges:
            code.append(e)
        src = ["def F(%s):" % ", ".join(pnames + (["*va"] if "..." in ht else []))]
        if self.has_alloca:
            src.append(" _sp=[]")
            src.append(" try:")
            ind = "  "
        else:
            ind = " "
        if len(code) == 1:
            src.append(ind + "cov(%d)" % 0)
            for l in code[0]:
                src.append(ind + l)
        else:
            src.append(ind + "b=0")
            src.append(ind + "while True:")
            self.tree(src, ind + " ", dict(enumerate(code)), range(len(code)))
        if self.has_alloca:
            src.append(" finally:")
            src.append("  popstack(_sp)")
        return "\n".join(src), self.dbg

    def block(self, i):
        lab, body = self.parsed[i]
        self.curlab = lab
        out = []
        for l, t in body:
            try:
                out.extend(self.ins(t, l))
            except (Unsupported, IndexError, ValueError, StopIteration, KeyError, AssertionError) as e:
                out = out + ["unsupported(%r)" % ("%s: %r in %s" % (l[:160], e, self.name))]
                break
        return out

    def tree(self, src, ind, code, keys):
        if len(keys) == 1:
            k = keys[0]
            if k < self.nblocks:
                src.append(ind + "cov(%d)" % k)
            for l in code[k]:
                src.append(ind + l)
            return
        mid = len(keys) // 2
        src.append(ind + "if b<%d:" % keys[mid])
        self.tree(src, ind + " ", code, keys[:mid])
        src.append(ind + "else:")
        self.tree(src, ind + " ", code, keys[mid:])

    PURE = set("add sub mul and or xor shl lshr ashr icmp select zext sext trunc getelementptr freeze".split())

    def decided(self, x, c, cname):
        """Statements, to be run on the edges of the branch on c that ends
        block x, that give c its value, and the block's values that depend on
        c alike."""
        body = self.parsed[x][1]
        dep = {cname}
        redo = []
        for l, t in body[:-1]:
            if len(t) > 3 and t[1] == "=" and t[0] != cname and any(y in dep for y in t[3:]):
                if t[2] in self.PURE:
                    dep.add(t[0])
                    redo.append((l, t))
        n = unq(cname)
        if not redo and self.uses.get(n, 0) + self.uses.get(c, 0) <= 2:
            return "", ""
        out = []
        for l, t in redo:
            out.extend(self.ins(t, l))
        r = "".join(";" + o for o in out)
        return c + "=1" + r + ";", c + "=0" + r + ";"

    # ------------------------------------------------------- branch merging
    def postdominators(self):
        """Immediate postdominators, with respect to the executions that return."""
        n = self.nblocks
        succ = []
        ret = []
        for i, (lab, body) in enumerate(self.parsed):
            l, t = body[-1] if body else ("", ["unreachable"])
            op = t[2] if len(t) > 1 and t[1] == "=" else t[0]
            ss = []
            if op in ("br", "switch"):
                for k, x in enumerate(t):
                    if x == "label":
                        ss.append(self.bidx[unq(t[k + 1])])
            elif op == "invoke":
                k = len(t) - 1
                while not (t[k] == "to" and t[k + 1] == "label"):
                    k -= 1
                ss.append(self.bidx[unq(t[k + 2])])
            succ.append(ss)
            ret.append(op == "ret")
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(succ):
            for x in ss:
                pred[x].append(i)
        live = [False] * n
        work = [i for i in range(n) if ret[i]]
        for i in work:
            live[i] = True
        while work:
            for q in pred[work.pop()]:
                if not live[q]:
                    live[q] = True
                    work.append(q)
        self.succ, self.live = succ, live
        # reverse postorder of the reversed graph
        order = {}
        seq = []
        seen = set()
        for r in range(n):
            if not ret[r] or r in seen:
                continue
            stack = [(r, iter(pred[r]))]
            seen.add(r)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(pred[y])))
                        break
                else:
                    order[x] = len(seq)
                    seq.append(x)
                    stack.pop()
        EXIT = n
        order[EXIT] = len(seq)
        ipd = {EXIT: EXIT}
        ch = True
        while ch:
            ch = False
            for x in reversed(seq):
                new = EXIT if ret[x] else None
                for y in succ[x]:
                    if not live[y] or y not in ipd:
                        continue
                    if new is None:
                        new = y
                        continue
                    u, v = new, y
                    while u != v:
                        while order[u] < order[v]:
                            u = ipd[u]
                        while order[v] < order[u]:
                            v = ipd[v]
                    new = u
                if new is not None and ipd.get(x) != new:
                    ipd[x] = new
                    ch = True
        self.ipd = ipd

    def region(self, x):
        """The blocks between the two-way branch ending block x and its join, with
        the values they take from outside; None if the arms cannot be merged."""
        if x in self.regions:
            return self.regions[x]
        self.regions[x] = None
        j = self.ipd.get(x)
        ss = self.succ[x]
        if j is None or j == self.nblocks or j == x or len(ss) != 2 or ss[0] == ss[1] or not all(self.live[y] for y in ss):
            return None
        reach = set()
        work = [y for y in ss if y != j]
        while work:
            y = work.pop()
            if y in reach or not self.live[y]:
                continue
            if y == x or len(reach) > 60:
                return None
            reach.add(y)
            work.extend(z for z in self.succ[y] if z != j)
        blocks = sorted(reach)
        for y in blocks:
            for l, t in self.parsed[y][1]:
                if len(t) > 2 and t[1] == "=" and t[2] == "alloca":
                    return None
        # generate once, to find the values used
        src, used = self.arm_code(x, j, blocks)
        defs = set()
        for y in blocks:
            lab, body = self.parsed[y]
            for l, t in body:
                if len(t) > 2 and t[1] == "=":
                    defs.add(self.loc(t[0]))
            for d, _ in self.phis.get(lab, ()):
                defs.add(d)
        ins = sorted(used - defs)
        self.regions[x] = r = (j, ins, "def M(b,%s):\n%s" % ("".join(v + "," for v in ins), src),
                               tuple(self.phity.get(self.parsed[j][0], ())))
        self.m.arms[(self.name, x)] = (r[2], r[3])
        return r

    def arm_code(self, x, j, blocks):
        saved = self.curlab, self.edges, self.armj, self.has_alloca
        self.armj = self.parsed[j][0]
        self.edges = [None, None]        # two slots for the arms' entries
        code = {}
        for y in blocks:
            code[y] = self.block(y)
        self.curlab = self.parsed[x][0]
        t = self.parsed[x][1][-1][1]
        dec = self.decided(x, self.loc(t[2]), t[2]) if t[2][0] == "%" else ("", "")
        for k, y in enumerate(self.succ[x]):
            self.edges[k] = (None, [dec[k] + self.goto(self.parsed[y][0]), "continue"])
        for k, (_, e) in enumerate(self.edges):
            code[self.nblocks + k] = e
        src = [" while True:"]
        self.tree(src, "  ", code, sorted(code))
        self.curlab, self.edges, self.armj, self.has_alloca = saved
        return "\n".join(src), set(
            re.findall(r"\bv\d+\b", re.sub(r"'[^'\n]*'|\"[^\"\n]*\"", "", "\n".join(src))))

    def goto(self, lab):
        """statements performing the edge curlab -> lab"""
        ph = self.phis.get(lab)
        if lab == self.armj:
            return "return (%s)" % "".join(inc[self.curlab] + "," for _, inc in ph or ())
        if self.armj is not None and not self.live[self.bidx[lab]]:
            return "noreturn()"
        out = []
        if ph:
            pairs = [(d, inc[self.curlab]) for d, inc in ph if inc[self.curlab] != d]
            if pairs:
                out.append("%s=%s" % (",".join(d for d, _ in pairs), ",".join(s for _, s in pairs)))
        out.append("b=%d" % self.bidx[lab])
        return ";".join(out)

    def edge(self, lab):
        """block index reached by the edge curlab -> lab"""
        if self.phis.get(lab) or self.armj is not None:
            self.edges.append((lab, [self.goto(lab), "continue"]))
            return self.nblocks + len(self.edges) - 1
        return self.bidx[lab]

    # ---------------------------------------------------- instructions
    def ins(self, t, line):
        m = self.m
        dst = None
        p = 0
        if len(t) > 1 and t[1] == "=":
            dst = self.loc(t[0])
            p = 2
        op = t[p]
        p += 1
        if op in ("tail", "musttail", "notail"):
            op = t[p]
            p += 1
        f = getattr(self, "i_" + op, None)
        if f is None:
            raise Unsupported("opcode " + op)
        return f(dst, t, p, line)

    def i_unreachable(self, dst, t, p, l):
        return ["unreachable()"]

    def i_fence(self, dst, t, p, l):
        return []

    def i_ret(self, dst, t, p, l):
        ty, p = self.m.ptype(t, p)
        if ty[0] == "void":
            return ["return"]
        v, p = self.val(ty, t, p)
        return ["return " + v]

    def i_resume(self, dst, t, p, l):
        return ["unreachable()"]

    def i_landingpad(self, dst, t, p, l):
        return ["unreachable()"]

    def i_br(self, dst, t, p, l):
        if t[p] == "label":
            return [self.goto(unq(t[p + 1])), "continue"]
        cname = t[p + 1]
        c, p = self.val(("i", 1), t, p + 1)
        a = unq(t[p + 2])
        b = unq(t[p + 5])
        x = self.bidx[self.curlab]
        ga, gb = self.goto(a), self.goto(b)
        if c.isdigit():
            return ["if %s: %s" % (c, ga), "else: " + gb, "continue"]
        c1, c0 = self.decided(x, c, cname)
        r = self.region(x)
        if r is None and not c1:
            return [
                "if %s if %s.__class__ is int else decide(%s): %s" % (c, c, c, ga),
                "else: " + gb,
                "continue",
            ]
        out = ["if %s.__class__ is int:" % c, " if %s: %s" % (c, ga), " else: " + gb, " continue"]
        if r is None:
            out.append("if decide(%s): %s" % (c, c1 + ga))
        else:
            j, ins, _, _ = r
            jlab = self.parsed[j][0]
            if jlab == self.armj:
                join = "return r"
            else:
                join = "".join(d + "," for d, _ in self.phis.get(jlab, ()))
                join = (join + "=r;" if join else "") + "b=%d;continue" % j
            out += [
                "r=branch(%s,%r,(%s))" % (c, (self.name, x), "".join(v + "," for v in ins)),
                "if r.__class__ is tuple: " + join,
                "if r: " + c1 + ga,
            ]
        return out + ["else: " + c0 + gb, "continue"]

    def i_switch(self, dst, t, p, l):
        ty, p = self.m.ptype(t, p)
        v, p = self.val(ty, t, p)
        default = self.edge(unq(t[p + 2]))
        p += 3
        assert t[p] == "["
        p += 1
        tab = {}
        cache = {}
        while t[p] != "]":
            ty2, p = self.m.ptype(t, p)
            c, p = self.m.const(ty2, t, p)
            lab = unq(t[p + 2])
            if lab not in cache:
                cache[lab] = self.edge(lab)
            tab[c] = cache[lab]
            p += 3
        tabsrc = repr(tab)
        return [
            "b=%s.get(%s,%d) if %s.__class__ is int else switch(%s,%d,%s,%d)" % (tabsrc, v, default, v, v, ty[1], tabsrc, default) if not v.isdigit() else "b=%d" % tab.get(int(v), default),
            "continue",
        ]

    def i_alloca(self, dst, t, p, l):
        if t[p] == "inalloca":
            p += 1
        ty, p = self.m.ptype(t, p)
        n = "1"
        al = 1
        while p < len(t) and t[p] == ",":
            if t[p + 1] == "align":
                al = int(t[p + 2])
                p += 3
            elif t[p + 1].startswith("!"):
                break
            else:
                ity, p = self.m.ptype(t, p + 1)
                n, p = self.val(ity, t, p)
        self.has_alloca = True
        sz = self.m.size(ty)
        return ["%s=alloca(_sp,%s)" % (dst, sz if n == "1" else "%d*%s" % (sz, n))]

    def load_src(self, ty, ad):
        k = ty[0]
        if k in ("ptr", "f"):
            return "ld(%s,%d)" % (ad, self.m.size(ty))
        if k == "i":
            n = self.m.store_size(ty)
            if ty[1] % 8 == 0:
                return "ld(%s,%d)" % (ad, n)
            return "ext(ld(%s,%d),0,%d)" % (ad, n, ty[1])
        if k == "st":
            offs, _ = self.m.layout(ty)
            return "(" + "".join(self.load_src(e, "add(%s,%d,64)" % (ad, o)) + "," for o, e in zip(offs, ty[1])) + ")"
        if k in ("arr", "vec"):
            if k == "vec" and self.m.bits(ty[2]) % 8:
                n = self.m.size(ty)
                return "vunpack(ld(%s,%d),%d,%d)" % (ad, n, ty[1], self.m.bits(ty[2]))
            s = self.m.size(ty[2])
            return "(" + "".join(self.load_src(ty[2], "add(%s,%d,64)" % (ad, i * s)) + "," for i in range(ty[1])) + ")"
        raise Unsupported("load %r" % (ty,))

    def store_src(self, ty, ad, v):
        k = ty[0]
        if k in ("ptr", "f"):
            return ["st(%s,%d,%s)" % (ad, self.m.size(ty), v)]
        if k == "i":
            n = self.m.store_size(ty)
            if ty[1] % 8 == 0:
                return ["st(%s,%d,%s)" % (ad, n, v)]
            return ["st(%s,%d,zext(%s,%d,%d))" % (ad, n, v, ty[1], n * 8)]
        if k == "st":
            offs, _ = self.m.layout(ty)
            r = []
            for i, (o, e) in enumerate(zip(offs, ty[1])):
                r += self.store_src(e, "add(%s,%d,64)" % (ad, o), "%s[%d]" % (v, i))
            return r
        if k in ("arr", "vec"):
            if k == "vec" and self.m.bits(ty[2]) % 8:
                n = self.m.size(ty)
                return ["st(%s,%d,zext(vpack(%s,%d),%d,%d))" % (ad, n, v, self.m.bits(ty[2]), ty[1] * self.m.bits(ty[2]), n * 8)]
            s = self.m.size(ty[2])
            r = []
            for i in range(ty[1]):
                r += self.store_src(ty[2], "add(%s,%d,64)" % (ad, i * s), "%s[%d]" % (v, i))
            return r
        raise Unsupported("store %r" % (ty,))

    def i_load(self, dst, t, p, l):
        while t[p] in ("atomic", "volatile"):
            p += 1
        ty, p = self.m.ptype(t, p)
        _, p = self.m.ptype(t, p + 1)
        a, p = self.val(("ptr",), t, p)
        return ["%s=%s" % (dst, self.load_src(ty, a))]

    def i_store(self, dst, t, p, l):
        while t[p] in ("atomic", "volatile"):
            p += 1
        ty, p = self.m.ptype(t, p)
        v, p = self.val(ty, t, p)
        _, p = self.m.ptype(t, p + 1)
        a, p = self.val(("ptr",), t, p)
        return self.store_src(ty, a, v)

    def i_getelementptr(self, dst, t, p, l):
        while t[p] in ("inbounds", "nuw", "nusw"):
            p += 1
        ety, p = self.m.ptype(t, p)
        bty, p = self.m.ptype(t, p + 1)
        if bty[0] == "vec":
            raise Unsupported("vector gep")
        base, p = self.val(bty, t, p)
        const = 0
        dyn = []
        first = True
        while p < len(t) and t[p] == "," and not t[p + 1].startswith("!"):
            ity, p = self.m.ptype(t, p + 1)
            v, p = self.val(ity, t, p)
            if first:
                s = self.m.size(ety)
                first = False
            elif ety[0] == "st":
                i = int(v)
                const += self.m.layout(ety)[0][i]
                ety = ety[1][i]
                continue
            else:
                s = self.m.size(ety[2])
                ety = ety[2]
            if v.isdigit():
                c = int(v)
                if c >> (ity[1] - 1):
                    c -= 1 << ity[1]
                const += c * s
            else:
                iv = v if ity[1] == 64 else "sext(%s,%d,64)" % (v, ity[1])
                dyn.append(iv if s == 1 else "mul(%s,%d,64)" % (iv, s))
        e = base
        for d in dyn:
            e = "add(%s,%s,64)" % (e, d)
        if const or not dyn:
            e = "add(%s,%d,64)" % (e, const & MASK[64])
        return ["%s=%s" % (dst, e)]

    def binop(self, fn, dst, t, p, flags=("nuw", "nsw", "exact", "disjoint")):
        while t[p] in flags:
            p += 1
        ty, p = self.m.ptype(t, p)
        a, p = self.val(ty, t, p)
        b, p = self.val(ty, t, p + 1)
        if ty[0] == "vec":
            return ["%s=vmap2(%s,%s,%s,%d)" % (dst, fn, a, b, self.m.bits(ty[2]))]
        return ["%s=%s(%s,%s,%d)" % (dst, fn, a, b, ty[1])]

    def i_add(self, d, t, p, l): return self.binop("add", d, t, p)
    def i_sub(self, d, t, p, l): return self.binop("sub", d, t, p)
    def i_mul(self, d, t, p, l): return self.binop("mul", d, t, p)
    def i_udiv(self, d, t, p, l): return self.binop("udiv_", d, t, p)
    def i_urem(self, d, t, p, l): return self.binop("urem_", d, t, p)
    def i_sdiv(self, d, t, p, l): return self.binop("sdiv_", d, t, p)
    def i_srem(self, d, t, p, l): return self.binop("srem_", d, t, p)
    def i_and(self, d, t, p, l): return self.binop("and_", d, t, p)
    def i_or(self, d, t, p, l): return self.binop("or_", d, t, p)
    def i_xor(self, d, t, p, l): return self.binop("xor", d, t, p)
    def i_shl(self, d, t, p, l): return self.binop("shl", d, t, p)
    def i_lshr(self, d, t, p, l): return self.binop("lshr", d, t, p)
    def i_ashr(self, d, t, p, l): return self.binop("ashr", d, t, p)

    def fbin(self, op, dst, t, p):
        while not self.is_type(t[p]):
            p += 1
        ty, p = self.m.ptype(t, p)
        a, p = self.val(ty, t, p)
        b, p = self.val(ty, t, p + 1)
        return ["%s=fop(%r,%s,%s,%d)" % (dst, op, a, b, ty[1])]

    def i_fadd(self, d, t, p, l): return self.fbin("+", d, t, p)
    def i_fsub(self, d, t, p, l): return self.fbin("-", d, t, p)
    def i_fmul(self, d, t, p, l): return self.fbin("*", d, t, p)
    def i_fdiv(self, d, t, p, l): return self.fbin("/", d, t, p)

    def i_icmp(self, dst, t, p, l):
        if t[p] == "samesign":
            p += 1
        pred = t[p]
        ty, p = self.m.ptype(t, p + 1)
        a, p = self.val(ty, t, p)
        b, p = self.val(ty, t, p + 1)
        if ty[0] == "vec":
            return ["%s=vmap2(%s,%s,%s,%d)" % (dst, pred, a, b, self.m.bits(ty[2]))]
        w = ty[1] if ty[0] == "i" else 64
        return ["%s=%s_(%s,%s,%d)" % (dst, pred, a, b, w)]

    def i_select(self, dst, t, p, l):
        while t[p] in ("nnan", "ninf", "nsz", "fast", "reassoc", "contract"):
            p += 1
        cty, p = self.m.ptype(t, p)
        c, p = self.val(cty, t, p)
        ty, p = self.m.ptype(t, p + 1)
        a, p = self.val(ty, t, p)
        _, p = self.m.ptype(t, p + 1)
        b, p = self.val(ty, t, p)
        if cty[0] == "vec":
            return ["%s=vselect(%s,%s,%s,%d)" % (dst, c, a, b, self.m.bits(ty[2]))]
        if ty[0] in ("st", "arr", "vec"):
            return ["%s=%s if (%s if %s.__class__ is int else decide(%s)) else %s" % (dst, a, c, c, c, b)]
        w = 64 if ty[0] == "ptr" else ty[1]
        return ["%s=sel(%s,%s,%s,%d)" % (dst, c, a, b, w)]

    def cast(self, fn, dst, t, p):
        while t[p] in ("nneg", "nuw", "nsw"):
            p += 1
        ty, p = self.m.ptype(t, p)
        a, p = self.val(ty, t, p)
        ty2, p = self.m.ptype(t, p + 1)
        if ty[0] == "vec":
            return ["%s=vcast(%s,%s,%d,%d)" % (dst, fn, a, self.m.bits(ty[2]), self.m.bits(ty2[2]))]
        return ["%s=%s(%s,%d,%d)" % (dst, fn, a, self.m.bits(ty), self.m.bits(ty2))]

    def i_zext(self, d, t, p, l): return self.cast("zext", d, t, p)
    def i_sext(self, d, t, p, l): return self.cast("sext", d, t, p)
    def i_trunc(self, d, t, p, l): return self.cast("trunc", d, t, p)

    def i_ptrtoint(self, dst, t, p, l):
        ty, p = self.m.ptype(t, p)
        a, p = self.val(ty, t, p)
        ty2, p = self.m.ptype(t, p + 1)
        return ["%s=ext(%s,0,%d)" % (dst, a, ty2[1]) if ty2[1] < 64 else "%s=%s" % (dst, a)]

    i_ptrtoaddr = i_ptrtoint

    def i_inttoptr(self, dst, t, p, l):
        ty, p = self.m.ptype(t, p)
        a, p = self.val(ty, t, p)
        return ["%s=zext(%s,%d,64)" % (dst, a, ty[1])]

    def i_bitcast(self, dst, t, p, l):
        ty, p = self.m.ptype(t, p)
        a, p = self.val(ty, t, p)
        ty2, p = self.m.ptype(t, p + 1)
        e = a
        if ty[0] == "vec":
            e = "vpack(%s,%d)" % (e, self.m.bits(ty[2]))
        if ty2[0] == "vec":
            e = "vunpack(%s,%d,%d)" % (e, ty2[1], self.m.bits(ty2[2]))
        return ["%s=%s" % (dst, e)]

    def i_freeze(self, dst, t, p, l):
        ty, p = self.m.ptype(t, p)
        a, p = self.val(ty, t, p)
        return ["%s=%s" % (dst, a)]

    def i_extractvalue(self, dst, t, p, l):
        ty, p = self.m.ptype(t, p)
        a, p = self.val(ty, t, p)
        while p < len(t) and t[p] == "," and t[p + 1].isdigit():
            a += "[%s]" % t[p + 1]
            p += 2
        return ["%s=%s" % (dst, a)]

    def i_insertvalue(self, dst, t, p, l):
        ty, p = self.m.ptype(t, p)
        a, p = self.val(ty, t, p)
        ety, p = self.m.ptype(t, p + 1)
        e, p = self.val(ety, t, p)
        idx = []
        while p < len(t) and t[p] == "," and t[p + 1].isdigit():
            idx.append(int(t[p + 1]))
            p += 2
        return ["%s=insval(%s,%s,%r)" % (dst, a, e, tuple(idx))]

    def i_extractelement(self, dst, t, p, l):
        ty, p = self.m.ptype(t, p)
        a, p = self.val(ty, t, p)
        ity, p = self.m.ptype(t, p + 1)
        i, p = self.val(ity, t, p)
        return ["%s=%s[conc(%s,64)]" % (dst, a, i)]

    def i_insertelement(self, dst, t, p, l):
        ty, p = self.m.ptype(t, p)
        a, p = self.val(ty, t, p)
        ety, p = self.m.ptype(t, p + 1)
        e, p = self.val(ety, t, p)
        ity, p = self.m.ptype(t, p + 1)
        i, p = self.val(ity, t, p)
        return ["%s=insval(%s,%s,(conc(%s,64),))" % (dst, a, e, i)]

    def i_shufflevector(self, dst, t, p, l):
        ty, p = self.m.ptype(t, p)
        a, p = self.val(ty, t, p)
        _, p = self.m.ptype(t, p + 1)
        b, p = self.val(ty, t, p)
        mty, p = self.m.ptype(t, p + 1)
        mask, p = self.val(mty, t, p)
        return ["%s=vshuffle(%s,%s,%s)" % (dst, a, b, mask)]

    def i_atomicrmw(self, dst, t, p, l):
        if t[p] == "volatile":
            p += 1
        op = t[p]
        _, p = self.m.ptype(t, p + 1)
        a, p = self.val(("ptr",), t, p)
        ty, p = self.m.ptype(t, p + 1)
        v, p = self.val(ty, t, p)
        w = self.m.size(ty) * 8
        fn = {"add": "add(_o,%s,%d)", "sub": "sub(_o,%s,%d)", "and": "and_(_o,%s,%d)", "or": "or_(_o,%s,%d)",
              "xor": "xor(_o,%s,%d)", "xchg": "same(%s,%d)"}.get(op)
        if fn is None:
            raise Unsupported("atomicrmw " + op)
        return ["_o=ld(%s,%d)" % (a, w // 8), "st(%s,%d,%s)" % (a, w // 8, fn % (v, w)), "%s=_o" % dst if dst else "pass"]

    def i_cmpxchg(self, dst, t, p, l):
        while t[p] in ("weak", "volatile"):
            p += 1
        _, p = self.m.ptype(t, p)
        a, p = self.val(("ptr",), t, p)
        ty, p = self.m.ptype(t, p + 1)
        c, p = self.val(ty, t, p)
        _, p = self.m.ptype(t, p + 1)
        n, p = self.val(ty, t, p)
        w = self.m.size(ty) * 8
        return ["%s=cmpxchg(%s,%s,%s,%d)" % (dst or "_", a, c, n, w)]

    def i_invoke(self, dst, t, p, l):
        r = self.call(dst, t, p, l)
        i = len(t) - 1
        while not (t[i] == "to" and t[i + 1] == "label"):
            i -= 1
        return r + [self.goto(unq(t[i + 2])), "continue"]

    def i_call(self, dst, t, p, l):
        return self.call(dst, t, p, l)

    def call(self, dst, t, p, l):
        m = self.m
        # calling convention, return attributes
        while not self.is_type(t[p]):
            if t[p] == "align":
                p += 2
                continue
            if t[p + 1] == "(":
                d = 0
                p += 1
                while True:
                    if t[p] == "(":
                        d += 1
                    elif t[p] == ")":
                        d -= 1
                        if d == 0:
                            break
                    p += 1
            p += 1
        rty, p = m.ptype(t, p)
        if t[p] == "(":  # function type
            d = 0
            while True:
                if t[p] == "(":
                    d += 1
                elif t[p] == ")":
                    d -= 1
                    if d == 0:
                        break
                p += 1
            p += 1
        callee = t[p]
        if callee == "asm":
            return ["asm_stmt()"] + (["%s=%r" % (dst, m.zero(rty))] if dst else [])
        if callee[0] not in "@%":
            cv, p = m.const(("ptr",), t, p)
            callee = None
        else:
            p += 1
        assert t[p] == "("
        p += 1
        args = []
        tys = []
        while t[p] != ")":
            ty, p = m.ptype(t, p)
            if ty[0] == "metadata":
                _, p = self.val(ty, t, p)
                args.append("0")
            else:
                p = self.skip_attrs(t, p)
                v, p = self.val(ty, t, p)
                args.append(v)
            tys.append(ty)
            if t[p] == ",":
                p += 1
        asg = "%s=" % dst if dst else ""
        if callee is None:
            return ["%scallptr(%d,%s)" % (asg, cv, "".join(a + "," for a in args))]
        if callee[0] == "%":
            return ["%scallptr(%s,%s)" % (asg, self.loc(callee), "".join(a + "," for a in args))]
        name = unq(callee)
        if name.startswith("llvm."):
            return self.intrinsic(dst, name, rty, args, tys)
        return ["%sfn(%r)(%s)" % (asg, name, ",".join(args))] if name not in m.funcs else [
            "%sfun[%r](%s)" % (asg, name, ",".join(args))]

    def intrinsic(self, dst, name, rty, args, tys):
        n = name.split(".")
        b = n[1]
        if b in ("lifetime", "experimental", "dbg", "assume", "prefetch", "invariant", "donothing", "pseudoprobe", "sideeffect", "launder", "strip"):
            if dst:
                return ["%s=%s" % (dst, args[0])]
            return []
        if b == "memcpy" or b == "memmove":
            return ["memmove(%s,%s,%s)" % (args[0], args[1], args[2])]
        if b == "memset":
            return ["memset(%s,%s,%s)" % (args[0], args[1], args[2])]
        if b == "trap" or b == "ubsantrap":
            return ["trap()"]
        if b == "is" and n[2] == "constant":
            return ["%s=0" % dst]
        if b in ("expect",):
            return ["%s=%s" % (dst, args[0])]
        if b == "threadlocal":
            return ["%s=%s" % (dst, args[0])]
        if b == "objectsize":
            return ["%s=%d" % (dst, MASK[64])]
        if b == "x86":
            if name == "llvm.x86.sse2.pause":
                return []
            if name == "llvm.x86.sse2.pmovmskb.128":
                return ["%s=zext(vpack(tuple(ext(_x,7,1) for _x in %s),1),16,32)" % (dst, args[0])]
        ty = tys[0] if tys else None
        if ty and ty[0] == "i":
            w = ty[1]
            if b in ("umin", "umax", "smin", "smax"):
                c = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[b]
                return ["%s=ite(%s(%s,%s,%d),%s,%s,%d)" % (dst, c, args[0], args[1], w, args[0], args[1], w)]
            if b in ("bswap", "bitreverse", "ctpop"):
                return ["%s=%s(%s,%d)" % (dst, b, args[0], w)]
            if b in ("ctlz", "cttz"):
                return ["%s=%s(%s,%d)" % (dst, b, args[0], w)]
            if b == "abs":
                return ["%s=ite(slt(%s,0,%d),sub(0,%s,%d),%s,%d)" % (dst, args[0], w, args[0], w, args[0], w)]
            if b in ("fshl", "fshr"):
                return ["%s=%s(%s,%s,%s,%d)" % (dst, b, args[0], args[1], args[2], w)]
            if b in ("uadd", "usub", "umul", "sadd", "ssub", "smul"):
                if n[2] == "with":
                    return ["%s=%s_ov(%s,%s,%d)" % (dst, b, args[0], args[1], w)]
                if n[2] == "sat":
                    return ["%s=%s_sat(%s,%s,%d)" % (dst, b, args[0], args[1], w)]
            if b in ("ucmp", "scmp"):
                lt = "ult" if b == "ucmp" else "slt"
                rw = rty[1]
                return ["%s=ite(%s(%s,%s,%d),%d,ite(eq(%s,%s,%d),0,1,%d),%d)" % (
                    dst, lt, args[0], args[1], w, MASK[rw], args[0], args[1], w, rw, rw)]
        if ty and ty[0] == "vec" and b == "vector" and n[2] == "reduce":
            w = self.m.bits(ty[2])
            fn = {"add": "add", "or": "or_", "and": "and_", "xor": "xor", "mul": "mul"}.get(n[3])
            if fn:
                return ["%s=vreduce(%s,%s,%d)" % (dst, fn, args[0], w)]
        raise Unsupported("intrinsic " + name)
