"""Parser for the subset of textual LLVM IR that clang emits for the harnesses."""
import re

TOK = re.compile(r'''
   (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glo>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMH]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<q>"[^"]*")
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


class IRError(Exception):
    pass


# types: ("i", n) ("ptr",) ("void",) ("arr", n, t) ("struct", (t...), packed) ("vec", n, t) ("fp", bits) ("named", n) ...
PTR = ("ptr",)
VOID = ("void",)


class Fn:
    __slots__ = ("name", "ret", "params", "blocks", "order", "varargs", "defined", "attrs", "cache")


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> (type, init or None, constant?)
        self.fns = {}
        self.aliases = {}
        self.ctors = []


class Toks:
    __slots__ = ("t", "i", "line")

    def __init__(self, line):
        self.line = line
        self.t = []
        pos = 0
        n = len(line)
        while pos < n:
            c = line[pos]
            if c in " \t":
                pos += 1
                continue
            if c == ";":
                break
            m = TOK.match(line, pos)
            if not m:
                raise IRError("lex %r at %r" % (line[:200], line[pos:pos + 20]))
            self.t.append((m.lastgroup, m.group()))
            pos = m.end()
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise IRError("expected %r at %d in %r (got %r)" % (v, self.i, self.line[:300], self.peek()))


def unq(s):
    if s[1:2] == '"':
        return s[0] + s[2:-1]
    return s


class Parser:
    def __init__(self):
        self.m = Module()

    # ------------------------------------------------------------- types
    def type(self, k):
        v = k.next()
        if v == "ptr":
            t = PTR
            if k.peek() == "addrspace":
                k.next(); k.expect("("); k.next(); k.expect(")")
        elif v == "void":
            t = VOID
        elif v[0] == "i" and v[1:].isdigit():
            t = ("i", int(v[1:]))
        elif v == "float":
            t = ("fp", 32)
        elif v == "double":
            t = ("fp", 64)
        elif v == "x86_fp80":
            t = ("fp", 80)
        elif v in ("label", "metadata", "token"):
            t = (v,)
        elif v == "[":
            n = int(k.next()); k.expect("x")
            e = self.type(k); k.expect("]")
            t = ("arr", n, e)
        elif v == "<":
            if k.peek() == "{":
                k.next()
                t = ("struct", tuple(self.typelist(k, "}")), True)
                k.expect(">")
            else:
                n = int(k.next()); k.expect("x")
                e = self.type(k); k.expect(">")
                t = ("vec", n, e)
        elif v == "{":
            t = ("struct", tuple(self.typelist(k, "}")), False)
        elif v[0] == "%":
            t = ("named", unq(v))
        elif v == "opaque":
            t = ("opaque",)
        else:
            raise IRError("type %r in %r" % (v, k.line[:200]))
        while k.peek() == "(" and t != VOID or (t == VOID and k.peek() == "("):
            # function type
            k.next()
            ps = self.typelist(k, ")")
            t = ("fn", t, tuple(ps))
        return t

    def typelist(self, k, end):
        r = []
        if k.eat(end):
            return r
        while True:
            if k.eat("..."):
                r.append(("...",))
            else:
                r.append(self.type(k))
            if k.eat(end):
                return r
            k.expect(",")

    # ------------------------------------------------------------- values
    def value(self, k, ty):
        kind = k.kind()
        v = k.next()
        if kind == "loc":
            return ("l", unq(v))
        if kind == "glo":
            return ("g", unq(v))
        if kind == "num":
            if ty[0] == "fp":
                return ("fp", v)
            return ("c", int(v))
        if kind == "hex":
            return ("fp", v)
        if kind == "str":
            raw = v[2:-1]
            out = []
            i = 0
            while i < len(raw):
                if raw[i] == "\\":
                    if raw[i + 1] == "\\":
                        out.append(92); i += 2
                    else:
                        out.append(int(raw[i + 1:i + 3], 16)); i += 3
                else:
                    out.append(ord(raw[i])); i += 1
            return ("bytes", bytes(out))
        if v in ("true", "false"):
            return ("c", 1 if v == "true" else 0)
        if v in ("null", "zeroinitializer"):
            return ("zero",)
        if v in ("undef", "poison"):
            return ("undef",)
        if v == "[" or v == "{" or v == "<":
            end = {"[": "]", "{": "}", "<": ">"}[v]
            packed = False
            if v == "<" and k.peek() == "{":
                k.next(); end = "}"; packed = True
            items = []
            if not k.eat(end):
                while True:
                    t = self.type(k)
                    items.append((t, self.value(k, t)))
                    if k.eat(end):
                        break
                    k.expect(",")
            if packed:
                k.expect(">")
            return ("agg", items)
        if v == "getelementptr":
            ib = False
            while k.peek() in ("inbounds", "nuw", "nusw") or k.peek() == "inrange":
                if k.next() == "inrange":
                    k.expect("(")
                    while not k.eat(")"):
                        k.next()
            k.expect("(")
            t = self.type(k); k.expect(",")
            ops = self.tvlist(k, ")")
            return ("gep", t, ops)
        if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            k.expect("(")
            t = self.type(k)
            x = self.value(k, t)
            k.expect("to")
            t2 = self.type(k)
            k.expect(")")
            return ("cast", v, t, x, t2)
        if v in ("add", "sub", "mul", "xor", "and", "or", "shl"):
            while k.peek() in ("nuw", "nsw"):
                k.next()
            k.expect("(")
            ops = self.tvlist(k, ")")
            return ("cbin", v, ops)
        if v == "dso_local_equivalent" or v == "no_cfi":
            return self.value(k, ty)
        if v == "splat":
            k.expect("(")
            t = self.type(k)
            x = self.value(k, t)
            k.expect(")")
            return ("splat", x)
        raise IRError("value %r in %r" % (v, k.line[:300]))

    def tvlist(self, k, end):
        r = []
        if k.eat(end):
            return r
        while True:
            k.eat("inrange")
            t = self.type(k)
            r.append((t, self.value(k, t)))
            if k.eat(end):
                return r
            k.expect(",")

    PATTR = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "returned", "zeroext", "signext",
             "noalias", "inreg", "immarg", "noreturn", "nofree", "swiftself", "allocptr", "nest", "writable",
             "dead_on_unwind", "allocalign", "inalloca", "dead_on_return"}

    def pattrs(self, k):
        while True:
            v = k.peek()
            if v in self.PATTR:
                k.next()
            elif v in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "align", "range", "initializes", "nofpclass",
                       "captures", "elementtype", "preallocated", "byref"):
                k.next()
                if v == "align" and k.peek() != "(":
                    k.next()
                else:
                    k.expect("(")
                    d = 1
                    while d:
                        x = k.next()
                        d += (x == "(") - (x == ")")
            else:
                return

    def callargs(self, k):
        r = []
        k.expect("(")
        if k.eat(")"):
            return r
        while True:
            t = self.type(k)
            self.pattrs(k)
            if t == ("metadata",):
                # skip
                d = 0
                while not (d == 0 and k.peek() in (",", ")")):
                    x = k.next()
                    d += (x == "(") - (x == ")")
                r.append((t, ("undef",)))
            else:
                r.append((t, self.value(k, t)))
            if k.eat(")"):
                return r
            k.expect(",")

    FLAGS = {"nuw", "nsw", "exact", "disjoint", "inbounds", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp",
             "contract", "afn", "reassoc", "nusw"}
    CC = {"fastcc", "ccc", "coldcc", "tailcc"}

    # ------------------------------------------------------------- instructions
    def instr(self, line):
        k = Toks(line)
        res = None
        if k.kind() == "loc" and k.peek(1) == "=":
            res = unq(k.next())
            k.next()
        op = k.next()
        if op in ("tail", "musttail", "notail"):
            op = k.next()
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
                  "fadd", "fsub", "fmul", "fdiv"):
            while k.peek() in self.FLAGS:
                k.next()
            t = self.type(k)
            x = self.value(k, t); k.expect(",")
            y = self.value(k, t)
            return (op, res, t, x, y)
        if op in ("icmp", "fcmp"):
            while k.peek() in self.FLAGS:
                k.next()
            pred = k.next()
            t = self.type(k)
            x = self.value(k, t); k.expect(",")
            y = self.value(k, t)
            return (op, res, pred, t, x, y)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptoui", "fptosi", "uitofp", "sitofp",
                  "fpext", "fptrunc", "addrspacecast"):
            while k.peek() in self.FLAGS:
                k.next()
            t = self.type(k)
            x = self.value(k, t)
            k.expect("to")
            t2 = self.type(k)
            return (op, res, t, x, t2)
        if op == "load":
            while k.peek() in ("volatile", "atomic"):
                k.next()
            t = self.type(k); k.expect(",")
            pt = self.type(k)
            return ("load", res, t, self.value(k, pt))
        if op == "store":
            while k.peek() in ("volatile", "atomic"):
                k.next()
            t = self.type(k)
            v = self.value(k, t); k.expect(",")
            pt = self.type(k)
            return ("store", None, t, v, self.value(k, pt))
        if op == "getelementptr":
            while k.peek() in self.FLAGS:
                k.next()
            t = self.type(k); k.expect(",")
            ops = []
            while True:
                tt = self.type(k)
                ops.append((tt, self.value(k, tt)))
                if not k.eat(","):
                    break
                if k.kind() == "md":
                    break
            return ("gep", res, t, ops)
        if op == "alloca":
            while k.peek() in ("inalloca",):
                k.next()
            t = self.type(k)
            n = None
            if k.eat(","):
                if k.peek() != "align":
                    tt = self.type(k)
                    n = (tt, self.value(k, tt))
            return ("alloca", res, t, n)
        if op == "br":
            if k.eat("label"):
                return ("br", None, unq(k.next()))
            t = self.type(k)
            c = self.value(k, t); k.expect(",")
            k.expect("label"); a = unq(k.next()); k.expect(",")
            k.expect("label"); b = unq(k.next())
            return ("condbr", None, c, a, b)
        if op == "switch":
            t = self.type(k)
            v = self.value(k, t); k.expect(",")
            k.expect("label"); d = unq(k.next())
            k.expect("[")
            cases = []
            while not k.eat("]"):
                ct = self.type(k)
                cv = self.value(k, ct); k.expect(",")
                k.expect("label")
                cases.append((cv, unq(k.next())))
            return ("switch", None, t, v, d, cases)
        if op == "ret":
            t = self.type(k)
            if t == VOID:
                return ("ret", None, t, None)
            return ("ret", None, t, self.value(k, t))
        if op == "phi":
            while k.peek() in self.FLAGS:
                k.next()
            t = self.type(k)
            inc = []
            while True:
                k.expect("[")
                v = self.value(k, t); k.expect(",")
                inc.append((v, unq(k.next())))
                k.expect("]")
                if not k.eat(","):
                    break
            return ("phi", res, t, inc)
        if op == "select":
            while k.peek() in self.FLAGS:
                k.next()
            ct = self.type(k); c = self.value(k, ct); k.expect(",")
            t = self.type(k); x = self.value(k, t); k.expect(",")
            self.type(k); y = self.value(k, t)
            return ("select", res, t, c, x, y, ct)
        if op in ("call", "invoke"):
            while k.peek() in self.FLAGS or k.peek() in self.CC:
                k.next()
            self.pattrs(k)
            t = self.type(k)
            if t[0] == "fn":
                t = t[1]
            kind = k.kind()
            if kind == "word" and k.peek() == "asm":
                k.next()
                while k.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"):
                    k.next()
                a = k.next(); k.expect(","); c = k.next()
                callee = ("asm", a, c)
            else:
                callee = self.value(k, PTR)
            args = self.callargs(k)
            nd = ud = None
            if op == "invoke":
                while k.peek() != "to":
                    k.next()
                k.expect("to"); k.expect("label"); nd = unq(k.next())
                k.expect("unwind"); k.expect("label"); ud = unq(k.next())
            return ("call", res, t, callee, args, nd, ud)
        if op == "unreachable":
            return ("unreachable", None)
        if op == "extractvalue":
            t = self.type(k)
            v = self.value(k, t)
            idx = []
            while k.eat(","):
                idx.append(int(k.next()))
            return ("extractvalue", res, t, v, idx)
        if op == "insertvalue":
            t = self.type(k)
            v = self.value(k, t); k.expect(",")
            et = self.type(k)
            e = self.value(k, et)
            idx = []
            while k.eat(","):
                idx.append(int(k.next()))
            return ("insertvalue", res, t, v, et, e, idx)
        if op == "landingpad":
            t = self.type(k)
            cl = []
            while k.peek():
                w = k.next()
                if w == "cleanup":
                    cl.append(("cleanup",))
                elif w == "catch":
                    ct = self.type(k)
                    cl.append(("catch", self.value(k, ct)))
                elif w == "filter":
                    ct = self.type(k)
                    cl.append(("filter", self.value(k, ct)))
                else:
                    break
            return ("landingpad", res, t, cl)
        if op == "resume":
            t = self.type(k)
            return ("resume", None, t, self.value(k, t))
        if op == "freeze":
            t = self.type(k)
            return ("freeze", res, t, self.value(k, t))
        if op in ("extractelement", "insertelement", "shufflevector"):
            ops = []
            while True:
                t = self.type(k)
                ops.append((t, self.value(k, t)))
                if not k.eat(","):
                    break
            return (op, res, ops)
        if op == "fence":
            return ("nop", None)
        if op == "fneg":
            t = self.type(k)
            return ("fneg", res, t, self.value(k, t))
        if op in ("cmpxchg", "atomicrmw"):
            return ("unsupported", res, op)
        raise IRError("instruction %r" % line)

    # ------------------------------------------------------------- module
    def parse(self, text):
        m = self.m
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            i += 1
            if not l or l[0] in ";!\n" or l.startswith("source_filename") or l.startswith("target ") or \
                    l.startswith("attributes") or l.startswith("module asm") or l.startswith("$"):
                continue
            if l[0] == "%":
                k = Toks(l)
                nm = unq(k.next()); k.expect("="); k.expect("type")
                m.types[nm] = self.type(k)
                continue
            if l[0] == "@":
                self.glob(l)
                continue
            if l.startswith("declare"):
                self.fnhead(l, False)
                continue
            if l.startswith("define"):
                f = self.fnhead(l, True)
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                self.body(f, body)
                continue
            raise IRError("top %r" % l[:200])
        return m

    def glob(self, l):
        k = Toks(l)
        nm = unq(k.next())
        k.expect("=")
        ext = False
        while True:
            v = k.peek()
            if v in ("global", "constant"):
                const = k.next() == "constant"
                break
            if v == "alias":
                k.next()
                t = self.type(k); k.expect(",")
                tt = self.type(k)
                self.m.aliases[nm] = self.value(k, tt)
                return
            if v == "external" or v == "extern_weak":
                ext = True
            k.next()
            if v in ("thread_local", "addrspace") and k.peek() == "(":
                while k.next() != ")":
                    pass
        t = self.type(k)
        init = None
        if not ext:
            init = self.value(k, t)
        if nm == "@llvm.global_ctors":
            if init[0] == "agg":
                for _, e in init[1]:
                    self.m.ctors.append((e[1][0][1][1], e[1][1][1]))
            return
        self.m.globals[nm] = (t, init, const)

    def fnhead(self, l, defined):
        k = Toks(l)
        k.next()
        while k.kind() != "glo":
            v = k.peek()
            if v in ("dso_local", "local_unnamed_addr", "hidden", "protected", "default", "linkonce_odr", "weak_odr", "internal", "private",
                     "available_externally", "linkonce", "weak", "external", "extern_weak", "unnamed_addr", "dso_preemptable") or v in self.CC:
                k.next()
                continue
            self.pattrs(k)
            if k.kind() == "glo":
                break
            ret = self.type(k)
        f = Fn()
        f.name = unq(k.next())
        f.ret = ret
        f.params = []
        f.varargs = False
        f.defined = defined
        f.cache = None
        k.expect("(")
        if not k.eat(")"):
            while True:
                if k.eat("..."):
                    f.varargs = True
                else:
                    t = self.type(k)
                    self.pattrs(k)
                    nm = None
                    if k.kind() == "loc":
                        nm = unq(k.next())
                    f.params.append((t, nm))
                if k.eat(")"):
                    break
                k.expect(",")
        f.blocks = {}
        f.order = []
        if defined or f.name not in self.m.fns:
            self.m.fns[f.name] = f
        return f

    def body(self, f, lines):
        # unnamed parameters and entry block get sequential numbers
        cnt = 0
        ps = []
        for t, nm in f.params:
            if nm is None:
                nm = "%%%d" % cnt
            if nm[1:].isdigit():
                cnt = int(nm[1:]) + 1
            ps.append((t, nm))
        f.params = ps
        cur = None
        i = 0
        n = len(lines)
        lab = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):')
        while i < n:
            l = lines[i]
            i += 1
            s = l.strip()
            if not s or s[0] == ";":
                continue
            m = lab.match(l)
            if m:
                cur = "%" + m.group(1).strip('"')
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = "%%%d" % cnt
                f.blocks[cur] = []
                f.order.append(cur)
            if s.startswith("switch") and not s.rstrip().endswith("]"):
                while True:
                    x = lines[i].strip()
                    i += 1
                    s += " " + x
                    if x.startswith("]"):
                        break
            # continuation lines of invoke / landingpad
            while i < n and lines[i].startswith("          "):
                s += " " + lines[i].strip()
                i += 1
            j = s.find(", !")
            if j >= 0 and "metadata" not in s:
                s = s[:j]
            f.blocks[cur].append(s)

    def finish(self, f):
        """parse a function body on first use"""
        if f.cache is None:
            f.cache = {b: [self.instr(s) for s in ls if not s.startswith("#dbg")] for b, ls in f.blocks.items()}
        return f.cache


def parse(text):
    p = Parser()
    m = p.parse(text)
    m.parser = p
    return m
