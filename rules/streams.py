"""Output streams in value numbering: what is written to a stream, in which order, is a value like any other.
Items of a stream: text, numbers (with their type and the format in force), bytes of values (with the byte order asked
for) and raw characters.  A buffered writer keeps its items until it is flushed or ends."""
import qa, alg, vn
from alg import apply
from vnlib import *

W = "queso::BinaryBufferWriter"
MANIP = {"std::fixed", "std::scientific", "std::defaultfloat", "std::setprecision", "std::setw", "std::setfill", "std::hex", "std::dec", "std::oct", "std::showpos", "std::noshowpos", "std::boolalpha", "std::noboolalpha", "std::left", "std::right", "std::internal", "std::showpoint", "std::noshowpoint"}
PASS = {"std::endl", "std::flush", "std::ends"}


class Streams:
    """hooks for std::ostream and the buffered writer.  state: 'ok', 'noopen' (the file cannot be opened), 'fail' (writing fails at once), 'late' (writing fails
    when the stream passes its buffer on: at a flush or when it is closed)"""
    def __init__(self, P, state="ok", writer=True):
        self.P = P; self.state = state; self.h = {}; self.bad = []
        for tu in P.tus:
            for d in tu.decls:
                if d.k != "fn" or not d.q:
                    continue
                if d.n == "operator<<" and d.q.startswith("std::"): self.h[d.q] = self.shift
                elif d.q.startswith("std::") and d.n in ("write", "put", "flush", "good", "fail", "bad", "is_open", "close", "operator!", "operator bool", "open", "eof", "precision", "setf", "clear") and ("stream" in d.q or "std::basic_ios" in d.q or "ios_base" in d.q):
                    self.h[d.q] = self.member
                elif d.q.startswith("std::set") and d.q in MANIP: self.h[d.q] = self.manip
                elif d.q in ("memcpy", "std::memcpy", "memmove", "std::memmove"): self.h[d.q] = self.memcpy
                elif writer and d.rec and d.q.startswith(W + "::"):
                    if d.ctor: self.h[d.q] = self.wctor
                    elif d.n == "WriteValue": self.h[d.q] = self.wvalue
                    elif d.n == "WriteRaw": self.h[d.q] = self.wraw
                    elif d.n == "Flush": self.h[d.q] = self.wflush

    def install(self, M):
        M.hooks.update(self.h)
        M.dtors = {W: self.wend}
        M.construct_stream = self.ctor
        return M

    # ---- items
    def log(self, S, root):
        return S.st.get(("io", root)) or L(Agg({}, None, None))

    def push(self, S, ref, item, drained=False):
        r = self.rootof(ref)
        if r is None: return
        if not drained:
            for v in S.st.values():
                if v.c is None and isinstance(v.leaf, Agg) and "items" in v.leaf.f and "out" in v.leaf.f:
                    i, o = v.leaf.f["items"], v.leaf.f["out"]
                    if (i.c is not None or not isinstance(i.leaf, Agg) or i.leaf.f) and (o.c is not None or self.rootof(o) == r):
                        self.bad.append("the stream is written to directly while a buffered writer holds data for it")
        S.st[("io", r)] = apply(lambda a: L(Agg(dict(a.f, **{}) | {len(a.f): item}, None, None)) if isinstance(a, Agg) else L(a), self.log(S, r))

    def rootof(self, ref):
        if ref.c is not None or not isinstance(ref.leaf, Ref):
            self.bad.append("stream that depends on %s" % str(ref)[:80]); return None
        r = ref.leaf
        return r.root if not r.path else (r.root,) + tuple(r.path)

    @staticmethod
    def item(kind, **f):
        return L(Agg(dict({"kind": L(vn.Str(kind))}, **f), None, None))

    # ---- hooks
    def stream(self, M, S, fr, n):
        return M.objof(S, fr, n) if n.raw.get("mc") else M.lv(S, fr, n.args[0])

    def shift(self, M, S, fr, n):
        A = n.args if n.raw.get("mc") else n.args[1:]
        st = self.stream(M, S, fr, n)
        if not A: return None
        a = A[-1]
        t = a.type.noref if a.type is not None else None
        r = None
        nm = self.manipname(a)
        if nm in ("std::endl", "std::flush") and (r := self.rootof(st)) is not None: S.st[("passed on", r)] = L(True)
        if nm in PASS: return self.push(S, st, self.item("text", v=L(vn.Str("\n"))) ) or st if nm == "std::endl" else st
        if nm in MANIP:
            arg = L(None)
            for c in a.walk():
                if c.decl is not None and c.decl.k == "fn" and c.decl.q == nm and c.args:
                    arg = M.rv(S, fr, c.args[0])
            self.push(S, st, self.item("manip", v=L(vn.Str(nm)), x=arg)); return st
        x = M.text(S, fr, a)
        if x is not None:
            self.push(S, st, self.item("text", v=L(vn.Str(x)))); return st
        if t is not None and t.int == 8 and not t.uns and t.s.replace("const ", "") == "char":
            v = M.rv(S, fr, a)
            c = v.leaf.const if v.c is None and isinstance(v.leaf, RF) else None
            if c is not None:
                self.push(S, st, self.item("text", v=L(vn.Str(chr(int(c)))))); return st
        if t is not None and (t.int or t.flt or t.enum) and not t.ptr:
            self.push(S, st, self.item("num", v=M.rv(S, fr, a), t=L(vn.Str("float" if t.flt else "bool" if t.int == 1 else "int")))); return st
        v = M.rv(S, fr, a)
        if t is not None and t.tmpl in ("std::basic_string", "std::basic_string_view"):
            def each(s): return s
            self.push(S, st, self.item("text", v=v)); return st
        self.push(S, st, self.item("other", v=v)); return st

    def manipname(self, a):
        for c in a.walk():
            if c.decl is not None and c.decl.k == "fn" and c.decl.q and (c.decl.q in MANIP or c.decl.q in PASS):
                return c.decl.q
        return None

    def manip(self, M, S, fr, n): return None

    def member(self, M, S, fr, n):
        if not n.raw.get("mc"): return None
        st = M.objof(S, fr, n)
        r = self.rootof(st)
        wrote = False
        if r is not None:
            l = self.log(S, r)
            wrote = l.c is not None or bool(l.leaf.f)
        bad = self.state == "noopen" or self.state == "fail" and wrote or self.state == "late" and ("passed on", r) in S.st
        nm = n.decl.n
        if nm in ("good", "operator bool"): return L(not bad)
        if nm in ("fail", "bad", "operator!"): return L(bad)
        if nm == "is_open": return L(self.state != "noopen")
        if nm == "eof": return L(False)
        if nm in ("flush", "close"):
            if r is not None and wrote: S.st[("passed on", r)] = L(True)
            return st
        if nm == "put":
            v = M.rv(S, fr, n.args[0]); self.push(S, st, self.item("raw", v=v)); return st
        if nm == "write" and M.bytes:
            return self.bytes(M, S, st, M.rv(S, fr, n.args[0]), M.rv(S, fr, n.args[1]))
        if nm == "write":
            self.push(S, st, self.item("raw", v=M.rv(S, fr, n.args[0]), x=M.rv(S, fr, n.args[1]))); return st
        if nm in ("precision", "setf"):
            self.push(S, st, self.item("manip", v=L(vn.Str("std::setprecision" if nm == "precision" else "std::fixed")), x=M.rv(S, fr, n.args[0]) if n.args else L(None))); return st
        return None

    def bytes(self, M, S, st, p, size):
        """single bytes from memory"""
        n = int(size.leaf.const) if size.c is None and isinstance(size.leaf, RF) and size.leaf.const is not None else None
        if n is None:
            self.bad.append("number of bytes %s" % str(size)[:80]); return st
        for i in range(n):
            self.push(S, st, self.item("byte", v=M.load(S, M.index(S, p, L(rf(i)), None))))
        return st

    def memcpy(self, M, S, fr, n):
        if not M.bytes: return None
        d, s, m = [M.rv(S, fr, a) for a in n.args[:3]]
        c = int(m.leaf.const) if m.c is None and isinstance(m.leaf, RF) and m.leaf.const is not None else None
        if c is None:
            self.bad.append("number of bytes %s" % str(m)[:80]); return d
        e = n.args[1]
        while e.k == "ImplicitCastExpr" and e.ch and (e.type is None or e.type.ptr) and e.ch[0].type is not None and e.ch[0].type.ptr:
            e = e.ch[0]
        s = M.bytesof(S, s, e.type)
        vs = [M.load(S, M.index(S, s, L(rf(i)), None)) for i in range(c)]
        for i, v in enumerate(vs):
            o = M.index(S, d, L(rf(i)), None)
            if o.c is None and isinstance(o.leaf, Ref) and o.leaf.path and isinstance(o.leaf.path[-1], int):
                a = M.load1(S, Ref(o.leaf.root, o.leaf.path[:-1], None))
                if a.c is None and isinstance(a.leaf, Agg) and a.leaf.base is None and o.leaf.path[-1] not in a.leaf.f:
                    self.bad.append("bytes are written beyond the end of the buffer"); return d
            M.store(S, o, v)
        return d

    def ctor(self, M, S, fr, n):
        """a file stream: an object of its own; how it was opened is kept with it"""
        t = n.type
        if t is None or not (t.noref.tmpl in ("std::basic_ofstream", "std::basic_ostringstream", "std::basic_stringstream", "std::basic_fstream")):
            return None
        return L(Agg({"mode": M.rv(S, fr, n.args[1]) if len(n.args) > 1 and not n.args[1].da else L(None), "name": M.rv(S, fr, n.args[0]) if n.args else L(None)}, None, None))

    def wctor(self, M, S, fr, n):
        if n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): return None
        out = end = None
        for a in n.args:
            t = a.type.noref if a.type is not None else None
            if t is not None and "stream" in t.s: out = M.lv(S, fr, a)
            elif t is not None and (t.enum or "Endian" in t.s): end = M.rv(S, fr, a)
        if out is None or end is None: return None
        return L(Agg({"out": out, "end": end, "items": L(Agg({}, None, None))}, None, n.type))

    def wobj(self, M, S, fr, n):
        o = M.objof(S, fr, n)
        return o

    def wput(self, M, S, o, item):
        if o.c is not None or not isinstance(o.leaf, Ref):
            self.bad.append("writer that depends on %s" % str(o)[:80]); return L(None)
        r = o.leaf
        cur = M.load1(S, r.sub("items", None))
        M.store1(S, r.sub("items", None), apply(lambda a: L(Agg(dict(a.f) | {len(a.f): item}, None, None)) if isinstance(a, Agg) else L(a), cur))
        return L(None)

    def wvalue(self, M, S, fr, n):
        o = M.objof(S, fr, n); a = n.args[0]
        pt = n.decl.tu.types[n.decl.raw["pt"][0]].noref
        t = pt
        v = M.rv(S, fr, a)
        size = {"double": 8, "float": 4}.get(t.s.replace("const ", ""), None) if t.flt else ((t.int + 7) // 8 if t.int else None)
        end = M.load1(S, o.leaf.sub("end", None)) if o.c is None and isinstance(o.leaf, Ref) else L(None)
        return self.wput(M, S, o, self.item("value", v=v, size=L(rf(size or 0)), t=L(vn.Str("float" if t.flt else "int")), end=end))

    def wraw(self, M, S, fr, n):
        o = M.objof(S, fr, n)
        x = M.text(S, fr, n.args[0])
        v = M.rv(S, fr, n.args[0])
        if x is None and v.c is None and isinstance(v.leaf, (Ref, alg.Itr)):
            # characters of a local array that is filled at run time: only their number is known
            r = v.leaf if isinstance(v.leaf, Ref) else v.leaf.ref
            t = M.rtype.get(r.root)
            if t is not None and not r.path and (t.tmpl == "std::array" and t.args and getattr(t.args[0], "int", None) == 8 or t.arr and t.p is not None and t.p.int == 8):
                x = "\0"
        return self.wput(M, S, o, self.item("raw", v=L(vn.Str(x)) if x is not None else v, x=M.rv(S, fr, n.args[1])))

    def drain(self, M, S, r):
        o = M.load1(S, r.sub("out", None)); items = M.load1(S, r.sub("items", None))
        if items.c is not None or not isinstance(items.leaf, Agg) or items.leaf.base is not None:
            self.bad.append("what the buffered writer holds does not fold"); return
        for i in sorted(items.leaf.f): self.push(S, o, items.leaf.f[i], True)
        M.store1(S, r.sub("items", None), L(Agg({}, None, None)))

    def wflush(self, M, S, fr, n):
        o = M.objof(S, fr, n)
        if o.c is None and isinstance(o.leaf, Ref): self.drain(M, S, o.leaf)
        return L(None)

    def wend(self, M, S, ref):
        self.drain(M, S, ref)

    # ---- reading the log
    def content(self, S, name=None):
        """items of the only stream written to, as a list of dictionaries, or None"""
        ks = [k for k in S.st if isinstance(k, tuple) and k and k[0] == "io" and not (S.st[k].c is None and isinstance(S.st[k].leaf, Agg) and not S.st[k].leaf.f)]
        if not ks: return []
        if len(ks) > 1: return None
        v = S.st[ks[0]]
        if v.c is not None or not isinstance(v.leaf, Agg): return None
        return [v.leaf.f[i].leaf.f for i in sorted(v.leaf.f)]


def render(items):
    """normal form of the items: adjacent text merged (integer constants are text), numbers carry the format in force"""
    out = []; fixed = False; prec = 6
    def text(s):
        if out and out[-1][0] == "text": out[-1] = ("text", out[-1][1] + s)
        else: out.append(("text", s))
    for it in items:
        k = it["kind"].leaf.s
        v = it.get("v")
        c = v.leaf.const if v is not None and v.c is None and isinstance(v.leaf, RF) else None
        if k == "text":
            if v.c is None and isinstance(v.leaf, vn.Str): text(v.leaf.s)
            else: out.append(("string", v))
        elif k == "num":
            if it["t"].leaf.s == "int" and c is not None: text(str(int(c)))
            else: out.append(("num", v, it["t"].leaf.s, fixed, prec))
        elif k == "manip":
            if v.leaf.s == "std::fixed": fixed = True
            elif v.leaf.s == "std::setprecision": prec = int(it["x"].leaf.const) if isinstance(it["x"].leaf, RF) and it["x"].leaf.const is not None else -1
            elif v.leaf.s == "std::defaultfloat": fixed = False
            else: out.append(("manip", v.leaf.s))
        elif k == "value":
            out.append(("value", v, int(it["size"].leaf.const), it["t"].leaf.s, it["end"]))
        elif k == "raw":
            x = it.get("x")
            n = int(x.leaf.const) if x is not None and x.c is None and isinstance(x.leaf, RF) and x.leaf.const is not None else None
            out.append(("raw", v.leaf.s if v.c is None and isinstance(v.leaf, vn.Str) else v, n))
        else:
            out.append(("other", v))
    return [o for o in out if o != ("text", "")]
