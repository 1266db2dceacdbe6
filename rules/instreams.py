"""Input streams in value numbering: a file is a sequence of bytes, some of them constants, some of them the bytes of a symbol
(binary) or the digits of one (text).  The position and the state flags are values like any other."""
import struct
import qa, alg, vn
from alg import apply
from vnlib import *

BAD, FAIL, EOF = 1, 2, 4
SYM = "\x01%d\x02"      # digits of symbol i in a text


class Inputs:
    """hooks for std::istream, std::ifstream and std::istringstream over one file; data: list of byte entries (int, or (i, size, k): byte k of symbol i)"""
    def __init__(self, P, data, syms, opens=True):
        self.P = P; self.data = data; self.syms = syms; self.opens = opens; self.bad = []; self.h = {}; self.opened = 0
        for tu in P.tus:
            for d in tu.decls:
                if d.k != "fn" or not d.q or not d.q.startswith("std::"): continue
                if d.n == "getline": self.h[d.q] = self.getline
                elif d.n == "operator>>": self.h[d.q] = self.extract
                elif d.n == "operator<<": self.h[d.q] = self.append
                elif d.n in ("str", "read", "good", "fail", "bad", "eof", "operator!", "operator bool", "gcount", "clear", "seekg", "tellg", "is_open", "close", "get", "peek", "ignore", "rdstate") and ("stream" in d.q or "basic_ios" in d.q):
                    self.h[d.q] = self.member

    def install(self, M):
        M.hooks.update(self.h); M.construct_stream = self.ctor; M.strays = self
        return M

    @staticmethod
    def text(s):
        return [ord(c) for c in s]

    def ctor(self, M, S, fr, n):
        t = n.type
        if t is None: return None
        tm = t.noref.tmpl
        if tm in ("std::basic_ifstream", "std::basic_fstream"):
            self.opened += 1
            return L(Agg({"file": L(True)}, None, None))
        if tm in ("std::basic_istringstream", "std::basic_stringstream"):
            args = [a for a in n.args if not a.da and a.type is not None and not a.type.noref.enum]
            s = M.text(S, fr, args[0]) if args else ""
            if s is None:
                self.bad.append("text that depends on unknowns is parsed"); s = ""
            return L(Agg({"text": L(vn.Str(s))}, None, None))
        return None

    # ---- state
    def open(self, M, S, ref):
        """(key, content, pos, flags) of a stream"""
        if ref.c is not None or not isinstance(ref.leaf, Ref):
            self.bad.append("stream that depends on %s" % str(ref)[:60]); return None
        v = M.load(S, ref)
        if v.c is not None or not isinstance(v.leaf, Agg):
            self.bad.append("stream of unknown origin"); return None
        r = ref.leaf; key = ("in", r.root) + tuple(r.path)
        text = v.leaf.f.get("text")
        data = self.text(text.leaf.s) if text is not None else self.data
        st = S.st.get(key)
        if st is None: return key, data, 0, (0 if text is not None or self.opens else FAIL), 0
        if st.c is not None:
            self.bad.append("position in the file depends on a condition"); return None
        x = [st.leaf.f[i] for i in (0, 1, 2)] if isinstance(st.leaf, Agg) else []
        if not x or any(i.c is not None or not isinstance(i.leaf, RF) or i.leaf.const is None for i in x):
            self.bad.append("position in the file depends on a condition"); return None
        p, f, g = [int(i.leaf.const) for i in x]
        return key, data, p, f, g

    def put(self, S, key, pos, flags, got=0):
        S.st[key] = L(Agg({0: L(rf(pos)), 1: L(rf(flags)), 2: L(rf(got))}, None, None))

    def stream(self, M, S, fr, n):
        return M.objof(S, fr, n) if n.raw.get("mc") else M.lv(S, fr, n.args[0])

    def line(self, bs):
        out = ""
        for b in bs:
            out += chr(b) if isinstance(b, int) else "\x03"
        return out

    # ---- hooks
    def getline(self, M, S, fr, n):
        st = M.lv(S, fr, n.args[0])
        o = self.open(M, S, st)
        if o is None: return st
        key, data, p, f, _ = o
        if f:
            self.put(S, key, p, f | FAIL); return st
        dst = M.lv(S, fr, n.args[1])
        if p >= len(data):
            M.store(S, dst, L(vn.Str(""))); self.put(S, key, p, f | EOF | FAIL); return st
        q = p
        while q < len(data) and data[q] != 10: q += 1
        M.store(S, dst, L(vn.Str(self.line(data[p:q]))))
        self.put(S, key, min(q + 1, len(data)), f | (EOF if q >= len(data) else 0))
        return st

    def extract(self, M, S, fr, n):
        st = self.stream(M, S, fr, n)
        a = n.args[-1]
        o = self.open(M, S, st)
        if o is None: return st
        key, data, p, f, _ = o
        t = a.type.noref if a.type is not None else None
        if a.decl is not None and a.decl.k == "fn": return st       # manipulators such as std::ws
        if f:
            self.put(S, key, p, f | FAIL); return st
        while p < len(data) and data[p] in (9, 10, 11, 12, 13, 32): p += 1
        q = p
        while q < len(data) and data[q] not in (9, 10, 11, 12, 13, 32): q += 1
        w = self.line(data[p:q]); f |= EOF if q >= len(data) else 0
        dst = M.lv(S, fr, a)
        if t is not None and t.tmpl == "std::basic_string":
            if not w: self.put(S, key, q, f | FAIL)
            else:
                M.store(S, dst, L(vn.Str(w))); self.put(S, key, q, f)
            return st
        if t is not None and t.int == 8:
            if not w: self.put(S, key, q, f | FAIL)
            else:
                M.store(S, dst, L(rf(ord(w[0])))); self.put(S, key, p + 1, 0)
            return st
        v = None
        if w.startswith("\x01") and w.endswith("\x02") and w[1:-1].isdigit(): v = self.syms[int(w[1:-1])]
        else:
            try: v = rf(alg.Fraction(w)) if hasattr(alg, "Fraction") else rf(int(w))
            except Exception: v = None
        if v is None:
            M.store(S, dst, L(rf(0))); self.put(S, key, p, f | FAIL)
        else:
            M.store(S, dst, L(v)); self.put(S, key, q, f)
        return st

    def append(self, M, S, fr, n):
        """text written to a stream that is read afterwards"""
        e = n.args[0]
        t = e.type.noref if e.type is not None else None
        while t is not None and t.tmpl == "std::basic_ostream" and e.k == "ImplicitCastExpr" and e.ch:
            e = e.ch[0]; t = e.type.noref if e.type is not None else None
        if t is None or t.tmpl not in ("std::basic_stringstream",) or n.raw.get("mc"): return None
        st = M.lv(S, fr, n.args[0])
        x = M.text(S, fr, n.args[1])
        v = M.load(S, st)
        if x is None or v.c is not None or not isinstance(v.leaf, Agg) or "text" not in v.leaf.f: return None
        M.store(S, st, L(Agg(dict(v.leaf.f) | {"text": L(vn.Str(v.leaf.f["text"].leaf.s + x))}, None, None)))
        return st

    def member(self, M, S, fr, n):
        if not n.raw.get("mc"): return None
        if n.decl.n == "str":
            st = M.objof(S, fr, n)
            v = M.load(S, st)
            if v.c is not None or not isinstance(v.leaf, Agg) or "text" not in v.leaf.f: return None
            if not n.args: return v.leaf.f["text"]
            x = M.text(S, fr, n.args[0])
            if x is None: return None
            M.store(S, st, L(Agg(dict(v.leaf.f) | {"text": L(vn.Str(x))}, None, None)))
            S.st.pop(("in", st.leaf.root) + tuple(st.leaf.path), None) if isinstance(st.leaf, Ref) else None
            return L(None)
        st = M.objof(S, fr, n)
        o = self.open(M, S, st)
        if o is None: return None
        key, data, p, f, g = o
        nm = n.decl.n
        if nm == "good": return L(f == 0)
        if nm in ("fail", "operator!"): return L(bool(f & (FAIL | BAD)))
        if nm == "operator bool": return L(not f & (FAIL | BAD))
        if nm == "bad": return L(bool(f & BAD))
        if nm == "eof": return L(bool(f & EOF))
        if nm == "rdstate": return L(rf(f))
        if nm == "gcount": return L(rf(g))
        if nm == "is_open": return L(self.opens)
        if nm == "clear": self.put(S, key, p, 0, g); return L(None)
        if nm == "close": return L(None)
        if nm == "tellg": return L(rf(p))
        if nm == "seekg" and n.args:
            x = M.rv(S, fr, n.args[0])
            c = x.leaf.const if x.c is None and isinstance(x.leaf, RF) else None
            if c is None: self.bad.append("seek to an unknown position"); return st
            d = n.args[1].decl.n if len(n.args) > 1 and n.args[1].decl is not None else "beg"
            self.put(S, key, int(c) + (p if d == "cur" else len(data) if d == "end" else 0), f & ~EOF, g); return st
        if nm == "ignore":
            x = M.rv(S, fr, n.args[0]) if n.args else L(rf(1))
            c = int(x.leaf.const) if x.c is None and isinstance(x.leaf, RF) and x.leaf.const is not None else 1
            self.put(S, key, min(p + c, len(data)), f | (EOF if p + c > len(data) else 0), c); return st
        if nm == "read": return self.read(M, S, fr, n, st, o)
        return None

    def read(self, M, S, fr, n, st, o):
        key, data, p, f, _ = o
        x = M.rv(S, fr, n.args[1])
        m = int(x.leaf.const) if x.c is None and isinstance(x.leaf, RF) and x.leaf.const is not None else None
        if m is None:
            self.bad.append("an unknown number of bytes is read"); return st
        if f:
            self.put(S, key, p, f | FAIL, 0); return st
        have = data[p:p + m]
        e = n.args[0]
        while e.k in ("CXXReinterpretCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "ImplicitCastExpr") and e.ch: e = e.ch[0]
        t = e.type.noref if e.type is not None else None
        et = t.p if t is not None else None
        while et is not None and et.arr: et = et.p
        scalar = e.k == "UnaryOperator" and e.op == "&" and not (t.p is not None and (t.p.arr or t.p.tmpl))
        if t is not None and et is not None and et.tmpl == "std::array": et = et.args[0]
        size = {"double": 8, "float": 4}.get(vn.unconst(et.s)) if et is not None and et.flt else et.int // 8 if et is not None and et.int else None
        if not size or m % size:
            self.bad.append("bytes are read into %s" % (t.s if t is not None else "?")); return st
        dst = M.lv(S, fr, e) if t is not None and t.arr else M.rv(S, fr, n.args[0])
        for i in range(len(have) // size):
            bs = have[i * size:(i + 1) * size]
            v = self.value(bs, size, et)
            if v is None:
                self.bad.append("a value is read across the values of the format (byte %d)" % (p + i * size)); v = L(Opq(("misread", p + i * size), None))
            M.store(S, dst if scalar else M.index(S, dst, L(rf(i)), None), v)
        self.put(S, key, p + len(have), EOF | FAIL if len(have) < m else f, len(have))
        return st

    def value(self, bs, size, et):
        if all(isinstance(b, int) for b in bs):
            if et.flt: return L(rf(alg.Fraction(struct.unpack("<f" if size == 4 else "<d", bytes(bs))[0])))
            return L(rf(int.from_bytes(bytes(bs), "little", signed=not et.uns)))
        if all(not isinstance(b, int) for b in bs) and [b[2] for b in bs] == list(range(size)) and len({b[:2] for b in bs}) == 1 and bs[0][1] == size and bool(et.flt):
            return L(self.syms[bs[0][0]])
        return None
