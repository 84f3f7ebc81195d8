"""Interface definitions, what they mean on the wire (an own model, from RFC 4506 alone), and how the model's types correspond
to the Rust text the generator produced for them. Types: int uint hyper uhyper float double bool char uchar short ushort string
opaque, or the name of a definition."""
import random, re, struct
import famlib
from famlib import Struct, Enum, Std, MODS

RUST = {"int": "i32", "uint": "u32", "hyper": "i64", "uhyper": "u64", "float": "f32", "double": "f64", "bool": "bool", "char": "i8", "uchar": "u8", "short": "i16", "ushort": "u16"}
XDR = {"int": "int", "uint": "unsigned int", "hyper": "hyper", "uhyper": "unsigned hyper", "float": "float", "double": "double", "bool": "bool", "char": "char", "uchar": "unsigned char", "short": "short", "ushort": "unsigned short"}

def num(s):
    """value of a number of the definition language"""
    n = s.lstrip("-")
    return (-1 if s[0] == "-" else 1) * (int(n, 16) if n[:2].lower() == "0x" else int(n, 8) if n[0] == "0" else int(n))
class D:
    """declaration: kind in var, farr, varr, opt, fopq, vopq, str, void; bound: number, name or None"""
    def __init__(self, kind, ty=None, name=None, bound=None): self.kind, self.ty, self.name, self.bound = kind, ty, name, bound
    def text(self):
        t, n, b = XDR.get(self.ty, self.ty), self.name, "" if self.bound is None else self.bound
        return {"var": f"{t} {n}", "farr": f"{t} {n}[{b}]", "varr": f"{t} {n}<{b}>", "opt": f"{t} *{n}", "fopq": f"opaque {n}[{b}]", "vopq": f"opaque {n}<{b}>", "str": f"string {n}<{b}>", "void": "void"}[self.kind]
class Const:
    def __init__(self, name, value): self.name, self.value = name, value
    def text(self): return f"const {self.name} = {self.value};\n"
class Typedef:
    def __init__(self, decl): self.decl, self.name = decl, decl.name
    def text(self): return f"typedef {self.decl.text()};\n"
class XEnum:
    """items: [(name, text of the value, number)]"""
    def __init__(self, name, items): self.name, self.items = name, [(i[0], i[1], i[2] if len(i) > 2 else num(i[1])) for i in items]
    def text(self): return f"enum {self.name} {{ {', '.join(f'{n} = {t}' for n, t, v in self.items)} }};\n"
class XStruct:
    def __init__(self, name, decls): self.name, self.decls = name, decls
    def text(self): return f"struct {self.name} {{\n" + "".join(f"    {d.text()};\n" for d in self.decls) + "};\n"
class XUnion:
    """cases: [([labels], decl)]; disc: type"""
    def __init__(self, name, disc, cases, default=None): self.name, self.disc, self.cases, self.default = name, disc, cases, default
    def text(self):
        o = f"union {self.name} switch ({XDR.get(self.disc, self.disc)} which) {{\n"
        for ls, d in self.cases: o += "".join(f"case {l}:\n" for l in ls) + f"    {d.text()};\n"
        if self.default: o += f"default:\n    {self.default.text()};\n"
        return o + "};\n"
class Spec:
    def __init__(self, defs): self.defs = defs
    def renamed(self, sfx):
        """the definitions' names with a suffix, so that all configurations fit into one crate"""
        import copy
        d = copy.deepcopy(self.defs)
        m = {x.name: x.name + sfx for x in d if not isinstance(x, Const)}
        def fix(q):
            if q is None: return
            q.ty = m.get(q.ty, q.ty)
        for x in d:
            if isinstance(x, Const): continue
            x.name = m[x.name]
            if isinstance(x, Typedef): x.decl.name = x.name; fix(x.decl)
            elif isinstance(x, XStruct): [fix(q) for q in x.decls]
            elif isinstance(x, XUnion):
                x.disc = m.get(x.disc, x.disc); [fix(q) for _, q in x.cases]; fix(x.default)
        return Spec(d)
    def text(self): return "".join(x.text() for x in self.defs)
    # ---- meaning
    def lookup(self, name, cls): return next((x for x in self.defs if isinstance(x, cls) and x.name == name), None)
    def number(self, v):
        if isinstance(v, int): return v
        if re.match(r"^-?\d|^0x", v): return num(v)
        c = self.lookup(v, Const)
        if c: return self.number(c.value)
        for e in self.defs:
            if isinstance(e, XEnum):
                for n, t, k in e.items:
                    if n == v: return k
        raise KeyError(v)
    def ty(self, t):
        """Rust type string of a type name, and whether it is opaque data: (type, opaque None|'V'|n)"""
        if t in RUST: return RUST[t], None
        td = self.lookup(t, Typedef)
        if td: return self.decl(td.decl)
        return f"%{self.names[t]}%", None
    def decl(self, d):
        if d.kind == "var": return self.ty(d.ty)
        if d.kind == "str": return "String", None
        if d.kind == "fopq": return f"#F{self.number(d.bound)}#", self.number(d.bound)
        if d.kind == "vopq": return "#V#", "V"
        t, o = self.ty(d.ty)
        if o is not None: t = "#VA#" if o == "V" else f"#FA{o}#"
        return {"farr": f"[{t}; {self.number(d.bound) if d.bound is not None else 0}]", "varr": f"Vec<{t}>", "opt": f"Option<{t}>"}[d.kind], None
    def disc(self, t):
        td = self.lookup(t, Typedef)
        return self.disc(td.decl.ty) if td else t

class Mismatch(Exception): pass
def norm(s): return re.sub(r"^r#|_", "", s).lower()

def tokens(text): return re.findall(r"[A-Za-z_][A-Za-z_0-9]*#[A-Za-z_]\w*|\w+|\S", text.replace("r # ", "r#"))
def split(toks):
    out, cur, depth = [], [], 0
    for t in toks:
        if t in "([{<" : depth += 1
        if t in ")]}>" : depth -= 1
        if t == "," and depth == 0:
            out.append(cur); cur = []
        else: cur.append(t)
    if cur: out.append(cur)
    return out
def attrs(ts):
    """without leading attributes"""
    while ts and ts[0] == "#":
        d = 0
        for k, t in enumerate(ts[1:], 1):
            d += t == "["; d -= t == "]"
            if d == 0: break
        ts = ts[k + 1:]
    return ts
def parse_gen(text):
    """types of the generated text: name -> ('struct', [field]) | ('enum', [(variant, number or None)])"""
    ts = tokens(text); out = {}; i = 0
    while i < len(ts) - 3:
        if ts[i] == "pub" and ts[i + 1] in ("struct", "enum"):
            kind, name = ts[i + 1], ts[i + 2]; j = i + 3; d = 0
            if ts[j] != "{": i += 1; continue
            k = j
            while True:
                d += ts[k] == "{"; d -= ts[k] == "}"
                if d == 0: break
                k += 1
            items = [attrs(x) for x in split(ts[j + 1:k])]
            if kind == "struct": out[name] = ("struct", [x[x.index(":") - 1] for x in items if ":" in x])
            else:
                vs = []
                for x in items:
                    n = None
                    if "=" in x:
                        m = re.match(r"^(-?\d+)", "".join(x[x.index("=") + 1:])); n = int(m[1]) if m else None
                    vs.append((x[0], n))
                out[name] = ("enum", vs)
            i = k
        i += 1
    return out

def items(spec, text, emode, umode, mod, replay_only=False):
    """the generated types as items of famlib, with the wire form the definitions prescribe"""
    gen = parse_gen(text)
    def find(name, pool, what):
        c = [g for g in pool if norm(g) == norm(name)]
        if len(c) != 1: raise Mismatch(f"{what} {name}: the generated code has {c or 'nothing'} for it (among {', '.join(list(pool)[:40])})")
        return c[0]
    spec.names = {}
    for x in spec.defs:
        if isinstance(x, (XEnum, XStruct, XUnion)):
            g = find(x.name, gen, "type"); spec.names[x.name] = g; MODS[g] = mod
    out = []; norts = set()
    for x in spec.defs:
        if isinstance(x, (Const, Typedef)): continue
        g = spec.names[x.name]; kind, body = gen[g]
        if isinstance(x, XStruct):
            if kind != "struct" or len(body) != len(x.decls): raise Mismatch(f"struct {x.name} has {len(x.decls)} members, the generated type has {kind} {body}")
            fs = []
            for d, f in zip(x.decls, body):
                t, o = spec.decl(d)
                if f"%{g}%" in t: t = re.sub(rf"^(.*)$", r"Box<\1>", t)
                fs.append((f, t))
            out.append(Struct(g, fs))
        elif isinstance(x, XEnum):
            if kind != "enum": raise Mismatch(f"enum {x.name} became a {kind}")
            nums = {}
            for v, n in body:
                if n is None: raise Mismatch(f"variant {v} of {g} has no number")
                if n in nums: raise Mismatch(f"two variants of {g} have the number {n}")
                nums[n] = v
            for n, t, k in x.items:
                if k not in nums: raise Mismatch(f"enumerator {n} = {k} of {x.name}: no variant with that number in {body}")
                if norm(nums[k]) != norm(n): raise Mismatch(f"enumerator {n} = {k} of {x.name}: the variant with that number is {nums[k]}")
            decl = {k for n, t, k in x.items}
            extra = [n for n in nums if n not in decl]
            neg = min(decl) < 0
            if extra and not (emode == "comp" and not neg and all(0 <= n < max(decl) for n in extra)): raise Mismatch(f"{g} has variants that {x.name} does not declare: {[nums[n] for n in extra]}")
            if emode == "std" or (emode == "comp" and neg): out.append(Std(g, sorted(((v, n) for n, v in nums.items()), key=lambda q: q[1])))
            elif emode == "comp": out.append(Enum(g, "indexer", None, [(v, n, None) for v, n in body], impl="serde"))
            else: out.append(Enum(g, "indexer", None, [(v, n, None) for v, n in body], fallback=nums[min(nums)]))
        else:
            if kind != "enum": raise Mismatch(f"union {x.name} became a {kind}")
            vs = [v for v, n in body]; disc = spec.disc(x.disc); cases = []; seen = set()
            for ls, d in x.cases:
                for l in ls:
                    k = (1 if l == "TRUE" else 0 if l == "FALSE" else None) if disc == "bool" else spec.number(l)
                    v = find(f"Case{spec.number(l)}" if re.match(r"^\d", str(l)) else l, vs, f"case {l} of union {x.name}:")
                    cases.append((v, k, l, d)); seen.add(v)
            other = [v for v in vs if v not in seen]
            dflt = None
            if x.default:
                dflt = find("default", other, f"default arm of union {x.name}:")
                other.remove(dflt)
            if other and umode != "comp": raise Mismatch(f"{g} has variants that {x.name} does not declare: {other}")
            def arm(d):
                if d.kind == "void": return []
                t, o = spec.decl(d)
                if o is not None and umode != "comp": t = "#VA#" if o == "V" else f"#FA{o}#"
                return [t]
            if umode == "uni":
                dt = spec.ty(x.disc)[0]
                en = spec.lookup(disc, XEnum)
                key = (lambda k: {n: nn for nn, n in gen[spec.names[disc]][1]}[k]) if en else (lambda k: k)
                variants = [(v, [key(k)], [dt] + arm(d)) for v, k, l, d in cases] + ([(dflt, None, [dt] + arm(x.default))] if dflt else [])
                variants = [next(q for q in variants if q[0] == v) for v in vs]
                u = Enum(g, "union", dt, variants, rt=False); norts.add(g)
                u.rt = not any(f"%{n}%" in t for v, k, ts in variants for t in ts[1:] for n in norts)
                out.append(u)
            else:
                by = {v: (v, k - 2**32 if k >= 2**31 else k, arm(d) or None) for v, k, l, d in cases}
                variants = []
                for i, v in enumerate(vs):
                    if v in by: variants.append(by[v])
                    elif v == dflt: variants.append((v, i if umode == "comp" else None, arm(x.default) or None))
                    else: variants.append((v, i, None))
                out.append(Enum(g, "indexer", None, variants, impl="serde" if umode == "comp" else "xdr"))
                if umode == "idx" and dflt: out[-1].partial = True
        u = out[-1]
        if not isinstance(u, Enum) or u.kind != "union":
            if any(f"%{n}%" in t for t in u.uses() for n in norts): norts.add(g); u.rt = False
    return out

# ------------------------------------------------------------------------------------------------ wire samples
SIZE = {"int": 4, "uint": 4, "hyper": 8, "uhyper": 8, "float": 4, "double": 8, "bool": 4, "char": 4, "uchar": 4, "short": 4, "ushort": 4}
RANGE = {"int": (-2**31, 2**31 - 1), "uint": (0, 2**32 - 1), "hyper": (-2**63, 2**63 - 1), "uhyper": (0, 2**64 - 1), "char": (-128, 127), "uchar": (0, 255), "short": (-2**15, 2**15 - 1), "ushort": (0, 2**16 - 1), "bool": (0, 1)}
class Wire:
    """encodings of values of a definition, from RFC 4506 and the definition alone, and byte strings that are the encoding of no
    value of it: the same with a flag, number, discriminant or padding at one place that the definition does not have there"""
    def __init__(self, spec, r, emode, umode, spoil=None): self.spec, self.r, self.emode, self.umode, self.spoil, self.sites = spec, r, emode, umode, spoil, 0
    def hit(self):
        self.sites += 1
        return self.spoil == self.sites - 1
    def word(self, k): return (k & 0xffffffff).to_bytes(4, "big")
    def opaque(self, b):
        p = -len(b) % 4
        if p and self.hit(): return b + bytes(p - 1) + b"\x01"
        return b + bytes(p)
    def num(self, lo, hi): return self.r.choice([lo, hi, self.r.randint(lo, hi), self.r.randint(max(lo, -9), min(hi, 9))])
    def type(self, t, d):
        r = self.r
        if t in RANGE:
            if t == "bool" and self.hit(): return self.word(r.choice([2, 256, 2**32 - 1]))
            lo, hi = RANGE[t]
            if SIZE[t] == 4 and hi - lo < 2**32 - 1 and self.hit(): return self.word(hi + 1 if hi + 1 < 2**31 else lo - 1)
            return (self.num(lo, hi) % 2**(8 * SIZE[t])).to_bytes(SIZE[t], "big")
        if t == "float": return struct.pack(">f", r.choice([0.0, -1.5, 3.25e10, r.uniform(-9, 9)]))
        if t == "double": return struct.pack(">d", r.choice([0.0, -1.5, 1e300, r.uniform(-9, 9)]))
        x = next(q for q in self.spec.defs if q.name == t and not isinstance(q, Const))
        return self.decl(x.decl, d) if isinstance(x, Typedef) else self.definition(x, d)
    def count(self, b, d):
        m = 3 if d < 3 else 0
        if b is not None: m = min(m, self.spec.number(b))
        return self.r.randint(0, m)
    def decl(self, c, d):
        n = None if c.bound is None else self.spec.number(c.bound)
        if c.kind == "var": return self.type(c.ty, d)
        if c.kind == "void": return b""
        if c.kind == "farr": return b"".join(self.type(c.ty, d + 1) for _ in range(n))
        if c.kind == "varr":
            k = self.count(c.bound, d); return self.word(k) + b"".join(self.type(c.ty, d + 1) for _ in range(k))
        if c.kind == "opt":
            if self.hit(): return self.word(2) + self.type(c.ty, d + 1) + self.type(c.ty, d + 1)
            if d > 8 or d > 2 and self.r.random() < .7 or self.r.random() < .3: return self.word(0)
            return self.word(1) + self.type(c.ty, d + 1)
        if c.kind == "fopq": return self.opaque(self.r.randbytes(n))
        k = self.r.randint(0, min(9, 9 if n is None else n))
        b = self.r.randbytes(k) if c.kind == "vopq" else bytes(self.r.randint(32, 126) for _ in range(k))
        return self.word(k) + self.opaque(b)
    def definition(self, x, d):
        if isinstance(x, XStruct): return b"".join(self.decl(q, d + 1) for q in x.decls)
        if isinstance(x, XEnum):
            k = [v for n, t, v in x.items]
            if self.hit(): return self.word(self.r.choice([v for v in ([max(k) + 1] if self.emode == "comp" else [max(k) + 1, min(k) - 1, 2**31 - 2]) if v not in k and -2**31 <= v < 2**31] or [7]))
            return self.word(self.r.choice(k))
        disc = self.spec.disc(x.disc)
        arms = [((1 if l == "TRUE" else 0 if l == "FALSE" else None) if disc == "bool" else self.spec.number(l), c) for ls, c in x.cases for l in ls]
        used = [k for k, c in arms]
        e = self.spec.lookup(disc, XEnum)
        free = [v for n, t, v in e.items if v not in used] if e else [k for k in (0, 1) if k not in used] if disc == "bool" else [max(used) + 1, 77777]
        if x.default and self.umode == "uni" and free: arms += [(k, x.default) for k in free]
        if (not x.default or self.umode == "uni" and (e or disc == "bool")) and self.hit():
            return self.word(max(used + (free if x.default else [])) + 1) + self.decl(arms[0][1], d + 1)
        if d > 3: arms = [a for a in arms if a[1].kind not in ("varr", "opt")] or arms
        k, c = self.r.choice(arms)
        return self.word(k) + self.decl(c, d + 1)
def wire(spec, x, seed, rounds, emode, umode):
    """[(is an encoding, bytes)] for the definition x"""
    out = []
    for j in range(rounds):
        a = Wire(spec, random.Random(f"{seed}{j}"), emode, umode); b = a.definition(x, 0)
        if len(b) > 4000: continue
        out.append((True, b))
        r = random.Random(f"s{seed}{j}")
        if a.sites: out.append((False, Wire(spec, random.Random(f"{seed}{j}"), emode, umode, r.randrange(a.sites)).definition(x, 0)))
        if b: out.append((False, b[:r.randrange(len(b))]))
        if j % 4 == 0: out.append((False, b + bytes(r.choice([1, 4]))))
    return out
