"""Contracts for types whose Serialize/Deserialize impls are written by serde's or the crate's derive macros,
computed from a description of the type (never from the code under verification)."""

import re
class Codec:
    """ty: Rust type; enc(x): Option<Seq<u8>> of the place x; dec(i, r, rest): relation; rt: statement proving the round trip"""
    def __init__(self, ty, enc, dec, rt, same, with_=None):
        self.ty, self.enc, self.dec, self.rt, self.same, self.with_ = ty, enc, dec, rt, same, with_

def plain(ty):
    return Codec(ty, lambda x: f"({x}).enc()", lambda i, r, m: f"<{ty} as crate::serde::Deserialize<'de>>::dec({i}, {r}, {m})",
                 lambda v, e, t, r, m: f"<{ty} as RT<'de>>::rt({v}, {e}, {t}, {r}, {m});", lambda a, b: f"<{ty} as RT<'de>>::same({a}, {b})")
def variable():
    return Codec("Vec<u8>", lambda x: f"crate::spec_opaque::var_enc(({x})@)", lambda i, r, m: f"crate::spec_opaque::var_dec({i}, {r}, {m})",
                 lambda v, e, t, r, m: f"crate::spec_opaque::var_rt({v}, {e}, {t}, {r}, {m});", lambda a, b: f"({a})@ == ({b})@", "variable")
def fixed(n):
    return Codec(f"[u8; {n}]", lambda x: f"Some(crate::spec_opaque::padded(({x})@))", lambda i, r, m: f"crate::spec_opaque::fix_dec::<{n}>({i}, {r}, {m})",
                 lambda v, e, t, r, m: f"crate::spec_opaque::fix_rt::<{n}>({v}, {e}, {t}, {r}, {m});", lambda a, b: f"({a})@ == ({b})@", "fixed")
def signed32(ty, num):
    """num(x): spec expression of the i32 the enum value stands for"""
    return Codec(ty, lambda x: f"Some(be32(u_of_i32({num(x)})))", lambda i, r, m: f"crate::spec_opaque::s32_dec::<{ty}>({i}, {r}, {m})",
                 lambda v, e, t, r, m: f"rt32_{ty.split('::')[-1]}({v}, {e}, {t}, {r}, {m});", lambda a, b: f"({a}) == ({b})", "signed32")

def enc_chain(fields, place):
    s = "Some(Seq::<u8>::empty())"
    for f, c in fields:
        s = f"crate::serde::cat({s}, {c.enc(place(f))})"
    return s
def ok_chain(fields, val, i="i", rest="rest", k=0, rename=lambda k: f"m{k}"):
    """v decodes from i to rest, field by field"""
    if not fields:
        return f"{rest} == {i}"
    (f, c), more = fields[0], fields[1:]
    if not more:
        return c.dec(i, f"Ok({val(f)})", rest)
    m = rename(k + 1)
    return f"exists|{m}: Seq<u8>| #[trigger] {c.dec(i, f'Ok({val(f)})', m)} && ({ok_chain(more, val, m, rest, k + 1, rename)})"
def err_chain(fields, e="e", i="i", k=0):
    if not fields:
        return "false"
    (f, c), more = fields[0], fields[1:]
    m = f"m{k+1}"; x = f"x{k}"
    a = f"(exists|{m}: Seq<u8>| #[trigger] {c.dec(i, f'Err({e})', m)})"
    if not more:
        return a
    return f"{a} || (exists|{x}: {c.ty}, {m}: Seq<u8>| #[trigger] {c.dec(i, f'Ok({x})', m)} && ({err_chain(more, e, m, k + 1)}))"

class Chain:
    """fields read one after the other, as named relations: one quantifier per function keeps the obligations small.
    fields: [(variable name, Codec)]; pfx: prefix of the generated names; path: module they live in"""
    def __init__(self, pfx, fields, path=""):
        self.pfx, self.fields, self.path = pfx, fields, path
    def _args(self, k): return "".join(f", {f}: {c.ty}" for f, c in self.fields[k:])
    def defs(self):
        o = []; n = len(self.fields)
        for k in range(n - 1, -1, -1):
            f, c = self.fields[k]
            o.append(f"pub open spec fn {self.pfx}ok{k}<'de>(i: Seq<u8>{self._args(k)}, rest: Seq<u8>) -> bool {{ {self.ok_body(k)} }}\n")
            o.append(f"pub open spec fn {self.pfx}er{k}<'de>(i: Seq<u8>, e: Error) -> bool {{ {self.err_body(k)} }}\n")
        return "".join(o)
    def ok_body(self, k, val=lambda f: f, i="i", rest="rest"):
        if k >= len(self.fields): return f"{rest} == {i}"
        f, c = self.fields[k]
        if k + 1 == len(self.fields): return c.dec(i, f"Ok({val(f)})", rest)
        return f"exists|m_: Seq<u8>| #[trigger] {c.dec(i, f'Ok({val(f)})', 'm_')} && {self.ok(k + 1, val, 'm_', rest)}"
    def ok(self, k=0, val=lambda f: f, i="i", rest="rest"):
        """fields k.. decode from i to rest with the given values"""
        if k >= len(self.fields): return self.ok_body(k, val, i, rest)
        return f"{self.path}{self.pfx}ok{k}({i}{''.join(', ' + val(f) for f, c in self.fields[k:])}, {rest})"
    def err_body(self, k, e="e", i="i"):
        if k >= len(self.fields): return "false"
        f, c = self.fields[k]
        a = f"(exists|m_: Seq<u8>| #[trigger] {c.dec(i, f'Err({e})', 'm_')})"
        if k + 1 == len(self.fields): return a
        return f"{a} || (exists|x_: {c.ty}, m_: Seq<u8>| #[trigger] {c.dec(i, 'Ok(x_)', 'm_')} && {self.err(k + 1, e, 'm_')})"
    def err(self, k=0, e="e", i="i"):
        if k >= len(self.fields): return self.err_body(k, e, i)
        return f"{self.path}{self.pfx}er{k}({i}, {e})"
    # the round trip, one small lemma per field
    def _as(self, k, p, typed=False): return "".join(f"{p}{j}: {c.ty}, " if typed else f"{p}{j}, " for j, (f, c) in enumerate(self.fields) if j >= k)
    def same(self, k=0):
        return " && ".join(c.same(f"a{j}", f"b{j}") for j, (f, c) in enumerate(self.fields) if j >= k) or "true"
    def cats(self, c0, k=0):
        s = c0
        for j, (f, c) in enumerate(self.fields):
            if j >= k: s = f"crate::serde::cat({s}, {c.enc(f'a{j}')})"
        return s
    def lemmas(self):
        """tl: the fields' encodings followed by the tail; sm: they all have one; cc: what the concatenation of the encodings is;
        ro/re: reading them back"""
        P = self.pfx; o = []; n = len(self.fields)
        for k in range(n, -1, -1):
            A, At = self._as(k, "a"), self._as(k, "a", True)
            if k == n:
                o.append(f"#[verifier::opaque] spec fn {P}tl{k}(tail: Seq<u8>) -> Seq<u8> {{ tail }}\n#[verifier::opaque] spec fn {P}sm{k}() -> bool {{ true }}\n")
                o.append(f"proof fn {P}cc{k}(c: Option<Seq<u8>>, e: Seq<u8>, tail: Seq<u8>) requires c == Some(e) ensures c is Some, {P}sm{k}(), e + tail == c->Some_0 + {P}tl{k}(tail) {{ reveal({P}tl{k}); reveal({P}sm{k}); }}\n")
                continue
            f, c = self.fields[k]
            A1, B1 = self._as(k + 1, "a"), self._as(k + 1, "b")
            e = c.enc(f"a{k}"); last = k + 1 == n
            o.append(f"#[verifier::opaque] spec fn {P}tl{k}({At}tail: Seq<u8>) -> Seq<u8> {{ ({e})->Some_0 + {P}tl{k+1}({A1}tail) }}\n#[verifier::opaque] spec fn {P}sm{k}({At[:-2]}) -> bool {{ {e} is Some && {P}sm{k+1}({A1[:-2]}) }}\n")
            o.append(f"""proof fn {P}cc{k}(c: Option<Seq<u8>>, {At}e: Seq<u8>, tail: Seq<u8>)
    requires {self.cats('c', k)} == Some(e)
    ensures c is Some, {P}sm{k}({A[:-2]}), e + tail == c->Some_0 + {P}tl{k}({A}tail)
{{ {P}cc{k+1}(crate::serde::cat(c, {e}), {A1}e, tail); reveal({P}tl{k}); reveal({P}sm{k}); lemma_add_assoc(c->Some_0, ({e})->Some_0, {P}tl{k+1}({A1}tail)); }}
""")
            t0, t1, e0 = f"{P}tl{k}({A}tail)", f"{P}tl{k+1}({A1}tail)", f"({e})->Some_0"
            hide = "" if last else f"hide({P}ok{k+1}); hide({P}er{k+1});"
            if last:
                b_ = f"reveal({P}tl{k+1}); {c.rt(f'a{k}', e0, t1, f'Ok(b{k})', 'rest')}"
                r_ = f"let m = choose|m_: Seq<u8>| #[trigger] {c.dec(t0, 'Err(e)', 'm_')}; {c.rt(f'a{k}', e0, t1, 'Err(e)', 'm')}"
            else:
                nx = self.ok(k + 1, lambda f: "b" + str([g for g, _ in self.fields].index(f)), 'm_')
                b_ = f"let m = choose|m_: Seq<u8>| #[trigger] {c.dec(t0, f'Ok(b{k})', 'm_')} && {nx}; {c.rt(f'a{k}', e0, t1, f'Ok(b{k})', 'm')} {P}ro{k+1}({A1}{B1}tail, rest);"
                q = f"#[trigger] {c.dec(t0, 'Ok(x_)', 'm_')} && {self.err(k + 1, 'e', 'm_')}"
                r_ = f"if exists|m_: Seq<u8>| #[trigger] {c.dec(t0, 'Err(e)', 'm_')} {{ let m = choose|m_: Seq<u8>| #[trigger] {c.dec(t0, 'Err(e)', 'm_')}; {c.rt(f'a{k}', e0, t1, 'Err(e)', 'm')} }} else {{ let (x, m) = choose|x_: {c.ty}, m_: Seq<u8>| {q}; {c.rt(f'a{k}', e0, t1, 'Ok(x)', 'm')} {P}re{k+1}({A1}tail, e); }}"
            o.append(f"""proof fn {P}ro{k}<'de>({At}{self._as(k, 'b', True)}tail: Seq<u8>, rest: Seq<u8>)
    requires {P}sm{k}({A[:-2]}), {self.ok(k, lambda f: "b" + str([g for g, _ in self.fields].index(f)), t0)}
    ensures {self.same(k)}, rest == tail
{{ {hide} reveal({P}tl{k}); reveal({P}sm{k}); {b_} }}
proof fn {P}re{k}<'de>({At}tail: Seq<u8>, e: Error)
    requires {P}sm{k}({A[:-2]}), {self.err(k, 'e', t0)}
    ensures false
{{ {hide} reveal({P}tl{k}); reveal({P}sm{k}); {r_} }}
""")
        return "".join(o)
    def tl(self, args, tail="tail"): return f"{self.pfx}tl0({''.join(a + ', ' for a in args)}{tail})"
    def use(self, args, hdr):
        """e + tail, where the fields' values are args and the bytes before them hdr (None: none)"""
        h = hdr or "Seq::<u8>::empty()"
        s = f"{self.pfx}cc0(Some({h}), {''.join(a + ', ' for a in args)}e, tail);"
        s += f" let t0 = {self.tl(args)};"
        if not hdr: s += " lemma_empty_add(t0);"
        if not self.fields: s += f" reveal({self.pfx}tl0);"
        return s
    def use_ok(self, args, bs): return f"{self.pfx}ro0({''.join(a + ', ' for a in args)}{''.join(b + ', ' for b in bs)}tail, rest);" if self.fields else ""
    def use_err(self, args): return f"{self.pfx}re0({''.join(a + ', ' for a in args)}tail, k);" if self.fields else ""

USES = """
use vstd::prelude::*;
use crate::wire::*;
use crate::error::Error;
use crate::vxstd::*;
use crate::serde::de::*;
use crate::serde::ser::*;
"""
EV = "crate::serde::de::Ev"
ERR = "crate::error::Error"
def rel_header(ty, pre, rel, rel_in):
    return f"""
    open spec fn pre(self, ev: {EV}) -> bool {{ {pre} }}
    open spec fn rel(self, ev: {EV}, r: Result<{ty}, {ERR}>) -> bool {{ {rel} }}
    open spec fn rel_in(self, ev: {EV}, input: Seq<u8>, r: Result<{ty}, {ERR}>, rest: Seq<u8>) -> bool {{ {rel_in} }}
"""
def mp(mod):
    return f"crate::{mod}::" if mod else "crate::"
def with_specs(mod, owner, codecs, only="both"):
    """the wrapper types serde derives for fields with a codec of their own, in textual order"""
    out = []
    k = 0
    p = f"{mod}::" if mod else ""
    for c in codecs:
        if not c.with_:
            continue
        sfx = owner if k == 0 else f"{owner}_{k}"
        if only in ("both", "ser"):
            out.append(f"@@inject {p}Serialize[__SerializeWith_{sfx}<'__a>]\n    open spec fn enc(&self) -> Option<Seq<u8>> {{ {c.enc('*self.values.0')} }}\n")
        if only in ("both", "de"):
            out.append(f"""@@inject {p}Deserialize[__DeserializeWith_{sfx}<'de>]
    open spec fn dec(i: Seq<u8>, r: Result<Self, {ERR}>, rest: Seq<u8>) -> bool {{
        match r {{ Ok(w) => {c.dec('i', 'Ok(w.value)', 'rest')}, Err(e) => {c.dec('i', 'Err(e)', 'rest')} }}
    }}
""")
        k += 1
    return "".join(out)
def rt_body(fields, pv, px):
    """statements proving the round trip of a chain; pv(f)/px(f): written and read field; expects v, e, tail, r, rest"""
    n = len(fields); s = []
    for k, (f, c) in enumerate(fields):
        s.append(f"let e{k} = ({c.enc(pv(f))})->Some_0;")
    s.append(f"let t{n} = tail;")
    for k in reversed(range(n)):
        s.append(f"let t{k} = e{k} + t{k+1};")
    return s
def rt_ok(fields, pv, px, i0="t0"):
    s = []; n = len(fields); cur = i0
    for k, (f, c) in enumerate(fields):
        if k + 1 < n:
            # strip the quantifier of this level
            m = f"m{k+1}"
            inner = ok_chain(fields[k+1:], px, m, "rest", k + 1)
            s.append(f"let {m} = choose|{m}: Seq<u8>| #[trigger] {c.dec(cur, f'Ok({px(f)})', m)} && ({inner});")
        else:
            m = "rest"
        s.append(c.rt(pv(f), f"e{k}", f"t{k+1}", f"Ok({px(f)})", m))
        cur = m
    return s
def rt_err(fields, pv, i0="t0", k=0, cur=None):
    cur = cur or i0
    if not fields: return []
    (f, c), more = fields[0], fields[1:]
    m = f"m{k+1}"; x = f"x{k}"
    a = c.dec(cur, "Err(k)", m)
    s = [f"if exists|{m}: Seq<u8>| #[trigger] {a} {{ let {m} = choose|{m}: Seq<u8>| #[trigger] {a}; {c.rt(pv(f), f'e{k}', f't{k+1}', 'Err(k)', m)} }}"]
    if more:
        body = f"#[trigger] {c.dec(cur, f'Ok({x})', m)} && ({err_chain(more, 'k', m, k + 1)})"
        s.append(f"if exists|{x}: {c.ty}, {m}: Seq<u8>| {body} {{ let ({x}, {m}) = choose|{x}: {c.ty}, {m}: Seq<u8>| {body};")
        s.append(c.rt(pv(f), f"e{k}", f"t{k+1}", f"Ok({x})", m))
        s += rt_err(more, pv, i0, k + 1, m)
        s.append("}")
    return s

def split(n, header=None):
    """statements showing e + tail == c0 + t0 step by step (after rt_body); header: the bytes before the first field"""
    s = [f"let c0 = {header or 'Seq::<u8>::empty()'};"]
    for k in range(n):
        s.append(f"let c{k+1} = c{k} + e{k};")
    s.append(f"assert(e == c{n});")
    for k in reversed(range(n)):
        s.append(f"lemma_add_assoc(c{k}, e{k}, t{k+1});")
    if header is None:
        s.append("lemma_empty_add(t0);")
    return s
def struct_spec(mod, name, fields, rt=True, tuple_=False):
    """fields: [(name, Codec)] in declaration order"""
    p = f"{mod}::" if mod else ""
    T = mp(mod) + name
    ch = Chain("", [(re.sub(r"\W", "", f"x_{f}"), c) for f, c in fields])
    orig = {re.sub(r"\W", "", f"x_{f}"): f for f, c in fields}
    vf = lambda p: lambda f: p + "." + orig[f]
    s = f"""@@root
pub mod spec_{name} {{
{USES}
{ch.defs()}
pub open spec fn enc(v: {T}) -> Option<Seq<u8>> {{ {enc_chain(fields, lambda f: f'v.{f}')} }}
pub open spec fn dec<'de>(i: Seq<u8>, r: Result<{T}, Error>, rest: Seq<u8>) -> bool {{
    match r {{ Ok(v) => {{ {ch.ok(0, vf('v'))} }}, Err(e) => {{ {ch.err()} }} }}
}}
"""
    if rt:
        same = " && ".join(c.same(f"a.{f}", f"b.{f}") for f, c in fields) or "true"
        av = [f"v.{f}" for f, c in fields]
        s += f"""{ch.lemmas()}impl<'de> RT<'de> for {T} {{
    open spec fn same(a: {T}, b: {T}) -> bool {{ {same} }}
    proof fn rt(v: {T}, e: Seq<u8>, tail: Seq<u8>, r: Result<{T}, Error>, rest: Seq<u8>) {{
        {ch.use(av, None)}
        match r {{ Ok(x) => {{ {ch.use_ok(av, [f"x.{f}" for f, c in fields])} }}, Err(k) => {{ {ch.use_err(av)} }} }}
    }}
}}
"""
    s += "}\n"
    s += f"@@inject {p}Serialize[{name}]\n    open spec fn enc(&self) -> Option<Seq<u8>> {{ crate::spec_{name}::enc(*self) }}\n"
    s += f"@@inject {p}Deserialize[{name}]\n    open spec fn dec(i: Seq<u8>, r: Result<{name}, {ERR}>, rest: Seq<u8>) -> bool {{ crate::spec_{name}::dec(i, r, rest) }}\n"
    s += f"@@inject {p}Visitor[__Visitor_{name}<'de>]\n" + rel_header(name, f"ev == {EV}::Seq({len(fields)})", "false", f"ev is Seq && crate::spec_{name}::dec(input, r, rest)")
    s += with_specs(mod, name, [c for _, c in fields])
    return s
