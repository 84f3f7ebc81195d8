"""Families of derived types: Rust source, contracts (from the description alone) and replay code.
Type strings use %Name% for types of the family and #VA# for serde_xdr's variable-length opaque."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs"))
import derived
from derived import plain, variable, fixed, struct_spec, Chain, enc_chain, rel_header, with_specs, EV, ERR, USES

MOD = "fam"
MODS = {}   # type name -> module, where it is not MOD
def modof(name): return MODS.get(name, MOD)
def opq(t): return t.replace("#V#", "Vec<u8>") if t == "#V#" else re.sub(r"^#F(\d+)#$", r"[u8; \1]", t)
def src_ty(t): return re.sub(r"%(\w+)%", lambda m: MODS[m[1]][len(MOD) + 2:] + "::" + m[1] if m[1] in MODS else m[1], opq(t)).replace("#VA#", "serde_xdr::opaque::VariableArray")
def spec_ty(t): return re.sub(r"%(\w+)%", lambda m: f"crate::{modof(m[1])}::{m[1]}", opq(t)).replace("#VA#", "crate::opaque::VariableArray")
def codec(t):
    """#V#: variable-length opaque, #Fn#: opaque of n bytes (both by serde attribute)"""
    if t == "#V#": return variable()
    m = re.match(r"^#F(\d+)#$", t)
    return fixed(int(m[1])) if m else plain(spec_ty(t))
def ref_gen(t, d="d + 1"): return f"gen_bytes(r, {d})" if t == "#V#" else f"gen_n(r, {t[2:-1]}).try_into().unwrap()" if t[:2] == "#F" else f"Ref::gen(r, {d})"
def ref_enc(t, x): return f"put_var(o, &{x}[..]);" if t == "#V#" else f"put_fixed(o, &{x}[..]);" if t[:2] == "#F" else f"{x}.enc(o);"
def ref_dec(t): return "get_var(i)?" if t == "#V#" else f"get_fixed(i, {t[2:-1]})?.try_into().unwrap()" if t[:2] == "#F" else "Ref::dec(i)?"

class Struct:
    def __init__(self, name, fields, rt=True): self.name, self.fields, self.rt = name, fields, rt
    def uses(self): return [t for f, t in self.fields]
class Std:
    """enum mapped through i32 by its own AsRef/TryFrom. numbers: [(variant, number)]"""
    rt = True
    def __init__(self, name, numbers): self.name, self.numbers = name, numbers
    def uses(self): return []
class Enum:
    """variants: (name, index or list of selector values or None (default), [field types]); fallback: the variant selected by
    unknown numbers (where that is no variant of its own); impl: xdr (XdrIndexer/XdrUnion) or serde (derived by serde)"""
    def __init__(self, name, kind, disc, variants, rt=True, fallback=None, impl="xdr"): self.name, self.kind, self.disc, self.variants, self.rt, self.fallback, self.impl = name, kind, disc, variants, rt, fallback, impl
    def uses(self): return [t for v, k, ts in self.variants for t in ts or []]
    def key(self, k):
        """Rust expression of a selector value"""
        if self.kind == "indexer": return f"{k}i32"
        if self.disc == "bool": return "true" if k else "false"
        if self.disc.startswith("%"): return f"{src_ty(self.disc)}::{k}"
        return f"{k}{self.disc}"
    def skey(self, k):
        e = self.key(k)
        if isinstance(k, int) and k < 0: return f"(({k}int) as {'i32' if self.kind == 'indexer' else self.disc})"
        return spec_ty(self.disc) + "::" + str(k) if self.kind != "indexer" and self.disc.startswith("%") else f"({e})"

def rust(items):
    o = ["#![allow(dead_code, unused_variables, unused_imports)]\nuse serde::ser::SerializeTuple;\nuse serde_xdr::{XdrIndexer, XdrUnion};\n"]
    for x in items:
        if isinstance(x, Struct):
            o.append(f"#[derive(Debug, serde::Serialize, serde::Deserialize)]\npub struct {x.name} {{ {', '.join(f'pub {f}: {src_ty(t)}' for f, t in x.fields)} }}\n")
            continue
        ds = "serde_xdr_derive::XdrIndexer" if x.kind == "indexer" else "serde_xdr_derive::XdrUnion"
        o.append(f"#[derive(Debug, {ds})]\npub enum {x.name} {{ {', '.join(v + ('(' + ', '.join(map(src_ty, ts)) + ')' if ts is not None else '') for v, k, ts in x.variants)} }}\n")
        T = "i32" if x.kind == "indexer" else src_ty(x.disc)
        arms = ""
        for v, k, ts in x.variants:
            ks = [k] if not isinstance(k, list) else k
            if k is not None:
                arms += " | ".join(x.key(q) for q in ks) + f' => Ok("{v}"), '
        d = next((v for v, k, ts in x.variants if k is None), None)
        full = T == "bool" and sum(len(k) for v, k, ts in x.variants if k) == 2
        arms += "" if full else f'_ => Ok("{d}"),' if d else "_ => Err(()),"
        if x.kind == "indexer":
            idx = ", ".join(f"{x.name}::{v}{'(..)' if ts is not None else ''} => {k}i32" for v, k, ts in x.variants)
            o.append(f"impl serde_xdr::XdrIndexer for {x.name} {{ type Error = ();\n fn name_by_index(index: i32) -> Result<&'static str, ()> {{ match index {{ {arms} }} }}\n fn index(&self) -> i32 {{ match self {{ {idx} }} }} }}\n")
        else:
            o.append(f"impl serde_xdr::XdrUnion<{T}> for {x.name} {{ type Error = ();\n fn name_by_value(value: &{T}) -> Result<&'static str, ()> {{ match *value {{ {arms} }} }} }}\n")
    return "".join(o)

def pat(x, v, ts, p): return f"crate::{modof(x.name)}::{x.name}::{v}" + ("(" + ", ".join(f"{p}{i}" for i in range(len(ts))) + ")" if ts is not None else "")

def distinct(names):
    """lemma: the names are pairwise different texts"""
    names = sorted(set(names))
    pf = []
    for n in names:
        pf.append(f'reveal_strlit("{n}");')
        pf.append(f'assert("{n}"@.len() == {len(n)});')
        pf += [f"assert(\"{n}\"@[{k}] == '{c}');" for k, c in enumerate(n)]
    pairs = [f'"{a}"@ != "{b}"@' for i, a in enumerate(names) for b in names[i + 1:]]
    return f"pub proof fn distinct() ensures {', '.join(pairs) or 'true'} {{ {' '.join(pf)} }}\n"
HIDE = "hide(crate::wire::be32); hide(crate::wire::be64); hide(crate::spec_ser::enc_bytes); hide(crate::spec_ser::enc_len);"
def enum_spec(x):
    T = f"crate::{modof(x.name)}::{x.name}"
    idx = x.kind == "indexer"
    D = "i32" if idx else spec_ty(x.disc)
    flds = lambda ts: [(str(i), codec(t)) for i, t in enumerate(ts or [])]
    # encoding
    enc = ""
    for v, k, ts in x.variants:
        fs = flds(ts)
        e = enc_chain(fs, lambda f: f"a{f}")
        if idx: e = e.replace("Some(Seq::<u8>::empty())", f"Some(be32(u_of_i32({x.skey(k)})))")
        enc += f"{pat(x, v, ts, 'a')} => {e},\n"
    # selection
    sel = []
    for v, k, ts in x.variants:
        if k is not None:
            sel.append((" || ".join(f"d == {x.skey(q)}" for q in (k if isinstance(k, list) else [k])) , v, ts))
    dfl = next(((v, ts) for v, k, ts in x.variants if k is None or v == x.fallback), None)
    def body(v, ts):
        fs = flds(ts)
        rest = fs if idx else fs[1:]
        keep = "" if idx or not fs else "y0 == d && "
        ch = Chain(f"c_{v}_", [(f"y{f}", c) for f, c in rest])
        okc = ch.ok(i="i1")
        okarm = f"Ok({pat(x, v, ts, 'y')}) => {keep}({okc}), Ok(_) => false," if len(x.variants) > 1 else f"Ok({pat(x, v, ts, 'y')}) => {keep}({okc}),"
        return f"match r {{ {okarm} Err(e) => {{ {ch.err(i='i1')} }} }}"
    # one named relation per variant keeps the obligations small
    rels = "".join(Chain(f"c_{v}_", [(f"y{f}", c) for f, c in (flds(ts) if idx else flds(ts)[1:])]).defs() + f"pub open spec fn sel_{v}<'de>(d: {D}, i1: Seq<u8>, r: Result<{T}, Error>, rest: Seq<u8>) -> bool {{ {body(v, ts)} }}\n" for v, k, ts in x.variants)
    chain = names = ""
    for c, v, ts in sel:
        chain += f"if {c} {{ sel_{v}(d, i1, r, rest) }} else "
        names += f'if {c} {{ Some("{v}"@) }} else '
    chain += f"{{ sel_{dfl[0]}(d, i1, r, rest) }}" if dfl else "{ r is Err }"
    names += f'{{ Some("{dfl[0]}"@) }}' if dfl else "{ None }"
    s = f"""@@root
pub mod spec_{x.name} {{
{USES}
pub open spec fn name(d: {D}) -> Option<Seq<char>> {{ {names} }}
pub open spec fn enc(v: {T}) -> Option<Seq<u8>> {{ match v {{ {enc} }} }}
{rels}
pub open spec fn body<'de>(d: {D}, i1: Seq<u8>, r: Result<{T}, Error>, rest: Seq<u8>) -> bool {{ {chain} }}
pub open spec fn hdr_err<'de>(i: Seq<u8>, e: Error) -> bool {{ exists|i1: Seq<u8>| #[trigger] <{D} as Deserialize<'de>>::dec(i, Err(e), i1) }}
pub open spec fn dec<'de>(i: Seq<u8>, r: Result<{T}, Error>, rest: Seq<u8>) -> bool {{
    ||| exists|d: {D}, i1: Seq<u8>| #[trigger] <{D} as Deserialize<'de>>::dec(i, Ok(d), i1) && body(d, i1, r, rest)
    ||| r is Err && hdr_err(i, r->Err_0)
}}
{distinct([v for v, k, ts in x.variants])}
"""
    if idx:
        s += f"pub open spec fn index(v: {T}) -> i32 {{ match v {{ {', '.join(pat(x, v, ts, '_q') + f' => {k}i32' for v, k, ts in x.variants)} }} }}\n"
    if x.rt:
        arms = lem = ""
        same = ""
        for v, k, ts in x.variants:
            fs = flds(ts)
            rest = fs if idx else fs[1:]
            ch = Chain(f"c_{v}_", [(f"y{f}", c) for f, c in rest])
            av = [f"a{f}" for f, c in rest]
            if idx:
                pre = f"let c = {x.skey(k)}; let e_ = be32(u_of_i32(c));"
                ty = "i32"
            else:
                pre = f"let c = a0; let e_ = (a0.enc())->Some_0; lemma_empty_add(e_);"
                ty = D
            params = "".join(f"a{f}: {c.ty}, " for f, c in fs)
            sm = " && ".join(c.same(f"a{f}", f"y{f}") for f, c in fs) or "true"
            lem += f"""{ch.lemmas()}proof fn rt_{v}<'de>({params}e: Seq<u8>, tail: Seq<u8>, r: Result<{T}, Error>, rest: Seq<u8>)
    requires enc({pat(x, v, ts, 'a')}) == Some(e), dec(e + tail, r, rest){'' if idx else f', name(a0) == Some("{v}"@)'}
    ensures match r {{ Ok({pat(x, v, ts, 'y')}) => {sm}, _ => false }}, rest == tail
{{
    {'' if idx else 'distinct();'}
    {pre} {ch.use(av, 'e_')}
    assert(e + tail == e_ + t0);
    if exists|d: {D}, i1: Seq<u8>| #[trigger] <{D} as Deserialize<'de>>::dec(e + tail, Ok(d), i1) && body(d, i1, r, rest) {{
        let (d, i1) = choose|d: {D}, i1: Seq<u8>| #[trigger] <{D} as Deserialize<'de>>::dec(e + tail, Ok(d), i1) && body(d, i1, r, rest);
        <{ty} as RT<'de>>::rt(c, e_, t0, Ok(d), i1);
        assert(sel_{v}(d, t0, r, rest));
        match r {{ Ok({pat(x, v, ts, 'y')}) => {{ {ch.use_ok(av, [f"y{f}" for f, c in rest])} }}, {'Ok(_) => { }, ' if len(x.variants) > 1 else ''}Err(k) => {{ {ch.use_err(av)} }} }}
    }} else {{ let i1 = choose|i1: Seq<u8>| #[trigger] <{D} as Deserialize<'de>>::dec(e + tail, Err(r->Err_0), i1); <{ty} as RT<'de>>::rt(c, e_, t0, Err(r->Err_0), i1); }}
}}
"""
            arms += f"{pat(x, v, ts, 'a')} => {{ rt_{v}({''.join(f'a{f}, ' for f, c in fs)}e, tail, r, rest); }},\n"
            same += f"({pat(x, v, ts, 'a')}, {pat(x, v, ts, 'y')}) => {sm}, "
        if len(x.variants) > 1: same += "_ => false,"
        s += lem
        if idx:
            s += f"""impl<'de> RT<'de> for {T} {{
    open spec fn same(a: {T}, b: {T}) -> bool {{ match (a, b) {{ {same} }} }}
    proof fn rt(v: {T}, e: Seq<u8>, tail: Seq<u8>, r: Result<{T}, Error>, rest: Seq<u8>) {{
        match v {{ {arms} }}
    }}
}}
"""
        else:
            wf = ", ".join(pat(x, v, ts, "a") + f' => name(a0) == Some("{v}"@)' for v, k, ts in x.variants)
            s += f"""pub open spec fn same<'de>(a: {T}, b: {T}) -> bool {{ match (a, b) {{ {same} }} }}
/// the discriminant stored in the value selects its variant
pub open spec fn wf(v: {T}) -> bool {{ match v {{ {wf} }} }}
pub proof fn rt<'de>(v: {T}, e: Seq<u8>, tail: Seq<u8>, r: Result<{T}, Error>, rest: Seq<u8>)
    requires wf(v), enc(v) == Some(e), dec(e + tail, r, rest)
    ensures r is Ok, same(v, r->Ok_0), rest == tail
{{
    match v {{ {arms} }}
}}
"""
    s += "}\n"
    n = max(len(ts or []) + (1 if idx else 0) for v, k, ts in x.variants)
    p = f"{modof(x.name)}::"
    s += f"@@inject {p}Serialize[{x.name}]\n    open spec fn enc(&self) -> Option<Seq<u8>> {{ crate::spec_{x.name}::enc(*self) }}\n"
    s += f"@@inject {p}Deserialize[{x.name}]\n    open spec fn dec(i: Seq<u8>, r: Result<{x.name}, {ERR}>, rest: Seq<u8>) -> bool {{ crate::spec_{x.name}::dec(i, r, rest) }}\n"
    s += f"@@body {p}Serialize[{x.name}]::serialize\n{HIDE}\n"
    if x.impl == "serde":
        N = len(x.variants)
        s += f"@@inject {p}Visitor[__Visitor_{x.name}<'de>]\n" + rel_header(x.name, f"ev == {EV}::Enum", "false", f"ev is Enum && crate::spec_{x.name}::dec(input, r, rest)")
        F = f"crate::{modof(x.name)}::__Field_{x.name}"
        s += f"@@inject {p}VariantSeed<'de>[std::marker::PhantomData<__Field_{x.name}>]\n    open spec fn vrel(self, idx: int, r: Result<__Field_{x.name}, {ERR}>) -> bool {{ match r {{ {' '.join(f'Ok({F}::__field{k}) => idx == {k},' for k in range(N))} Err(_) => idx < 0 || idx >= {N} }} }}\n"
        s += f"@@inject {p}Visitor[__FieldVisitor_{x.name}]\n" + rel_header(f"__Field_{x.name}", f"ev is U64", f"ev is U64 && match r {{ {' '.join(f'Ok({F}::__field{k}) => ev->U64_0 == {k},' for k in range(N))} Err(_) => ev->U64_0 >= {N} }}", "false")
        s += with_specs(modof(x.name), x.name, [codec(t) for v, k, ts in x.variants for t in ts or []])
        s += f"""@@body {p}Visitor->{x.name}::visit_enum
proof {{ let i = $1.$ede.$input@; let e = Error::NotEnoughData((4 - i.len()) as usize);
  if i.len() >= 4 {{ assert(<i32 as Deserialize<'de>>::dec(i, Ok(i_of_u32(de32(i))), i.skip(4))); }} else {{ assert(<i32 as Deserialize<'de>>::dec(i, Err(e), i)); }} }}
""".replace("Error::", "crate::error::Error::")
    else:
        s += f"@@inject {p}Visitor->{x.name}\n" + rel_header(x.name, f"match ev {{ {EV}::Seq(n) => n >= {max(n, 1)}, _ => false }}", "false", f"ev is Seq && crate::spec_{x.name}::dec(input, r, rest)")
        s += f"@@body {p}Visitor->{x.name}::visit_seq\nproof {{ crate::spec_{x.name}::distinct(); }}\n"
        if idx:
            s += f"@@inject {p}XdrIndexer[{x.name}]\n    open spec fn xname(i: i32) -> Option<Seq<char>> {{ crate::spec_{x.name}::name(i) }}\n    open spec fn xindex(&self) -> i32 {{ crate::spec_{x.name}::index(*self) }}\n"
        else:
            s += f"@@inject {p}XdrUnion[{x.name}]\n    open spec fn vname(v: {spec_ty(x.disc)}) -> Option<Seq<char>> {{ crate::spec_{x.name}::name(v) }}\n"
    return s

def std_spec(x):
    T = f"crate::{modof(x.name)}::{x.name}"; p = f"{modof(x.name)}::"
    num = ", ".join(f"{T}::{v} => {n}int as i32" if n < 0 else f"{T}::{v} => {n}i32" for v, n in x.numbers)
    dec = " || ".join(f"(n as int) == {n}" for v, n in x.numbers)
    inj = " ".join(f"if (n as int) == {n} {{ Some({T}::{v}) }} else" for v, n in x.numbers)
    return f"""@@root
pub mod spec_{x.name} {{
{USES}
pub open spec fn num(v: {T}) -> i32 {{ match v {{ {num} }} }}
pub open spec fn of(n: i32) -> Option<{T}> {{ {inj} {{ None }} }}
pub open spec fn enc(v: {T}) -> Option<Seq<u8>> {{ Some(be32(u_of_i32(num(v)))) }}
pub open spec fn dec(i: Seq<u8>, r: Result<{T}, Error>, rest: Seq<u8>) -> bool {{
    if i.len() < 4 {{ r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) }}
    else {{ match of(i_of_u32(de32(i))) {{ Some(v) => r == Ok::<{T}, Error>(v) && rest == i.skip(4), None => r is Err }} }}
}}
impl<'de> RT<'de> for {T} {{
    open spec fn same(a: {T}, b: {T}) -> bool {{ a == b }}
    proof fn rt(v: {T}, e: Seq<u8>, tail: Seq<u8>, r: Result<{T}, Error>, rest: Seq<u8>) {{
        let k = u_of_i32(num(v)); lemma_de_be32(k, tail); lemma_signed(); lemma_skip(be32(k), tail);
        assert(of(num(v)) == Some(v));
    }}
}}
}}
@@inject {p}Serialize[{x.name}]
    open spec fn enc(&self) -> Option<Seq<u8>> {{ crate::spec_{x.name}::enc(*self) }}
@@inject {p}Deserialize[{x.name}]
    open spec fn dec(i: Seq<u8>, r: Result<{x.name}, {ERR}>, rest: Seq<u8>) -> bool {{ crate::spec_{x.name}::dec(i, r, rest) }}
@@inject {p}VxAsRef[{x.name}]
    open spec fn ref_rel(&self, r: &i32) -> bool {{ *r == crate::spec_{x.name}::num(*self) }}
@@inject {p}VxTryFrom[{x.name}]
    open spec fn try_rel(e: i32, r: Result<{x.name}, {ERR}>) -> bool {{ match crate::spec_{x.name}::of(e) {{ Some(v) => r == Ok::<{x.name}, {ERR}>(v), None => r is Err }} }}
"""

TRAITS = f"""@@inject trait XdrIndexer
    spec fn xname(i: i32) -> Option<Seq<char>>;
    spec fn xindex(&self) -> i32;
@@fn trait XdrIndexer::name_by_index
ensures match Self::xname($1) {{ Some(s) => r is Ok && (r->Ok_0)@ == s, None => r is Err }}
@@fn trait XdrIndexer::index
ensures r == self.xindex()
@@inject trait XdrUnion
    spec fn vname(v: T) -> Option<Seq<char>>;
@@fn trait XdrUnion::name_by_value
ensures match Self::vname(*$1) {{ Some(s) => r is Ok && (r->Ok_0)@ == s, None => r is Err }}
"""
MODULE = """@@module {m}
use crate::serde::ser::*;
use crate::serde::de::*;
use crate::wire::*;
broadcast use crate::wire::group_seq;
"""
def specs(items, mods=(MOD,)):
    s = TRAITS + "".join(MODULE.format(m=m) for m in mods)
    for x in items:
        if isinstance(x, Struct):
            s += struct_spec(modof(x.name), x.name, [(f, codec(t)) for f, t in x.fields], x.rt)
        elif isinstance(x, Std):
            s += std_spec(x)
        else:
            s += enum_spec(x)
    return s

# ------------------------------------------------------------------------------------------------ replay
def replay_impl(items):
    o = []
    for x in items:
        if isinstance(x, Struct):
            N = src_ty(f"%{x.name}%")
            o.append(f"""impl Ref for {N} {{
    fn gen(r: &mut R, d: usize) -> Self {{ {N} {{ {', '.join(f'{f}: ' + ref_gen(t) for f, t in x.fields)} }} }}
    fn enc(&self, o: &mut Vec<u8>) {{ {' '.join(ref_enc(t, f'self.{f}') for f, t in x.fields)} }}
    fn dec(i: &mut &[u8]) -> D<Self> {{ Ok({N} {{ {', '.join(f'{f}: ' + ref_dec(t) for f, t in x.fields)} }}) }}
}}
""")
            continue
        if isinstance(x, Std):
            N = src_ty(f"%{x.name}%")
            o.append(f"""impl Ref for {N} {{
    fn gen(r: &mut R, d: usize) -> Self {{ match r.below({len(x.numbers)}) {{ {' '.join(f'{i} => {N}::{v},' for i, (v, n) in enumerate(x.numbers[:-1]))} _ => {N}::{x.numbers[-1][0]} }} }}
    fn enc(&self, o: &mut Vec<u8>) {{ match self {{ {', '.join(f'{N}::{v} => ({n}i32).enc(o)' for v, n in x.numbers)} }} }}
    fn dec(i: &mut &[u8]) -> D<Self> {{ let k = i32::dec(i)?; {' '.join(f'if k == {n} {{ return Ok({N}::{v}) }}' for v, n in x.numbers)} Err(E::Bad) }}
}}
""")
            continue
        idx = x.kind == "indexer"
        N = src_ty(f"%{x.name}%")
        gens = []; encs = []; decs = []; dfl = None
        for v, k, ts in x.variants:
            n = len(ts or [])
            if idx:
                args = [ref_gen(t) for t in ts or []]
            else:
                ks = [f"({x.key(q)})" for q in k] if k is not None else []
                disc = f"match r.below({len(ks)}) {{ {' '.join(f'{j} => {q},' for j, q in enumerate(ks[:-1]))} _ => {ks[-1]} }}" if k is not None else f"loop {{ let z: {src_ty(x.disc)} = Ref::gen(r, d); if !({' || '.join(f'matches!(z, {x.key(q)})' for _, kk, _ in x.variants if kk for q in kk) or 'false'}) {{ break z }} }}"
                args = [disc] + [ref_gen(t) for t in ts[1:]] if ts is not None else []
            call = f"{N}::{v}" + (f"({', '.join(args)})" if ts is not None else "")
            if not (idx and k is None): gens.append(call)
            encs.append(f"{N}::{v}" + ("(" + ", ".join(f"a{i}" for i in range(n)) + ")" if ts is not None else "") + " => { " + ("o.extend_from_slice(\"default\".as_bytes()); " if idx and k is None else f"({k}i32).enc(o); " if idx else "") + " ".join(ref_enc(t, f"a{i}") for i, t in enumerate(ts or [])) + " }")
            a = [ref_dec(t) for t in ts or []] if idx else (["k"] + [ref_dec(t) for t in ts[1:]] if ts is not None else [])
            dcall = f"{N}::{v}" + (f"({', '.join(a)})" if ts is not None else "")
            if k is None: dfl = dcall
            if v == x.fallback: dfl = dcall
            if k is not None:
                for q in (k if isinstance(k, list) else [k]):
                    decs.append(f"if matches!(k, {x.key(q)}) {{ return Ok({dcall}) }}")
        K = "i32" if idx else src_ty(x.disc)
        o.append(f"""impl Ref for {N} {{
    fn gen(r: &mut R, d: usize) -> Self {{ match r.below({len(gens)}) {{ {' '.join(f'{i} => {g},' for i, g in enumerate(gens[:-1]))} _ => {gens[-1]} }} }}
    fn enc(&self, o: &mut Vec<u8>) {{ match self {{ {', '.join(encs)} }} }}
    fn dec(i: &mut &[u8]) -> D<Self> {{ let k: {K} = Ref::dec(i)?; {' '.join(decs)} {f'Ok({dfl})' if dfl else 'Err(E::Bad)'} }}
}}
""")
    return "".join(o)
def replay_main(types):
    return "fn run(c: &mut Ctx) { " + " ".join(f'c.test::<{src_ty(t)}>("{src_ty(t)}");' for t in types) + " }\n"
