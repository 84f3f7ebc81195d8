//! Extraction of rpcgen: nom's combinators are unfolded into first-order code, iterator chains into loops, strings and vectors into
//! types whose values are exactly sequences, quote!/format_ident!/format! into calls whose result is unknown.
use crate::rewrite::{ident, last, path_str, sub, ty_key, Ctx, Inline, InlFn, Module};
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const NOM_PRIM: &[&str] = &[
    "alpha0", "alpha1", "alphanumeric0", "alphanumeric1", "digit0", "digit1", "hex_digit0", "hex_digit1", "oct_digit0", "oct_digit1", "multispace0", "multispace1", "space0", "space1",
    "line_ending", "not_line_ending", "newline", "eof", "rest",
];
const NOM_STR: &[&str] = &["tag", "take_until", "one_of", "none_of", "char"];

pub struct Rpc {
    pub cx: Ctx,
    fns: BTreeMap<String, ItemFn>,      // free functions: name -> item
    strs: BTreeMap<String, Vec<LitStr>>, // constants that are lists of texts
    fresh: usize,
    loops: usize,
    cur: String,
    bads: BTreeMap<String, BTreeSet<String>>,
    kept: BTreeSet<String>,
    calls: BTreeMap<String, BTreeSet<String>>,
}

fn is_test(a: &[Attribute]) -> bool {
    a.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}
fn derives(a: &[Attribute], n: &str) -> bool {
    a.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == n))
}
fn call_name(e: &Expr) -> Option<(String, Vec<Expr>)> {
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            return Some((last(&p.path), c.args.iter().cloned().collect()));
        }
    }
    None
}

impl Rpc {
    pub fn new(mut cx: Ctx) -> Self {
        cx.rpc = true;
        Rpc { cx, fns: BTreeMap::new(), strs: BTreeMap::new(), fresh: 0, loops: 0, kept: BTreeSet::new(), calls: BTreeMap::new(), cur: String::new(), bads: BTreeMap::new() }
    }
    fn id(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        ident(&format!("vx_{p}{}", self.fresh))
    }
    fn bad(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.cur.is_empty() {
            // counts only if the function is kept
            self.bads.entry(self.cur.clone()).or_default().insert(s);
            return;
        }
        if !self.cx.structural.contains(&s) {
            self.cx.structural.push(s);
        }
    }

    pub fn run(&mut self, files: Vec<(String, File)>) -> Vec<Module> {
        let mut mods: Vec<Module> = files
            .into_iter()
            .map(|(name, f)| Module { name: name.clone(), path: name, items: f.items.into_iter().filter(|i| !item_test(i)).collect(), children: vec![] })
            .collect();
        for m in &mods {
            for i in &m.items {
                match i {
                    Item::Fn(f) => {
                        self.fns.insert(f.sig.ident.to_string(), f.clone());
                    }
                    Item::Const(c) => {
                        if let Some(v) = str_list(&c.expr) {
                            self.strs.insert(c.ident.to_string(), v);
                        }
                    }
                    _ => {}
                }
            }
        }
        self.select(&mut mods);
        mods.retain(|m| m.items.iter().any(|i| !matches!(i, Item::Use(_))));
        for m in &mods {
            self.kept.insert(m.name.clone());
            for i in &m.items {
                if let Item::Struct(ItemStruct { ident, .. }) | Item::Enum(ItemEnum { ident, .. }) | Item::Type(ItemType { ident, .. }) | Item::Fn(ItemFn { sig: Signature { ident, .. }, .. }) = i {
                    self.kept.insert(ident.to_string());
                }
            }
        }
        for m in &mut mods {
            self.headers(m);
        }
        // nom and macros first: helpers are inlined in this form
        for m in &mut mods {
            let mut items = std::mem::take(&mut m.items);
            for i in &mut items {
                match i {
                    Item::Fn(f) => self.nom_block(&mut f.block),
                    Item::Impl(i) => {
                        for x in &mut i.items {
                            if let ImplItem::Fn(f) = x {
                                self.nom_block(&mut f.block);
                            }
                        }
                    }
                    _ => {}
                }
            }
            m.items = items;
        }
        for m in &mods {
            self.cx.collect_inl(m);
        }
        for m in &mut mods {
            self.cx.cur_module = m.path.clone();
            let mut items = std::mem::take(&mut m.items);
            for i in &mut items {
                match i {
                    Item::Fn(f) => {
                        let id = format!("{}::{}", m.path, f.sig.ident);
                        self.body(&id, &mut f.sig, &mut f.block);
                    }
                    Item::Impl(i) => {
                        for x in &mut i.items {
                            if let ImplItem::Fn(f) = x {
                                let id = match &i.trait_ { None => format!("{}::{}", last_ty(&i.self_ty), f.sig.ident), Some((_, p, _)) => format!("{}::{}[{}]::{}", m.path, last(p), ty_key(&i.self_ty), f.sig.ident) };
                                self.body(&id, &mut f.sig, &mut f.block);
                                match f.sig.ident.to_string().as_str() {
                                    "from" if i.trait_.is_some() => f.sig.ident = ident("vx_from"),
                                    "try_from" if i.trait_.is_some() => f.sig.ident = ident("vx_try_from"),
                                    _ => {}
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            m.items = items;
        }
        // what is inlined everywhere is not emitted; what could not be inlined has no contract
        let calls = std::mem::take(&mut self.calls);
        self.cur.clear();
        let mut need: BTreeSet<String> = BTreeSet::new();
        let mut todo: Vec<String> = calls.keys().filter(|k| self.cx.spec.fns.contains_key(*k) || k.contains('[')).cloned().collect();
        let mut seen = BTreeSet::new();
        while let Some(k) = todo.pop() {
            if !seen.insert(k.clone()) { continue }
            for r in calls.get(&k).into_iter().flatten() {
                for c in calls.keys() {
                    let n = c.rsplit("::").next().unwrap();
                    let free = c.chars().next().is_some_and(|x| x.is_lowercase()) && !c.contains('[');
                    if (free && (r == n || *r == format!("::{n}"))) || (!free && (r == c || *r == format!(".{n}") || *r == format!("Self::{n}"))) {
                        need.insert(c.clone());
                        todo.push(c.clone());
                    }
                }
            }
        }
        for (id, v) in std::mem::take(&mut self.bads) {
            if need.contains(&id) || id.contains('[') || self.cx.lookup(&[id.clone()]).is_some() {
                for s in v { self.bad(format!("{s} in {id}")); }
            }
        }
        for m in &mut mods {
            let path = m.path.clone();
            for i in std::mem::take(&mut m.items) {
                match i {
                    Item::Fn(f) => {
                        let id = format!("{path}::{}", f.sig.ident);
                        if self.cx.lookup(&[id.clone()]).is_none() {
                            if !need.contains(&id) { continue }
                            self.bad(format!("{} has no contract and could not be inlined", f.sig.ident));
                        }
                        m.items.push(Item::Fn(f));
                    }
                    Item::Impl(mut im) if im.trait_.is_none() => {
                        let t = last_ty(&im.self_ty);
                        let its = std::mem::take(&mut im.items);
                        for x in its {
                            if let ImplItem::Fn(f) = &x {
                                let id = format!("{t}::{}", f.sig.ident);
                                if self.cx.lookup(&[id.clone()]).is_none() {
                                    if !need.contains(&id) { continue }
                                    self.bad(format!("{id} has no contract and could not be inlined"));
                                }
                            }
                            im.items.push(x);
                        }
                        if !im.items.is_empty() { m.items.push(Item::Impl(im)); }
                    }
                    i => m.items.push(i),
                }
            }
        }
        mods
    }
    /// keeps what the functions under contract need
    fn select(&mut self, mods: &mut [Module]) {
        let only: BTreeSet<String> = self.cx.spec.only.iter().cloned().collect();
        let mut used: BTreeSet<String> = BTreeSet::new();
        // roots: functions with a contract
        let mut todo: Vec<BTreeSet<String>> = vec![];
        for m in mods.iter() {
            for i in &m.items {
                match i {
                    Item::Fn(f) if self.cx.lookup(&[format!("{}::{}", m.path, f.sig.ident)]).is_some() => {
                        used.insert(f.sig.ident.to_string());
                        todo.push(refs_item(i));
                    }
                    Item::Impl(im) => {
                        for x in &im.items {
                            if let ImplItem::Fn(f) = x {
                                let ids = imp_ids(m, im, &f.sig.ident.to_string());
                                if self.cx.lookup(&ids).is_some() {
                                    used.insert(ids.last().unwrap().clone());
                                    todo.push(refs_fn(&f.sig, &f.block));
                                    todo.push([last_ty(&im.self_ty)].into_iter().collect());
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        todo.push(only.clone());
        let mut seen: BTreeSet<String> = BTreeSet::new();
        while let Some(w) = todo.pop() {
            for n in w {
                if !seen.insert(n.clone()) { continue }
                for m in mods.iter() {
                    for i in &m.items {
                        match i {
                            Item::Fn(f) if f.sig.ident == n || n == format!("::{}", f.sig.ident) => { used.insert(f.sig.ident.to_string()); todo.push(refs_item(i)); }
                            Item::Struct(s) if s.ident == n => { used.insert(n.clone()); todo.push(refs_item(i)); }
                            Item::Enum(s) if s.ident == n => { used.insert(n.clone()); todo.push(refs_item(i)); }
                            Item::Const(s) if s.ident == n => { used.insert(n.clone()); todo.push(refs_item(i)); }
                            Item::Type(s) if s.ident == n => { used.insert(n.clone()); todo.push(refs_item(i)); }
                            Item::Impl(im) if im.trait_.is_none() => {
                                for x in &im.items {
                                    if let ImplItem::Fn(f) = x {
                                        let t = last_ty(&im.self_ty);
                                        if n == format!(".{}", f.sig.ident) && f.sig.receiver().is_some() || n == format!("{t}::{}", f.sig.ident) || n == format!("Self::{}", f.sig.ident) {
                                            used.insert(imp_ids(m, im, &f.sig.ident.to_string()).last().unwrap().clone());
                                            todo.push(refs_fn(&f.sig, &f.block));
                                            todo.push([t].into_iter().collect());
                                        }
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        // constructors named `new` are told apart by their type
        for m in mods.iter_mut() {
            let path = m.path.clone();
            m.items.retain_mut(|i| match i {
                Item::Fn(f) => used.contains(&f.sig.ident.to_string()),
                Item::Struct(s) => used.contains(&s.ident.to_string()),
                Item::Enum(s) => used.contains(&s.ident.to_string()),
                Item::Const(s) => used.contains(&s.ident.to_string()),
                Item::Type(s) => used.contains(&s.ident.to_string()),
                Item::Impl(im) => {
                    let mm = Module { name: path.clone(), path: path.clone(), items: vec![], children: vec![] };
                    let ic = im.clone();
                    im.items.retain(|x| match x {
                        ImplItem::Fn(f) => {
                            let ids = imp_ids(&mm, &ic, &f.sig.ident.to_string());
                            used.contains(ids.last().unwrap()) || (ic.trait_.is_some() && ids.iter().any(|k| used.contains(k)))
                        }
                        _ => true,
                    });
                    if im.trait_.is_some() {
                        im.items.iter().any(|x| matches!(x, ImplItem::Fn(_)))
                    } else {
                        !im.items.is_empty() && im.items.iter().any(|x| matches!(x, ImplItem::Fn(_)))
                    }
                }
                Item::Use(_) => true,
                _ => false,
            });
        }
    }

    fn headers(&mut self, m: &mut Module) {
        let items = std::mem::take(&mut m.items);
        let mut out: Vec<Item> = vec![];
        out.push(parse_quote!(use crate::vx::{VxVec as Vec, VxString as String, VxEq as _, VxToString as _, VxLen as _, VxParse as _, VxTryFrom as _};));
        if self.cx.spec.root.iter().any(|t| t.contains("pub mod vxs {")) { out.push(parse_quote!(use crate::vxs::VxSeq as _;)); }
        for mut it in items {
            match &mut it {
                Item::Use(u) => {
                    let mut v = vec![];
                    leaves(&u.tree, &mut vec![], &mut v);
                    for p in v {
                        if p[0] == "crate" && self.kept.contains(p.last().unwrap()) {
                            let t: TokenStream = p.join("::").parse().unwrap();
                            out.push(parse_quote!(use #t;));
                        }
                    }
                    continue;
                }
                Item::Struct(s) => {
                    let (cl, eq) = (derives(&s.attrs, "Clone"), derives(&s.attrs, "PartialEq"));
                    s.attrs.clear();
                    for f in s.fields.iter_mut() { f.attrs.clear(); }
                    let n = s.ident.clone();
                    out.push(it.clone());
                    self.auto(&mut out, &n, cl, eq);
                }
                Item::Enum(s) => {
                    let (cl, eq) = (derives(&s.attrs, "Clone"), derives(&s.attrs, "PartialEq"));
                    s.attrs.clear();
                    for v in s.variants.iter_mut() { v.attrs.clear(); }
                    let n = s.ident.clone();
                    out.push(it.clone());
                    self.auto(&mut out, &n, cl, eq);
                }
                Item::Const(c) => {
                    if str_list(&c.expr).is_some() { continue }
                    c.attrs.clear();
                    out.push(it);
                }
                Item::Fn(f) => {
                    f.attrs.clear();
                    sig(&mut f.sig);
                    out.push(it);
                }
                Item::Impl(i) => {
                    i.attrs.clear();
                    if let Some((_, p, _)) = &mut i.trait_ {
                        let n = last(p);
                        match n.as_str() {
                            "TryFrom" | "From" => {
                                let mut a = p.segments.last().unwrap().arguments.clone();
                                // conversions from a reference are stated for the value
                                if let PathArguments::AngleBracketed(b) = &mut a {
                                    for x in b.args.iter_mut() {
                                        if let GenericArgument::Type(Type::Reference(r)) = x {
                                            let e = (*r.elem).clone();
                                            *x = GenericArgument::Type(e);
                                        }
                                    }
                                }
                                let q = ident(&format!("Vx{n}"));
                                let mut np: Path = parse_quote!(crate::vx::#q);
                                np.segments.last_mut().unwrap().arguments = a;
                                *p = np;
                                for x in i.items.iter_mut() {
                                    if let ImplItem::Type(t) = x {
                                        if path_ty(&t.ty).ends_with("ParseIntError") {
                                            t.ty = parse_quote!(crate::vx::VxIntError);
                                        }
                                    }
                                }
                            }
                            _ => continue,
                        }
                    }
                    for x in i.items.iter_mut() {
                        if let ImplItem::Fn(f) = x {
                            f.attrs.clear();
                            sig(&mut f.sig);
                        }
                    }
                    out.push(it);
                }
                _ => out.push(it),
            }
        }
        m.items = out;
    }
    fn auto(&mut self, out: &mut Vec<Item>, n: &Ident, cl: bool, eq: bool) {
        if cl {
            self.cx.note("derived Clone is assumed to copy the value");
            out.push(Item::Verbatim(quote!(impl Clone for #n { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } })));
        }
        if eq {
            self.cx.note("derived PartialEq is assumed to compare by value");
            out.push(Item::Verbatim(quote!(impl crate::vx::VxEq<#n> for #n { open spec fn seq(&self, o: &#n) -> bool { *self == *o } #[verifier::external_body] fn vx_eq(&self, o: &#n) -> (b: bool) { unimplemented!() } })));
        }
    }

    // ------------------------------------------------------------------------------------------ nom
    fn nom_block(&mut self, b: &mut Block) {
        struct V<'a>(&'a mut Rpc);
        impl<'a> VisitMut for V<'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::MethodCall(m) = e {
                    if m.method == "parse" && m.args.len() == 1 {
                        let i = m.args[0].clone();
                        let p = (*m.receiver).clone();
                        let v = self.0.id("in");
                        let g = self.0.nom(&p, &parse_quote!(#v));
                        *e = parse_quote!({ let #v = #i; #g });
                        return;
                    }
                }
                // delimited(..)(input)
                if let Expr::Call(c) = e {
                    if let Expr::Call(k) = &*c.func {
                        if c.args.len() == 1 {
                            let p = Expr::Call(k.clone());
                            let i = c.args[0].clone();
                            let v = self.0.id("in");
                            let g = self.0.nom(&p, &parse_quote!(#v));
                            *e = parse_quote!({ let #v = #i; #g });
                            return;
                        }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        V(self).visit_block_mut(b);
    }
    fn many(&mut self, i: &Expr, first: Option<Expr>, step: impl FnOnce(&mut Rpc, &Expr) -> Expr) -> Expr {
        let n = self.loops_next();
        let mark = ident(&format!("VX_INV_{n}"));
        let (lb, le, la) = (ident(&format!("VX_LB_{n}")), ident(&format!("VX_LE_{n}")), ident(&format!("VX_LA_{n}")));
        let (acc, cur, err, go) = (ident(&format!("vx_acc{n}")), ident(&format!("vx_cur{n}")), ident(&format!("vx_err{n}")), ident(&format!("vx_go{n}")));
        let g = step(self, &parse_quote!(#cur));
        let body = quote!(
            let mut #err: Option<crate::nom::NomErr> = None;
            let mut #go = true;
            while #go {
                VX_HDR! { invariant #cur@.len() <= #i@.len(), #mark decreases #cur@.len(), (if #go { 1int } else { 0int }) }
                #lb;
                match #g {
                    Err(crate::nom::NomErr::Error) => { #go = false; }
                    Err(vx_e) => { #err = Some(vx_e); #go = false; }
                    Ok((vx_r, vx_v)) => {
                        if crate::nom::vx_same_len(vx_r, #cur) { #err = Some(crate::nom::NomErr::Error); #go = false; }
                        else { #acc.push(vx_v); #cur = vx_r; }
                    }
                }
                #le;
            }
            #la;
            match #err { Some(vx_e) => Err(vx_e), None => Ok((#cur, #acc)) }
        );
        match first {
            None => parse_quote!({ let mut #acc = crate::vx::VxVec::new(); let mut #cur = #i; #body }),
            Some(f) => parse_quote!({ match #f { Err(vx_e) => Err(vx_e), Ok((vx_r, vx_v)) => { let mut #acc = crate::vx::VxVec::new(); #acc.push(vx_v); let mut #cur = vx_r; #body } } }),
        }
    }
    fn loops_next(&mut self) -> usize {
        // numbered per function later (source order)
        self.loops += 1;
        self.loops - 1 + 1000
    }
    /// code that runs parser `p` on the text `i` (a variable)
    fn nom(&mut self, p: &Expr, i: &Expr) -> Expr {
        match p {
            Expr::Paren(x) => self.nom(&x.expr, i),
            Expr::Group(x) => self.nom(&x.expr, i),
            Expr::Reference(x) => self.nom(&x.expr, i),
            Expr::Path(q) => {
                let n = last(&q.path);
                let id = ident(&n);
                if self.fns.contains_key(&n) || !NOM_PRIM.contains(&n.as_str()) {
                    if !self.fns.contains_key(&n) {
                        self.bad(format!("parser {n} is not known"));
                    }
                    let q = &q.path;
                    parse_quote!(#q(#i))
                } else {
                    parse_quote!(crate::nom::#id(#i))
                }
            }
            Expr::Tuple(t) => {
                let ps: Vec<Expr> = t.elems.iter().cloned().collect();
                self.nom_seq(&ps, i, &mut |v| { let v = v.iter(); parse_quote!((#(#v),*)) })
            }
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let pat = &c.inputs[0];
                let mut b = (*c.body).clone();
                let mut bl: Block = parse_quote!({ #b });
                self.nom_block(&mut bl);
                b = Expr::Block(ExprBlock { attrs: vec![], label: None, block: bl });
                let pat = match pat { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                parse_quote!({ let #pat = #i; #b })
            }
            Expr::MethodCall(m) => {
                let a: Vec<Expr> = m.args.iter().cloned().collect();
                let r = (*m.receiver).clone();
                let n = m.method.to_string();
                let e: Option<Expr> = match (n.as_str(), a.len()) {
                    ("map", 1) => { let f = &a[0]; Some(parse_quote!(map(#r, #f))) }
                    ("and", 1) => { let f = &a[0]; Some(parse_quote!(pair(#r, #f))) }
                    ("or", 1) => { let f = &a[0]; Some(parse_quote!(alt((#r, #f)))) }
                    _ => None,
                };
                match e {
                    Some(e) => self.nom(&e, i),
                    None => { self.bad(format!("parser method {n}")); parse_quote!(crate::nom::unknown(#i)) }
                }
            }
            Expr::Call(_) => {
                let Some((n, a)) = call_name(p) else { self.bad("parser expression"); return parse_quote!(crate::nom::unknown(#i)) };
                let local = self.fns.get(&n).cloned();
                if let Some(f) = local {
                    return self.nom_local(&f, &a, i);
                }
                if NOM_STR.contains(&n.as_str()) && a.len() == 1 {
                    let id = ident(&n);
                    let l = &a[0];
                    return parse_quote!(crate::nom::#id(#l, #i));
                }
                match (n.as_str(), a.len()) {
                    ("map", 2) => {
                        let g = self.nom(&a[0], i);
                        let (r, v) = (self.id("r"), self.id("v"));
                        let b = self.apply(&a[1], &parse_quote!(#v));
                        sub(parse_quote!(match VXG { Ok((#r, #v)) => Ok((#r, VXB)), Err(vx_e) => Err(vx_e) }), &[("VXG", &g), ("VXB", &b)])
                    }
                    ("map_res" | "map_opt", 2) => { self.bad("map_res"); parse_quote!(crate::nom::unknown(#i)) }
                    ("value", 2) => {
                        let g = self.nom(&a[1], i);
                        let r = self.id("r");
                        sub(parse_quote!(match VXG { Ok((#r, _)) => Ok((#r, VXB)), Err(vx_e) => Err(vx_e) }), &[("VXG", &g), ("VXB", &a[0])])
                    }
                    ("opt", 1) => {
                        let g = self.nom(&a[0], i);
                        sub(parse_quote!(match VXG { Ok((vx_r, vx_v)) => Ok((vx_r, Some(vx_v))), Err(crate::nom::NomErr::Error) => Ok((#i, None)), Err(vx_e) => Err(vx_e) }), &[("VXG", &g)])
                    }
                    ("peek", 1) => {
                        let g = self.nom(&a[0], i);
                        sub(parse_quote!(match VXG { Ok((_, vx_v)) => Ok((#i, vx_v)), Err(vx_e) => Err(vx_e) }), &[("VXG", &g)])
                    }
                    ("not", 1) => {
                        let g = self.nom(&a[0], i);
                        sub(parse_quote!(match VXG { Ok(_) => Err(crate::nom::NomErr::Error), Err(crate::nom::NomErr::Error) => Ok((#i, ())), Err(vx_e) => Err(vx_e) }), &[("VXG", &g)])
                    }
                    ("cut", 1) => {
                        let g = self.nom(&a[0], i);
                        sub(parse_quote!(match VXG { Ok(vx_x) => Ok(vx_x), Err(crate::nom::NomErr::Error) => Err(crate::nom::NomErr::Failure), Err(vx_e) => Err(vx_e) }), &[("VXG", &g)])
                    }
                    ("recognize", 1) => {
                        let g = self.nom(&a[0], i);
                        let r = self.id("r");
                        sub(parse_quote!(match VXG { Ok((#r, _)) => Ok((#r, crate::nom::recognized(#i, #r))), Err(vx_e) => Err(vx_e) }), &[("VXG", &g)])
                    }
                    ("all_consuming", 1) => {
                        let g = self.nom(&a[0], i);
                        sub(parse_quote!(match VXG { Ok((vx_r, vx_v)) => if crate::nom::vx_empty(vx_r) { Ok((vx_r, vx_v)) } else { Err(crate::nom::NomErr::Error) }, Err(vx_e) => Err(vx_e) }), &[("VXG", &g)])
                    }
                    ("verify", 2) => {
                        let g = self.nom(&a[0], i);
                        let (r, v) = (self.id("r"), self.id("v"));
                        let b = self.apply(&a[1], &parse_quote!(&#v));
                        sub(parse_quote!(match VXG { Ok((#r, #v)) => if VXB { Ok((#r, #v)) } else { Err(crate::nom::NomErr::Error) }, Err(vx_e) => Err(vx_e) }), &[("VXG", &g), ("VXB", &b)])
                    }
                    ("pair", 2) => self.nom_seq(&a, i, &mut |v| { let v = v.iter(); parse_quote!((#(#v),*)) }),
                    ("separated_pair", 3) => self.nom_seq(&a, i, &mut |v| { let (x, y) = (&v[0], &v[2]); parse_quote!((#x, #y)) }),
                    ("preceded", 2) => self.nom_seq(&a, i, &mut |v| { let x = &v[1]; parse_quote!(#x) }),
                    ("terminated", 2) => self.nom_seq(&a, i, &mut |v| { let x = &v[0]; parse_quote!(#x) }),
                    ("delimited", 3) => self.nom_seq(&a, i, &mut |v| { let x = &v[1]; parse_quote!(#x) }),
                    ("alt", 1) => {
                        let ps: Vec<Expr> = match &a[0] { Expr::Tuple(t) => t.elems.iter().cloned().collect(), Expr::Array(t) => t.elems.iter().cloned().collect(), _ => { self.bad("alt"); vec![] } };
                        let mut out: Expr = parse_quote!(Err(crate::nom::NomErr::Error));
                        let gs: Vec<Expr> = ps.iter().map(|p| self.nom(p, i)).collect();
                        for g in gs.iter().rev() {
                            out = sub(parse_quote!(match VXG { Err(crate::nom::NomErr::Error) => VXO, vx_x => vx_x }), &[("VXG", g), ("VXO", &out)]);
                        }
                        out
                    }
                    ("many0", 1) => { let p = a[0].clone(); self.many(i, None, |s, c| s.nom(&p, c)) }
                    ("many1", 1) => { let p = a[0].clone(); let f = self.nom(&p, i); self.many(i, Some(f), |s, c| s.nom(&p, c)) }
                    ("separated_list1", 2) => {
                        let p = a[1].clone();
                        let f = self.nom(&p, i);
                        let q: Expr = { let (s, e) = (&a[0], &a[1]); parse_quote!(preceded(#s, #e)) };
                        self.many(i, Some(f), |s, c| s.nom(&q, c))
                    }
                    ("separated_list0", 2) => {
                        let e: Expr = { let (s, e) = (&a[0], &a[1]); parse_quote!(opt(separated_list1(#s, #e))) };
                        let g = self.nom(&e, i);
                        sub(parse_quote!(match VXG { Ok((vx_r, Some(vx_v))) => Ok((vx_r, vx_v)), Ok((vx_r, None)) => Ok((vx_r, crate::vx::VxVec::new())), Err(vx_e) => Err(vx_e) }), &[("VXG", &g)])
                    }
                    _ => { self.bad(format!("combinator {n}/{}", a.len())); parse_quote!(crate::nom::unknown(#i)) }
                }
            }
            _ => { self.bad("parser expression"); parse_quote!(crate::nom::unknown(#i)) }
        }
    }
    fn nom_seq(&mut self, ps: &[Expr], i: &Expr, make: &mut dyn FnMut(&[Ident]) -> Expr) -> Expr {
        let vs: Vec<Ident> = ps.iter().map(|_| self.id("v")).collect();
        let rs: Vec<Ident> = ps.iter().map(|_| self.id("r")).collect();
        let mut gs = vec![];
        for (k, p) in ps.iter().enumerate() {
            let inp: Expr = if k == 0 { i.clone() } else { let r = &rs[k - 1]; parse_quote!(#r) };
            gs.push(self.nom(p, &inp));
        }
        let rl = rs.last().unwrap();
        let fin = make(&vs);
        let mut out: Expr = parse_quote!(Ok((#rl, #fin)));
        for k in (0..ps.len()).rev() {
            let (r, v) = (&rs[k], &vs[k]);
            out = sub(parse_quote!(match VXG { Ok((#r, #v)) => VXO, Err(vx_e) => Err(vx_e) }), &[("VXG", &gs[k]), ("VXO", &out)]);
        }
        out
    }
    /// a local function that returns a parser: its body with the arguments in place of the parameters
    fn nom_local(&mut self, f: &ItemFn, a: &[Expr], i: &Expr) -> Expr {
        let mut st = f.block.stmts.clone();
        let Some(Stmt::Expr(tail, None)) = st.pop() else { self.bad(format!("parser {}", f.sig.ident)); return parse_quote!(crate::nom::unknown(#i)) };
        let mut tail = tail;
        if !st.is_empty() || f.sig.inputs.len() != a.len() {
            self.bad(format!("parser {}", f.sig.ident));
            return parse_quote!(crate::nom::unknown(#i));
        }
        let mut subs = BTreeMap::new();
        for (p, x) in f.sig.inputs.iter().zip(a) {
            if let FnArg::Typed(t) = p {
                if let Pat::Ident(n) = &*t.pat { subs.insert(n.ident.to_string(), x.clone()); }
            }
        }
        struct S(BTreeMap<String, Expr>);
        impl VisitMut for S {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Path(p) = e {
                    if let Some(x) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) { *e = x.clone(); return; }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        S(subs).visit_expr_mut(&mut tail);
        self.cx.note(format!("unfolded {}", f.sig.ident));
        self.nom(&tail, i)
    }
    fn apply(&mut self, f: &Expr, v: &Expr) -> Expr {
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let (p, b) = (match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }, &c.body);
                if matches!(p, Pat::Wild(_)) { return (**b).clone() }
                parse_quote!({ let #p = #v; #b })
            }
            Expr::Paren(p) => self.apply(&p.expr, v),
            f => parse_quote!(#f(#v)),
        }
    }

    // ------------------------------------------------------------------------------------------ bodies
    fn body(&mut self, id: &str, sig: &mut Signature, block: &mut Block) {
        self.cur = id.to_string();
        for _ in 0..8 {
            let mut v = Inline { cx: &mut self.cx, changed: false };
            v.tail_block(block);
            v.visit_block_mut(block);
            if !v.changed { break; }
        }
        let opt = matches!(&sig.output, ReturnType::Type(_, t) if matches!(&**t, Type::Path(p) if last(&p.path) == "Option"));
        let mut lets: Vec<Stmt> = vec![];
        let bound = bound_in(block);
        for (k, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(p) = &mut *t.pat {
                    // the contracts speak about the parameter, not about what shadows it
                    if p.mutability.is_some() || bound.contains(&p.ident.to_string()) {
                        let n = ident(&format!("vx_a{k}"));
                        let id = std::mem::replace(&mut p.ident, n.clone());
                        let m = p.mutability.take();
                        lets.push(parse_quote!(let #m #id = #n;));
                    }
                }
                if !matches!(&*t.pat, Pat::Ident(_)) {
                    let id = ident(&format!("vx_p{k}"));
                    let p = (*t.pat).clone();
                    if !matches!(p, Pat::Wild(_)) { lets.push(parse_quote!(let #p = #id;)); }
                    *t.pat = parse_quote!(#id);
                }
            }
        }
        block.stmts.splice(0..0, lets);
        Fix { r: self, opt, n: 0 }.visit_block_mut(block);
        struct Left(BTreeSet<String>);
        impl<'a> visit::Visit<'a> for Left {
            fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
                let n = m.method.to_string();
                if ["sort_by", "sort", "iter", "into_iter", "iter_mut", "chars", "char_indices", "bytes", "split", "split_inclusive", "match_indices", "windows", "map", "fold", "filter", "collect", "enumerate", "zip", "rev"].contains(&n.as_str()) { self.0.insert(n); }
                visit::visit_expr_method_call(self, m);
            }
        }
        let mut l = Left(BTreeSet::new());
        visit::Visit::visit_block(&mut l, block);
        for n in l.0 { self.bad(format!("iterator {n}")); }
        self.calls.insert(id.to_string(), refs_fn(sig, block));
        // nom's loops and the others are numbered in the order of the text
        let mut named = vec![];
        own_lets(block, &mut named);
        self.cx.named.insert(id.to_string(), named);
        let mut text = block.to_token_stream();
        let mut map = BTreeMap::new();
        text = renumber(text, &mut map);
        *block = Block { brace_token: block.brace_token, stmts: vec![Stmt::Expr(Expr::Verbatim(text), None)] };
    }
}

/// the named values of a function itself, in order, each marked
fn own_lets(b: &mut Block, named: &mut Vec<String>) {
    if b.stmts.len() == 1 {
        if let Stmt::Expr(Expr::Block(i), None) = &mut b.stmts[0] {
            return own_lets(&mut i.block, named);
        }
    }
    for s in std::mem::take(&mut b.stmts) {
        let name = match &s {
            Stmt::Local(l) => {
                let mut p = &l.pat;
                if let Pat::Type(t) = p { p = &t.pat; }
                match p { Pat::Ident(i) if !i.ident.to_string().starts_with("vx_") => Some(i.ident.to_string()), _ => None }
            }
            _ => None,
        };
        b.stmts.push(s);
        if let Some(n) = name {
            let m = ident(&format!("VX_V_{}", named.len()));
            b.stmts.push(parse_quote!(#m;));
            named.push(n);
        }
    }
}

/// the variants of nom's error, without what they carry
fn nom_err(p: &Path) -> Option<Path> {
    let s = path_str(p);
    let k = s.strip_prefix("nom::Err::").or_else(|| s.strip_prefix("::nom::Err::"))?;
    let k = ident(k);
    Some(parse_quote!(crate::nom::NomErr::#k))
}
/// names bound in a body
fn bound_in(b: &Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(BTreeSet::new());
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

fn renumber(t: TokenStream, map: &mut BTreeMap<String, usize>) -> TokenStream {
    use proc_macro2::TokenTree;
    t.into_iter()
        .map(|x| -> TokenStream { match x {
            TokenTree::Group(g) => {
                let v: Vec<TokenTree> = g.stream().into_iter().collect();
                if let [TokenTree::Ident(h), TokenTree::Punct(_), TokenTree::Group(hd), more @ ..] = &v[..] {
                    if h == "VX_HDR" {
                        let hd = renumber(hd.stream(), map);
                        let more = renumber(more.iter().cloned().collect(), map);
                        return quote!(#hd { #more });
                    }
                }
                let mut n = proc_macro2::Group::new(g.delimiter(), renumber(g.stream(), map));
                n.set_span(g.span());
                TokenTree::Group(n).into()
            }
            TokenTree::Ident(i) => {
                let s = i.to_string();
                let d = s.rfind(|c: char| !c.is_ascii_digit()).map(|p| p + 1).unwrap_or(0);
                if d < s.len() && s.len() - d >= 4 && (s.starts_with("vx_") || s.starts_with("VX_")) {
                    let k = s[d..].to_string();
                    let n = map.len();
                    let n = *map.entry(k).or_insert(n);
                    TokenTree::Ident(ident(&format!("{}{n}", &s[..d]))).into()
                } else {
                    TokenTree::Ident(i).into()
                }
            }
            x => x.into(),
        }})
        .collect()
}

fn item_test(i: &Item) -> bool {
    match i {
        Item::Mod(m) => is_test(&m.attrs),
        Item::Fn(f) => is_test(&f.attrs),
        _ => false,
    }
}
fn str_list(e: &Expr) -> Option<Vec<LitStr>> {
    let e = match e { Expr::Reference(r) => &*r.expr, e => e };
    if let Expr::Array(a) = e {
        return a.elems.iter().map(|x| if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = x { Some(s.clone()) } else { None }).collect();
    }
    None
}
fn last_ty(t: &Type) -> String {
    match t { Type::Path(p) => last(&p.path), t => ty_key(t) }
}
fn path_ty(t: &Type) -> String {
    match t { Type::Path(p) => path_str(&p.path), t => ty_key(t) }
}
fn imp_ids(m: &Module, im: &ItemImpl, n: &str) -> Vec<String> {
    match &im.trait_ {
        None => vec![format!("{}::{n}", last_ty(&im.self_ty))],
        Some((_, p, _)) => {
            let t = last(p).replace("VxFrom", "From").replace("VxTryFrom", "TryFrom");
            vec![format!("{}::{t}[{}]::{n}", m.path, ty_key(&im.self_ty)), format!("{t}[{}]::{n}", ty_key(&im.self_ty))]
        }
    }
}
fn sig(s: &mut Signature) {
    struct T;
    impl VisitMut for T {
        fn visit_type_mut(&mut self, t: &mut Type) {
            visit_mut::visit_type_mut(self, t);
            if let Type::Path(p) = t {
                let n = last(&p.path);
                if n == "IResult" {
                    if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                        let (x, y) = (&a.args[0], &a.args[1]);
                        *t = parse_quote!(Result<(#x, #y), crate::nom::NomErr>);
                        return;
                    }
                }
                if n == "TokenStream" { *t = parse_quote!(crate::vxs::VxTokens); }
                else if n == "Ident" { *t = parse_quote!(crate::vxs::VxIdent); }
                else if n == "ParseIntError" { *t = parse_quote!(crate::vx::VxIntError); }
                else if path_str(&p.path) == "nom::Err" { *t = parse_quote!(crate::nom::NomErr); }
            }
        }
        fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
            if last(&b.path) == "TryFrom" {
                if let PathArguments::AngleBracketed(a) = &b.path.segments.last().unwrap().arguments {
                    if let GenericArgument::Type(Type::Reference(r)) = &a.args[0] {
                        let e = &r.elem;
                        b.path = parse_quote!(crate::vx::VxTryFrom<#e>);
                    }
                }
            }
            visit_mut::visit_trait_bound_mut(self, b);
        }
    }
    T.visit_signature_mut(s);
}

struct Fix<'a> {
    r: &'a mut Rpc,
    opt: bool,
    n: usize,
}
impl<'a> Fix<'a> {
    /// runs `body` for every element of `x` (by reference) until it sets the flag
    fn scan(&mut self, x: &Expr, pat: &Pat, by_ref: bool, cond: &Expr, kind: &str) -> Expr {
        let n = self.r.loops_next();
        let (c, k, r, y) = (ident(&format!("vx_c{n}")), ident(&format!("vx_k{n}")), ident(&format!("vx_res{n}")), ident(&format!("vx_y{n}")));
        let (mark, lb, le, la) = (ident(&format!("VX_INV_{n}")), ident(&format!("VX_LB_{n}")), ident(&format!("VX_LE_{n}")), ident(&format!("VX_LA_{n}")));
        let bind: TokenStream = match pat {
            Pat::Wild(_) => quote!(),
            Pat::Reference(p) if by_ref => { let p = &p.pat; quote!(let #p = #y;) }
            p if by_ref && matches!(p, Pat::Ident(_)) => quote!(let #p = &#y;),
            p => quote!(let #p = #y;),
        };
        let (init, end, hit): (TokenStream, TokenStream, TokenStream) = match kind {
            "find" => (quote!(#c.none()), quote!(#r.is_none()), quote!(#r = Some(#y);)),
            "any" => (quote!(false), quote!(!#r), quote!(#r = true;)),
            "all" => (quote!(true), quote!(#r), quote!(#r = false;)),
            _ => (quote!(None::<usize>), quote!(#r.is_none()), quote!(#r = Some(#k);)),
        };
        let cond: TokenStream = if kind == "all" { quote!(!(#cond)) } else { quote!(#cond) };
        parse_quote!({
            let #c = (#x).vx_seq();
            let mut #k: usize = 0;
            let mut #r = #init;
            while #k < #c.vx_len() && #end {
                VX_HDR! { invariant #k <= #c@.len(), #mark decreases #c@.len() - #k }
                let #y = #c.at(#k);
                #lb;
                if { #bind #cond } { #hit }
                #k += 1;
                #le;
            }
            #la;
            #r
        })
    }
}
enum Ad { Enumerate, Map(Expr) }
const CHAR_FNS: &[&str] = &["is_ascii_alphabetic", "is_ascii_digit", "is_ascii_alphanumeric", "is_ascii_uppercase", "is_ascii_lowercase", "is_lowercase", "is_uppercase", "is_numeric", "is_alphabetic", "is_alphanumeric", "to_ascii_lowercase", "to_ascii_uppercase"];
impl<'a> Fix<'a> {
    /// a walk over something: what is done first, the elements, and what is made of each
    fn pipe(&mut self, e: &Expr) -> Option<(TokenStream, Expr, Vec<Ad>)> {
        match e {
            Expr::Paren(p) => self.pipe(&p.expr),
            Expr::MethodCall(m) => {
                let r = &*m.receiver;
                let a: Vec<Expr> = m.args.iter().cloned().collect();
                match (m.method.to_string().as_str(), a.len()) {
                    ("enumerate", 0) => { let (p, x, mut v) = self.pipe(r)?; v.push(Ad::Enumerate); Some((p, x, v)) }
                    ("map", 1) => { let (p, x, mut v) = self.pipe(r)?; v.push(Ad::Map(a[0].clone())); Some((p, x, v)) }
                    ("iter", 0) => Some((quote!(), parse_quote!(crate::vxs::VxItems::vx_items(&#r)), vec![])),
                    ("into_iter", 0) => Some((quote!(), parse_quote!(crate::vxs::VxItems::vx_items(#r)), vec![])),
                    ("chars", 0) => Some((quote!(), parse_quote!(crate::vxs::vx_chars(&#r)), vec![])),
                    ("windows", 1) => { let n = &a[0]; Some((quote!(), parse_quote!(crate::vxs::vx_windows(&#r, #n)), vec![])) }
                    (n @ ("split" | "split_inclusive" | "match_indices"), 1) => {
                        let one = ident(&format!("vx_{n}_char"));
                        if let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = &a[0] { return Some((quote!(), parse_quote!(crate::vxs::#one(&#r, #c)), vec![])) }
                        if matches!(&a[0], Expr::Lit(_)) { return None }
                        let by = ident(&format!("vx_{n}"));
                        let (pre, fl) = self.flags(r, &a[0]);
                        Some((pre, parse_quote!(crate::vxs::#by(&#r, &#fl)), vec![]))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    /// which characters of a text the predicate accepts
    fn flags(&mut self, x: &Expr, f: &Expr) -> (TokenStream, Ident) {
        let n = self.r.loops_next();
        let (c, k, fl, y) = (ident(&format!("vx_c{n}")), ident(&format!("vx_k{n}")), ident(&format!("vx_f{n}")), ident(&format!("vx_y{n}")));
        let (mark, lb, le, la) = (ident(&format!("VX_INV_{n}")), ident(&format!("VX_LB_{n}")), ident(&format!("VX_LE_{n}")), ident(&format!("VX_LA_{n}")));
        let b = call1(f, &parse_quote!(#y));
        (quote!(
            let #c = crate::vxs::vx_chars(&#x); let mut #k: usize = 0; let mut #fl = crate::vx::VxVec::<bool>::new();
            while #k < #c.vx_len() {
                VX_HDR! { invariant #k <= #c@.len(), #fl@.len() == #k, #mark decreases #c@.len() - #k }
                let #y = #c.item(#k);
                #lb;
                #fl.push(#b);
                #k += 1;
                #le;
            }
            #la;
        ), fl)
    }
    fn adapt(ads: &[Ad], y: &Ident, k: &Ident) -> TokenStream {
        let mut t = quote!();
        for a in ads {
            match a {
                Ad::Enumerate => t.extend(quote!(let #y = (#k, #y);)),
                Ad::Map(f) => { let b = call1(f, &parse_quote!(#y)); t.extend(quote!(let #y = #b;)) }
            }
        }
        t
    }
    fn walk(&mut self, recv: &Expr, kind: &str, args: &[Expr], text: bool) -> Option<Expr> {
        let (pre, x, ads) = self.pipe(recv)?;
        let n = self.r.loops_next();
        let (c, k, acc, y) = (ident(&format!("vx_c{n}")), ident(&format!("vx_k{n}")), ident(&format!("vx_acc{n}")), ident(&format!("vx_y{n}")));
        let (mark, lb, le, la) = (ident(&format!("VX_INV_{n}")), ident(&format!("VX_LB_{n}")), ident(&format!("VX_LE_{n}")), ident(&format!("VX_LA_{n}")));
        let ad = Self::adapt(&ads, &y, &k);
        let (init, go, upd): (TokenStream, TokenStream, TokenStream) = match (kind, args) {
            ("fold", [i, Expr::Closure(f)]) if f.inputs.len() == 2 => {
                let (p, q, b) = (&f.inputs[0], &f.inputs[1], &f.body);
                let strip = |p: &Pat| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                let (p, q) = (strip(p), strip(q));
                (quote!(#i), quote!(), quote!(#acc = { let #p = #acc; let #q = #y; #b };))
            }
            ("collect", []) if text => (quote!(crate::vx::vx_string_new()), quote!(), quote!(crate::vxs::VxPush::vx_push(&mut #acc, #y);)),
            ("collect", []) => (quote!(crate::vx::VxVec::new()), quote!(), quote!(#acc.push(#y);)),
            ("any", [f]) => { let b = call1(f, &parse_quote!(#y)); (quote!(false), quote!(&& !#acc), quote!(if #b { #acc = true; })) }
            ("all", [f]) => { let b = call1(f, &parse_quote!(#y)); (quote!(true), quote!(&& #acc), quote!(if !#b { #acc = false; })) }
            _ => return None,
        };
        Some(parse_quote!({
            #pre
            let #c = #x;
            let mut #k: usize = 0;
            let mut #acc = #init;
            while #k < #c.vx_len() #go {
                VX_HDR! { invariant #k <= #c@.len(), #mark decreases #c@.len() - #k }
                let #y = #c.item(#k);
                #lb;
                #ad
                #upd
                #k += 1;
                #le;
            }
            #la;
            #acc
        }))
    }
}
/// f(v), a closure written out
fn call1(f: &Expr, v: &Expr) -> Expr {
    match f {
        Expr::Paren(p) => call1(&p.expr, v),
        Expr::Closure(c) if c.inputs.len() == 1 => {
            let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
            let b = &c.body;
            if matches!(p, Pat::Wild(_)) { parse_quote!({ let _ = #v; #b }) } else { parse_quote!({ let #p = #v; #b }) }
        }
        f => parse_quote!(#f(#v)),
    }
}
/// is this a walk over the characters or pieces of a text?
fn of_text(e: &Expr) -> bool {
    match e { Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "chars" | "split" | "split_inclusive") || of_text(&m.receiver), Expr::Paren(p) => of_text(&p.expr), _ => false }
}
fn path_is(e: &Expr, p: &str) -> bool { matches!(e, Expr::Path(q) if path_str(&q.path).starts_with(p)) }
fn str_pat(p: &Pat) -> bool {
    match p { Pat::Lit(ExprLit { lit: Lit::Str(_), .. }) => true, Pat::Or(o) => o.cases.iter().any(str_pat), Pat::Paren(p) => str_pat(&p.pat), _ => false }
}
/// None: not known; Some(None): anything; Some(texts)
fn arm_cond(p: &Pat) -> Option<Option<Vec<LitStr>>> {
    match p {
        Pat::Wild(_) | Pat::Ident(_) => Some(None),
        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(Some(vec![s.clone()])),
        Pat::Paren(p) => arm_cond(&p.pat),
        Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(arm_cond(c)??); } Some(Some(v)) }
        _ => None,
    }
}
/// the pieces of a format string with plain places
fn fmt_parts(a: &[Expr]) -> Option<Vec<std::result::Result<Expr, String>>> {
    let Expr::Lit(ExprLit { lit: Lit::Str(f), .. }) = a.first()? else { return None };
    let (f, mut out, mut cur, mut next) = (f.value(), vec![], String::new(), 1);
    let mut it = f.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => { it.next(); cur.push('{') }
            '}' if it.peek() == Some(&'}') => { it.next(); cur.push('}') }
            '{' => {
                let mut n = String::new();
                loop { match it.next()? { '}' => break, c => n.push(c) } }
                if !cur.is_empty() { out.push(Err(std::mem::take(&mut cur))) }
                if n.is_empty() { out.push(Ok(a.get(next)?.clone())); next += 1 }
                else if n.chars().all(|c| c.is_alphanumeric() || c == '_') && !n.starts_with(|c: char| c.is_ascii_digit()) { let i = ident(&n); out.push(Ok(parse_quote!(#i))) }
                else { return None }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() { out.push(Err(cur)) }
    if next != a.len() { return None }
    Some(out)
}
fn iter_of(e: &Expr) -> Option<Expr> {
    if let Expr::MethodCall(m) = e {
        if (m.method == "iter" || m.method == "into_iter") && m.args.is_empty() { return Some((*m.receiver).clone()); }
    }
    None
}
fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
            return Some((p, (*c.body).clone()));
        }
    }
    None
}
fn int_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(_) | Lit::Char(_) | Lit::Bool(_) | Lit::Byte(_), .. }) => true,
        Expr::Unary(u) => int_lit(&u.expr),
        Expr::Paren(p) => int_lit(&p.expr),
        Expr::Cast(_) => true,
        Expr::Path(p) => last(&p.path).chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) && last(&p.path).len() > 1,
        Expr::MethodCall(m) => m.method == "len" || m.method == "count_names",
        _ => false,
    }
}
impl<'a> VisitMut for Fix<'a> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        if let Pat::TupleStruct(t) = p {
            if let Some(q) = nom_err(&t.path) {
                if t.elems.iter().all(|x| matches!(x, Pat::Wild(_) | Pat::Ident(_) | Pat::Rest(_))) { *p = parse_quote!(#q); }
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in &mut b.stmts {
            if let Stmt::Macro(m) = s {
                if last(&m.mac.path) == "VX_HDR" { continue }
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                *s = Stmt::Expr(e, m.semi_token);
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // outermost loops are numbered first
        if let Expr::ForLoop(f) = e {
            let n = self.r.loops_next();
            let (mark, lb, le, la) = (ident(&format!("VX_INV_{n}")), ident(&format!("VX_LB_{n}")), ident(&format!("VX_LE_{n}")), ident(&format!("VX_LA_{n}")));
            let (c, k, y) = (ident(&format!("vx_c{n}")), ident(&format!("vx_k{n}")), ident(&format!("vx_y{n}")));
            self.visit_expr_mut(&mut f.expr);
            self.visit_block_mut(&mut f.body);
            if let Expr::MethodCall(_) = &*f.expr {
                if iter_of(&f.expr).is_none() {
                    let x = (*f.expr).clone();
                    if let Some((pre, x, ads)) = self.pipe(&x) {
                        let ad = Self::adapt(&ads, &y, &k);
                        let (pat, st, lab) = (&f.pat, &f.body.stmts, &f.label);
                        *e = parse_quote!({
                            #pre
                            let #c = #x;
                            let mut #k: usize = 0;
                            #lab while #k < #c.vx_len() { VX_HDR! { invariant #k <= #c@.len(), #mark decreases #c@.len() - #k }
                            #lb; let #y = #c.item(#k); #ad #k += 1; let #pat = #y; #(#st)* #le; }
                            #la;
                        });
                        return;
                    }
                }
            }
            let (pat, x, st, lab) = (&f.pat, &f.expr, &f.body.stmts, &f.label);
            if let Expr::Range(g) = &*f.expr {
                let (Some(a), Some(b)) = (&g.start, &g.end) else { self.r.bad("open range"); return };
                let m = ident(&format!("vx_m{n}"));
                *e = match g.limits {
                    RangeLimits::Closed(_) => parse_quote!({
                        let #c = #b; let mut #k = #a; let mut #m = #k <= #c;
                        #lab while #m { VX_HDR! { invariant #k <= #c || !#m, #mark decreases #c - #k, (if #m { 1int } else { 0int }) }
                        #lb; let #pat = #k; if #k < #c { #k += 1; } else { #m = false; } #(#st)* #le; }
                        #la;
                    }),
                    _ => parse_quote!({
                        let #c = #b; let mut #k = #a;
                        #lab while #k < #c { VX_HDR! { invariant #mark decreases #c - #k }
                        #lb; let #pat = #k; #k += 1; #(#st)* #le; }
                        #la;
                    }),
                };
                return;
            }
            let x2: TokenStream = match iter_of(x) { Some(x) => quote!(&#x), None => quote!(#x) };
            *e = parse_quote!({
                let #c = crate::vxs::VxItems::vx_items(#x2);
                let mut #k: usize = 0;
                #lab while #k < #c.vx_len() { VX_HDR! { invariant #k <= #c@.len(), #mark decreases #c@.len() - #k }
                #lb; let #y = #c.item(#k); #k += 1; let #pat = #y; #(#st)* #le; }
                #la;
            });
            return;
        }
        if let Expr::While(ExprWhile { body, .. }) | Expr::Loop(ExprLoop { body, .. }) = e {
            let own = matches!(body.stmts.first(), Some(Stmt::Macro(m)) if last(&m.mac.path) == "VX_HDR");
            if !own {
            let n = self.r.loops_next();
            let (mark, user) = (ident(&format!("VX_INV_{n}")), ident(&format!("VX_USER_{n}")));
            let s: Stmt = parse_quote!(VX_HDR! { #mark #user });
            body.stmts.insert(0, s);
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some(q) = nom_err(&p.path) { *e = parse_quote!(#q); return; }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Try(t) => {
                let x = &t.expr;
                *e = if self.opt {
                    sub(parse_quote!(match VXX { Some(vx_v) => vx_v, None => return None }), &[("VXX", x)])
                } else {
                    sub(parse_quote!(match VXX { Ok(vx_v) => vx_v, Err(vx_e) => return Err(crate::vx::VxFrom::vx_from(vx_e)) }), &[("VXX", x)])
                };
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                if int_lit(&b.left) || int_lit(&b.right) { return }
                let (l, r) = (&b.left, &b.right);
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(crate::vx::VxEq::vx_eq(&#l, &#r)) } else { parse_quote!((!crate::vx::VxEq::vx_eq(&#l, &#r))) };
            }
            Expr::Macro(m) => {
                let n = last(&m.mac.path);
                match n.as_str() {
                    "quote" => { self.r.cx.note("quote! yields unknown tokens"); *e = parse_quote!(crate::vxs::vx_tokens()); }
                    "format" => { self.r.cx.note("format! yields an unknown text"); *e = parse_quote!(crate::vx::vx_format()); }
                    "format_ident" => {
                        let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                        match args {
                            Ok(a) => {
                                let mut a: Vec<Expr> = a.into_iter().collect();
                                for x in &mut a { self.visit_expr_mut(x); }
                                match fmt_parts(&a) {
                                    Some(parts) => {
                                        let st = parts.iter().map(|p| match p { Err(l) => quote!(crate::vxs::VxPush::vx_push(&mut vx_s, #l);), Ok(x) => quote!(crate::vxs::VxPush::vx_push(&mut vx_s, (#x).vx_to_string());) });
                                        *e = parse_quote!({ let mut vx_s = crate::vx::vx_string_new(); #(#st)* crate::vxs::vx_format_ident(vx_s) });
                                    }
                                    None => { self.r.bad("format_ident"); *e = parse_quote!(crate::vxs::vx_format_ident(crate::vx::vx_format())) }
                                }
                            }
                            Err(_) => self.r.bad("format_ident"),
                        }
                    }
                    "vec" => {
                        let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                        if let Ok(a) = args {
                            let a: Vec<Expr> = a.into_iter().map(|mut x| { self.visit_expr_mut(&mut x); x }).collect();
                            *e = if a.is_empty() { parse_quote!(crate::vx::VxVec::new()) } else { parse_quote!({ let mut vx_l = crate::vx::VxVec::new(); #(vx_l.push(#a);)* vx_l }) };
                        } else { self.r.bad("vec!") }
                    }
                    "matches" => {
                        self.r.bad("matches!");
                    }
                    "unreachable" | "panic" | "todo" | "unimplemented" => *e = parse_quote!(crate::vx::vx_panic()),
                    n => { let n = n.to_string(); self.r.bad(format!("macro {n}")) }
                }
            }
            Expr::Index(i) if matches!(&*i.index, Expr::Range(_)) => {
                if let Expr::Range(g) = &*i.index {
                    let b = &i.expr;
                    let lo: Expr = match &g.start { Some(x) => (**x).clone(), None => parse_quote!(0) };
                    *e = match (&g.end, &g.limits) {
                        (None, _) => parse_quote!(*crate::vxs::VxSlice::vx_from_on(&#b, #lo)),
                        (Some(x), RangeLimits::HalfOpen(_)) => parse_quote!(*crate::vxs::VxSlice::vx_between(&#b, #lo, #x)),
                        (Some(_), _) => { self.r.bad("closed slice"); return }
                    };
                }
            }
            Expr::Reference(r) if matches!(&*r.expr, Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) if matches!(&**expr, Expr::Call(c) if c.func.to_token_stream().to_string().contains("VxSlice"))) => {
                if let Expr::Unary(u) = &*r.expr { *e = (*u.expr).clone(); }
            }
            Expr::Cast(c) => {
                if let Type::Path(t) = &*c.ty { if ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "usize", "isize"].contains(&last(&t.path).as_str()) { let c = c.clone(); *e = parse_quote!(#[verifier::truncate] (#c)); } }
            }
            Expr::Match(m) if m.arms.iter().any(|a| str_pat(&a.pat)) => {
                let x = &m.expr;
                let mut out: Expr = parse_quote!(crate::vx::vx_panic());
                for a in m.arms.iter().rev() {
                    let b = &a.body;
                    let (cond, bind): (Expr, TokenStream) = match arm_cond(&a.pat) {
                        Some(None) => (match &a.guard { Some((_, g)) => (**g).clone(), None => parse_quote!(true) }, match &a.pat { Pat::Ident(p) => { let p = &p.ident; quote!(let #p = vx_m;) } _ => quote!() }),
                        Some(Some(v)) => (match &a.guard { Some((_, g)) => parse_quote!((#(crate::vx::VxEq::vx_eq(&vx_m, &#v))||*) && #g), None => parse_quote!(#(crate::vx::VxEq::vx_eq(&vx_m, &#v))||*) }, quote!()),
                        None => { self.r.bad("match on texts"); return }
                    };
                    let always = matches!(&cond, Expr::Lit(_));
                    out = if always { parse_quote!({ #bind #b }) } else { parse_quote!(if { #bind #cond } { #bind #b } else { #out }) };
                }
                *e = parse_quote!({ let vx_m: &str = #x; #out });
            }
            Expr::Path(p) => {
                let s = path_str(&p.path);
                if s == "Vec" || s == "String" { self.r.bad(s) }
                else if let Some(n) = s.strip_prefix("char::") { if CHAR_FNS.contains(&n) { let n = ident(&format!("vx_{n}")); *e = parse_quote!(crate::vxs::#n); } }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let s = path_str(&p.path);
                    let l = last(&p.path);
                    let n = p.path.segments.len();
                    if l == "try_from" && n >= 2 { p.path.segments.last_mut().unwrap().ident = ident("vx_try_from"); }
                    else if (l == "from_str" || l == "from_str_radix") && n == 2 {
                        let t = p.path.segments[0].ident.clone();
                        let f = ident(&format!("vx_{l}"));
                        *p = parse_quote!(<#t as crate::vx::VxParse>::#f);
                    }
                    else if s == "String::new" { *e = parse_quote!(crate::vx::vx_string_new()); }
                    else if s == "String::from" { c.func = parse_quote!(crate::vx::vx_string_from); }
                    else if s == "Vec::new" { *e = parse_quote!(crate::vx::VxVec::new()); }
                    else if s == "Literal::u32_unsuffixed" { *e = parse_quote!(crate::vxs::vx_tokens()); }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let r = (*m.receiver).clone();
                let a: Vec<Expr> = m.args.iter().cloned().collect();
                if let (Some(x), 1) = (iter_of(&r), a.len()) {
                    if let ("find" | "any" | "all" | "position", Some((p, c))) = (name.as_str(), closure1(&a[0])) {
                        *e = self.scan(&x, &p, name == "find", &c, &name);
                        return;
                    }
                }
                if name == "contains" && a.len() == 1 {
                    if let Expr::Path(p) = &r {
                        if let Some(v) = self.r.strs.get(&last(&p.path)).cloned() {
                            let x = match &a[0] { Expr::Reference(r) => (*r.expr).clone(), x => parse_quote!(*#x) };
                            *e = parse_quote!({ let vx_x: &str = #x; #(crate::vx::VxEq::vx_eq(&vx_x, &#v))||* });
                            return;
                        }
                    }
                }
                if a.len() == 1 {
                    if let Expr::Closure(c) = &a[0] {
                        let p = match c.inputs.first() { Some(Pat::Type(t)) => Some((*t.pat).clone()), p => p.cloned() };
                        let b = &c.body;
                        let n = match (name.as_str(), p) {
                            ("map_err", Some(p)) => Some(sub(parse_quote!(match VXR { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(VXB) }), &[("VXR", &r), ("VXB", b)])),
                            ("ok_or_else", None) => Some(sub(parse_quote!(match VXR { Some(vx_v) => Ok(vx_v), None => Err(VXB) }), &[("VXR", &r), ("VXB", b)])),
                            ("is_some_and", Some(p)) => Some(sub(parse_quote!(match VXR { Some(#p) => VXB, None => false }), &[("VXR", &r), ("VXB", b)])),
                            ("unwrap_or_else", None) => Some(sub(parse_quote!(match VXR { Some(vx_v) => vx_v, None => VXB }), &[("VXR", &r), ("VXB", b)])),
                            _ => None,
                        };
                        if let Some(n) = n { *e = n; return; }
                    }
                    if name == "ok_or" {
                        *e = sub(parse_quote!(match VXR { Some(vx_v) => Ok(vx_v), None => Err(VXB) }), &[("VXR", &r), ("VXB", &a[0])]);
                        return;
                    }
                }
                if matches!(name.as_str(), "fold" | "collect" | "any" | "all") {
                    let text = match &m.turbofish { Some(t) => t.to_token_stream().to_string().contains("String"), None => of_text(&r) };
                    if let Some(n) = self.walk(&r, &name, &a, text) { *e = n; return; }
                }
                if name == "sort_by_key" && a.len() == 1 {
                    // the keys, then a sort by them
                    let n = self.r.loops_next();
                    let (c, k, ks, y) = (ident(&format!("vx_c{n}")), ident(&format!("vx_k{n}")), ident(&format!("vx_key{n}")), ident(&format!("vx_y{n}")));
                    let (mark, lb, le, la) = (ident(&format!("VX_INV_{n}")), ident(&format!("VX_LB_{n}")), ident(&format!("VX_LE_{n}")), ident(&format!("VX_LA_{n}")));
                    let b = call1(&a[0], &parse_quote!(#y));
                    *e = parse_quote!({
                        let mut #ks = crate::vx::VxVec::new();
                        {
                            let #c = crate::vxs::VxItems::vx_items(&#r);
                            let mut #k: usize = 0;
                            while #k < #c.vx_len() {
                                VX_HDR! { invariant #k <= #c@.len(), #ks@.len() == #k, #mark decreases #c@.len() - #k }
                                let #y = #c.item(#k);
                                #lb;
                                #ks.push(#b);
                                #k += 1;
                                #le;
                            }
                            #la;
                        }
                        crate::vxs::vx_sort_by_key(&mut #r, #ks)
                    });
                    return;
                }
                if a.len() == 1 && matches!(name.as_str(), "starts_with" | "ends_with" | "contains") {
                    if let Expr::Closure(_) | Expr::Path(_) = &a[0] {
                        if name == "starts_with" && (matches!(&a[0], Expr::Closure(_)) || path_is(&a[0], "crate::vxs::")) {
                            let b = call1(&a[0], &parse_quote!(vx_h));
                            *e = parse_quote!(match crate::vxs::vx_first_char(&#r) { Some(vx_h) => #b, None => false });
                            return;
                        }
                    }
                    if let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = &a[0] {
                        let f = ident(&format!("vx_{name}_char"));
                        *e = parse_quote!(crate::vxs::#f(&#r, #c));
                        return;
                    }
                }
                if a.is_empty() && CHAR_FNS.contains(&name.as_str()) { let (t, f) = (ident(if name.starts_with("to_") { "VxCase" } else { "VxAsk" }), ident(&format!("vx_{name}"))); *e = parse_quote!(crate::vxs::#t::#f(&#r)); return; }
                match (name.as_str(), a.len()) {
                    ("abs_diff", 1) | ("saturating_add", 1) | ("saturating_sub", 1) => { let f = ident(&format!("vx_{name}")); let x = &a[0]; *e = parse_quote!(crate::vxs::VxInt::#f(#r, #x)); }
                    ("as_str", 0) => *e = parse_quote!(crate::vxs::vx_as_str(&#r)),
                    ("clone", 0) if matches!(&r, Expr::MethodCall(_)) => {}
                    ("to_string", 0) | ("to_owned", 0) => m.method = ident("vx_to_string"),
                    ("len", 0) => m.method = ident("vx_len"),
                    ("is_empty", 0) => m.method = ident("vx_is_empty"),
                    _ => {}
                }
            }
            _ => {}
        }
        let _ = self.n;
    }
}
#[allow(dead_code)]
fn _unused(_: InlFn) {}

/// what a piece of code refers to: free functions and types by name, associated functions as Type::name, methods as .name
#[derive(Default)]
struct Refs {
    out: BTreeSet<String>,
    bound: BTreeSet<String>,
}
impl<'a> visit::Visit<'a> for Refs {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().is_some_and(|c| c.is_lowercase() || c == '_') {
            self.bound.insert(n);
        } else {
            self.out.insert(n);
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_path(&mut self, p: &'a Path) {
        let v: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if v.len() == 1 {
            self.out.insert(v[0].clone());
        } else {
            let (a, b) = (&v[v.len() - 2], &v[v.len() - 1]);
            self.out.insert(format!("{a}::{b}"));
            self.out.insert(a.clone());
            self.out.insert(format!("::{b}"));
        }
        visit::visit_path(self, p);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.out.insert(format!(".{}", m.method));
        visit::visit_expr_method_call(self, m);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if last(&m.path) == "quote" || last(&m.path) == "VX_HDR" { return }
        if let Ok(a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for x in &a { self.visit_expr(x); }
        }
    }
}
impl Refs {
    fn done(self) -> BTreeSet<String> {
        let b = self.bound;
        self.out.into_iter().filter(|x| !b.contains(x)).collect()
    }
}
fn refs_item(i: &Item) -> BTreeSet<String> {
    let mut r = Refs::default();
    visit::Visit::visit_item(&mut r, i);
    r.done()
}
fn refs_fn(sig: &Signature, b: &Block) -> BTreeSet<String> {
    let mut r = Refs::default();
    visit::Visit::visit_signature(&mut r, sig);
    visit::Visit::visit_block(&mut r, b);
    r.done()
}

fn leaves(t: &UseTree, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match t {
        UseTree::Path(p) => { at.push(p.ident.to_string()); leaves(&p.tree, at, out); at.pop(); }
        UseTree::Name(n) => { let mut v = at.clone(); if n.ident != "self" { v.push(n.ident.to_string()); } out.push(v); }
        UseTree::Group(g) => for x in &g.items { leaves(x, at, out); },
        _ => {}
    }
}
