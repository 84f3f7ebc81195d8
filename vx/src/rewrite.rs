//! Mechanical rewrites from ordinary Rust to the subset Verus accepts.
use crate::spec::{Contract, Spec};
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Ctx {
    pub deps: String,
    pub cur_module: String,
    pub spec: Spec,
    pub used: BTreeSet<String>,
    pub notes: Vec<String>,
    pub structural: Vec<String>,
    pub named: BTreeMap<String, Vec<String>>,
    /// trait name -> concrete type (path string) implementing it in the crate under verification
    pub conc: BTreeMap<String, String>,
    /// functions without contract that may be inlined: key -> item
    pub inl: BTreeMap<String, InlFn>,
    pub hoist: usize,
    pub rpc: bool,
    pub hoisted: BTreeMap<String, usize>,
    /// placeholders of the contract text: $Serializer, $output, ...
    pub vars: BTreeMap<String, String>,
    pub variant_fields: BTreeSet<String>,
}

#[derive(Clone)]
pub struct InlFn {
    pub ret: Option<Type>,
    pub impl_generic: bool,
    pub module: String,
    pub names: BTreeSet<String>,
    pub method: bool,
    pub params: Vec<(Pat, Type)>,
    pub block: Block,
    pub recursive: bool,
    pub returns_result: bool,
    pub generic: bool,
}

pub struct Module {
    pub name: String,
    pub path: String,
    pub items: Vec<Item>,
    pub children: Vec<Module>,
}

pub const MIRRORED: &[&str] = &[
    "Serializer", "SerializeSeq", "SerializeTuple", "SerializeTupleStruct", "SerializeTupleVariant", "SerializeMap",
    "SerializeStruct", "SerializeStructVariant", "Deserializer", "Visitor", "SeqAccess", "MapAccess", "EnumAccess",
    "VariantAccess", "Serialize", "Deserialize", "DeserializeSeed", "From", "TryFrom", "AsRef", "XdrIndexer", "XdrUnion",
    "VxFrom", "VxTryFrom", "VxAsRef", "VariantSeed",
];

const RENAME_METHODS: &[(&str, usize, &str)] = &[
    ("to_be_bytes", 0, "vx_to_be_bytes"),
    ("to_le_bytes", 0, "vx_to_le_bytes"),
    ("to_ne_bytes", 0, "vx_to_le_bytes"),
    ("try_into", 0, "vx_try_into"),
    ("into", 0, "vx_into"),
    ("as_ref", 0, "vx_as_ref"),
    ("to_vec", 0, "vx_to_vec"),
    ("chunks_mut", 1, "vx_chunks_mut"),
    ("chunks", 1, "vx_chunks"),
    ("swap_with_slice", 1, "vx_swap_with_slice"),
    ("extend_from_slice", 1, "vx_extend_from_slice"),
    ("copy_from_slice", 1, "vx_copy_from_slice"),
    ("div_ceil", 1, "vx_div_ceil"),
    ("next_multiple_of", 1, "vx_next_multiple_of"),
    ("resize", 2, "vx_resize"),
    ("reserve", 1, "vx_reserve"),
    ("min", 1, "vx_min"),
    ("max", 1, "vx_max"),
    ("checked_sub", 1, "vx_checked_sub"),
    ("iter", 0, "vx_iter"),
    ("into_iter", 0, "vx_into_iter"),
    ("to_string", 0, "vx_to_string"),
    ("to_owned", 0, "vx_to_owned"),
    ("is_empty", 0, "vx_is_empty"),
    ("get", 1, "vx_get"),
    ("first", 0, "vx_first"),
    ("extend", 1, "vx_extend"),
    ("rem_euclid", 1, "vx_rem_euclid"),
    ("wrapping_neg", 0, "vx_wrapping_neg"),
    ("to_be", 0, "vx_to_be"),
    ("is_multiple_of", 1, "vx_is_multiple_of"),
    ("checked_add", 1, "vx_checked_add"),
    ("saturating_sub", 1, "vx_saturating_sub"),
    ("saturating_add", 1, "vx_saturating_add"),
    ("split_at_checked", 1, "vx_split_at_checked"),
    ("abs_diff", 1, "vx_abs_diff"),
];

pub fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}
pub fn last(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
pub fn ty_key(t: &Type) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}
pub fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

impl Ctx {
    pub fn new(spec: Spec) -> Self {
        Ctx {
            deps: String::new(),
            cur_module: String::new(),
            spec,
            used: BTreeSet::new(),
            notes: vec![],
            structural: vec![],
            named: BTreeMap::new(),
            rpc: false,
            conc: BTreeMap::new(),
            inl: BTreeMap::new(),
            hoist: 0,
            hoisted: BTreeMap::new(),
            vars: BTreeMap::new(),
            variant_fields: BTreeSet::new(),
        }
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }

    pub fn run(&mut self, files: Vec<(String, File)>) -> Vec<Module> {
        let mut mods = vec![];
        for (name, f) in files {
            let m = self.structure(name.clone(), name, f.items);
            mods.push(m);
        }
        for m in &mods {
            self.discover(m);
        }
        self.fields(&mods);
        for m in &mut mods {
            self.mono(m);
        }
        for m in &mods {
            self.collect_inl(m);
        }
        for m in &mut mods {
            self.bodies(m);
        }
        mods
    }

    // ---- structure -------------------------------------------------------------------------
    fn structure(&mut self, name: String, path: String, items: Vec<Item>) -> Module {
        let mut m = Module { name, path: path.clone(), items: vec![], children: vec![] };
        for it in items {
            self.item(&mut m, it);
        }
        m
    }
    fn item(&mut self, m: &mut Module, mut it: Item) {
        clean_attrs_item(&mut it);
        match it {
            Item::Mod(x) => {
                let n = x.ident.to_string();
                let p = if m.path.is_empty() { n.clone() } else { format!("{}::{}", m.path, n) };
                if self.spec.drop.contains(&p) {
                    self.note(format!("dropped module {p}"));
                    return;
                }
                if let Some((_, its)) = x.content {
                    let c = self.structure(n, p, its);
                    m.children.push(c);
                }
            }
            Item::ExternCrate(_) | Item::Macro(_) => {}
            Item::Use(mut u) => {
                if self.fix_use(&mut u) {
                    m.items.push(Item::Use(u));
                }
            }
            Item::Const(c) if c.ident == "_" => {
                if let Expr::Block(b) = *c.expr {
                    for s in b.block.stmts {
                        if let Stmt::Item(i) = s {
                            self.item(m, i);
                        }
                    }
                }
            }
            Item::Impl(mut i) => {
                let tr = i.trait_.as_ref().map(|t| last(&t.1));
                if let Some(tr) = &tr {
                    let keep = MIRRORED.contains(&tr.as_str()) || self.spec.keep_impls.contains(tr) || (tr == "Error" && !i.items.is_empty());
                    let tkey = format!("{}[{}]", tr, ty_key(&i.self_ty));
                    if !keep || self.spec.drop.contains(&tkey) {
                        self.note(format!("dropped impl of {tr}"));
                        return;
                    }
                }
                let is_visitor = tr.as_deref() == Some("Visitor");
                let sk = ty_key(&i.self_ty);
                if tr.is_some() && sk.starts_with("__Field") {
                    let txt = i.to_token_stream().to_string();
                    if tr.as_deref() == Some("Deserialize") && self.variant_fields.contains(&format!("{}::{sk}", m.path)) {
                        // the selector of a serde-derived enum: reached with the variant index only
                        struct Last(Option<Expr>);
                        impl<'a> syn::visit::Visit<'a> for Last {
                            fn visit_expr_call(&mut self, c: &'a ExprCall) {
                                if c.func.to_token_stream().to_string().contains("deserialize_identifier") {
                                    self.0 = c.args.last().cloned();
                                }
                                syn::visit::visit_expr_call(self, c);
                            }
                        }
                        let mut l = Last(None);
                        syn::visit::Visit::visit_item_impl(&mut l, &i);
                        if let Some(v) = l.0 {
                            self.note("the selector of a serde-derived enum: deserialize_identifier of the index deserializer rewritten to the visit_u64 it calls");
                            let t = &i.self_ty;
                            m.items.push(parse_quote! {
                                impl<'de> crate::serde::de::VariantSeed<'de> for core::marker::PhantomData<#t> {
                                    type Value = #t;
                                    fn deserialize<D: crate::serde::de::VxIdx>(self, d: D) -> Result<#t, crate::error::Error> {
                                        crate::serde::de::Visitor::visit_u64(#v, d.get())
                                    }
                                }
                            });
                            return;
                        }
                    }
                    if tr.as_deref() == Some("Deserialize") || txt.contains("__ignore") {
                        self.note("dropped serde-derived field-name lookup (never reached: fields are read by position)");
                        return;
                    }
                    i.items.retain(|x| !matches!(x, ImplItem::Fn(f) if f.sig.ident == "visit_str" || f.sig.ident == "visit_bytes"));
                }
                let only = self.spec.only.clone();
                let mut kept = vec![];
                for x in std::mem::take(&mut i.items) {
                    if let ImplItem::Fn(f) = &x {
                        let n = f.sig.ident.to_string();
                        let derived_map = n == "visit_map" && f.block.to_token_stream().to_string().contains("__Field");
                        let drop = (is_visitor && (n == "expecting" || derived_map || self.spec.drop.contains(&format!("Visitor::{n}"))))
                            || (!only.is_empty() && tr.is_none() && !only.contains(&n));
                        if drop {
                            self.note(format!("dropped method {n}"));
                            continue;
                        }
                    }
                    kept.push(x);
                }
                i.items = kept;
                let mut hoisted = vec![];
                let owner = match &*i.self_ty {
                    Type::Path(p) => last(&p.path).trim_start_matches("__Visitor_").to_string(),
                    _ => "x".into(),
                };
                for x in &mut i.items {
                    if let ImplItem::Fn(f) = x {
                        self.hoist_block(&mut f.block, &mut hoisted, &format!("{}::{owner}", m.path));
                    }
                }
                for h in hoisted {
                    self.item(m, h);
                }
                m.items.push(Item::Impl(i));
            }
            Item::Fn(mut f) => {
                let mut hoisted = vec![];
                let owner = format!("{}::{}", m.path, f.sig.ident);
                self.hoist_block(&mut f.block, &mut hoisted, &owner);
                for h in hoisted {
                    self.item(m, h);
                }
                m.items.push(Item::Fn(f));
            }
            Item::Enum(e) if e.ident.to_string().starts_with("__Field") && !e.variants.iter().any(|v| v.ident == "__ignore") => {
                self.variant_fields.insert(format!("{}::{}", m.path, e.ident));
                m.items.push(Item::Enum(e));
            }
            Item::Struct(_) | Item::Enum(_) | Item::Trait(_) | Item::Const(_) | Item::Static(_) | Item::Type(_) => m.items.push(it),
            _ => self.note("dropped item of an unhandled kind"),
        }
    }
    /// nested items move to module level under fresh names
    fn hoist_block(&mut self, b: &mut Block, out: &mut Vec<Item>, owner: &str) {
        struct H<'a>(&'a mut BTreeMap<String, usize>, &'a mut Vec<Item>, &'a str);
        impl<'a> VisitMut for H<'a> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let mut ren = BTreeMap::new();
                let mut items = vec![];
                let stmts = std::mem::take(&mut b.stmts);
                for s in stmts {
                    match s {
                        Stmt::Item(i) => {
                            let id = match &i {
                                Item::Struct(x) => Some(x.ident.clone()),
                                Item::Enum(x) => Some(x.ident.clone()),
                                Item::Const(x) => Some(x.ident.clone()),
                                Item::Fn(x) => Some(x.sig.ident.clone()),
                                _ => None,
                            };
                            if let Some(id) = id {
                                if id != "_" {
                                    let k = self.0.entry(format!("{}::{}", self.2, id)).or_default();
                                    let o = self.2.rsplit("::").next().unwrap();
                                    ren.insert(id.to_string(), if *k == 0 { format!("{id}_{o}") } else { format!("{id}_{o}_{k}") });
                                    *k += 1;
                                }
                            }
                            items.push(i);
                        }
                        s => b.stmts.push(s),
                    }
                }
                let mut r = Ren(&ren);
                for s in &mut b.stmts {
                    r.visit_stmt_mut(s);
                }
                for i in &mut items {
                    r.visit_item_mut(i);
                }
                self.1.extend(items);
                visit_mut::visit_block_mut(self, b);
            }
        }
        H(&mut self.hoisted, out, owner).visit_block_mut(b);
    }

    fn fix_use(&mut self, u: &mut ItemUse) -> bool {
        fn names(t: &UseTree, out: &mut Vec<String>) {
            match t {
                UseTree::Path(p) => {
                    out.push(p.ident.to_string());
                    names(&p.tree, out)
                }
                UseTree::Name(n) => out.push(n.ident.to_string()),
                UseTree::Rename(n) => out.push(n.ident.to_string()),
                UseTree::Glob(_) => out.push("*".into()),
                UseTree::Group(g) => g.items.iter().for_each(|x| names(x, out)),
            }
        }
        let mut ns = vec![];
        names(&u.tree, &mut ns);
        let drop_if = ["TryInto", "TryFrom", "fmt", "error", "Display", "Write", "env", "io", "fs", "Path"];
        if (ns[0] == "std" || ns[0] == "core") && ns.iter().any(|n| drop_if.contains(&n.as_str())) {
            self.note(format!("dropped use of {}", ns.join("::")));
            return false;
        }
        if let UseTree::Path(p) = &mut u.tree {
            let id = p.ident.to_string();
            if id == "serde" || id == "_serde" {
                let inner = UseTree::Path(UsePath { ident: ident("serde"), colon2_token: Default::default(), tree: p.tree.clone() });
                u.tree = UseTree::Path(UsePath { ident: ident("crate"), colon2_token: Default::default(), tree: Box::new(inner) });
            } else if id == "serde_xdr" {
                p.ident = ident("crate");
            } else if id == "serde_xdr_derive" || id == "nom" || id == "quote" || id == "proc_macro2" {
                return false;
            }
        }
        u.leading_colon = None;
        if matches!(u.vis, Visibility::Inherited) {
            // stays private
        }
        true
    }

    // ---- discovery -------------------------------------------------------------------------
    fn discover(&mut self, m: &Module) {
        for it in &m.items {
            if let Item::Impl(i) = it {
                if let Some((_, p, _)) = &i.trait_ {
                    let t = last(p);
                    let ty = match &*i.self_ty {
                        Type::Reference(r) => &*r.elem,
                        t => t,
                    };
                    if let Type::Path(tp) = ty {
                        let n = last(&tp.path);
                        let full = if m.path.is_empty() { format!("crate::{n}") } else { format!("crate::{}::{n}", m.path) };
                        for k in ["Serializer", "Deserializer", "SeqAccess", "MapAccess", "EnumAccess", "VariantAccess"] {
                            if t == k {
                                self.conc.entry(k.into()).or_insert(full.clone());
                            }
                        }
                    }
                }
            }
        }
        for c in &m.children {
            self.discover(c);
        }
    }

    /// names of the state fields the contracts talk about, found by their type
    fn fields(&mut self, mods: &[Module]) {
        for (k, v) in &self.conc {
            self.vars.insert(k.clone(), v.clone());
        }
        fn find<'m>(ms: &'m [Module], full: &str) -> Option<&'m ItemStruct> {
            for m in ms {
                for i in &m.items {
                    if let Item::Struct(s) = i {
                        let f = if m.path.is_empty() { format!("crate::{}", s.ident) } else { format!("crate::{}::{}", m.path, s.ident) };
                        if f == full {
                            return Some(s);
                        }
                    }
                }
                if let Some(s) = find(&m.children, full) {
                    return Some(s);
                }
            }
            None
        }
        let specs: &[(&str, &str, fn(&Type) -> bool)] = &[
            ("Serializer", "output", |t| ty_key(t) == "Vec<u8>"),
            ("Deserializer", "input", |t| ty_key(t).ends_with("[u8]")),
            ("SeqAccess", "count", |t| ty_key(t) == "usize"),
            ("SeqAccess", "de", |t| ty_key(t).contains("mut")),
            ("MapAccess", "mcount", |t| ty_key(t) == "usize"),
            ("MapAccess", "mde", |t| ty_key(t).contains("mut")),
            ("EnumAccess", "ede", |t| ty_key(t).contains("mut")),
        ];
        for (c, var, f) in specs {
            let Some(full) = self.conc.get(*c) else { continue };
            if let Some(s) = find(mods, full) {
                if let Some(fl) = s.fields.iter().find(|x| f(&x.ty)) {
                    if let Some(i) = &fl.ident {
                        self.vars.insert(var.to_string(), i.to_string());
                    }
                }
            }
        }
    }

    // ---- monomorphisation of serde type parameters -------------------------------------------
    fn mono(&mut self, m: &mut Module) {
        for it in &mut m.items {
            match it {
                Item::Fn(f) => self.mono_fn(&mut f.sig, Some(&mut f.block), None),
                Item::Impl(i) => {
                    let tr = i.trait_.as_ref().map(|t| last(&t.1));
                    for x in &mut i.items {
                        if let ImplItem::Fn(f) = x {
                            self.mono_fn(&mut f.sig, Some(&mut f.block), tr.as_deref());
                        }
                    }
                }
                _ => {}
            }
        }
        for c in &mut m.children {
            self.mono(c);
        }
    }
    fn mono_fn(&mut self, sig: &mut Signature, block: Option<&mut Block>, tr: Option<&str>) {
        fn fmt_bound(b: &TypeParamBound) -> bool {
            matches!(b, TypeParamBound::Trait(t) if matches!(last(&t.path).as_str(), "Display" | "Debug" | "ToString"))
        }
        for p in sig.generics.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                t.bounds = std::mem::take(&mut t.bounds).into_iter().filter(|b| !fmt_bound(b)).collect();
            }
        }
        if let Some(w) = &mut sig.generics.where_clause {
            w.predicates = std::mem::take(&mut w.predicates)
                .into_iter()
                .filter_map(|mut p| {
                    if let WherePredicate::Type(t) = &mut p {
                        t.bounds = std::mem::take(&mut t.bounds).into_iter().filter(|b| !fmt_bound(b)).collect();
                        if t.bounds.is_empty() {
                            return None;
                        }
                    }
                    Some(p)
                })
                .collect();
            if w.predicates.is_empty() {
                sig.generics.where_clause = None;
            }
        }
        let mut map: BTreeMap<String, (Type, BTreeMap<String, Type>)> = BTreeMap::new();
        let mut add_vx = false;
        let mut bounds: Vec<(String, Path)> = vec![];
        for p in &sig.generics.params {
            if let GenericParam::Type(t) = p {
                for b in &t.bounds {
                    if let TypeParamBound::Trait(b) = b {
                        bounds.push((t.ident.to_string(), b.path.clone()));
                    }
                }
            }
        }
        if let Some(w) = &sig.generics.where_clause {
            for p in &w.predicates {
                if let WherePredicate::Type(t) = p {
                    for b in &t.bounds {
                        if let TypeParamBound::Trait(b) = b {
                            bounds.push((ty_key(&t.bounded_ty), b.path.clone()));
                        }
                    }
                }
            }
        }
        let err: Type = parse_quote!(crate::error::Error);
        for (p, b) in &bounds {
            let lt: Option<Lifetime> = b.segments.last().and_then(|s| match &s.arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| if let GenericArgument::Lifetime(l) = x { Some(l.clone()) } else { None }),
                _ => None,
            });
            let lt = lt.unwrap_or_else(|| parse_quote!('_));
            let n = last(b);
            let mut assoc = BTreeMap::new();
            assoc.insert("Error".to_string(), err.clone());
            let conc = |me: &Ctx, k: &str| -> Option<Path> { me.conc.get(k).map(|s| parse_str(s).unwrap()) };
            let ty: Option<Type> = match n.as_str() {
                "Serializer" => conc(self, "Serializer").map(|c| {
                    assoc.insert("Ok".into(), parse_quote!(()));
                    parse_quote!(&mut #c)
                }),
                "Deserializer" => conc(self, "Deserializer").map(|c| parse_quote!(&mut #c<#lt>)),
                "SeqAccess" => conc(self, "SeqAccess").map(|c| parse_quote!(#c<'_, #lt>)),
                "MapAccess" => conc(self, "MapAccess").map(|c| parse_quote!(#c<'_, #lt>)),
                "EnumAccess" => conc(self, "EnumAccess").map(|c| {
                    assoc.insert("Variant".into(), parse_quote!(#c<'_, #lt>));
                    parse_quote!(#c<'_, #lt>)
                }),
                "VariantAccess" => conc(self, "VariantAccess").map(|c| parse_quote!(#c<'_, #lt>)),
                "Error" => Some(err.clone()),
                _ => None,
            };
            if n == "DeserializeOwned" {
                add_vx = true;
            }
            if let Some(ty) = ty {
                map.insert(p.clone(), (ty, assoc));
            }
        }
        // variant_seed's seed only ever sees the variant-index deserializer
        if tr == Some("EnumAccess") {
            for p in sig.generics.params.iter_mut() {
                if let GenericParam::Type(t) = p {
                    for b in t.bounds.iter_mut() {
                        ren_bound(b, "DeserializeSeed", "crate::serde::de::VariantSeed");
                    }
                }
            }
            if let Some(w) = &mut sig.generics.where_clause {
                for p in w.predicates.iter_mut() {
                    if let WherePredicate::Type(t) = p {
                        for b in t.bounds.iter_mut() {
                            ren_bound(b, "DeserializeSeed", "crate::serde::de::VariantSeed");
                        }
                    }
                }
            }
        }
        if add_vx {
            let v: Lifetime = parse_quote!('vx);
            sig.generics.params.insert(0, parse_quote!('vx));
            if let Some(w) = &mut sig.generics.where_clause {
                for p in w.predicates.iter_mut() {
                    if let WherePredicate::Type(t) = p {
                        for b in t.bounds.iter_mut() {
                            if let TypeParamBound::Trait(b) = b {
                                if last(&b.path) == "DeserializeOwned" {
                                    b.path = parse_quote!(crate::serde::de::Deserialize<#v>);
                                }
                            }
                        }
                    }
                }
            }
            for p in sig.generics.params.iter_mut() {
                if let GenericParam::Type(t) = p {
                    for b in t.bounds.iter_mut() {
                        if let TypeParamBound::Trait(b) = b {
                            if last(&b.path) == "DeserializeOwned" {
                                b.path = parse_quote!(crate::serde::de::Deserialize<#v>);
                            }
                        }
                    }
                }
            }
            for a in sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = a {
                    if let Type::Reference(r) = &mut *t.ty {
                        if r.lifetime.is_none() {
                            r.lifetime = Some(v.clone());
                        }
                    }
                }
            }
            self.note("DeserializeOwned bound instantiated at the lifetime of the input");
        }
        if map.is_empty() {
            return;
        }
        self.note("serde type parameter instantiated with the crate's own type");
        let g = &mut sig.generics;
        g.params = std::mem::take(&mut g.params)
            .into_iter()
            .filter(|p| if let GenericParam::Type(t) = p { !map.contains_key(&t.ident.to_string()) } else { true })
            .collect();
        if let Some(w) = &mut g.where_clause {
            w.predicates = std::mem::take(&mut w.predicates)
                .into_iter()
                .filter(|p| if let WherePredicate::Type(t) = p { !map.contains_key(&ty_key(&t.bounded_ty)) } else { true })
                .collect();
            if w.predicates.is_empty() {
                g.where_clause = None;
            }
        }
        let mut s = MonoSubst(&map);
        s.visit_signature_mut(sig);
        if let Some(b) = block {
            SerState(BTreeMap::new()).visit_block_mut(b);
            s.visit_block_mut(b);
        }
    }

    /// what a visitor produces: identifies it independently of its own name
    pub fn value_key(i: &ItemImpl) -> String {
        if !matches!(&i.trait_, Some((_, p, _)) if last(p) == "Visitor") {
            return String::new();
        }
        i.items.iter().find_map(|x| if let ImplItem::Type(t) = x { (t.ident == "Value").then(|| ty_key(&t.ty)) } else { None }).unwrap_or_default()
    }

    // ---- ids ---------------------------------------------------------------------------------
    pub fn fn_ids(m: &Module, imp: Option<&ItemImpl>, name: &str) -> Vec<String> {
        match imp {
            None => vec![if m.path.is_empty() { name.into() } else { format!("{}::{name}", m.path) }],
            Some(i) => match &i.trait_ {
                Some((_, p, _)) => {
                    let t = last(p).replace("VxFrom", "From").replace("VxTryFrom", "TryFrom").replace("VxAsRef", "AsRef");
                    let ta = p.segments.last().map(|s| s.arguments.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
                    let ta = ta.replace("crate::", "");
                    let k = ty_key(&i.self_ty);
                    let mp = if m.path.is_empty() { String::new() } else { format!("{}::", m.path) };
                    let val = Self::value_key(i);
                    let mut v = if val.is_empty() { vec![] } else { vec![format!("{mp}{t}->{val}::{name}")] };
                    v.extend([
                        format!("{mp}{t}{ta}[{k}]::{name}"),
                        format!("{mp}{t}[{k}]::{name}"),
                        format!("{t}{ta}[{k}]::{name}"),
                        format!("{t}[{k}]::{name}"),
                        format!("{mp}{t}::{name}"),
                        format!("{t}::{name}"),
                    ]);
                    v
                }
                None => {
                    let k = match &*i.self_ty {
                        Type::Path(p) => last(&p.path),
                        t => ty_key(t),
                    };
                    vec![format!("{k}::{name}")]
                }
            },
        }
    }
    pub fn lookup(&self, ids: &[String]) -> Option<(String, Contract)> {
        ids.iter().find_map(|k| self.spec.fns.get(k).map(|c| (k.clone(), c.clone())))
    }

    pub fn collect_inl(&mut self, m: &Module) {
        let names: BTreeSet<String> = m
            .items
            .iter()
            .filter_map(|i| match i {
                Item::Struct(x) => Some(x.ident.to_string()),
                Item::Enum(x) => Some(x.ident.to_string()),
                Item::Const(x) => Some(x.ident.to_string()),
                Item::Fn(x) => Some(x.sig.ident.to_string()),
                _ => None,
            })
            .collect();
        let module = m.path.clone();
        let add = |me: &mut Ctx, ids: Vec<String>, sig: &Signature, block: &Block, key: String, impl_generic: bool| {
            if me.lookup(&ids).is_some() {
                return;
            }
            let mut params = vec![];
            let mut method = false;
            for a in &sig.inputs {
                match a {
                    FnArg::Receiver(_) => method = true,
                    FnArg::Typed(t) => params.push(((*t.pat).clone(), (*t.ty).clone())),
                }
            }
            let body = block.to_token_stream().to_string();
            let name = sig.ident.to_string();
            let recursive = body.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == name);
            let generic = sig.generics.params.iter().any(|p| matches!(p, GenericParam::Type(_) | GenericParam::Const(_)));
            let returns_result = matches!(&sig.output, ReturnType::Type(_, t) if matches!(&**t, Type::Path(p) if last(&p.path)=="Result"));
            let ret = if let ReturnType::Type(_, t) = &sig.output { Some((**t).clone()) } else { None };
            me.inl.insert(key, InlFn { ret, impl_generic, module: module.clone(), names: names.clone(), method, params, block: block.clone(), recursive, returns_result, generic });
        };
        for it in &m.items {
            match it {
                Item::Fn(f) => {
                    let ids = Self::fn_ids(m, None, &f.sig.ident.to_string());
                    add(self, ids, &f.sig, &f.block, format!("fn {}", f.sig.ident), false);
                }
                Item::Impl(i) if i.trait_.is_none() => {
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            let ids = Self::fn_ids(m, Some(i), &f.sig.ident.to_string());
                            let k = if f.sig.receiver().is_some() { format!(".{}", f.sig.ident) } else { ids[0].clone() };
                            let ig = i.generics.params.iter().any(|p| !matches!(p, GenericParam::Lifetime(_)));
                            add(self, ids, &f.sig, &f.block, k, ig);
                        }
                    }
                }
                _ => {}
            }
        }
        for c in &m.children {
            self.collect_inl(c);
        }
    }

    // ---- bodies --------------------------------------------------------------------------------
    fn bodies(&mut self, m: &mut Module) {
        let path = m.path.clone();
        self.cur_module = path.clone();
        for it in &mut m.items {
            match it {
                Item::Fn(f) => self.body(&mut f.sig, &mut f.block),
                Item::Impl(i) => {
                    PathFix(self).visit_generics_mut(&mut i.generics);
                    if let Some((_, p, _)) = &mut i.trait_ {
                        PathFix(self).visit_path_mut(p);
                    }
                    PathFix(self).visit_type_mut(&mut i.self_ty);
                    let selfname = match &*i.self_ty { Type::Path(p) => last(&p.path), _ => String::new() };
                    let is_from = i.trait_.as_ref().map(|t| last(&t.1)).unwrap_or_default();
                    for x in &mut i.items {
                        match x {
                            ImplItem::Fn(f) => {
                                self.body(&mut f.sig, &mut f.block);
                                match (is_from.as_str(), f.sig.ident.to_string().as_str()) {
                                    ("VxFrom", "from") => f.sig.ident = ident("vx_from"),
                                    ("VxTryFrom", "try_from") => f.sig.ident = ident("vx_try_from"),
                                    ("VxAsRef", "as_ref") => f.sig.ident = ident("vx_as_ref"),
                                    _ => {}
                                }
                            }
                            x => PathFix(self).visit_impl_item_mut(x),
                        }
                    }
                    let _ = selfname;
                }
                Item::Use(_) => {}
                x => PathFix(self).visit_item_mut(x),
            }
        }
        for c in &mut m.children {
            self.bodies(c);
        }
        let _ = path;
    }
    fn body(&mut self, sig: &mut Signature, block: &mut Block) {
        // 1. inline contract-less helpers
        for _ in 0..8 {
            let mut v = Inline { cx: self, changed: false };
            v.tail_block(block);
            v.visit_block_mut(block);
            if !v.changed {
                break;
            }
        }
        PathFix(self).visit_signature_mut(sig);
        PathFix(self).visit_block_mut(block);
        let opt = matches!(&sig.output, ReturnType::Type(_, t) if matches!(&**t, Type::Path(p) if last(&p.path)=="Option"));
        // `mut` by-value parameters become a shadowing let
        let mut lets = vec![];
        for (k, a) in sig.inputs.iter_mut().enumerate() {
            match a {
                FnArg::Typed(t) => {
                    if !matches!(&*t.pat, Pat::Ident(_)) {
                        let id = ident(&format!("vx_p{k}"));
                        let p = (*t.pat).clone();
                        if !matches!(p, Pat::Wild(_)) {
                            lets.push(parse_quote!(let #p = #id;));
                        }
                        *t.pat = parse_quote!(#id);
                    }
                    if let Pat::Ident(p) = &mut *t.pat {
                        if p.mutability.is_some() && p.by_ref.is_none() {
                            p.mutability = None;
                            let id = p.ident.clone();
                            lets.push(parse_quote!(let mut #id = #id;));
                        }
                    }
                }
                FnArg::Receiver(r) => {
                    if r.reference.is_none() && r.mutability.is_some() {
                        self.structural.push("mut self receiver".into());
                    }
                }
            }
        }
        block.stmts.splice(0..0, lets);
        LoopNum(0).visit_block_mut(block);
        ExprFix { cx: self, opt, closure: 0 }.visit_block_mut(block);
    }
}

fn ren_bound(b: &mut TypeParamBound, from: &str, to: &str) {
    if let TypeParamBound::Trait(b) = b {
        if last(&b.path) == from {
            let args = b.path.segments.last().unwrap().arguments.clone();
            let mut p: Path = parse_str(to).unwrap();
            p.segments.last_mut().unwrap().arguments = args;
            b.path = p;
        }
    }
}

fn clean_attrs_item(i: &mut Item) {
    struct C;
    impl VisitMut for C {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
            // the type of an enum's discriminants is part of its meaning
            a.retain(|a| a.path().is_ident("repr"));
        }
    }
    C.visit_item_mut(i);
}

struct Ren<'a>(&'a BTreeMap<String, String>);
impl<'a> VisitMut for Ren<'a> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = ident(n);
        }
    }
}

/// `let x = s.serialize_tuple(n)?; x.serialize_element(v); x.end()`: the trait the methods belong to, which generic code
/// gets from the type parameter's bounds
struct SerState(BTreeMap<String, &'static str>);
impl SerState {
    fn hint(&self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let (Expr::Path(f), Some(Expr::Reference(r))) = (&*c.func, c.args.first()) {
                let n = last(&f.path);
                let v = if let Expr::Path(p) = &*r.expr { p.path.get_ident().map(|i| i.to_string()) } else { None };
                let t = v.as_ref().and_then(|v| self.0.get(v)).copied();
                if let (Some(v), Some(t)) = (v, t) {
                    if f.path.segments.len() > 1 && r.mutability.is_some() && f.path.segments[f.path.segments.len() - 2].ident == t && (n == "serialize_element" || n == "serialize_field") && matches!(t, "SerializeTuple" | "SerializeStruct" | "SerializeTupleStruct") {
                        let x = c.args.last().unwrap();
                        let h = ident(&format!("vx_{t}"));
                        let (g1, g2) = (format!(", Ghost(vx_o_{v}), Ghost(vx_a_{v}))"), format!("proof {{ vx_a_{v} = crate::serde::cat(vx_a_{v}, vx_v.enc()); }}"));
                        let vi = ident(&v);
                        *e = parse_quote!({ let vx_v = #x; let vx_r = vx_raw!(#h, #vi, #g1); vx_raw!(#g2); vx_r });
                    }
                }
            }
        }
    }
}
impl VisitMut for SerState {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            self.visit_stmt_mut(&mut s);
            let mut add = None;
            if let Stmt::Local(l) = &s {
                let p = match &l.pat {
                    Pat::Type(t) => &*t.pat,
                    p => p,
                };
                if let Pat::Ident(p) = p {
                    let n = p.ident.to_string();
                    if matches!(self.0.get(&n), Some(&"SerializeTuple" | &"SerializeStruct" | &"SerializeTupleStruct")) {
                        // ghost account of what was written so far
                        let t = format!("let ghost vx_o_{n} = {n}.$output@; let ghost mut vx_a_{n} = Some(Seq::<u8>::empty()); proof {{ crate::wire::lemma_add_empty(vx_o_{n}); }}");
                        add = Some(Stmt::Expr(parse_quote!(vx_raw!(#t)), Some(Default::default())));
                    }
                }
            }
            out.push(s);
            out.extend(add);
        }
        b.stmts = out;
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let p = match &l.pat {
            Pat::Type(t) => &*t.pat,
            p => p,
        };
        if let (Pat::Ident(p), Some(i)) = (p, &l.init) {
            let mut e = &*i.expr;
            while let Expr::Try(t) = e {
                e = &t.expr;
            }
            let m = match e {
                Expr::MethodCall(m) => m.method.to_string(),
                Expr::Call(c) => match &*c.func {
                    Expr::Path(p) => last(&p.path),
                    _ => String::new(),
                },
                _ => String::new(),
            };
            let t = match m.as_str() {
                "serialize_seq" => "SerializeSeq",
                "serialize_tuple" => "SerializeTuple",
                "serialize_tuple_struct" => "SerializeTupleStruct",
                "serialize_tuple_variant" => "SerializeTupleVariant",
                "serialize_map" => "SerializeMap",
                "serialize_struct" => "SerializeStruct",
                "serialize_struct_variant" => "SerializeStructVariant",
                _ => return,
            };
            self.0.insert(p.ident.to_string(), t);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        self.hint(e);
        if let Expr::MethodCall(m) = e {
            if let Expr::Path(p) = &*m.receiver {
                if let Some(t) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
                    let n = m.method.to_string();
                    let (t, id, f, a) = (ident(t), p.path.get_ident().unwrap(), &m.method, &m.args);
                    if n.starts_with("serialize_") {
                        *e = parse_quote!(crate::serde::ser::#t::#f(&mut #id, #a));
                        self.hint(e);
                    } else if n == "end" {
                        *e = parse_quote!(crate::serde::ser::#t::end(#id));
                    }
                }
            }
        }
    }
}

struct MonoSubst<'a>(&'a BTreeMap<String, (Type, BTreeMap<String, Type>)>);
impl<'a> VisitMut for MonoSubst<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if let Some(q) = &p.qself {
                if let Some((_, assoc)) = self.0.get(&ty_key(&q.ty)) {
                    if let Some(a) = assoc.get(&last(&p.path)) {
                        *t = a.clone();
                        return;
                    }
                }
            } else {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() == 1 {
                    if let Some((ty, _)) = self.0.get(&segs[0]) {
                        *t = ty.clone();
                        return;
                    }
                }
                if segs.len() == 2 {
                    if let Some((_, assoc)) = self.0.get(&segs[0]) {
                        if let Some(a) = assoc.get(&segs[1]) {
                            *t = a.clone();
                            return;
                        }
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            // <V::Error as de::Error>::custom / V::Error::custom
            if p.qself.is_none() && p.path.segments.len() >= 2 {
                let a = p.path.segments[0].ident.to_string();
                if let Some((_, assoc)) = self.0.get(&a) {
                    let b = p.path.segments[1].ident.to_string();
                    if let (Some(ty), true) = (assoc.get(&b), p.path.segments.len() == 3) {
                        let m = &p.path.segments[2];
                        *e = parse_quote!(<#ty>::#m);
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// paths of serde, std and expansion internals
struct PathFix<'a>(&'a mut Ctx);
impl<'a> PathFix<'a> {
    fn fix(&mut self, p: &mut Path) {
        p.leading_colon = None;
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let s0 = segs[0].as_str();
        let drop_front = |p: &mut Path, n: usize| {
            p.segments = std::mem::take(&mut p.segments).into_iter().skip(n).collect();
        };
        if (s0 == "serde" || s0 == "_serde") && segs.len() > 1 {
            if segs[1].starts_with("__private") {
                drop_front(p, 2);
                if p.segments.len() > 1 && p.segments[0].ident == "fmt" {
                    p.segments.insert(0, PathSegment::from(ident("std")));
                }
            } else {
                let mut n: Path = parse_quote!(crate::serde);
                n.segments.extend(p.segments.iter().skip(1).cloned());
                *p = n;
            }
        } else if s0 == "serde_xdr" && segs.len() > 1 {
            p.segments[0].ident = ident("crate");
        } else if s0 == "alloc" || s0 == "core" {
            let full = segs.join("::");
            let rep = match full.as_str() {
                "alloc::vec::from_elem" => Some("crate::vx::vx_from_elem"),
                "alloc::boxed::box_new" => Some("crate::vx::vx_box_new"),
                "core::panicking::panic" | "core::panicking::panic_fmt" | "core::panicking::unreachable_display" => Some("crate::vx::vx_panic"),
                _ => None,
            };
            if let Some(r) = rep {
                *p = parse_str(r).unwrap();
            } else {
                p.segments[0].ident = ident("std");
            }
        }
        let l = last(p);
        let n = p.segments.len();
        let has_args = matches!(p.segments.last().unwrap().arguments, PathArguments::AngleBracketed(_));
        if matches!(l.as_str(), "AsRef" | "TryFrom" | "From" | "TryInto" | "Into") && has_args {
            let args = p.segments.last().unwrap().arguments.clone();
            let mut q: Path = parse_str(&format!("crate::vx::Vx{l}")).unwrap();
            q.segments.last_mut().unwrap().arguments = args;
            *p = q;
        }
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let two = if n >= 2 { format!("{}::{}", segs[segs.len().max(2) - 2], l) } else { String::new() };
        let rep = match two.as_str() {
            "char::from_u32" => Some("crate::vx::vx_char_from_u32"),
            "Vec::with_capacity" => Some("crate::vx::vx_with_capacity"),
            "str::from_utf8" => Some("crate::vx::vx_from_utf8"),
            "String::from_utf8" => Some("crate::vx::vx_string_from_utf8"),
            _ => None,
        };
        if let Some(r) = rep {
            *p = parse_str(r).unwrap();
        }
    }
}
impl<'a> VisitMut for PathFix<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.fix(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        let before = p.path.segments.len();
        self.visit_path_mut(&mut p.path);
        if let Some(q) = &mut p.qself {
            q.position = (q.position + p.path.segments.len()).saturating_sub(before);
            self.visit_type_mut(&mut q.ty);
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        let before = p.path.segments.len();
        self.visit_path_mut(&mut p.path);
        if let Some(q) = &mut p.qself {
            q.position = (q.position + p.path.segments.len()).saturating_sub(before);
            self.visit_type_mut(&mut q.ty);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                let n = p.path.segments.len();
                if n >= 2 {
                    let l = last(&p.path);
                    let m = match l.as_str() {
                        "from_be_bytes" => Some("vx_from_be_bytes"),
                        "from_le_bytes" | "from_ne_bytes" => Some("vx_from_le_bytes"),
                        "try_from" => Some("vx_try_from"),
                        "from" => Some("vx_from"),
                        "try_into" => Some("vx_try_into"),
                        _ => None,
                    };
                    if let Some(m) = m {
                        p.path.segments.last_mut().unwrap().ident = ident(m);
                    }
                }
            }
        }
        // serde's error constructors: the only error type in sight is the crate's own
        if let Expr::Path(p) = e {
            let s = path_str(&p.path);
            if p.qself.is_none() && (s.ends_with("de::Error::custom") || s.ends_with("ser::Error::custom")) {
                let m = ident(if s.ends_with("de::Error::custom") { "de" } else { "ser" });
                *e = parse_quote!(<crate::error::Error as crate::serde::#m::Error>::custom);
                return;
            }
        }
        // format!(..) expansion
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let s = path_str(&p.path);
                if s == "alloc::__export::must_use" || s == "alloc::fmt::format" {
                    self.0.note("format! abstracted to an arbitrary string");
                    *e = parse_quote!(crate::vx::vx_format());
                    return;
                }
                if s.starts_with("core::panicking::") {
                    self.0.note("panic becomes an obligation that it is unreachable");
                    *e = parse_quote!(crate::vx::vx_panic());
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_macro_mut(&mut self, m: &mut ExprMacro) {
        let n = last(&m.mac.path);
        if n == "format_args" {
            self.0.note("format_args! abstracted");
            m.mac = parse_quote!(vx_fmt!());
        }
    }
}

/// helper inlining
pub struct Inline<'a> {
    pub cx: &'a mut Ctx,
    pub changed: bool,
}
#[derive(PartialEq, Clone, Copy)]
enum Pos {
    Plain,
    Question,
    Tail,
}
fn has_exit(b: &Block) -> (bool, bool) {
    // (contains `return`, contains `?`) outside closures
    struct V(bool, bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, t: &'a ExprTry) {
            self.1 = true;
            syn::visit::visit_expr_try(self, t);
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false, false);
    syn::visit::Visit::visit_block(&mut v, b);
    (v.0, v.1)
}
/// the same statements with early ends written as matches (None: out of reach)
fn exit_free(stmts: Vec<Stmt>) -> Option<Vec<Stmt>> {
    let free = |s: &[Stmt]| has_exit(&Block { brace_token: Default::default(), stmts: s.to_vec() }) == (false, false);
    let Some((s, rest)) = stmts.split_first() else { return Some(vec![]) };
    let rest = rest.to_vec();
    if free(&[s.clone()]) {
        let mut v = vec![s.clone()];
        v.extend(exit_free(rest)?);
        return Some(v);
    }
    let bail: Expr = parse_quote!(Err(crate::vx::VxFrom::vx_from(vx_e)));
    let (pat, e): (Pat, Expr) = match s {
        Stmt::Local(l) => match (&l.init, &l.pat) {
            (Some(LocalInit { expr, diverge: None, .. }), p @ (Pat::Ident(_) | Pat::Tuple(_) | Pat::Wild(_))) => match &**expr {
                Expr::Try(t) => (p.clone(), (*t.expr).clone()),
                _ => return None,
            },
            _ => return None,
        },
        Stmt::Expr(Expr::Try(t), Some(_)) => (parse_quote!(_), (*t.expr).clone()),
        Stmt::Expr(Expr::Return(r), _) => {
            let x = r.expr.clone()?;
            return exit_free(vec![Stmt::Expr(*x, None)]);
        }
        Stmt::Expr(Expr::If(i), semi) if semi.is_some() || !rest.is_empty() || i.else_branch.is_none() => {
            // if c { ..; return x; } rest
            if i.else_branch.is_some() || !matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) {
                return None;
            }
            let (c, then, other) = (&i.cond, exit_free(i.then_branch.stmts.clone())?, exit_free(rest)?);
            return free(&[Stmt::Expr((**c).clone(), None)]).then(|| vec![Stmt::Expr(parse_quote!(if #c { #(#then)* } else { #(#other)* }), None)]);
        }
        Stmt::Expr(Expr::If(i), None) => {
            let (_, x) = i.else_branch.as_ref()?;
            let (c, then, other) = (&i.cond, exit_free(i.then_branch.stmts.clone())?, exit_free(vec![Stmt::Expr((**x).clone(), None)])?);
            return free(&[Stmt::Expr((**c).clone(), None)]).then(|| vec![Stmt::Expr(parse_quote!(if #c { #(#then)* } else { #(#other)* }), None)]);
        }
        Stmt::Expr(Expr::Block(b), None) => return exit_free(b.block.stmts.clone()),
        Stmt::Expr(Expr::Match(m), None) => {
            let mut m = m.clone();
            if !free(&[Stmt::Expr((*m.expr).clone(), None)]) {
                return None;
            }
            for a in &mut m.arms {
                let b = exit_free(vec![Stmt::Expr((*a.body).clone(), None)])?;
                a.body = parse_quote!({ #(#b)* });
            }
            return Some(vec![Stmt::Expr(Expr::Match(m), None)]);
        }
        _ => return None,
    };
    if !free(&[Stmt::Expr(e.clone(), None)]) {
        return None;
    }
    let rest = exit_free(rest)?;
    Some(vec![Stmt::Expr(parse_quote!(match #e { Ok(#pat) => { #(#rest)* } Err(vx_e) => #bail }), None)])
}
fn only_err_returns(b: &Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, r: &'a ExprReturn) {
            let ok = matches!(r.expr.as_deref(), Some(Expr::Call(c)) if matches!(&*c.func, Expr::Path(p) if last(&p.path)=="Err"));
            if !ok {
                self.0 = false;
            }
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(true);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}
struct SelfSub(Expr);
impl VisitMut for SelfSub {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl<'a> Inline<'a> {
    fn try_inline(&mut self, e: &Expr, pos: Pos) -> Option<Expr> {
        let (key, recv, args): (String, Option<Expr>, Vec<Expr>) = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let l = last(&p.path);
                    let n = p.path.segments.len();
                    let k = if n >= 2 {
                        let t = format!("{}::{}", p.path.segments[n - 2].ident, l);
                        if self.cx.inl.contains_key(&t) { t } else { format!("fn {l}") }
                    } else {
                        format!("fn {l}")
                    };
                    (k, None, c.args.iter().cloned().collect())
                }
                _ => return None,
            },
            Expr::MethodCall(m) => (format!(".{}", m.method), Some((*m.receiver).clone()), m.args.iter().cloned().collect()),
            _ => return None,
        };
        let f = self.cx.inl.get(&key)?.clone();
        if f.recursive || f.generic || f.method != recv.is_some() || f.params.len() != args.len() {
            return None;
        }
        let (ret, q) = has_exit(&f.block);
        let ok = match pos {
            Pos::Plain => !ret && !q,
            Pos::Question => f.returns_result && (!ret || only_err_returns(&f.block)),
            Pos::Tail => true,
        };
        let mut block = f.block.clone();
        if !ok {
            if !(self.cx.rpc && f.returns_result) {
                return None;
            }
            block.stmts = exit_free(block.stmts)?;
        }
        if f.module != self.cx.cur_module {
            struct Qual<'b>(&'b InlFn);
            impl<'b> VisitMut for Qual<'b> {
                fn visit_path_mut(&mut self, p: &mut Path) {
                    if p.leading_colon.is_none() && self.0.names.contains(&p.segments[0].ident.to_string()) {
                        let full = if self.0.module.is_empty() { "crate".to_string() } else { format!("crate::{}", self.0.module) };
                        let mut q: Path = parse_str(&full).unwrap();
                        q.segments.extend(p.segments.iter().cloned());
                        *p = q;
                    }
                    visit_mut::visit_path_mut(self, p);
                }
            }
            Qual(&f).visit_block_mut(&mut block);
        }
        // hygiene: rename the helper's locals
        let mut names = BTreeMap::new();
        struct Bind<'b>(&'b mut BTreeMap<String, String>, usize);
        impl<'b, 'c> syn::visit::Visit<'c> for Bind<'b> {
            fn visit_pat_ident(&mut self, p: &'c PatIdent) {
                let n = p.ident.to_string();
                // names of unfolded loops are unique, and used in their headers
                let d = n.len() - n.trim_end_matches(|c: char| c.is_ascii_digit()).len();
                if n.starts_with("vx_") && d >= 4 {
                    return;
                }
                if n.chars().next().is_some_and(|c| c.is_lowercase() || c == '_') {
                    self.0.insert(n.clone(), format!("{n}_i{}", self.1));
                }
            }
        }
        self.cx.hoist += 1;
        let k = self.cx.hoist;
        syn::visit::Visit::visit_block(&mut Bind(&mut names, k), &block);
        for (p, _) in &f.params {
            syn::visit::Visit::visit_pat(&mut Bind(&mut names, k), p);
        }
        struct RenLocal<'b>(&'b BTreeMap<String, String>);
        impl<'b> VisitMut for RenLocal<'b> {
            fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                if let Some(n) = self.0.get(&p.ident.to_string()) {
                    p.ident = ident(n);
                }
                visit_mut::visit_pat_ident_mut(self, p);
            }
            fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                if p.qself.is_none() && p.path.segments.len() == 1 {
                    if let Some(n) = self.0.get(&p.path.segments[0].ident.to_string()) {
                        p.path.segments[0].ident = ident(n);
                    }
                }
            }
            fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
                if f.colon_token.is_none() {
                    f.colon_token = Some(Default::default());
                }
                visit_mut::visit_field_value_mut(self, f);
            }
        }
        RenLocal(&names).visit_block_mut(&mut block);
        if let Some(r) = &recv {
            // only a place expression without side effects can stand for self
            fn place(e: &Expr) -> bool {
                match e {
                    Expr::Path(_) => true,
                    Expr::Field(f) => place(&f.base),
                    Expr::Paren(p) => place(&p.expr),
                    Expr::Unary(u) => place(&u.expr),
                    _ => false,
                }
            }
            if !place(r) {
                return None;
            }
            SelfSub(r.clone()).visit_block_mut(&mut block);
        }
        let mut lets: Vec<Stmt> = vec![];
        for ((p, ty), a) in f.params.iter().zip(&args) {
            let mut p = p.clone();
            RenLocal(&names).visit_pat_mut(&mut p);
            let has_lt = ty.to_token_stream().to_string().contains("impl ");
            let arg: Expr = if let (Type::Reference(r), Expr::Path(_)) = (ty, a) {
                if r.mutability.is_some() { parse_quote!(&mut *#a) } else { a.clone() }
            } else {
                a.clone()
            };
            if has_lt || matches!(ty, Type::Reference(_)) {
                lets.push(parse_quote!(let #p = #arg;));
            } else {
                lets.push(parse_quote!(let #p: #ty = #arg;));
            }
        }
        self.cx.note(format!("inlined helper {key}"));
        self.changed = true;
        let mut ret = f.ret.clone();
        if let Some(t) = &mut ret {
            struct SelfTy<'b>(&'b Expr, bool);
            impl<'b> VisitMut for SelfTy<'b> {
                fn visit_type_mut(&mut self, t: &mut Type) {
                    if let Type::Path(p) = t {
                        if p.path.is_ident("Self") {
                            let mut ok = false;
                            if let Expr::Call(c) = self.0 {
                                if let Expr::Path(q) = &*c.func {
                                    if q.qself.is_none() && q.path.segments.len() >= 2 {
                                        let mut qp = q.path.clone();
                                        qp.segments.pop();
                                        qp.segments.pop_punct();
                                        *t = Type::Path(TypePath { qself: None, path: qp });
                                        ok = true;
                                    }
                                }
                            }
                            self.1 &= ok;
                            return;
                        }
                        if p.path.segments[0].ident == "Self" {
                            self.1 = false;
                        }
                    }
                    visit_mut::visit_type_mut(self, t);
                }
                fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
                    *l = parse_quote!('_);
                }
                fn visit_type_impl_trait_mut(&mut self, _: &mut TypeImplTrait) {
                    self.1 = false;
                }
            }
            let mut st = SelfTy(e, true);
            let had_self = t.to_token_stream().to_string().split_whitespace().any(|w| w == "Self");
            st.visit_type_mut(t);
            if !st.1 || (f.impl_generic && !had_self) {
                ret = None;
            }
        }
        if let Some(t) = ret {
            let inner = Expr::Block(ExprBlock { attrs: vec![], label: None, block });
            let r = ident(&format!("vx_ret{k}"));
            let mut b: Block = parse_quote!({ let #r: #t = VXI; #r });
            struct P(Option<Expr>);
            impl VisitMut for P {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if matches!(e, Expr::Path(p) if p.path.is_ident("VXI")) {
                        *e = self.0.take().unwrap();
                    } else {
                        visit_mut::visit_expr_mut(self, e);
                    }
                }
            }
            P(Some(inner)).visit_block_mut(&mut b);
            block = b;
        }
        block.stmts.splice(0..0, lets);
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block }))
    }
    pub fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail(e);
        }
    }
    fn tail(&mut self, e: &mut Expr) {
        if let Some(n) = self.try_inline(e, Pos::Tail) {
            *e = n;
            return;
        }
        match e {
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x);
                }
            }
            Expr::Match(m) => {
                for a in &mut m.arms {
                    self.tail(&mut a.body);
                }
            }
            Expr::Block(b) => self.tail_block(&mut b.block),
            _ => {}
        }
    }
}
impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if let Some(n) = self.try_inline(&t.expr, Pos::Question) {
                t.expr = Box::new(n);
                return;
            }
        }
        if let Expr::Return(r) = e {
            if let Some(x) = &mut r.expr {
                if let Some(n) = self.try_inline(x, Pos::Tail) {
                    **x = n;
                    return;
                }
            }
        }
        if let Some(n) = self.try_inline(e, Pos::Plain) {
            *e = n;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct LoopNum(usize);
impl VisitMut for LoopNum {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let attrs = match e {
            Expr::ForLoop(f) => Some(&mut f.attrs),
            Expr::While(f) => Some(&mut f.attrs),
            Expr::Loop(f) => Some(&mut f.attrs),
            _ => None,
        };
        if let Some(a) = attrs {
            let n = Literal(self.0);
            a.push(parse_quote!(#[vxloop(#n)]));
            self.0 += 1;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct Literal(usize);
impl ToTokens for Literal {
    fn to_tokens(&self, t: &mut TokenStream) {
        proc_macro2::Literal::usize_unsuffixed(self.0).to_tokens(t)
    }
}

/// replaces placeholder paths in a template by expressions (without re-parsing them)
pub fn sub(mut t: Expr, subs: &[(&str, &Expr)]) -> Expr {
    struct S<'a>(&'a [(&'a str, &'a Expr)]);
    impl<'a> VisitMut for S<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = e {
                if let Some(i) = p.path.get_ident() {
                    if let Some((_, x)) = self.0.iter().find(|(n, _)| i == n) {
                        *e = (*x).clone();
                        return;
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    S(subs).visit_expr_mut(&mut t);
    t
}

struct ExprFix<'a> {
    cx: &'a mut Ctx,
    opt: bool,
    closure: usize,
}
fn loop_no(a: &mut Vec<Attribute>) -> usize {
    let mut n = 0;
    for x in a.iter() {
        if x.path().is_ident("vxloop") {
            if let Meta::List(l) = &x.meta {
                n = l.tokens.to_string().parse().unwrap();
            }
        }
    }
    a.clear();
    n
}
fn ctor(e: &Expr) -> bool {
    matches!(e, Expr::Path(p) if {
        let l = last(&p.path);
        l.chars().next().is_some_and(|c| c.is_uppercase())
    })
}
/// provided methods of serde's traits that pass a PhantomData seed; Result::map with a constructor
fn seeds(e: &mut Expr) {
    match e {
        Expr::Match(m) => {
            struct F(Option<Ident>);
            impl VisitMut for F {
                fn visit_ident_mut(&mut self, i: &mut Ident) {
                    if self.0.is_none() && i.to_string().starts_with("__Field") {
                        self.0 = Some(i.clone());
                    }
                }
            }
            let mut f = F(None);
            for a in &mut m.arms {
                f.visit_pat_mut(&mut a.pat);
            }
            if let (Expr::Call(c), Some(t)) = (&mut *m.expr, f.0) {
                if matches!(&*c.func, Expr::Path(p) if path_str(&p.path).ends_with("EnumAccess::variant")) && c.args.len() == 1 {
                    let a = &c.args[0];
                    *m.expr = parse_quote!(crate::serde::de::EnumAccess::variant_seed(#a, std::marker::PhantomData::<#t>));
                }
            }
        }
        Expr::Call(c) => {
            let q = if let Expr::Path(p) = &*c.func { p.path.clone() } else { return };
            let s = q.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            let a = c.args.first().cloned();
            if s.ends_with("VariantAccess::newtype_variant") && c.args.len() == 1 {
                if let PathArguments::AngleBracketed(t) = &q.segments.last().unwrap().arguments {
                    let t = &t.args;
                    *e = parse_quote!(crate::serde::de::VariantAccess::newtype_variant_seed(#a, std::marker::PhantomData::<#t>));
                }
            } else if s == "Result::map" && c.args.len() == 2 && ctor(&c.args[1]) {
                *e = sub(parse_quote!(match VXR { Ok(vx_v) => Ok(VXA(vx_v)), Err(vx_e) => Err(vx_e) }), &[("VXR", &a.unwrap()), ("VXA", &c.args[1].clone())]);
            } else if s == "Result::map" && c.args.len() == 2 {
                if let Expr::Closure(k) = &c.args[1] {
                    if k.inputs.len() == 1 && !matches!(&*k.body, Expr::Return(_)) {
                        let p = match &k.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                        let b = (*k.body).clone();
                        *e = sub(parse_quote!(match VXR { Ok(#p) => Ok(VXB), Err(vx_e) => Err(vx_e) }), &[("VXR", &a.unwrap()), ("VXB", &b)]);
                    }
                }
            }
        }
        _ => {}
    }
}
impl<'a> VisitMut for ExprFix<'a> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.closure += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        self.closure -= 1;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        seeds(e);
        match e {
            Expr::Try(t) if self.closure == 0 => {
                let x = &t.expr;
                *e = if self.opt {
                    sub(parse_quote!(match VXX { Some(vx_v) => vx_v, None => return None }), &[("VXX", x)])
                } else {
                    sub(parse_quote!(match VXX { Ok(vx_v) => vx_v, Err(vx_e) => return Err(crate::vx::VxFrom::vx_from(vx_e)) }), &[("VXX", x)])
                };
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if m.args.len() == 1 {
                    let a = m.args[0].clone();
                    let r = &m.receiver;
                    if let Expr::Closure(c) = &a {
                        if c.inputs.len() <= 1 && !matches!(&*c.body, Expr::Return(_)) {
                            let b = &c.body;
                            let p = c.inputs.first().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() });
                            let n = match (name.as_str(), p) {
                                ("map_err", Some(p)) => Some(sub(parse_quote!(match VXR { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(VXB) }), &[("VXR", r), ("VXB", b)])),
                                ("ok_or_else", None) => Some(sub(parse_quote!(match VXR { Some(vx_v) => Ok(vx_v), None => Err(VXB) }), &[("VXR", r), ("VXB", b)])),
                                ("unwrap_or_else", None) => Some(sub(parse_quote!(match VXR { Some(vx_v) => vx_v, None => VXB }), &[("VXR", r), ("VXB", b)])),
                                ("unwrap_or_else", Some(p)) => Some(sub(parse_quote!(match VXR { Ok(vx_v) => vx_v, Err(#p) => VXB }), &[("VXR", r), ("VXB", b)])),
                                ("map" , Some(p)) if looks_result(r) => Some(sub(parse_quote!(match VXR { Ok(#p) => Ok(VXB), Err(vx_e) => Err(vx_e) }), &[("VXR", r), ("VXB", b)])),
                                ("and_then" , Some(p)) if looks_result(r) => Some(sub(parse_quote!(match VXR { Ok(#p) => VXB, Err(vx_e) => Err(vx_e) }), &[("VXR", r), ("VXB", b)])),
                                ("map" , Some(p)) => Some(sub(parse_quote!(match VXR { Some(#p) => Some(VXB), None => None }), &[("VXR", r), ("VXB", b)])),
                                ("and_then" , Some(p)) => Some(sub(parse_quote!(match VXR { Some(#p) => VXB, None => None }), &[("VXR", r), ("VXB", b)])),
                                _ => None,
                            };
                            if let Some(n) = n {
                                *e = n;
                                return;
                            }
                        }
                    }
                    if ctor(&a) {
                        let n = match name.as_str() {
                            "map_err" => Some(sub(parse_quote!(match VXR { Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err(VXA(vx_e)) }), &[("VXR", r), ("VXA", &a)])),
                            "map" if looks_result(r) => Some(sub(parse_quote!(match VXR { Ok(vx_v) => Ok(VXA(vx_v)), Err(vx_e) => Err(vx_e) }), &[("VXR", r), ("VXA", &a)])),
                            "map" => Some(sub(parse_quote!(match VXR { Some(vx_v) => Some(VXA(vx_v)), None => None }), &[("VXR", r), ("VXA", &a)])),
                            _ => None,
                        };
                        if let Some(n) = n {
                            *e = n;
                            return;
                        }
                    }
                }
                if let Expr::MethodCall(m) = e {
                    for (n, k, to) in RENAME_METHODS {
                        if m.method == *n && m.args.len() == *k {
                            m.method = ident(to);
                        }
                    }
                }
            }
            Expr::Call(c) => {
                // Option::map(x, |p| b)
                if let Expr::Path(p) = &*c.func {
                    if path_str(&p.path) == "Option::map" && c.args.len() == 2 {
                        if let Expr::Closure(cl) = &c.args[1] {
                            let (x, p, b) = (&c.args[0], cl.inputs.first().unwrap(), &cl.body);
                            *e = sub(parse_quote!(match VXX { Some(#p) => Some(VXB), None => None }), &[("VXX", x), ("VXB", b)]);
                        }
                    }
                }
            }
            Expr::Match(m) => {
                // the least value of a signed type is not accepted as a pattern: compare instead
                for a in &mut m.arms {
                    let t = a.pat.to_token_stream().to_string();
                    if t.contains("- 2147483648") || t.contains("- 9223372036854775808") {
                        let alts: Vec<Pat> = match &a.pat {
                            Pat::Or(o) => o.cases.iter().cloned().collect(),
                            p => vec![p.clone()],
                        };
                        if a.guard.is_some() || !alts.iter().all(|p| matches!(p, Pat::Lit(_))) {
                            self.cx.structural.push("match on a least integer".into());
                            continue;
                        }
                        let mut g: Option<Expr> = None;
                        for p in alts {
                            let l = parse2::<Expr>(p.to_token_stream()).unwrap();
                            g = Some(match g {
                                None => parse_quote!(vx_k == #l),
                                Some(x) => parse_quote!(#x || vx_k == #l),
                            });
                        }
                        a.pat = parse_quote!(vx_k);
                        a.guard = Some((Default::default(), Box::new(g.unwrap())));
                    }
                }
                // string and byte-string patterns become a chain of comparisons
                let strs = m.arms.iter().any(|a| matches!(&a.pat, Pat::Lit(l) if matches!(l.lit, Lit::Str(_))));
                if m.arms.iter().any(|a| matches!(&a.pat, Pat::Lit(l) if matches!(l.lit, Lit::ByteStr(_)))) {
                    self.cx.structural.push("match on byte strings".into());
                }
                if strs {
                    let x = &m.expr;
                    let mut out: Expr = parse_quote!({ crate::vx::vx_panic() });
                    for a in m.arms.iter().rev() {
                        let b = &a.body;
                        match &a.pat {
                            Pat::Lit(l) => out = sub(parse_quote!(if crate::vx::vx_str_eq(vx_s, #l) { VXB } else { VXO }), &[("VXB", b), ("VXO", &out)]),
                            Pat::Wild(_) => out = (**b).clone(),
                            Pat::Ident(i) => {
                                let id = &i.ident;
                                out = sub(parse_quote!({ let #id = vx_s; VXB }), &[("VXB", b)])
                            }
                            _ => {
                                self.cx.structural.push("string match with an unhandled pattern".into());
                            }
                        }
                    }
                    *e = sub(parse_quote!({ let vx_s = VXX; VXO }), &[("VXX", x), ("VXO", &out)]);
                }
            }
            Expr::ForLoop(f) => {
                let n = loop_no(&mut f.attrs);
                let (pat, x, body) = (&f.pat, &f.expr, &f.body);
                let it = ident(&format!("vx_it{n}"));
                let all = ident(&format!("vx_all{n}"));
                let mark = ident(&format!("VX_INV_{n}"));
                let mut st = body.stmts.clone();
                close(&mut st);
                let lab = &f.label;
                let (lb, le, la) = (ident(&format!("VX_LB_{n}")), ident(&format!("VX_LE_{n}")), ident(&format!("VX_LA_{n}")));
                *e = Expr::Verbatim(quote!({
                    let mut #it = crate::vx::VxIntoIter::vx_into_iter(#x);
                    let ghost #all = #it.rest();
                    #lab while #it.vx_has_next() invariant #it.rest().len() <= #all.len(), #it.rest() == #all.skip(#all.len() - #it.rest().len()), #mark decreases #it.rest().len()
                    { let #pat = #it.vx_take(); #lb; #(#st)* #le; }
                    #la;
                }));
            }
            Expr::While(w) => {
                let n = loop_no(&mut w.attrs);
                let mark = ident(&format!("VX_INV_{n}"));
                let (c, b, lab) = (&w.cond, &w.body, &w.label);
                if matches!(**c, Expr::Let(_)) {
                    self.cx.structural.push("while let".into());
                }
                let mut st = b.stmts.clone();
                close(&mut st);
                let (lb, le) = (ident(&format!("VX_LB_{n}")), ident(&format!("VX_LE_{n}")));
                *e = Expr::Verbatim(quote!(#lab while #c #mark { #lb; #(#st)* #le; }));
            }
            Expr::Loop(w) => {
                let n = loop_no(&mut w.attrs);
                let mark = ident(&format!("VX_INV_{n}"));
                let (b, lab) = (&w.body, &w.label);
                let mut st = b.stmts.clone();
                close(&mut st);
                let (lb, le) = (ident(&format!("VX_LB_{n}")), ident(&format!("VX_LE_{n}")));
                *e = Expr::Verbatim(quote!(#lab loop #mark { #lb; #(#st)* #le; }));
            }
            _ => {}
        }
    }
}
fn close(st: &mut [Stmt]) {
    if let Some(Stmt::Expr(_, semi)) = st.last_mut() {
        *semi = Some(Default::default());
    }
}
fn looks_result(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            n.starts_with("deserialize") || n.starts_with("serialize") || n.starts_with("read") || n.starts_with("visit") || n.starts_with("vx_try") || n.starts_with("try_") || n == "map_err" || n.starts_with("next_") || n == "ok_or"
        }
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => {
                let n = last(&p.path);
                n.starts_with("try_") || n.starts_with("vx_try") || n.contains("deserialize") || n.contains("from_utf8") || n.starts_with("read")
            }
            _ => false,
        },
        Expr::Match(m) => m.arms.iter().any(|a| a.pat.to_token_stream().to_string().starts_with("Ok")),
        _ => false,
    }
}
