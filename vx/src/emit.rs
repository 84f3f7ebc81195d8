//! Output of the Verus file.
use crate::rewrite::{ty_key, Ctx, Module};
use crate::spec::Contract;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use syn::*;

pub struct Out {
    pub s: String,
    pub line: usize,
}
impl Out {
    pub fn w(&mut self, t: &str) {
        self.line += t.matches('\n').count();
        self.s.push_str(t);
    }
}

pub fn fmt_tokens(t: TokenStream) -> String {
    let mut s = String::new();
    go(t, &mut s);
    s
}
fn go(t: TokenStream, s: &mut String) {
    let mut it = t.into_iter().peekable();
    while let Some(x) = it.next() {
        match x {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Brace => ("{\n", "}\n"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                s.push_str(a);
                go(g.stream(), s);
                if g.delimiter() == Delimiter::Brace && !s.ends_with('\n') {
                    s.push('\n');
                }
                s.push_str(b);
                if g.delimiter() != Delimiter::Brace {
                    s.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' {
                    s.push('\n');
                } else if p.spacing() == Spacing::Alone {
                    s.push(' ');
                }
            }
            TokenTree::Ident(i) if i == "vx_raw" => {
                it.next();
                if let Some(TokenTree::Group(g)) = it.next() {
                    let ts: Vec<TokenTree> = g.stream().into_iter().collect();
                    let text = |t: &TokenTree| syn::parse_str::<syn::LitStr>(&t.to_string()).map(|l| l.value()).unwrap_or_default();
                    if ts.len() == 1 {
                        s.push_str(&text(&ts[0]));
                        // a statement of its own
                        if matches!(it.peek(), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
                            it.next();
                        }
                        s.push('\n');
                    } else {
                        s.push_str(&format!("crate::serde::ser::{}(&mut {}, vx_v{} ", ts[0], ts[2], text(&ts[4])));
                    }
                }
            }
            TokenTree::Ident(i) => {
                s.push_str(&i.to_string());
                s.push(' ');
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
            }
        }
    }
}

pub fn emit(cx: &mut Ctx, mods: &[Module]) -> (String, Vec<Value>) {
    let mut o = Out { s: String::new(), line: 1 };
    let mut fns = vec![];
    o.w("#![allow(unused_imports, unused_variables, dead_code, unused_mut, non_snake_case, unused_parens, unused_braces, non_camel_case_types, path_statements, unreachable_code)]\nuse vstd::prelude::*;\nverus! {\n");
    for r in cx.spec.root.clone() {
        let r = vars(cx, &r);
        o.w(&r);
    }
    for m in mods {
        if m.name.is_empty() {
            items(cx, m, &mut o, &mut fns);
        } else {
            module(cx, m, &mut o, &mut fns);
        }
    }
    o.w("\n} // verus!\nfn main() {}\n");
    (o.s, fns)
}

fn vars(cx: &Ctx, t: &str) -> String {
    let mut out = String::with_capacity(t.len());
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '$' {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            let w: String = b[i + 1..j].iter().collect();
            if let Some(v) = cx.vars.get(&w) {
                out.push_str(v);
                i = j;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

fn module(cx: &mut Ctx, m: &Module, o: &mut Out, fns: &mut Vec<Value>) {
    o.w(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::vx::*;\n", m.name));
    items(cx, m, o, fns);
    o.w("}\n");
}

fn items(cx: &mut Ctx, m: &Module, o: &mut Out, fns: &mut Vec<Value>) {
    for t in cx.spec.modules.get(&m.path).cloned().unwrap_or_default() {
        let t = vars(cx, &t);
        o.w(&t);
    }
    for it in &m.items {
        match it {
            Item::Use(u) => {
                o.w(&fmt_tokens(u.to_token_stream()));
            }
            Item::Struct(s) => {
                let mut s = s.clone();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                }
                o.w(&fmt_tokens(s.to_token_stream()));
                o.w("\n");
            }
            Item::Enum(s) => {
                let mut s = s.clone();
                s.vis = parse_quote!(pub);
                o.w(&fmt_tokens(s.to_token_stream()));
                o.w("\n");
            }
            Item::Type(t) => {
                let mut t = t.clone();
                t.vis = parse_quote!(pub);
                o.w(&fmt_tokens(t.to_token_stream()));
            }
            Item::Const(c) => {
                let mut c = c.clone();
                c.vis = parse_quote!(pub);
                if let Expr::Reference(r) = &*c.expr {
                    if let Expr::Array(a) = &*r.expr {
                        let t = fmt_tokens(c.ty.to_token_stream());
                        let e = fmt_tokens(c.expr.to_token_stream());
                        o.w(&format!("pub exec const {}: {t} ensures {}@.len() == {} {{ {e} }}\n", c.ident, c.ident, a.elems.len()));
                        continue;
                    }
                }
                let key = format!("const {}", c.ident);
                if let Some(k) = cx.spec.fns.get(&key).cloned() {
                    cx.used.insert(key);
                    o.w(&k.attrs);
                }
                o.w(&fmt_tokens(c.to_token_stream()));
            }
            Item::Fn(f) => {
                let ids = Ctx::fn_ids(m, None, &f.sig.ident.to_string());
                func(cx, o, fns, &ids, &f.sig, Some(&f.block), true, &m.path);
            }
            Item::Trait(t) => {
                let name = t.ident.to_string();
                let mut t2 = t.clone();
                t2.items.clear();
                t2.vis = parse_quote!(pub);
                let h = fmt_tokens(t2.to_token_stream());
                let h = h.trim_end().trim_end_matches('}').trim_end().to_string();
                o.w(&h);
                o.w("\n");
                if let Some(x) = cx.spec.inject.get(&format!("trait {name}")).cloned() {
                    o.w(&x);
                }
                for i in &t.items {
                    match i {
                        TraitItem::Fn(f) => {
                            let ids = vec![format!("trait {name}::{}", f.sig.ident)];
                            func(cx, o, fns, &ids, &f.sig, f.default.as_ref(), false, &m.path);
                        }
                        x => o.w(&fmt_tokens(x.to_token_stream())),
                    }
                }
                o.w("}\n");
            }
            Item::Impl(i) => {
                let mut h = i.clone();
                h.items.clear();
                let h = fmt_tokens(h.to_token_stream());
                let h = h.trim_end().trim_end_matches('}').trim_end().to_string();
                o.w(&h);
                o.w("\n");
                let k = ty_key(&i.self_ty);
                let mut deps = String::new();
                if let Some((_, p, _)) = &i.trait_ {
                    let t = p.segments.last().unwrap().ident.to_string();
                    let ta = p.segments.last().unwrap().arguments.to_token_stream().to_string().replace(' ', "");
                    let mp = if m.path.is_empty() { String::new() } else { format!("{}::", m.path) };
                    for key in [format!("{mp}{t}->{}", Ctx::value_key(i)), format!("{mp}{t}{ta}[{k}]"), format!("{mp}{t}[{k}]"), format!("{t}{ta}[{k}]"), format!("{t}[{k}]"), t.clone()] {
                        if let Some(x) = cx.spec.inject.get(&key).cloned() {
                            let x = vars(cx, &x);
                            o.w(&x);
                            deps = spec_deps(&x, &fmt_tokens(p.to_token_stream()));
                            break;
                        }
                    }
                }
                for x in &i.items {
                    match x {
                        ImplItem::Fn(f) => {
                            let ids = Ctx::fn_ids(m, Some(i), &f.sig.ident.to_string().replace("vx_from", "from").replace("vx_try_from", "try_from").replace("vx_as_ref", "as_ref"));
                            cx.deps = deps.clone();
                            func(cx, o, fns, &ids, &f.sig, Some(&f.block), i.trait_.is_none(), &m.path);
                            cx.deps.clear();
                        }
                        x => o.w(&fmt_tokens(x.to_token_stream())),
                    }
                }
                if let Some((_, p, _)) = &i.trait_ {
                    let t = p.segments.last().unwrap().ident.to_string();
                    let k2: Vec<String> = p.segments.iter().rev().take(2).map(|s| s.ident.to_string()).collect();
                    let t2 = k2.iter().rev().cloned().collect::<Vec<_>>().join("::");
                    for sig in cx.spec.fill.get(&t2).or(cx.spec.fill.get(&t)).cloned().unwrap_or_default() {
                        let n = sig.split('(').next().unwrap().to_string();
                        let n0 = n.split("=>").next().unwrap().split('<').next().unwrap().trim().to_string();
                        if i.items.iter().any(|x| matches!(x, ImplItem::Fn(f) if f.sig.ident == n0)) {
                            continue;
                        }
                        // fill lines: `name(params)` for unreachable defaults, or a full item
                        let line = if let Some(full) = sig.split_once("=>") {
                            vars(cx, full.1)
                        } else {
                            vars(cx, &format!("fn {sig} -> (r: Result<Self::Value, crate::error::Error>) {{ crate::vx::vx_panic() }}"))
                        };
                        o.w(&line);
                        o.w("\n");
                    }
                }
                o.w("}\n");
            }
            x => o.w(&fmt_tokens(x.to_token_stream())),
        }
    }
    for c in &m.children {
        module(cx, c, o, fns);
    }
}

/// Verus orders definitions by the calls it sees: a method must mention the spec functions of its own impl that its trait's
/// contract refers to, or it is checked before they are defined
fn spec_deps(text: &str, tr: &str) -> String {
    let mut s = String::new();
    let mut rest = text;
    while let Some(p) = rest.find("open spec fn ") {
        rest = &rest[p + 13..];
        let open = rest.find('(').unwrap();
        let name = rest[..open].split('<').next().unwrap().trim().to_string();
        let (mut depth, mut angle, mut n, mut any) = (0i32, 0i32, 0, false);
        let cs: Vec<char> = rest[open..].chars().collect();
        for (k, c) in cs.iter().enumerate() {
            match c {
                '(' | '[' => depth += 1,
                ')' | ']' => {
                    depth -= 1;
                    if depth == 0 {
                        break;
                    }
                }
                '<' => angle += 1,
                '>' if cs[k - 1] != '-' => angle -= 1,
                ',' if depth == 1 && angle == 0 => {
                    n += 1;
                    any = false;
                    continue;
                }
                c if !c.is_whitespace() => any = true,
                _ => {}
            }
        }
        if any {
            n += 1;
        }
        s += &format!("let _ = <Self as {tr}>::{name}({}); ", vec!["arbitrary()"; n].join(", "));
    }
    s
}

fn subst(text: &str, params: &[String], lets: &[String]) -> String {
    let mut s = text.to_string();
    for (i, l) in lets.iter().enumerate().rev() {
        s = s.replace(&format!("$let{i}"), l);
    }
    for (i, p) in params.iter().enumerate().rev() {
        s = s.replace(&format!("${}", i + 1), p);
    }
    s
}

#[allow(clippy::too_many_arguments)]
fn func(cx: &mut Ctx, o: &mut Out, fns: &mut Vec<Value>, ids: &[String], sig: &Signature, block: Option<&Block>, public: bool, module: &str) {
    let (id, mut c): (String, Contract) = match cx.lookup(ids) {
        Some((k, c)) => {
            cx.used.insert(k.clone());
            (k, c)
        }
        None => (ids[0].clone(), Contract::default()),
    };
    let has = cx.spec.fns.contains_key(&id);
    c.text = vars(cx, &c.text);
    c.pre_body = vars(cx, &c.pre_body);
    if c.pre_body.contains("VX_STRS") {
        let mut v = std::collections::BTreeSet::new();
        if let Some(b) = block {
            lits(b.to_token_stream(), &mut v);
        }
        let mut t = String::new();
        for x in v.iter().filter(|x| x.is_ascii() && x.len() <= 9) {
            t += &format!("reveal_strlit({x:?}); assert({x:?}@.len() == {});", x.len());
            for (k, ch) in x.chars().enumerate() {
                t += &format!(" assert({x:?}@[{k}] == {ch:?});");
            }
            t += "\n";
        }
        c.pre_body = c.pre_body.replace("VX_STRS", &t);
    }
    for l in c.loops.values_mut() {
        *l = vars(cx, l);
    }
    for l in c.post.iter_mut() {
        l.1 = vars(cx, &l.1);
    }
    let inlined = !has && (cx.inl.contains_key(&format!("fn {}", sig.ident)) || cx.inl.contains_key(&format!(".{}", sig.ident)));
    let mut params = vec![];
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            params.push(fmt_tokens(t.pat.to_token_stream()).trim().to_string());
        }
    }
    let mut lets = vec![];
    if let Some(b) = block {
        struct L<'a>(&'a mut Vec<String>);
        impl<'a, 'b> syn::visit::Visit<'b> for L<'a> {
            fn visit_local(&mut self, l: &'b Local) {
                struct P<'a>(&'a mut Vec<String>);
                impl<'a, 'b> syn::visit::Visit<'b> for P<'a> {
                    fn visit_pat_ident(&mut self, p: &'b PatIdent) {
                        self.0.push(p.ident.to_string());
                    }
                }
                syn::visit::Visit::visit_pat(&mut P(self.0), &l.pat);
                syn::visit::visit_local(self, l);
            }
        }
        syn::visit::Visit::visit_block(&mut L(&mut lets), b);
    }
    // the named values of the function itself, in order: $varN, anchor varN behind its definition
    let named: Vec<String> = ids.iter().find_map(|i| cx.named.get(i)).cloned().unwrap_or_default();
    for (k, n) in named.iter().enumerate().rev() {
        let v = format!("$var{k}");
        for t in c.loops.values_mut() { *t = t.replace(&v, n); }
        for t in c.post.iter_mut() { t.1 = t.1.replace(&v, n); }
    }
    let start = o.line;
    let mut loops = 0usize;
    let mut nodec = false;
    let mut body = String::new();
    if let Some(b) = block {
        body = fmt_tokens(b.to_token_stream());
        if body.contains("let ghost vx_o_") {
            body = vars(cx, &body);
        }
        while body.contains(&format!("VX_INV_{loops} ")) {
            let mut l = c.loops.get(&loops).cloned().unwrap_or_default();
            if body.contains(&format!("VX_USER_{loops}")) && !l.trim().starts_with("invariant") {
                // written for a loop of another shape
                l.clear();
            }
            let l = l.replace("$it", &format!("vx_it{loops}")).replace("$all", &format!("vx_all{loops}"));
            body = body.replacen(&format!("VX_INV_{loops} "), &format!("\n{}\n", subst(&l, &params, &lets)), 1);
            let user = format!("VX_USER_{loops}");
            if body.contains(&user) {
                body = body.replacen(&user, "", 1);
                if has && !l.contains("decreases") {
                    nodec = true;
                    let s = format!("a loop without a contract in {id}");
                    if !cx.structural.contains(&s) { cx.structural.push(s); }
                }
            }
            loops += 1;
        }
        if cx.spec.bounded.iter().any(|b| id.starts_with(b.as_str()) || module == b || ids.iter().any(|i| i.starts_with(b.as_str()))) {
            for f in ["vx_with_capacity", "vx_from_elem", "vx_reserve", "vx_resize"] {
                body = body.replace(&format!("{f} "), &format!("{f}_bounded ")).replace(&format!("{f}("), &format!("{f}_bounded("));
            }
        }
        if !cx.deps.is_empty() {
            body = body.replacen("{\n", &format!("{{\nproof {{ {}}}\n", cx.deps), 1);
        }
        if !c.pre_body.is_empty() {
            body = body.replacen("{\n", &format!("{{\n{}\n", subst(&c.pre_body, &params, &lets)), 1);
        }
        for (anchor, text) in &c.post {
            let t = subst(text, &params, &lets);
            if anchor == "end" {
                // before the tail expression
                if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
                    let tail = fmt_tokens(e.to_token_stream());
                    if let Some(p) = body.rfind(&tail) {
                        body.insert_str(p, &t);
                    }
                }
            } else if let Some(k) = anchor.strip_prefix("var") {
                body = body.replace(&format!("VX_V_{k} ;\n"), &format!("{t}\nVX_V_{k} ;\n"));
            } else if let Some(k) = anchor.strip_prefix("loop") {
                // loopN: start of an iteration, loopN_end: end of an iteration, loopN_after: behind the loop
                let (k, m) = match k.split_once('_') {
                    Some((k, "end")) => (k, "LE"),
                    Some((k, "after")) => (k, "LA"),
                    Some((k, "before")) => (k, "LP"),
                    _ => (k, "LB"),
                };
                let t = t.replace("$it", &format!("vx_it{k}")).replace("$all", &format!("vx_all{k}"));
                if m == "LP" {
                    let at = format!("let ghost vx_all{k} =");
                    body = body.replace(&at, &format!("{t}\n{at}"));
                    let at = format!("while vx_k{k} < vx_c{k} ");
                    body = body.replace(&at, &format!("{t}\n{at}"));
                }
                body = body.replace(&format!("VX_{m}_{k} ;\n"), &format!("{t}\nVX_{m}_{k} ;\n"));
            }
        }
        for k in 0..named.len() {
            body = body.replace(&format!("VX_V_{k} ;\n"), "");
        }
        for k in 0..loops {
            for m in ["LB", "LE", "LA"] {
                body = body.replace(&format!("VX_{m}_{k} ;\n"), "");
            }
        }
    }
    if inlined && block.is_some() && !has {
        // the body is verified where it is inlined; kept here without contract only if it is used as is
        o.w("#[verifier::external_body]\n");
    }
    if c.external {
        o.w("#[verifier::external_body]\n");
    }
    if loops > 0 {
        o.w("#[verifier::loop_isolation(false)]\n");
        if !has || nodec {
            o.w("#[verifier::exec_allows_no_decreases_clause]\n");
        }
    }
    o.w(&c.attrs);
    let mut sig2 = sig.clone();
    let wc = sig2.generics.where_clause.take();
    let g = fmt_tokens(sig2.generics.to_token_stream());
    let ins = fmt_tokens(sig2.inputs.to_token_stream());
    let ret = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => format!(" -> (r: {})", fmt_tokens(t.to_token_stream())),
    };
    o.w(&format!("{}fn {}{}({}){}", if public { "pub " } else { "" }, sig.ident, g.trim(), ins, ret));
    if let Some(w) = wc {
        o.w("\nwhere ");
        for p in &w.predicates {
            o.w(&format!("{},", fmt_tokens(p.to_token_stream())));
        }
    }
    o.w("\n");
    o.w(&subst(&c.text, &params, &lets));
    o.w("\n");
    let body_start = o.line;
    if block.is_some() {
        o.w(&body);
    } else {
        o.w(";\n");
    }
    o.w("\n");
    fns.push(json!({
        "id": id, "module": module, "name": sig.ident.to_string(), "start": start, "body": body_start, "end": o.line,
        "contract": has, "external": c.external || (inlined && !has), "inlined": inlined && !has, "loops": loops, "helper": c.helper,
    }));
}

fn lits(t: proc_macro2::TokenStream, out: &mut std::collections::BTreeSet<String>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Group(g) => lits(g.stream(), out),
            proc_macro2::TokenTree::Literal(l) => {
                if let Ok(s) = syn::parse_str::<syn::LitStr>(&l.to_string()) {
                    out.insert(s.value());
                }
            }
            _ => {}
        }
    }
}
