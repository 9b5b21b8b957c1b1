//! Assembles the Verus file of a unit.
use crate::rw::{self, *};
use crate::unit::{self, FnSpec, Item};
use quote::{quote, ToTokens, format_ident};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::fold::Fold;
use syn::spanned::Spanned;

struct FnSrc { sig: syn::Signature, block: syn::Block, self_ty: Option<syn::Type>, generics: syn::Generics, line: (usize, usize), vis_test: bool }

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| { let s = a.meta.to_token_stream().to_string(); s.contains("cfg") && s.contains("test") })
}
/// Items behind a verification guard never take part.
fn is_guarded(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| { let s = a.meta.to_token_stream().to_string(); a.path().is_ident("cfg") && (s.contains("kani") || s.contains("seiren_verif")) })
}

pub fn run(unit_path: &str, src: &str) -> Result<(String, String), String> {
    let u = unit::parse(unit_path)?;
    let mut ctx = Ctx::default();
    let mut fns: HashMap<(String, String), FnSrc> = HashMap::new();
    let mut structs: HashMap<(String, String), syn::Item> = HashMap::new();
    let mut types: HashMap<(String, String), syn::ItemType> = HashMap::new();
    let mut all_fn_names: HashSet<String> = HashSet::new();
    let mut dup: HashSet<(String, String)> = HashSet::new();
    let mut entries: Vec<_> = std::fs::read_dir(src).map_err(|e| e.to_string())?.flatten().map(|d| d.path()).collect();
    entries.sort();
    for p in entries {
        if p.extension().map_or(true, |e| e != "rs") { continue; }
        let m = p.file_stem().unwrap().to_string_lossy().to_string();
        let text = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
        let f = match syn::parse_file(&text) { Ok(f) => f, Err(e) => return Err(format!("{}: {}", p.display(), e)) };
        for it in f.items {
            match it {
                syn::Item::Struct(s) => { if !is_test(&s.attrs) { ctx.structs.insert(s.ident.to_string(), s.clone()); structs.insert((m.clone(), s.ident.to_string()), syn::Item::Struct(s)); } }
                syn::Item::Enum(e) => { structs.insert((m.clone(), e.ident.to_string()), syn::Item::Enum(e)); }
                syn::Item::Type(t) => { types.insert((m.clone(), t.ident.to_string()), t); }
                syn::Item::Const(c) => { ctx.consts.insert(c.ident.to_string(), (*c.expr).clone()); }
                syn::Item::Fn(f) => {
                    if is_test(&f.attrs) || is_guarded(&f.attrs) { continue; }
                    all_fn_names.insert(f.sig.ident.to_string());
                    let l = (f.span().start().line, f.span().end().line);
                    fns.insert((m.clone(), f.sig.ident.to_string()), FnSrc { sig: f.sig, block: *f.block, self_ty: None, generics: Default::default(), line: l, vis_test: false });
                }
                syn::Item::Impl(im) => {
                    if is_test(&im.attrs) || is_guarded(&im.attrs) { continue; }
                    let t = match &*im.self_ty { syn::Type::Path(p) => last_seg(&p.path), _ => continue };
                    let tr = im.trait_.as_ref().map(|x| last_seg(&x.1));
                    for ii in im.items {
                        match ii {
                            syn::ImplItem::Const(c) => { ctx.consts.insert(format!("{}::{}", t, c.ident), c.expr.clone()); }
                            syn::ImplItem::Fn(f) => {
                                if is_test(&f.attrs) || is_guarded(&f.attrs) { continue; }
                                all_fn_names.insert(f.sig.ident.to_string());
                                let l = (f.span().start().line, f.span().end().line);
                                let mut name = format!("{}::{}", t, f.sig.ident);
                                if matches!(tr.as_deref(), Some("Display" | "Debug" | "Default")) { name = format!("{}::{}::{}", t, tr.clone().unwrap(), f.sig.ident); }
                                let key = (m.clone(), name);
                                if fns.contains_key(&key) { dup.insert(key.clone()); }
                                fns.insert(key, FnSrc { sig: f.sig, block: f.block, self_ty: Some((*im.self_ty).clone()), generics: im.generics.clone(), line: l, vis_test: false });
                            }
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
    }
    // derive_more::Display, spelled out
    for ((m, n), it) in &structs {
        let key = (m.clone(), format!("{}::Display::fmt", n));
        if fns.contains_key(&key) { continue; }
        if let Some(x) = derived_display(n, it) {
            let l = (it.span().start().line, it.span().end().line);
            let t: syn::Type = syn::parse_str(n).unwrap();
            fns.insert(key, FnSrc { sig: x.sig, block: x.block, self_ty: Some(t), generics: Default::default(), line: l, vis_test: false });
        }
    }
    let mut out = String::from("#![verifier::loop_isolation(false)]\n#![allow(unused_imports, unused_variables, unused_mut, unused_parens, dead_code, unused_braces, non_snake_case)]\nuse vstd::prelude::*;\nverus! {\n");
    let mut report = String::new();
    let mut errors: Vec<String> = vec![];
    let mut covered: HashSet<String> = HashSet::new();
    for it in &u.items {
        match it {
            Item::Fn(f) => { covered.insert(f.name.rsplit("::").next().unwrap().to_string()); }
            Item::Verbatim(t) => {
                let w: Vec<&str> = t.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| !x.is_empty()).collect();
                for p in w.windows(2) { if p[0] == "fn" { covered.insert(p[1].to_string()); } }
            }
            _ => {}
        }
    }
    let mut lits: BTreeMap<String, bool> = BTreeMap::new();
    let mut callees: BTreeMap<String, HashSet<String>> = BTreeMap::new();
    let mut rules: BTreeMap<String, usize> = BTreeMap::new();
    let lines = |s: &str| s.matches('\n').count() + 1;
    for it in &u.items {
        match it {
            Item::Verbatim(t) => { out.push_str(t); }
            Item::Type { file, name } => {
                let Some(t) = types.get(&(file.clone(), name.clone())) else { errors.push(format!("lost type {}::{}", file, name)); continue };
                let x = rw::ty((*t.ty).clone(), &mut rules);
                let id = format_ident!("{}", name);
                let mut s = String::new();
                rw::print(quote! { pub type #id = #x; }, &[], &mut s);
                out.push_str(&s);
            }
            // a constant of the repository as specification value: floats in halves, points by coordinate
            Item::Const { name, spec } => {
                let Some(e) = ctx.consts.get(name) else { errors.push(format!("lost constant {}", name)); continue };
                let mut v: Vec<(String, syn::Expr)> = vec![];
                match e {
                    syn::Expr::Call(c) if c.args.len() == 2 => { v.push((format!("{}_X", spec), c.args[0].clone())); v.push((format!("{}_Y", spec), c.args[1].clone())); }
                    e => v.push((spec.clone(), e.clone())),
                }
                for (n, e) in v {
                    match const_value(&ctx, name, &e) {
                        Some(x) => out.push_str(&format!("pub open spec fn {}() -> int {{ {} }}\n", n, x)),
                        None => errors.push(format!("constant {} is not a literal", name)),
                    }
                }
            }
            Item::Struct { file, name, clone, opts } => {
                let Some(s) = structs.get(&(file.clone(), name.clone())) else { errors.push(format!("lost type {}::{}", file, name)); continue };
                let (attrs, mut item) = match s { syn::Item::Struct(s) => (s.attrs.clone(), syn::Item::Struct(s.clone())), syn::Item::Enum(e) => (e.attrs.clone(), syn::Item::Enum(e.clone())), _ => unreachable!() };
                let d = derives(&attrs);
                for o in opts { if let Some(need) = o.strip_prefix("derives=") { if !d.iter().any(|x| x == need) { errors.push(format!("{} no longer derives {}", name, need)); } } }
                let mut keep: Vec<syn::Ident> = vec![];
                if d.iter().any(|x| x == "Copy") { keep.push(format_ident!("Clone")); keep.push(format_ident!("Copy")); }
                if d.iter().any(|x| x == "Eq") && d.iter().any(|x| x == "PartialEq") && !opts.iter().any(|o| o == "noeq") {
                    keep.push(format_ident!("PartialEq")); keep.push(format_ident!("Eq")); keep.push(format_ident!("Structural"));
                }
                let pubv: syn::Visibility = syn::parse_quote!(pub);
                match &mut item {
                    syn::Item::Struct(s) => {
                        s.attrs.clear(); s.vis = pubv.clone();
                        for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = pubv.clone(); f.ty = rw::ty(f.ty.clone(), &mut rules); }
                    }
                    syn::Item::Enum(e) => {
                        e.attrs.clear(); e.vis = pubv.clone();
                        for v in e.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); f.ty = rw::ty(f.ty.clone(), &mut rules); } }
                    }
                    _ => {}
                }
                let mut t = String::new();
                let mut safe_lemmas = String::new();
                if !keep.is_empty() { t += &format!("#[derive({})]\n", keep.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(", ")); }
                rw::print(item.to_token_stream(), &[], &mut t);
                t.push('\n');
                if *clone && d.iter().any(|x| x == "Clone") && !d.iter().any(|x| x == "Copy") {
                    t += &format!("impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n", n = name);
                }
                // derive_more::Display writes no markup of its own (its arguments are numbers, or items checked likewise)
                if opts.iter().any(|o| o == "displaysafe") {
                    let mut all: Vec<syn::Attribute> = attrs.clone();
                    let mut tys: Vec<syn::Type> = vec![];
                    match s { syn::Item::Enum(e) => for v in &e.variants { all.extend(v.attrs.clone()); tys.extend(v.fields.iter().map(|f| f.ty.clone())); }, syn::Item::Struct(x) => tys.extend(x.fields.iter().map(|f| f.ty.clone())), _ => {} }
                    let mut n = 0;
                    for a in all.iter().filter(|a| a.path().is_ident("display")) {
                        let mut l: Option<String> = None;
                        let _ = a.parse_nested_meta(|m| { if m.path.is_ident("fmt") { let x: syn::LitStr = m.value()?.parse()?; l = Some(x.value()); } else if m.input.peek(syn::Token![,]) || m.input.is_empty() {} Ok(()) });
                        if l.is_none() { if let syn::Meta::List(m) = &a.meta { l = m.tokens.clone().into_iter().find_map(|t| match t { proc_macro2::TokenTree::Literal(x) => syn::parse_str::<syn::LitStr>(&x.to_string()).ok().map(|s| s.value()), _ => None }); } }
                        match l { Some(x) if !x.contains(|c| "<&\"\'".contains(c)) => n += 1, _ => errors.push(format!("{}: Display is not plain", name)) }
                    }
                    for t in &tys { let x = t.to_token_stream().to_string(); if !["u8", "RGBColor", "NamedColor"].contains(&x.as_str()) { errors.push(format!("{}: Display of a {}", name, x)); } }
                    if n == 0 || !d.iter().any(|x| x == "Display") { errors.push(format!("{}: Display is not derived", name)); }
                }
                // derive_more::Display on unit variants
                if opts.iter().any(|o| o == "display") {
                    let syn::Item::Enum(e) = s else { errors.push(format!("{} is not an enum", name)); continue };
                    let mut arms = String::new();
                    for v in &e.variants {
                        let lit = v.attrs.iter().find(|a| a.path().is_ident("display")).and_then(|a| {
                            let mut l = None;
                            let _ = a.parse_nested_meta(|m| { if m.path.is_ident("fmt") { let x: syn::LitStr = m.value()?.parse()?; l = Some(x); } Ok(()) });
                            l
                        });
                        let text = lit.map(|l| l.value()).unwrap_or(v.ident.to_string());
                        if !v.fields.is_empty() || text.contains('{') { errors.push(format!("{}: Display is not a list of literals", name)); break; }
                        arms += &format!("            {}::{} => {:?},\n", name, v.ident, text);
                    }
                    t += &format!("impl {n} {{\n    pub open spec fn vx_display(self) -> Seq<char> {{ match self {{\n{a} }} }}\n", n = name, a = arms.replace("\",", "\"@,"));
                    if opts.iter().any(|o| o == "safe") {
                        let rev: String = e.variants.iter().map(|v| { let l = arms.lines().find(|a| a.contains(&format!("{}::{} ", name, v.ident))).and_then(|a| a.split_once("=> ")).map(|x| x.1.trim_end_matches(',').to_string()).unwrap_or_default(); format!("reveal_strlit({}); ", l) }).collect();
                        safe_lemmas += &format!("pub proof fn vx_safe_{n}(x: {n}) ensures safe_text(x.vx_display()) {{ {r} }}\n", n = name, r = rev);
                    }
                    t += &format!("    pub fn vx_to_string(&self) -> (r: String) ensures r@ == self.vx_display() {{ let vx_d: &str = match self {{\n{a} }}; vx_d.vx_conv() }}\n}}\n", a = arms);
                }
                out.push_str(&t);
                out.push_str(&safe_lemmas);
            }
            Item::Fn(spec) => {
                let key = (spec.file.clone(), spec.name.clone());
                let Some(f) = fns.get(&key) else { errors.push(format!("lost function {}::{}", key.0, key.1)); continue };
                if dup.contains(&key) { errors.push(format!("{}::{} is defined twice", key.0, key.1)); }
                let start_line = lines(&out);
                let r = emit_fn(&ctx, spec, f, &mut errors, &mut rules, &mut out);
                let end_line = lines(&out);
                if let Some((skel, calls)) = r {
                    lits.extend(calls.1); let calls = calls.0;
                    report += &format!("fn\t{}\t{}\t{}\t{}\t{}-{}\t{}-{}\t{}\n", spec.name, spec.file, if spec.import && spec.mode != "stub" { "import" } else if spec.mode.is_empty() { "verified" } else { &spec.mode },
                        spec.props.join(","), f.line.0, f.line.1, start_line, end_line, skel.iter().map(|d| d.to_string()).collect::<Vec<_>>().join("."));
                    callees.insert(spec.name.clone(), calls);
                }
            }
        }
    }
    if let Some(keys) = &u.literals { literals(keys, &lits, &mut out); }
    out.push_str("\nfn main() {}\n}\n");
    // calls of repository functions that the unit does not know
    for (f, cs) in &callees {
        let mut v: Vec<_> = cs.iter().filter(|c| all_fn_names.contains(*c) && !covered.contains(*c) && !COMMON.contains(&c.as_str())).collect();
        v.sort();
        for c in v { report += &format!("unknown\t{}\t{}\n", f, c); }
    }
    for (r, n) in &rules { report += &format!("rule\t{}\t{}\n", r, n); }
    for e in &errors { report += &format!("error\t{}\n", e); }
    for (f, import) in &u.files { report += &format!("{}\t{}\n", if *import { "import" } else { "include" }, f); }
    report += &format!("unit\t{}\n", u.name);
    Ok((out, report))
}
fn const_value(ctx: &Ctx, name: &str, e: &syn::Expr) -> Option<i64> {
    match e {
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Float(f), .. }) => { let h = f.base10_parse::<f64>().ok()? * 2.0; if h.fract() == 0.0 { Some(h as i64) } else { None } }
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) => i.base10_parse().ok(),
        syn::Expr::Paren(p) => const_value(ctx, name, &p.expr),
        syn::Expr::Unary(syn::ExprUnary { op: syn::UnOp::Neg(_), expr, .. }) => Some(-const_value(ctx, name, expr)?),
        // operands in halves: a / 2.0 has the halves of a divided by 2
        syn::Expr::Binary(b) => {
            let (x, y) = (const_value(ctx, name, &b.left)?, const_value(ctx, name, &b.right)?);
            match b.op {
                syn::BinOp::Add(_) => Some(x + y), syn::BinOp::Sub(_) => Some(x - y),
                syn::BinOp::Div(_) if y != 0 && (2 * x) % y == 0 => Some(2 * x / y),
                syn::BinOp::Mul(_) if (x * y) % 2 == 0 => Some(x * y / 2),
                _ => None,
            }
        }
        syn::Expr::Path(p) => {
            let s = last_seg(&p.path);
            let t = name.split("::").next()?;
            let k = if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" { format!("{}::{}", t, s) } else { p.path.segments.iter().map(|x| x.ident.to_string()).collect::<Vec<_>>().join("::") };
            let e = ctx.consts.get(&k)?;
            const_value(ctx, &k, e)
        }
        _ => None,
    }
}
/// Names that std types share with functions of the repository.
const COMMON: &[&str] = &["new", "default", "len", "get", "fmt", "name", "to_string", "max", "min", "build", "from", "into"];

/// String literals of the rewritten text; true: the name of an attribute.
struct Lits(BTreeMap<String, bool>);
impl<'ast> syn::visit::Visit<'ast> for Lits {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        if (m.method == "set" || m.method == "assign") && m.args.len() == 2 {
            if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &m.args[0] { self.0.insert(s.value(), true); }
        }
    }
    fn visit_lit_str(&mut self, s: &'ast syn::LitStr) { self.0.entry(s.value()).or_insert(false); }
}
/// Verified facts about the literals: attribute names are pairwise distinct, values have no markup.
fn literals(keys: &[String], lits: &BTreeMap<String, bool>, out: &mut String) {
    let mut names: Vec<String> = keys.to_vec();
    for (l, k) in lits { if *k && !names.contains(l) { names.push(l.clone()); } }
    let safe: Vec<&String> = lits.keys().filter(|l| !l.contains(|c| "<&\"\'".contains(c))).collect();
    out.push_str("pub open spec fn lit_no(s: Seq<char>) -> int {\n");
    for (i, n) in names.iter().enumerate() { out.push_str(&format!("    if s == {:?}@ {{ {} }} else\n", n, i)); }
    out.push_str("    { -1 }\n}\n");
    for (i, n) in names.iter().enumerate() {
        let c: Vec<char> = n.chars().collect();
        let mut p = format!("reveal_strlit({n:?}); assert({n:?}@.len() == {}); ", c.len());
        for m in &names[..i] {
            let d: Vec<char> = m.chars().collect();
            p += &format!("reveal_strlit({m:?}); assert({m:?}@.len() == {}); ", d.len());
            if d.len() == c.len() { p += &format!("assert({m:?}@[{k}] != {n:?}@[{k}]); ", k = (0..c.len()).find(|k| c[*k] != d[*k]).unwrap()); }
        }
        out.push_str(&format!("proof fn vx_lit_no_{}() ensures lit_no({:?}@) == {} {{ {}}}\n", i, n, i, p));
    }
    for (i, n) in safe.iter().enumerate() { out.push_str(&format!("proof fn vx_lit_safe_{}() ensures safe_text({:?}@) {{ reveal_strlit({:?}); }}\n", i, n, n)); }
    out.push_str("pub proof fn vx_lits() ensures ");
    for (i, n) in names.iter().enumerate() { out.push_str(&format!("lit_no({:?}@) == {}, ", n, i)); }
    for n in safe.iter() { out.push_str(&format!("safe_text({:?}@), ", n)); }
    out.push_str("{ ");
    for i in 0..names.len() { out.push_str(&format!("vx_lit_no_{}(); ", i)); }
    for i in 0..safe.len() { out.push_str(&format!("vx_lit_safe_{}(); ", i)); }
    out.push_str("}\n");
}
struct Calls(HashSet<String>);
impl<'ast> syn::visit::Visit<'ast> for Calls {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) { syn::visit::visit_expr_method_call(self, m); self.0.insert(m.method.to_string()); }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if let syn::Expr::Path(p) = &*c.func { self.0.insert(last_seg(&p.path)); }
    }
}

/// E of a text `proof { assert(E) .. }` that begins a slice.
fn asserted(t: &str) -> Option<String> {
    let t = t.trim();
    let s = t.strip_prefix("proof { assert(")?;
    let mut d = 1;
    for (i, c) in s.char_indices() {
        match c { '(' => d += 1, ')' => { d -= 1; if d == 0 { return if t.contains('\n') { None } else { Some(s[..i].to_string()) }; } } _ => {} }
    }
    None
}

/// What `#[derive(Display)]` of derive_more writes for a type: the format given by its attributes, or by default its only field, or the name of the variant.
fn derived_display(n: &str, it: &syn::Item) -> Option<syn::ImplItemFn> {
    let given = |attrs: &[syn::Attribute]| -> Option<Option<(String, Vec<syn::Expr>)>> {
        let Some(a) = attrs.iter().find(|a| a.path().is_ident("display")) else { return Some(None) };
        let v: syn::punctuated::Punctuated<syn::Expr, syn::Token![,]> = a.parse_args_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
        let mut v = v.into_iter();
        let syn::Expr::Assign(x) = v.next()? else { return None };
        if x.left.to_token_stream().to_string() != "fmt" { return None; }
        let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. }) = *x.right else { return None };
        Some(Some((f.value(), v.collect())))
    };
    let binders = |f: &syn::Fields| -> Vec<String> { f.iter().enumerate().map(|(k, x)| x.ident.as_ref().map_or(format!("_{}", k), |i| i.to_string())).collect() };
    let pattern = |f: &syn::Fields| -> String { let b = binders(f).join(", "); match f { syn::Fields::Named(_) => format!("{{ {} }}", b), syn::Fields::Unnamed(_) => format!("({})", b), syn::Fields::Unit => String::new() } };
    let call = |g: Option<(String, Vec<syn::Expr>)>, f: &syn::Fields, name: &str| -> Option<String> {
        let b = binders(f);
        let (l, a) = match g { Some(x) => x, None if b.is_empty() => (name.to_string(), vec![]), None if b.len() == 1 => ("{}".to_string(), vec![syn::parse_str(&b[0]).ok()?]), None => return None };
        let a: String = a.iter().map(|e| format!(", {}", e.to_token_stream())).collect();
        Some(format!("write!(f, {:?}{})", l, a))
    };
    let body = match it {
        syn::Item::Enum(e) if derives(&e.attrs).iter().any(|d| d == "Display") && given(&e.attrs)?.is_none() => {
            let mut arms = String::new();
            for v in &e.variants { arms += &format!("{}::{} {} => {}, ", n, v.ident, pattern(&v.fields), call(given(&v.attrs)?, &v.fields, &v.ident.to_string())?); }
            format!("match self {{ {} }}", arms)
        }
        syn::Item::Struct(s) if derives(&s.attrs).iter().any(|d| d == "Display") => format!("match self {{ {} {} => {} }}", n, pattern(&s.fields), call(given(&s.attrs)?, &s.fields, n)?),
        _ => return None,
    };
    syn::parse_str(&format!("fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {{ {} }}", body)).ok()
}
fn emit_fn(ctx: &Ctx, spec: &FnSpec, f: &FnSrc, errors: &mut Vec<String>, rules: &mut BTreeMap<String, usize>, out: &mut String) -> Option<(Vec<usize>, (HashSet<String>, BTreeMap<String, bool>))> {
    let mut calls = Calls(Default::default());
    syn::visit::Visit::visit_block(&mut calls, &f.block);
    let self_name = f.self_ty.as_ref().map(|t| match t { syn::Type::Path(p) => last_seg(&p.path), _ => String::new() });
    let mut texts: Vec<String> = vec![];
    let mut ref_params = HashSet::new();
    for a in &f.sig.inputs {
        if let syn::FnArg::Typed(t) = a {
            if let (syn::Pat::Ident(i), syn::Type::Reference(r)) = (&*t.pat, &*t.ty) {
                let is = match &*r.elem { syn::Type::Slice(_) => true, syn::Type::Path(p) => last_seg(&p.path) == "Vec", _ => false };
                if is { ref_params.insert(i.ident.to_string()); }
            }
        }
    }
    let mut r = Rw { ctx, spec, self_ty: self_name.clone(), texts: &mut texts, n_loops: 0, n_closures: 0, depth: 0, skeleton: vec![], calls: Default::default(),
        used_anchors: Default::default(), ref_params, comb: rw::is_parser_sig(&f.sig), closure_depth: 0, front: spec.front, emitters: vec![], formatter: f.sig.inputs.iter().find_map(|a| match a { syn::FnArg::Typed(t) => match (&*t.pat, &*t.ty) { (syn::Pat::Ident(i), syn::Type::Reference(r)) if matches!(&*r.elem, syn::Type::Path(p) if last_seg(&p.path) == "Formatter") => Some(i.ident.to_string()), _ => None }, _ => None }), rules: Default::default(), errors: vec![], locals_lit: Default::default(),
        fallible: matches!(&f.sig.output, syn::ReturnType::Type(_, t) if matches!(&**t, syn::Type::Path(p) if last_seg(&p.path) == "Result")) };

    // signature
    let mut inputs: Vec<String> = vec![];
    let mut n_anon: usize = 0;
    for a in &f.sig.inputs {
        let t = match a {
            syn::FnArg::Receiver(x) => x.to_token_stream(),
            syn::FnArg::Typed(t) => {
                let ty = rw::ty((*t.ty).clone(), &mut r.rules);
                let pat = match &*t.pat { syn::Pat::Wild(_) => { n_anon += 1; let i = format_ident!("vx_p{}", n_anon); i.to_token_stream() } p => p.to_token_stream() };
                quote! { #pat: #ty }
            }
        };
        let mut s = String::new();
        rw::print(t, &[], &mut s);
        inputs.push(s);
    }
    let mut ret = String::new();
    let mut mut_item: Option<syn::Type> = None;
    if let syn::ReturnType::Type(_, t) = &f.sig.output {
        if spec.mode == "mutiter" {
            let t2 = rw::ty((**t).clone(), &mut r.rules);
            if let syn::Type::Path(p) = &t2 { if let syn::PathArguments::AngleBracketed(a) = &p.path.segments[0].arguments { if let Some(syn::GenericArgument::Type(syn::Type::Reference(x))) = a.args.first() { mut_item = Some((*x.elem).clone()); } } }
        }
        let t = rw::ty((**t).clone(), &mut r.rules);
        let mut s = String::new();
        rw::print(t.to_token_stream(), &[], &mut s);
        ret = format!(" -> ({}: {})", spec.ret, s.trim());
    }
    let mut gen = String::new();
    let mut g = f.sig.generics.clone();
    for p in g.params.iter_mut() { if let syn::GenericParam::Type(_) = p { r.errors.push("generic function".into()); } }
    rw::print(g.to_token_stream(), &[], &mut gen);
    let mut head = String::new();
    if let Some(t) = &f.self_ty {
        let mut s = String::new();
        rw::print(t.to_token_stream(), &[], &mut s);
        let mut ig = String::new();
        rw::print(f.generics.to_token_stream(), &[], &mut ig);
        head = format!("impl{} {} {{\n", ig, s);
    }
    let tail = if f.self_ty.is_some() { "}\n" } else { "" };
    let mut name = f.sig.ident.to_string();
    if name == "main" { name = "vx_main".into(); }
    if spec.front { inputs.push("Tracked(vx_w): Tracked<&mut World>".into()); }

    if spec.mode == "mutiter" {
        // fn x_mut(&mut self) -> impl Iterator<Item = &mut T> { self.a.y_mut() } -> length and element accessors
        let Some(item) = mut_item else { errors.push(format!("{}: not an iterator of mutable references", spec.name)); return None };
        let ok = match f.block.stmts.as_slice() { [syn::Stmt::Expr(syn::Expr::MethodCall(m), None)] if m.args.is_empty() => Some(m.clone()), _ => None };
        let Some(m) = ok else { errors.push(format!("{}: not a single delegation", spec.name)); return None };
        let recv = r.fold_expr((*m.receiver).clone());
        let (len, at) = (format_ident!("{}__len", m.method), format_ident!("{}__at", m.method));
        let mut it = String::new(); rw::print(item.to_token_stream(), &[], &mut it);
        let mut rc = String::new(); rw::print(recv.to_token_stream(), &[], &mut rc);
        let (s1, s2) = spec.spec.split_once("=====").unwrap_or(("", ""));
        let ext = if spec.import { "#[verifier::external_body]\n" } else { "" };
        out.push_str(&format!("{head}{ext}pub fn {name}__len(&self) -> (r: usize)\n{s1}{{ {rc}.{len}() }}\n{ext}pub fn {name}__at(&mut self, vx_k: usize) -> (r: &mut {it})\n{s2}{{ {rc}.{at}(vx_k) }}\n{tail}"));
        for (k, n) in r.rules.iter() { *rules.entry(k.clone()).or_insert(0) += n; }
        *rules.entry("iterator of &mut -> length and element accessors".into()).or_insert(0) += 1;
        return Some((vec![], (calls.0, BTreeMap::new())));
    }
    if spec.mode == "stub" || spec.import {
        out.push_str(&format!("{head}#[verifier::external_body]\npub fn {name}{gen}({}){ret}\n{}{{ unimplemented!() }}\n{tail}", inputs.join(", "), spec.spec));
        return Some((vec![], (HashSet::new(), BTreeMap::new())));
    }
    let mut block = r.fold_block(f.block.clone());
    // anchors that were not found
    for k in spec.loops.keys() { if !r.used_anchors.contains(&format!("loop {}", k)) { r.errors.push(format!("anchor loop {} lost", k)); } }
    for k in spec.closures.keys() { if !r.used_anchors.contains(&format!("closure {}", k)) { r.errors.push(format!("anchor closure {} lost", k)); } }
    for n in spec.lets.keys() { if !r.used_anchors.contains(&format!("let {}", n)) { r.errors.push(format!("anchor let {} lost", n)); } }
    for (n, k) in spec.before.keys() { if !r.used_anchors.contains(&format!("before {} {}", n, k)) { r.errors.push(format!("anchor before {} {} lost", n, k)); } }
    for (n, k) in spec.after.keys() { if !r.used_anchors.contains(&format!("after {} {}", n, k)) { r.errors.push(format!("anchor after {} {} lost", n, k)); } }
    let n_loops = r.n_loops;
    if spec.loops.is_empty() == false && *spec.loops.keys().max().unwrap() != n_loops {
        // every loop of the function is annotated, or none beyond the last annotated one exists
        if n_loops > *spec.loops.keys().max().unwrap() { r.errors.push(format!("{} loops, {} annotated", n_loops, spec.loops.keys().max().unwrap())); }
    } else if spec.loops.is_empty() && n_loops > 0 { r.errors.push(format!("{} loops, none annotated", n_loops)); }
    let errs = std::mem::take(&mut r.errors);
    let rl = std::mem::take(&mut r.rules);
    let skel = std::mem::take(&mut r.skeleton);
    drop(r);
    for e in errs { errors.push(format!("{}: {}", spec.name, e)); }
    for (k, n) in rl { *rules.entry(k).or_insert(0) += n; }
    // start / end
    let mut pre: Vec<syn::Stmt> = vec![];
    let mut add = |s: &str, v: &mut Vec<syn::Stmt>, texts: &mut Vec<String>| {
        if s.trim().is_empty() { return; }
        texts.push(s.to_string());
        let l = proc_macro2::Literal::usize_unsuffixed(texts.len() - 1);
        v.push(syn::parse_quote! { VXP!(#l); });
    };
    add(&spec.start, &mut pre, &mut texts);
    let mut stmts = pre;
    stmts.extend(block.stmts.clone());
    if !spec.end.trim().is_empty() {
        let mut tailx: Option<syn::Expr> = None;
        if let Some(syn::Stmt::Expr(e, None)) = stmts.last() { if !ret.is_empty() { tailx = Some(e.clone()); } }
        if let Some(e) = tailx {
            stmts.pop();
            let e = match e { syn::Expr::Return(r) => r.expr.map(|b| *b).unwrap_or(syn::parse_quote!(())), e => e };
            stmts.push(syn::parse_quote! { let vx_ret = #e; });
            add(&spec.end, &mut stmts, &mut texts);
            stmts.push(syn::Stmt::Expr(syn::parse_quote! { vx_ret }, None));
        } else {
            if let Some(syn::Stmt::Expr(e, None)) = stmts.last().cloned() { let n = stmts.len(); stmts[n - 1] = syn::Stmt::Expr(e, Some(Default::default())); }
            add(&spec.end, &mut stmts, &mut texts);
        }
    }
    block.stmts = stmts;
    let mut body = String::new();
    let bs = &block.stmts;
    let cuts: Vec<(usize, String)> = if spec.sliced { texts.iter().enumerate().filter(|(_, t)| spec.lets.values().any(|x| x.trim() == t.trim())).filter_map(|(k, t)| asserted(t).map(|e| (k, e))).collect() } else { vec![] };
    let with = |only: Option<usize>| -> Vec<String> {
        texts.iter().enumerate().map(|(k, t)| match cuts.iter().find(|(c, _)| *c == k) {
            Some((_, e)) if only != Some(k) => format!("proof {{ assume({}); /* slice: checked in another copy */ }}\nif false {{\n{}\n}}", e, t.trim()),
            Some(_) => format!("{}\nproof {{ assume(false); /* slice: checked in another copy */ }}", t.trim_end()),
            None => t.clone(),
        }).collect()
    };
    rw::print(quote! { { #(#bs)* } }, &with(None), &mut body);
    out.push_str(&format!("{head}{}pub fn {name}{gen}({}){ret}\n{}{}\n{tail}", spec.attrs, inputs.join(", "), spec.spec, body));
    for (n, (k, _)) in cuts.iter().enumerate() {
        let mut body = String::new();
        rw::print(quote! { { #(#bs)* } }, &with(Some(*k)), &mut body);
        out.push_str(&format!("{head}{}pub fn {name}__s{n}{gen}({}){ret}\n{}\n{tail}", spec.attrs, inputs.join(", "), body));
    }
    if spec.sliced && spec.spec.contains("requires") { errors.push(format!("{}: sliced, with a precondition", spec.name)); }
    let mut ls = Lits(BTreeMap::new());
    syn::visit::Visit::visit_block(&mut ls, &block);
    Some((skel, (calls.0, ls.0)))
}
