//! Rewriting rules: executable Rust of /repo/src -> the dialect Verus accepts.
use crate::unit::FnSpec;
use proc_macro2::{TokenStream, TokenTree, Delimiter};
use quote::{quote, ToTokens, format_ident};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::fold::{self, Fold};
use syn::*;

pub const ITER_SRC: &[&str] = &["iter", "into_iter", "chars", "children", "terminal_ports", "node_indices", "node_weights",
    "edge_indices", "edge_weights", "nodes", "node_ids", "edges", "edge_ids", "entries", "fields"];
pub const ITER_ADAPT: &[&str] = &["copied", "cloned", "enumerate", "map", "filter_map", "filter", "flat_map", "chain"];
pub const ITER_MUT: &[&str] = &["edges_mut", "edge_weights_mut", "iter_mut"];

/// What the rules need to know about the whole crate.
#[derive(Default)]
pub struct Ctx {
    pub consts: HashMap<String, Expr>,            // "Type::NAME"
    pub structs: HashMap<String, ItemStruct>,     // by name
}

pub struct Rw<'a> {
    pub ctx: &'a Ctx,
    pub spec: &'a FnSpec,
    pub self_ty: Option<String>,
    pub texts: &'a mut Vec<String>,
    pub n_loops: usize,
    pub n_closures: usize,
    pub depth: usize,
    pub skeleton: Vec<usize>,
    pub calls: BTreeMap<String, usize>,
    pub used_anchors: HashSet<String>,
    pub ref_params: HashSet<String>,     // parameters of type &[T] or &Vec<T>
    pub rules: BTreeMap<String, usize>,
    pub errors: Vec<String>,
    pub locals_lit: HashSet<String>,
    pub fallible: bool,                  // the function returns a Result
    pub comb: bool,                      // the function builds a parser out of combinators
    pub closure_depth: usize,
    pub front: bool,                     // a front end: effects are threaded through a ghost argument, Option methods are kept
    pub formatter: Option<String>,       // the formatter a Display function writes to
    pub emitters: Vec<String>,           // parameters of `validate` closures that report errors
}

pub fn is_parser_sig(s: &Signature) -> bool {
    matches!(&s.output, ReturnType::Type(_, t) if matches!(&**t, Type::ImplTrait(i) if i.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(t) if last_seg(&t.path) == "Parser"))))
}

/// May this statement leave its block early?
fn leaves(s: &Stmt) -> bool {
    struct L(bool);
    impl<'a> syn::visit::Visit<'a> for L {
        fn visit_expr(&mut self, e: &'a Expr) { if matches!(e, Expr::Return(_) | Expr::Try(_) | Expr::Break(_) | Expr::Continue(_)) { self.0 = true; } syn::visit::visit_expr(self, e); }
    }
    let mut l = L(false);
    syn::visit::Visit::visit_stmt(&mut l, s);
    l.0
}
/// Methods that read or change the outside of the program.
const EFFECTS: &[&str] = &["eprint", "lock", "read_to_string"];
/// Functions that give access to it.
fn outside(f: &Expr) -> Option<&'static str> {
    Some(match f.to_token_stream().to_string().replace(' ', "").as_str() {
        "std::env::args" | "env::args" => "vx_args",
        "fs::read_to_string" | "std::fs::read_to_string" => "vx_read_file",
        "io::stdin" | "std::io::stdin" => "vx_stdin",
        "io::stdout" | "std::io::stdout" => "vx_stdout",
        "String::from_utf8" => "vx_string_from_utf8",
        _ => return None,
    })
}
pub fn last_seg(p: &Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }

/// The iterator a loop runs over: a statement binding the indexed sequence, and the element.
struct Src { bind: Expr, elem: Box<dyn Fn(&Ident, &Ident) -> Expr>, range: bool, mutiter: Option<(Expr, Ident)> }

impl<'a> Rw<'a> {
    fn rule(&mut self, r: &str) { *self.rules.entry(r.to_string()).or_insert(0) += 1; }
    fn text(&mut self, s: String) -> usize { self.texts.push(s); self.texts.len() - 1 }
    fn marker(&mut self, s: &str) -> Vec<Stmt> {
        if s.trim().is_empty() { return vec![]; }
        let k = self.text(s.to_string());
        let l = proc_macro2::Literal::usize_unsuffixed(k);
        vec![parse_quote! { VXP!(#l); }]
    }
    fn head(&mut self, s: String) -> Stmt {
        let k = self.text(s);
        let l = proc_macro2::Literal::usize_unsuffixed(k);
        parse_quote! { VXH!(#l); }
    }
    pub fn is_iter(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "edges" || n == "fields" || n == "nodes" { return true; }
                if self.front && n == "expected" { return m.args.is_empty(); }
                if ITER_SRC.contains(&n.as_str()) { return m.args.is_empty(); }
                if ITER_ADAPT.contains(&n.as_str()) { return self.is_iter(&m.receiver); }
                false
            }
            Expr::Paren(p) => self.is_iter(&p.expr),
            _ => false,
        }
    }
    fn next_loop(&mut self) -> usize {
        self.n_loops += 1;
        self.skeleton.push(self.depth);
        self.n_loops
    }
    fn lspec(&mut self, k: usize) -> crate::unit::LoopSpec {
        self.used_anchors.insert(format!("loop {}", k));
        self.spec.loops.get(&k).cloned().unwrap_or_default()
    }
    /// Peel iterator adapters off a loop source. The source has not been folded yet.
    fn peel(&mut self, e: &Expr) -> Src {
        match e {
            Expr::Paren(p) => self.peel(&p.expr),
            Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                let s = self.fold_expr((**r.start.as_ref().unwrap()).clone());
                let t = self.fold_expr((**r.end.as_ref().unwrap()).clone());
                Src { bind: parse_quote!{ (#s, #t) }, elem: Box::new(|_, i| parse_quote!{ #i }), range: true, mutiter: None }
            }
            Expr::MethodCall(m) if ITER_MUT.contains(&m.method.to_string().as_str()) && m.args.is_empty() => {
                let r = self.fold_expr((*m.receiver).clone());
                Src { bind: parse_quote!{ () }, elem: Box::new(|_, i| parse_quote!{ #i }), range: false, mutiter: Some((r, m.method.clone())) }
            }
            Expr::MethodCall(m) if m.method == "enumerate" && self.is_iter(&m.receiver) => {
                self.rule("enumerate -> index");
                let s = self.peel(&m.receiver);
                let f = s.elem;
                Src { bind: s.bind, elem: Box::new(move |v, i| { let x = f(v, i); parse_quote!{ (#i, #x) } }), range: s.range, mutiter: s.mutiter }
            }
            Expr::MethodCall(m) if (m.method == "copied" || m.method == "cloned") && self.is_iter(&m.receiver) => {
                let s = self.peel(&m.receiver);
                let f = s.elem;
                Src { bind: s.bind, elem: Box::new(move |v, i| { let x = f(v, i); match x { Expr::Reference(r) => *r.expr, x => parse_quote!{ *(#x) } } }), range: s.range, mutiter: s.mutiter }
            }
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                let r = self.fold_expr((*m.receiver).clone());
                Src { bind: parse_quote!{ &#r }, elem: Box::new(|v, i| parse_quote!{ &#v[#i] }), range: false, mutiter: None }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                let x = self.fold_expr((*r.expr).clone());
                Src { bind: parse_quote!{ &#x }, elem: Box::new(|v, i| parse_quote!{ &#v[#i] }), range: false, mutiter: None }
            }
            Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.ref_params.contains(&i.to_string())) => {
                Src { bind: e.clone(), elem: Box::new(|v, i| parse_quote!{ &#v[#i] }), range: false, mutiter: None }
            }
            Expr::MethodCall(m) if self.front && m.method == "into_iter" && matches!(&*m.receiver, Expr::Path(p) if p.path.get_ident().is_some()) => self.peel(&m.receiver),
            Expr::Path(p) if (self.comb || self.front) && p.path.get_ident().is_some() => {
                self.rule("for x in vec -> elements are moved out one by one");
                Src { bind: e.clone(), elem: Box::new(|v, i| parse_quote!{ vx_move_out(&#v, #i) }), range: false, mutiter: None }
            }
            Expr::Array(_) => {
                let x = self.fold_expr(e.clone());
                Src { bind: parse_quote!{ vx_array(#x) }, elem: Box::new(|v, i| parse_quote!{ #v[#i] }), range: false, mutiter: None }
            }
            _ => {
                let x = self.fold_expr(e.clone());
                Src { bind: x, elem: Box::new(|v, i| parse_quote!{ #v[#i] }), range: false, mutiter: None }
            }
        }
    }
    fn stmts_unit(b: Block) -> Vec<Stmt> {
        let mut v = b.stmts;
        if let Some(Stmt::Expr(e, None)) = v.last() {
            let e = e.clone();
            let n = v.len();
            v[n - 1] = Stmt::Expr(e, Some(Default::default()));
        }
        v
    }
    /// Builds the index loop. `body(elem, idx)` returns the statements of one round; `cond` is an extra condition.
    fn index_loop(&mut self, k: usize, src: Src, label: Option<Label>, pre: Vec<Stmt>, cond: Option<Expr>, round: Vec<Stmt>, bind_pat: &dyn Fn(Expr) -> Vec<Stmt>, result: Option<Expr>) -> Expr {
        let ls = self.lspec(k);
        let s = format_ident!("vx_s{}", k);
        let i = format_ident!("vx_i{}", k);
        let mut out: Vec<Stmt> = vec![];
        let (decr, bound): (String, String);
        let test: Expr;
        let elem: Expr;
        let mut binds: Vec<Stmt> = vec![];
        if let Some((recv, meth)) = &src.mutiter {
            let len = format_ident!("{}__len", meth);
            let at = format_ident!("{}__at", meth);
            let n = format_ident!("vx_n{}", k);
            binds.push(parse_quote!{ let #n: usize = #recv.#len(); });
            binds.push(parse_quote!{ let mut #i: usize = 0; });
            test = parse_quote!{ #i < #n };
            bound = format!("vx_i{k} <= vx_n{k}"); decr = format!("vx_n{k} - vx_i{k}");
            elem = parse_quote!{ #recv.#at(#i) };
        } else if src.range {
            let Expr::Tuple(t) = &src.bind else { unreachable!() };
            let (a, b) = (&t.elems[0], &t.elems[1]);
            let n = format_ident!("vx_n{}", k);
            binds.push(parse_quote!{ let mut #i: usize = #a; });
            binds.push(parse_quote!{ let #n: usize = #b; });
            test = parse_quote!{ #i < #n };
            bound = String::new(); decr = format!("vx_n{k} - vx_i{k}");
            elem = (src.elem)(&s, &i);
        } else {
            let b = &src.bind;
            binds.push(parse_quote!{ let #s = #b; });
            binds.push(parse_quote!{ let mut #i: usize = 0; });
            test = parse_quote!{ #i < #s.len() };
            bound = format!("vx_i{k} <= vx_s{k}@.len()"); decr = format!("vx_s{k}@.len() - vx_i{k}");
            elem = (src.elem)(&s, &i);
        }
        out.extend(binds);
        out.extend(pre);
        out.extend(self.marker(&ls.before));
        let mut h = String::new();
        let inv = if bound.is_empty() { ls.head.clone() } else { format!("    {},\n{}", bound, ls.head) };
        if !inv.trim().is_empty() { h += &format!("\ninvariant\n{}", inv); }
        h += &format!("\ndecreases {}\n", decr);
        let hm = self.head(h);
        let mut body: Vec<Stmt> = vec![hm];
        body.extend(bind_pat(elem));
        body.push(parse_quote!{ #i = #i + 1; });
        body.extend(self.marker(&ls.start));
        body.extend(round);
        body.extend(self.marker(&ls.end));
        let c: Expr = match cond { Some(c) => parse_quote!{ #test && #c }, None => test };
        let w: Expr = match label { Some(l) => parse_quote!{ #l while #c { #(#body)* } }, None => parse_quote!{ while #c { #(#body)* } } };
        out.push(Stmt::Expr(w, None));
        out.extend(self.marker(&ls.after));
        match result {
            Some(r) => parse_quote!{ { #(#out)* #r } },
            None => parse_quote!{ { #(#out)* } },
        }
    }
    fn closure_parts(&mut self, e: &Expr) -> Option<(Pat, Expr)> {
        match e {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                Some((p, (*c.body).clone()))
            }
            Expr::Path(p) => { let x: Pat = parse_quote!{ vx_x }; Some((x, parse_quote!{ #p(vx_x) })) }
            _ => None,
        }
    }
    fn nested(&mut self, e: Expr) -> Expr { self.depth += 1; let r = self.fold_expr(e); self.depth -= 1; r }

    fn iter_op(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let k_expr = |s: &str, k: usize| format_ident!("{}{}", s, k);
        match name.as_str() {
            "map" | "filter_map" | "flat_map" | "filter" | "any" | "all" | "find" | "position" => {
                let src = self.peel(&m.receiver);
                let (pat, body) = self.closure_parts(m.args.first()?)?;
                let k = self.next_loop();
                let body = self.nested(body);
                self.rule(&format!("iterator .{}(closure) -> index loop", name));
                let i = k_expr("vx_i", k);
                let o = k_expr("vx_o", k);
                let b = k_expr("vx_b", k);
                let p2 = pat.clone();
                let bind = move |e: Expr| -> Vec<Stmt> { vec![parse_quote!{ let #p2 = #e; }] };
                let p3 = pat.clone();
                let bind_ref = move |e: Expr| -> Vec<Stmt> { vec![parse_quote!{ let vx_x = #e; }, parse_quote!{ let #p3 = &vx_x; }] };
                let pushout: Stmt = parse_quote!{ let mut #o = Vec::new(); };
                Some(match name.as_str() {
                    "map" => self.index_loop(k, src, None, vec![pushout], None, vec![parse_quote!{ let vx_y = #body; }, parse_quote!{ #o.push(vx_y); }], &bind, Some(parse_quote!{ #o })),
                    "filter_map" | "flat_map" => self.index_loop(k, src, None, vec![pushout], None,
                        vec![parse_quote!{ let vx_y = #body; }, parse_quote!{ match vx_y { Some(vx_z) => { #o.push(vx_z); } None => {} } }], &bind, Some(parse_quote!{ #o })),
                    "filter" => self.index_loop(k, src, None, vec![pushout], None, vec![parse_quote!{ if #body { #o.push(vx_x); } }], &bind_ref, Some(parse_quote!{ #o })),
                    "any" => self.index_loop(k, src, None, vec![parse_quote!{ let mut #b: bool = false; }], Some(parse_quote!{ !#b }), vec![parse_quote!{ if #body { #b = true; } }], &bind, Some(parse_quote!{ #b })),
                    "all" => self.index_loop(k, src, None, vec![parse_quote!{ let mut #b: bool = true; }], Some(parse_quote!{ #b }), vec![parse_quote!{ if !(#body) { #b = false; } }], &bind, Some(parse_quote!{ #b })),
                    "find" => self.index_loop(k, src, None, vec![parse_quote!{ let mut #o = None; }], Some(parse_quote!{ #o.is_none() }), vec![parse_quote!{ if #body { #o = Some(vx_x); } }], &bind_ref, Some(parse_quote!{ #o })),
                    _ => self.index_loop(k, src, None, vec![parse_quote!{ let mut #o: Option<usize> = None; }], Some(parse_quote!{ #o.is_none() }), vec![parse_quote!{ if #body { #o = Some(#i - 1); } }], &bind, Some(parse_quote!{ #o })),
                })
            }
            "fold" => {
                let src = self.peel(&m.receiver);
                let init = self.fold_expr(m.args[0].clone());
                let Expr::Closure(c) = &m.args[1] else { return None };
                if c.inputs.len() != 2 { return None; }
                let (pa, px) = (c.inputs[0].clone(), c.inputs[1].clone());
                let body = (*c.body).clone();
                let k = self.next_loop();
                let body = self.nested(body);
                self.rule("iterator .fold(closure) -> index loop");
                let acc = k_expr("vx_a", k);
                let bind = move |e: Expr| -> Vec<Stmt> { vec![parse_quote!{ let #px = #e; }] };
                Some(self.index_loop(k, src, None, vec![parse_quote!{ let mut #acc = #init; }], None,
                    vec![parse_quote!{ let #pa = #acc; }, parse_quote!{ #acc = #body; }], &bind, Some(parse_quote!{ #acc })))
            }
            "collect" => { self.rule("iterators are materialised as Vec"); Some(self.materialise(&m.receiver)) }
            "chain" => {
                let a = self.materialise(&m.receiver);
                let b = self.materialise(m.args.first()?);
                self.rule("chain -> concatenation");
                Some(parse_quote!{ vx_chain(#a, #b) })
            }
            "copied" | "cloned" => {
                if let Expr::MethodCall(inner) = &*m.receiver {
                    if inner.method == "iter" { let r = self.fold_expr((*inner.receiver).clone()); return Some(parse_quote!{ vx_copied(&#r) }); }
                }
                let r = self.materialise(&m.receiver);
                Some(parse_quote!{ vx_copied_refs(#r) })
            }
            "iter" => { let r = self.fold_expr((*m.receiver).clone()); Some(parse_quote!{ vx_refs(&#r) }) }
            "chars" => { let r = self.fold_expr((*m.receiver).clone()); Some(parse_quote!{ vx_chars(&#r) }) }
            "enumerate" => { let r = self.materialise(&m.receiver); Some(parse_quote!{ vx_enumerate(#r) }) }
            _ => None,
        }
    }
    fn materialise(&mut self, e: &Expr) -> Expr {
        match e {
            Expr::Path(_) => self.fold_expr(e.clone()),
            Expr::Reference(r) => { let x = self.fold_expr((*r.expr).clone()); parse_quote!{ vx_refs(&#x) } }
            Expr::Array(_) => { let x = self.fold_expr(e.clone()); parse_quote!{ vx_array(#x) } }
            _ => self.fold_expr(e.clone()),
        }
    }
    fn option_op(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        match (name.as_str(), m.args.len()) {
            ("map", 1) | ("and_then", 1) | ("is_some_and", 1) => {
                let (pat, body) = self.closure_parts(&m.args[0])?;
                let r = self.fold_expr((*m.receiver).clone());
                let b = self.nested(body);
                self.rule(&format!("Option::{} -> match", name));
                Some(match name.as_str() {
                    "map" => parse_quote!{ (match #r { Some(#pat) => Some(#b), None => None }) },
                    "and_then" => parse_quote!{ (match #r { Some(#pat) => #b, None => None }) },
                    _ => parse_quote!{ (match #r { Some(#pat) => #b, None => false }) },
                })
            }
            ("map_or", 2) => {
                let (pat, body) = self.closure_parts(&m.args[1])?;
                let r = self.fold_expr((*m.receiver).clone());
                let d = self.fold_expr(m.args[0].clone());
                let b = self.nested(body);
                self.rule("Option::map_or -> match");
                Some(parse_quote!{ (match #r { Some(#pat) => #b, None => #d }) })
            }
            ("unwrap_or_else", 1) => {
                let Expr::Closure(c) = &m.args[0] else { return None };
                if !c.inputs.is_empty() { return None; }
                let r = self.fold_expr((*m.receiver).clone());
                let b = self.nested((*c.body).clone());
                self.rule("Option::unwrap_or_else -> match");
                Some(parse_quote!{ (match #r { Some(vx_x) => vx_x, None => #b }) })
            }
            ("unwrap_or", 1) => {
                let r = self.fold_expr((*m.receiver).clone());
                let d = self.fold_expr(m.args[0].clone());
                Some(parse_quote!{ (match #r { Some(vx_x) => vx_x, None => #d }) })
            }
            ("unwrap_or_default", 0) => {
                let r = self.fold_expr((*m.receiver).clone());
                self.rule("Option::unwrap_or_default -> match");
                Some(parse_quote!{ (match #r { Some(vx_x) => vx_x, None => VxDef::vx_def() }) })
            }
            ("filter", 1) => {
                let (pat, body) = self.closure_parts(&m.args[0])?;
                let r = self.fold_expr((*m.receiver).clone());
                let b = self.nested(body);
                self.rule("Option::filter -> match");
                Some(parse_quote!{ (match #r { Some(vx_x) => if { let #pat = &vx_x; #b } { Some(vx_x) } else { None }, None => None }) })
            }
            ("or_else", 1) => {
                let Expr::Closure(c) = &m.args[0] else { return None };
                if !c.inputs.is_empty() { return None; }
                let r = self.fold_expr((*m.receiver).clone());
                let b = self.nested((*c.body).clone());
                self.rule("Option::or_else -> match");
                Some(parse_quote!{ (match #r { Some(vx_x) => Some(vx_x), None => #b }) })
            }
            ("copied", 0) | ("cloned", 0) => {
                let r = self.fold_expr((*m.receiver).clone());
                self.rule("Option::copied -> match");
                Some(parse_quote!{ (match #r { Some(vx_x) => Some(*vx_x), None => None }) })
            }
            ("as_deref", 0) => {
                let r = self.fold_expr((*m.receiver).clone());
                self.rule("Option::as_deref -> match");
                Some(parse_quote!{ (match &#r { Some(vx_x) => Some(vx_x.vx_deref()), None => None }) })
            }
            ("as_ref", 0) => {
                let r = self.fold_expr((*m.receiver).clone());
                Some(parse_quote!{ (match &#r { Some(vx_x) => Some(vx_x), None => None }) })
            }
            _ => None,
        }
    }
    /// Combinators of the parser library: only their names and overloads are adapted.
    fn comb_op(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) => {
                let mut m = m.clone();
                let n = m.method.to_string();
                match n.as_str() {
                    "collect" => {
                        let t = m.turbofish.take()?;
                        let GenericArgument::Type(Type::Path(p)) = t.args.first()? else { return None };
                        m.method = format_ident!("collect_{}", last_seg(&p.path).to_lowercase());
                        self.rule("collect::<T>() of a parser -> collect_t()");
                    }
                    "exactly" => {
                        let Expr::MethodCall(r) = &*m.receiver else { return None };
                        if r.method != "repeated" { return None; }
                        m.receiver = r.receiver.clone();
                        m.method = format_ident!("repeated_exactly");
                        self.rule("repeated().exactly(n) -> repeated_exactly(n)");
                    }
                    "map" if matches!(m.args.first(), Some(Expr::Path(_))) => {
                        let Some(Expr::Path(p)) = m.args.first().cloned() else { return None };
                        m.args[0] = parse_quote!{ |vx_x| #p(vx_x) };
                        self.rule("map(Variant) -> map(closure)");
                    }
                    "then_ignore" | "ignore_then" | "then" | "padded_by" | "or" | "map" | "filter" | "validate" | "repeated" | "or_not" | "to" | "chain" | "clone" | "map_with_span" | "recover_with" | "ignored" | "filter_map" | "flatten" | "map_err" | "labelled" => {}
                    _ => return None,
                }
                let recv = self.fold_expr((*m.receiver).clone());
                let validate = n == "validate";
                let mut args: Vec<Expr> = vec![];
                for a in m.args.iter() {
                    let mut em = 0;
                    if validate { if let Expr::Closure(c) = a { if let Some(Pat::Ident(i)) = c.inputs.iter().nth(2) { self.emitters.push(i.ident.to_string()); em = 1; } } }
                    args.push(self.fold_expr(a.clone()));
                    if em == 1 { self.emitters.pop(); }
                }
                let name = m.method.clone();
                Some(parse_quote!{ #recv.#name(#(#args),*) })
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                match (segs.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice(), args.as_slice()) {
                    (["choice"], [Expr::Tuple(t)]) => {
                        let mut it = t.elems.iter().cloned();
                        let mut x = self.fold_expr(it.next()?);
                        for y in it { let y = self.fold_expr(y); x = parse_quote!{ #x.or(#y) }; }
                        self.rule("choice((a, b, ..)) -> a.or(b).or(..)");
                        Some(x)
                    }
                    (["just"], [Expr::Lit(ExprLit { lit: Lit::Str(l), .. })]) => { self.rule("just(\"..\") -> just_str(\"..\")"); Some(parse_quote!{ just_str(#l) }) }
                    (["one_of"], [x]) => { let x = x.clone(); Some(parse_quote!{ one_of(#x) }) }
                    (["none_of"], [x]) => { let x = x.clone(); Some(parse_quote!{ none_of(#x) }) }
                    (["filter"], [x]) => { let x = self.fold_expr(x.clone()); Some(parse_quote!{ filter(#x) }) }
                    (["text", f], a) => { let f = format_ident!("text_{}", f); let a: Vec<Expr> = a.iter().map(|x| self.fold_expr(x.clone())).collect(); Some(parse_quote!{ #f(#(#a),*) }) }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    /// `XBuilder::default().a(x).b(y).build().unwrap()` -> struct literal (derive_builder, all fields default).
    fn builder(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        if m.method != "unwrap" || !m.args.is_empty() { return None; }
        let Expr::MethodCall(b) = &*m.receiver else { return None };
        if b.method != "build" || !b.args.is_empty() { return None; }
        let mut sets: Vec<(String, Expr)> = vec![];
        let mut cur: &Expr = &b.receiver;
        let ty = loop {
            match cur {
                Expr::MethodCall(s) if s.args.len() == 1 => { sets.push((s.method.to_string(), s.args[0].clone())); cur = &s.receiver; }
                Expr::Call(c) => {
                    let Expr::Path(p) = &*c.func else { return None };
                    if p.path.segments.len() < 2 || last_seg(&p.path) != "default" { return None; }
                    let t = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                    break t.strip_suffix("Builder")?.to_string();
                }
                _ => return None,
            }
        };
        sets.reverse();
        let st = self.ctx.structs.get(&ty)?.clone();
        if !derives(&st.attrs).iter().any(|d| d == "Builder") { return None; }
        if !st.attrs.iter().any(|a| a.path().is_ident("builder") && a.meta.to_token_stream().to_string().contains("default")) { return None; }
        self.rule("derive_builder chain -> struct literal");
        // the last setter of a field wins; arguments are evaluated in order
        let id = format_ident!("{}", ty);
        let mut lets: Vec<Stmt> = vec![];
        let mut last: HashMap<String, Ident> = HashMap::new();
        for (n, (f, e)) in sets.iter().enumerate() {
            let field = st.fields.iter().find(|x| x.ident.as_ref().map_or(false, |i| i == f))?.clone();
            let into = field.attrs.iter().any(|a| a.path().is_ident("builder") && a.meta.to_token_stream().to_string().contains("into"));
            let v = format_ident!("vx_f{}_{}", n, f);
            let x = self.fold_expr(e.clone());
            lets.push(if into { parse_quote!{ let #v = (#x).vx_conv(); } } else { parse_quote!{ let #v = #x; } });
            last.insert(f.clone(), v);
        }
        let mut fs: Vec<FieldValue> = vec![];
        for f in st.fields.iter() {
            let n = f.ident.clone()?;
            match last.get(&n.to_string()) {
                Some(v) => fs.push(parse_quote!{ #n: #v }),
                None => { let d = self.default_of(&f.ty)?; fs.push(parse_quote!{ #n: #d }) }
            }
        }
        Some(parse_quote!{ ({ #(#lets)* #id { #(#fs),* } }) })
    }
    fn default_of(&self, t: &Type) -> Option<Expr> {
        let Type::Path(p) = t else { return None };
        let n = last_seg(&p.path);
        Some(match n.as_str() {
            "Option" => parse_quote!{ None },
            "bool" => parse_quote!{ false },
            "String" => parse_quote!{ String::new() },
            "Vec" => parse_quote!{ Vec::new() },
            _ => {
                let st = self.ctx.structs.get(&n)?;
                if !derives(&st.attrs).iter().any(|d| d == "Default") { return None; }
                let id = format_ident!("{}", n);
                let mut fs: Vec<FieldValue> = vec![];
                for f in st.fields.iter() { let d = self.default_of(&f.ty)?; let n = f.ident.clone()?; fs.push(parse_quote!{ #n: #d }); }
                parse_quote!{ #id { #(#fs),* } }
            }
        })
    }
    /// Only plain placeholders, `{}` and `{name}`.
    fn pieces(&mut self, f: &str, args: Vec<Expr>) -> Option<Vec<(Option<String>, Option<Expr>)>> {
        let mut pieces: Vec<(Option<String>, Option<Expr>)> = vec![];
        let mut lit = String::new();
        let mut args = args.into_iter();
        let mut it = f.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => { it.next(); lit.push('{'); }
                '}' if it.peek() == Some(&'}') => { it.next(); lit.push('}'); }
                '{' => {
                    let mut n = String::new();
                    loop { match it.next()? { '}' => break, c => n.push(c) } }
                    let x = if n.is_empty() { args.next()? } else { if !n.chars().all(|c| c.is_alphanumeric() || c == '_') || n.starts_with(|c: char| c.is_numeric()) { return None; } let i = format_ident!("{}", n); parse_quote!{ #i } };
                    if !lit.is_empty() { pieces.push((Some(std::mem::take(&mut lit)), None)); }
                    pieces.push((None, Some(x)));
                }
                '}' => return None,
                c => lit.push(c),
            }
        }
        if args.next().is_some() { return None; }
        if !lit.is_empty() || pieces.is_empty() { pieces.push((Some(lit), None)); }
        Some(pieces)
    }
    fn format(&mut self, f: &str, args: Vec<Expr>) -> Option<Expr> {
        let pieces = self.pieces(f, args)?;
        let mut e: Option<Expr> = None;
        for p in pieces {
            e = Some(match (e, p) {
                (None, (Some(l), _)) => parse_quote!{ vx_str(#l) },
                (None, (_, Some(x))) => parse_quote!{ vx_show(&(#x)) },
                (Some(a), (Some(l), _)) => parse_quote!{ vx_cat_str(#a, #l) },
                (Some(a), (_, Some(x))) => parse_quote!{ vx_cat(#a, &(#x)) },
                _ => unreachable!(),
            });
        }
        e
    }
    fn block_expr(b: Block) -> Expr { Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }) }

    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let n = last_seg(&m.path);
        match n.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => { self.rule("panic!(..) -> call with requires false; message dropped"); Some(parse_quote!{ vx_panic() }) }
            "assert" | "debug_assert" => {
                let args: punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let c = self.fold_expr(args[0].clone());
                self.rule("assert!(c) -> call with requires c");
                Some(parse_quote!{ vx_assert(#c) })
            }
            "vec" | "smallvec" => {
                if let Ok(args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let v: Vec<Expr> = args.into_iter().map(|e| self.fold_expr(e)).collect();
                    if n == "smallvec" { self.rule("SmallVec -> Vec"); }
                    if v.is_empty() { return Some(parse_quote!{ Vec::new() }); }
                    return Some(parse_quote!{ vx_array([#(#v),*]) });
                }
                None
            }
            "println" if self.front => {
                let args: punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let Expr::Lit(ExprLit { lit: Lit::Str(f), .. }) = args[0].clone() else { return None };
                let rest: Vec<Expr> = args.iter().skip(1).map(|e| self.fold_expr(e.clone())).collect();
                self.rule("println!(lit, args) -> write of the concatenated pieces");
                let x = self.format(&(f.value() + "\n"), rest)?;
                Some(parse_quote!{ vx_print(#x, Tracked(&mut *vx_w)) })
            }
            "write" | "writeln" if self.formatter.is_some() => {
                let args: punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let to = format_ident!("{}", self.formatter.clone().unwrap());
                if !matches!(&args[0], Expr::Path(p) if p.path.is_ident(&to)) { return None; }
                let f = match args.get(1) { Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) => f.value(), None => String::new(), _ => return None };
                let rest: Vec<Expr> = args.iter().skip(2).map(|e| self.fold_expr(e.clone())).collect();
                self.rule("write!(f, lit, args) -> its pieces one by one, while they succeed");
                let ps = self.pieces(&(f + if n == "writeln" { "\n" } else { "" }), rest)?;
                let mut e: Option<Expr> = None;
                for p in ps.into_iter().rev() {
                    let x: Expr = match p { (Some(l), _) => { let h = self.marker(&format!("proof {{ reveal_strlit({:?}); }}", l)); parse_quote!{ { #(#h)* #to.vx_put(#l) } } } (_, Some(x)) => parse_quote!{ (#x).fmt(#to) }, _ => unreachable!() };
                    e = Some(match e { None => x, Some(r) => parse_quote!{ (match #x { Ok(_) => #r, Err(vx_e) => Err(vx_e) }) } });
                }
                e
            }
            "format" => {
                let args: punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let Expr::Lit(ExprLit { lit: Lit::Str(f), .. }) = args[0].clone() else { return None };
                let rest: Vec<Expr> = args.iter().skip(1).map(|e| self.fold_expr(e.clone())).collect();
                self.rule("format!(lit, args) -> concatenation of its pieces");
                self.format(&f.value(), rest)
            }
            _ => None,
        }
    }
}

pub fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| { v.push(last_seg(&m.path)); Ok(()) });
        }
    }
    v
}

struct DirectCalls(Vec<String>);
impl<'ast> syn::visit::Visit<'ast> for DirectCalls {
    fn visit_block(&mut self, _: &'ast Block) {}
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) { syn::visit::visit_expr_method_call(self, m); self.0.push(m.method.to_string()); }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func { self.0.push(last_seg(&p.path)); }
    }
    fn visit_macro(&mut self, m: &'ast Macro) { self.0.push(format!("{}!", last_seg(&m.path))); }
}

impl<'a> Fold for Rw<'a> {
    fn fold_block(&mut self, b: Block) -> Block {
        let mut out: Vec<Stmt> = vec![];
        let mut guards: Vec<Ident> = vec![];
        for s in b.stmts {
            if let Stmt::Item(_) = s { self.errors.push("nested item".into()); continue; }
            let mut dc = DirectCalls(vec![]);
            syn::visit::Visit::visit_stmt(&mut dc, &s);
            let mut before = String::new();
            let mut after = String::new();
            for c in dc.0 {
                let n = self.calls.entry(c.clone()).or_insert(0);
                *n += 1;
                let key = (c.clone(), *n);
                if let Some(t) = self.spec.before.get(&key) { before += t; self.used_anchors.insert(format!("before {} {}", key.0, key.1)); }
                if let Some(t) = self.spec.after.get(&key) { after += t; self.used_anchors.insert(format!("after {} {}", key.0, key.1)); }
            }
            out.extend(self.marker(&before));
            // statement-level rules
            let s2 = match &s {
                Stmt::Expr(Expr::MethodCall(m), _) if m.method == "replace" && m.args.len() == 1 => {
                    let r = self.fold_expr((*m.receiver).clone());
                    let x = self.fold_expr(m.args[0].clone());
                    self.rule("Option::replace(x); -> assignment");
                    parse_quote!{ #r = Some(#x); }
                }
                Stmt::Macro(m) => match self.mac(&m.mac) {
                    Some(e) => Stmt::Expr(e, m.semi_token),
                    None => { self.errors.push(format!("unsupported macro {}", m.mac.path.to_token_stream())); s.clone() }
                },
                _ => fold::fold_stmt(self, s.clone()),
            };
            if let Stmt::Local(l) = &s {
                if let Pat::Ident(i) = &l.pat {
                    let n = i.ident.to_string();
                    if let Some(t) = self.spec.lets.get(&n) { if self.used_anchors.insert(format!("let {}", n)) { after += t; } }
                }
            }
            // the result of a parser function: its stages get names
            let s2 = match s2 {
                Stmt::Expr(Expr::MethodCall(m), None) if self.comb && self.closure_depth == 0 => {
                    let mut chain: Vec<ExprMethodCall> = vec![];
                    let mut cur = Expr::MethodCall(m);
                    while let Expr::MethodCall(m) = cur { cur = (*m.receiver).clone(); chain.push(m); }
                    chain.reverse();
                    let mut n = 0usize;
                    for mut m in chain {
                        n += 1;
                        let q = format_ident!("vx_q{}", n);
                        out.push(parse_quote!{ let #q = #cur; });
                        if let Some(t) = self.spec.lets.get(&q.to_string()).cloned() { self.used_anchors.insert(format!("let {}", q)); out.extend(self.marker(&t)); }
                        m.receiver = Box::new(parse_quote!{ #q });
                        cur = Expr::MethodCall(m);
                    }
                    self.rule("stages of the resulting parser -> let");
                    Stmt::Expr(cur, None)
                }
                x => x,
            };
            if self.front {
                if !guards.is_empty() && leaves(&s) { self.errors.push("a block is left while the standard output is locked".into()); }
                if let Stmt::Local(l) = &s { if let (Pat::Ident(i), Some(x)) = (&l.pat, &l.init) { if matches!(&*x.expr, Expr::MethodCall(m) if m.method == "lock") { guards.push(i.ident.clone()); } } }
            }
            let is_tail = matches!(&s2, Stmt::Expr(_, None));
            if !after.trim().is_empty() && is_tail && !matches!(&s2, Stmt::Expr(Expr::While(_) | Expr::If(_) | Expr::Match(_) | Expr::Block(_), None)) {
                if let Stmt::Expr(e, None) = s2 {
                    out.push(parse_quote!{ let vx_t = #e; });
                    out.extend(self.marker(&after));
                    out.push(Stmt::Expr(parse_quote!{ vx_t }, None));
                }
            } else {
                out.push(s2);
                out.extend(self.marker(&after));
            }
        }
        for g in guards.iter().rev() {
            self.rule("end of a block -> release of what it locked");
            if matches!(out.last(), Some(Stmt::Expr(_, None))) { self.errors.push("a block that locks the standard output has a value".into()); }
            out.push(parse_quote!{ vx_unlock(#g, Tracked(&mut *vx_w)); });
        }
        Block { brace_token: b.brace_token, stmts: out }
    }
    fn fold_type(&mut self, t: Type) -> Type { ty(t, &mut self.rules) }
    fn fold_path(&mut self, p: Path) -> Path {
        let p = fold::fold_path(self, p);
        strip(p)
    }
    fn fold_expr(&mut self, e: Expr) -> Expr {
        match e {
            Expr::ForLoop(f) => {
                let src = self.peel(&f.expr);
                let k = self.next_loop();
                self.rule("for -> index loop");
                self.depth += 1;
                let body = self.fold_block(f.body);
                self.depth -= 1;
                let pat = fold::fold_pat(self, (*f.pat).clone());
                let bind = move |e: Expr| -> Vec<Stmt> { vec![parse_quote!{ let #pat = #e; }] };
                let round = Self::stmts_unit(body);
                self.index_loop(k, src, f.label, vec![], None, round, &bind, None)
            }
            Expr::While(mut w) if matches!(&*w.cond, Expr::Let(_)) => {
                let Expr::Let(l) = (*w.cond).clone() else { unreachable!() };
                self.rule("while let -> loop, match, break");
                let k = self.next_loop();
                let mut ls = self.lspec(k);
                let it = match &*l.expr { Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() => match &*m.receiver { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), _ => None }, _ => None };
                if let Some(i) = &it { for t in [&mut ls.head, &mut ls.start, &mut ls.end, &mut ls.before, &mut ls.after] { *t = t.replace(&format!("vx_i{}", k), &format!("{}.i", i)); } }
                let x = self.fold_expr(*l.expr);
                let pat = fold::fold_pat(self, *l.pat);
                self.depth += 1;
                let body = self.fold_block(std::mem::replace(&mut w.body, parse_quote!{ {} }));
                self.depth -= 1;
                let mut st: Vec<Stmt> = self.marker(&ls.start);
                st.extend(Self::stmts_unit(body));
                st.extend(self.marker(&ls.end));
                // over an iterator: its position is the loop's, the elements stay
                let (t, g) = match &it {
                    Some(i) => (format!("\ninvariant\n    {i}.v@ == vx_v{k}, {i}.i <= vx_v{k}.len(),\n{}\ndecreases vx_v{k}.len() - {i}.i\n", ls.head), format!("let ghost vx_v{k} = {i}.v@;")),
                    None => (format!("\n{}\n", ls.head), String::new()),
                };
                let h = self.head(t);
                let g = self.marker(&g);
                let lb = w.label;
                let on = it.as_ref().map(|i| format_ident!("{}", i));
                let e: Expr = if let Some(i) = on { parse_quote!{ #lb while #i.peek().is_some() { #h match #x { #pat => { #(#st)* } _ => vx_panic(), } } } } else { parse_quote!{ #lb loop { #h match #x { #pat => { #(#st)* } _ => { break; } } } } };
                let (b, a) = (self.marker(&ls.before), self.marker(&ls.after));
                parse_quote!{ { #(#g)* #(#b)* #e #(#a)* } }
            }
            Expr::While(w) => {
                let cond = self.fold_expr(*w.cond);
                let k = self.next_loop();
                let ls = self.lspec(k);
                self.depth += 1;
                let body = self.fold_block(w.body);
                self.depth -= 1;
                let h = self.head(format!("\n{}\n", ls.head));
                let mut st: Vec<Stmt> = vec![h];
                st.extend(self.marker(&ls.start));
                st.extend(Self::stmts_unit(body));
                st.extend(self.marker(&ls.end));
                let l = w.label;
                let e: Expr = parse_quote!{ #l while #cond { #(#st)* } };
                let (b, a) = (self.marker(&ls.before), self.marker(&ls.after));
                parse_quote!{ { #(#b)* #e #(#a)* } }
            }
            ref c @ (Expr::MethodCall(_) | Expr::Call(_)) if self.comb && self.closure_depth == 0 => {
                match self.comb_op(c) { Some(x) => x, None => {
                    if let Expr::MethodCall(m) = c { self.errors.push(format!("unsupported combinator {}", m.method)); }
                    fold::fold_expr(self, c.clone())
                } }
            }
            Expr::MethodCall(m) if m.method == "peekable" && m.args.is_empty() && self.is_iter(&m.receiver) => {
                let v = self.materialise(&m.receiver);
                self.skeleton.push(500);
                self.rule("iterator .peekable() -> VxPeek");
                parse_quote!{ VxPeek::new(#v) }
            }
            Expr::MethodCall(m) if m.method == "count" && m.args.is_empty() && self.is_iter(&m.receiver) => {
                let v = self.materialise(&m.receiver);
                self.rule("iterator .count() -> length");
                parse_quote!{ #v.len() }
            }
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "Stream" && p.path.segments[1].ident == "from_iter") && c.args.len() == 2 => {
                let a = self.fold_expr(c.args[0].clone());
                let b = match &c.args[1] { Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => (*m.receiver).clone(), e => e.clone() };
                let b = self.fold_expr(b);
                parse_quote!{ Stream::from_iter(#a, #b) }
            }
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.emitters.contains(&i.to_string()))) && c.args.len() == 1 => {
                let f = c.func; let a = self.fold_expr(c.args[0].clone());
                self.rule("emit(e) -> emit.put(e)");
                parse_quote!{ #f.put(#a) }
            }
            Expr::Call(c) if self.front && outside(&c.func).is_some() => {
                let f = format_ident!("{}", outside(&c.func).unwrap());
                let a: Vec<Expr> = c.args.iter().map(|x| self.fold_expr(x.clone())).collect();
                parse_quote!{ #f(#(#a),*) }
            }
            Expr::Call(c) if matches!(c.func.to_token_stream().to_string().as_str(), "u32 :: from_str_radix" | "char :: from_u32") => {
                let f = format_ident!("vx_{}", c.func.to_token_stream().to_string().replace(" :: ", "_"));
                let a: Vec<Expr> = c.args.iter().map(|x| self.fold_expr(x.clone())).collect();
                parse_quote!{ #f(#(#a),*) }
            }
            Expr::MethodCall(m) => {
                if let Some(x) = self.builder(&m) { return x; }
                let n = m.method.to_string();
                let recv_iter = self.is_iter(&m.receiver);
                if recv_iter || ((n == "iter" || n == "chars") && m.args.is_empty()) {
                    if let Some(x) = self.iter_op(&m) { return x; }
                }
                if self.front && !recv_iter {
                    if EFFECTS.contains(&n.as_str()) {
                        let vx_n = format_ident!("{}", n);
                        let r = self.fold_expr((*m.receiver).clone());
                        let a: Vec<Expr> = m.args.iter().map(|x| self.fold_expr(x.clone())).collect();
                        self.rule("effect -> call with the ghost state of the outside");
                        return parse_quote!{ #r.#vx_n(#(#a,)* Tracked(&mut *vx_w)) };
                    }
                } else if !recv_iter { if let Some(x) = self.option_op(&m) { return x; } }
                match (n.as_str(), m.args.len()) {
                    ("into", 0) => { let r = self.fold_expr((*m.receiver).clone()); self.rule(".into() -> conversion call"); return parse_quote!{ (#r).vx_conv() }; }
                    ("to_string", 0) => { let r = self.fold_expr((*m.receiver).clone()); self.rule(".to_string() -> Display call"); return parse_quote!{ (#r).vx_to_string() }; }
                    ("extend", 1) => {
                        let r = self.fold_expr((*m.receiver).clone());
                        let a = self.materialise(&m.args[0]);
                        self.rule("extend -> append");
                        return parse_quote!{ vx_extend(&mut #r, #a) };
                    }
                    ("as_bytes", 0) => { let r = self.fold_expr((*m.receiver).clone()); return parse_quote!{ vx_bytes(&#r) }; }
                    ("join", 1) => { let r = self.fold_expr((*m.receiver).clone()); let a = self.fold_expr(m.args[0].clone()); return parse_quote!{ vx_join(&#r, #a) }; }
                    _ => {}
                }
                fold::fold_expr(self, Expr::MethodCall(m))
            }
            Expr::Try(t) if self.fallible => {
                let x = self.fold_expr(*t.expr);
                self.rule("? -> match, error converted");
                parse_quote!{ (match #x { Ok(vx_x) => vx_x, Err(vx_e) => return Err((vx_e).vx_conv()) }) }
            }
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if last_seg(&p.path) == "with_capacity" && p.path.segments.len() == 2) => {
                let Expr::Path(mut p) = *c.func else { unreachable!() };
                self.rule("with_capacity(n) -> new()");
                p.path.segments.last_mut().unwrap().ident = format_ident!("new");
                self.fold_expr(parse_quote!{ #p() })
            }
            Expr::Closure(c) => {
                self.n_closures += 1;
                let k = self.n_closures;
                // contracts of closures go by number: one more or less is another function
                self.skeleton.push(1000 + c.inputs.len());
                self.used_anchors.insert(format!("closure {}", k));
                let t = self.spec.closures.get(&k).cloned().unwrap_or_default();
                let types = self.spec.closure_types.get(&k).cloned().unwrap_or_default();
                self.closure_depth += 1;
                let body = self.fold_expr(*c.body.clone());
                self.closure_depth -= 1;
                let mut lets: Vec<Stmt> = vec![];
                let mut inputs: Vec<Pat> = vec![];
                let mut names: Vec<String> = vec![];
                for (i, p) in c.inputs.iter().enumerate() {
                    let (p, mut t) = match p { Pat::Type(t) => ((*t.pat).clone(), Some(ty((*t.ty).clone(), &mut self.rules))), p => (p.clone(), None) };
                    if t.is_none() { if let Some(x) = types.get(i) { if !x.is_empty() { match syn::parse_str::<Type>(x) { Ok(x) => t = Some(x), Err(_) => self.errors.push("bad closure type".into()) } } } }
                    let q: Pat = match p {
                        Pat::Wild(_) => { let w = format_ident!("vx_w{}", i); parse_quote!{ #w } }
                        Pat::Ident(p) => Pat::Ident(p),
                        p => {
                            let w = format_ident!("vx_c{}", i);
                            let p = fold::fold_pat(self, p);
                            self.rule("pattern parameter of a closure -> let");
                            lets.push(parse_quote!{ let #p = #w; });
                            parse_quote!{ #w }
                        }
                    };
                    names.push(if let Pat::Ident(i) = &q { i.ident.to_string() } else { String::new() });
                    inputs.push(match t { Some(t) => Pat::Type(PatType { attrs: vec![], pat: Box::new(q), colon_token: Default::default(), ty: Box::new(t) }), None => q });
                }
                // $1, $2, ..: the parameters, whatever they are called
                let mut t = t;
                for (i, n) in names.iter().enumerate() { t = t.replace(&format!("${}", i + 1), n); }
                let h = self.head(t);
                lets.insert(0, h);
                let b: Expr = match body {
                    Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => { lets.extend(b.block.stmts); parse_quote!{ { #(#lets)* } } }
                    e => parse_quote!{ { #(#lets)* #e } },
                };
                let cap = c.capture;
                parse_quote!{ #cap |#(#inputs),*| #b }
            }
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.suffix() == "f32" => { self.rule("f32 -> F"); lit(&LitFloat::new(&format!("{}.0", i.base10_digits()), i.span()), false) }
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => { self.rule("f32 -> F"); lit(&f, false) }
            Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) if matches!(&*expr, Expr::Lit(ExprLit { lit: Lit::Float(_), .. })) => {
                let Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) = *expr else { unreachable!() };
                lit(&f, true)
            }
            Expr::Cast(c) => {
                let x = self.fold_expr((*c.expr).clone());
                let t = c.ty.to_token_stream().to_string();
                match t.as_str() {
                    "f32" => { self.rule("as f32 -> conversion call"); parse_quote!{ (#x).vx_as_f32() } }
                    "u32" => { self.rule("as u32 -> conversion call"); parse_quote!{ (#x).vx_as_u32() } }
                    _ => { let ty = c.ty; parse_quote!{ #x as #ty } }
                }
            }
            Expr::Binary(b) => {
                let op = match b.op {
                    BinOp::AddAssign(_) => Some(quote!(+)), BinOp::SubAssign(_) => Some(quote!(-)), BinOp::MulAssign(_) => Some(quote!(*)), BinOp::DivAssign(_) => Some(quote!(/)),
                    _ => None,
                };
                match op {
                    Some(o) => {
                        let l = self.fold_expr(*b.left); let r = self.fold_expr(*b.right);
                        self.rule("a op= b -> a = a op b");
                        parse_quote!{ #l = #l #o (#r) }
                    }
                    None => fold::fold_expr(self, Expr::Binary(b)),
                }
            }
            Expr::Macro(m) => match self.mac(&m.mac) {
                Some(e) => e,
                None => { self.errors.push(format!("unsupported macro {}", m.mac.path.to_token_stream())); Expr::Macro(m) }
            },
            Expr::Path(p) => {
                let s = p.path.to_token_stream().to_string().replace(' ', "");
                match s.as_str() {
                    "f32::MIN" => return parse_quote!{ vx_f32_min() },
                    "f32::MAX" => return parse_quote!{ vx_f32_max() },
                    "f32::NAN" => return parse_quote!{ vx_f32_nan() },
                    "f32::INFINITY" => return parse_quote!{ vx_f32_inf() },
                    "f32::NEG_INFINITY" => return parse_quote!{ vx_f32_neg_inf() },
                    _ => {}
                }
                let key = if let Some(r) = s.strip_prefix("Self::") { format!("{}::{}", self.self_ty.clone().unwrap_or_default(), r) } else { s.rsplit("::").take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("::") };
                if let Some(c) = self.ctx.consts.get(&key) {
                    self.rule("constants are inlined");
                    let own = key.split("::").next().map(|x| x.to_string());
                    let save = self.self_ty.clone();
                    if key.contains("::") { self.self_ty = own.clone(); }
                    let named = match (&own, key.contains("::")) {
                        (Some(o), true) => syn::parse2::<Expr>(rename_self(c.to_token_stream(), o)).unwrap_or_else(|_| c.clone()),
                        _ => c.clone(),
                    };
                    let x = self.fold_expr(named);
                    self.self_ty = save;
                    return parse_quote!{ (#x) };
                }
                fold::fold_expr(self, Expr::Path(p))
            }
            Expr::If(i) => {
                // keep evaluation order of numbering: condition, then, else
                let cond = self.fold_expr(*i.cond);
                let t = self.fold_block(i.then_branch);
                match i.else_branch {
                    Some((_, e)) => { let e = self.fold_expr(*e); parse_quote!{ if #cond #t else #e } }
                    None => parse_quote!{ if #cond #t },
                }
            }
            Expr::Async(_) | Expr::Await(_) | Expr::Unsafe(_) => { self.errors.push("unsupported expression".into()); e }
            e => fold::fold_expr(self, e),
        }
    }
}

pub fn lit(f: &LitFloat, neg: bool) -> Expr {
    let v: f64 = f.base10_digits().parse().unwrap_or(f64::NAN);
    let h = v * 2.0;
    if h.fract() == 0.0 && h.abs() <= 16777216.0 {
        let n = proc_macro2::Literal::i64_unsuffixed(h as i64);
        if neg && h == 0.0 { return parse_quote!{ vx_neg_zero() }; }
        if neg { parse_quote!{ vx_lit(-#n) } } else { parse_quote!{ vx_lit(#n) } }
    } else { parse_quote!{ vx_f32_any() } }
}

/// Strip module prefixes: everything extracted lives in one module.
pub fn strip(mut p: Path) -> Path {
    for (a, b) in [("HashMap", "VxMap"), ("VecDeque", "VxDeque")] {
        if let Some(s) = p.segments.iter_mut().find(|s| s.ident == a) { s.ident = format_ident!("{}", b); }
    }
    loop {
        if p.segments.len() < 2 { break; }
        let f = p.segments[0].ident.to_string();
        if ["mir", "crate", "geometry", "layout", "erd", "color", "self", "super", "error", "fmt", "io", "algo", "std", "chumsky", "ariadne"].contains(&f.as_str()) {
            p.leading_colon = None;
            p.segments = p.segments.into_iter().skip(1).collect();
        } else if f == "element" || f == "svg" {
            let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
            let node_text = segs.iter().any(|s| s.ident == "node") && !segs.iter().any(|s| s.ident == "element");
            let mut out: Vec<PathSegment> = vec![];
            let mut first = true;
            for s in segs.into_iter().filter(|s| !["svg", "element", "node"].contains(&s.ident.to_string().as_str())) {
                let mut s = s;
                if first { s.ident = if node_text && s.ident == "Text" { format_ident!("SvgTextNode") } else { format_ident!("Svg{}", s.ident) }; first = false; }
                out.push(s);
            }
            p.segments = out.into_iter().collect();
            break;
        } else { break; }
    }
    p
}

/// Type rewriting.
pub fn ty(t: Type, rules: &mut BTreeMap<String, usize>) -> Type {
    match t {
        Type::Path(p) => {
            let n = last_seg(&p.path);
            if p.path.is_ident("f32") { *rules.entry("f32 -> F".into()).or_insert(0) += 1; return parse_quote!{ F }; }
            if n == "Formatter" { *rules.entry("fmt::Formatter -> VxFmt".into()).or_insert(0) += 1; return parse_quote!{ VxFmt }; }
            if n == "Result" && p.path.segments.last().unwrap().arguments.is_none() { return parse_quote!{ VxFmtResult }; }
            let mut p = p;
            p.path = strip(p.path);
            for s in p.path.segments.iter_mut() {
                if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                    for g in a.args.iter_mut() { if let GenericArgument::Type(x) = g { *x = ty(x.clone(), rules); } }
                }
            }
            if n == "SmallVec" {
                if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                    if let Some(GenericArgument::Type(Type::Array(arr))) = a.args.first() { let e = &arr.elem; return parse_quote!{ Vec<#e> }; }
                }
            }
            let map = [("HashMap", "VxMap"), ("VecDeque", "VxDeque"), ("UnGraph", "VxGraph")];
            for (a, b) in map { if n == a { p.path.segments.last_mut().unwrap().ident = format_ident!("{}", b); } }
            Type::Path(p)
        }
        Type::ImplTrait(i) => {
            for b in &i.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    let s = tb.path.segments.last().unwrap();
                    if s.ident == "Parser" {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            let v: Vec<Type> = a.args.iter().filter_map(|g| if let GenericArgument::Type(x) = g { Some(ty(x.clone(), rules)) } else { None }).collect();
                            if let [i, o] = v.as_slice() { *rules.entry("impl Parser -> Ps".into()).or_insert(0) += 1; return parse_quote!{ Ps<#i, #o> }; }
                        }
                    }
                    if s.ident == "Write" { *rules.entry("impl Write -> impl VxWrite".into()).or_insert(0) += 1; return parse_quote!{ impl VxWrite }; }
                    if s.ident == "CustomDisplay" { *rules.entry("impl CustomDisplay -> the type it is".into()).or_insert(0) += 1; return parse_quote!{ SVGOutput }; }
                    if s.ident.to_string().ends_with("Iterator") {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            for g in &a.args { if let GenericArgument::AssocType(x) = g { let it = ty(x.ty.clone(), rules); *rules.entry("impl Iterator -> Vec".into()).or_insert(0) += 1; return parse_quote!{ Vec<#it> }; } }
                        }
                    }
                }
            }
            Type::ImplTrait(i)
        }
        Type::Reference(mut r) => { *r.elem = ty((*r.elem).clone(), rules); Type::Reference(r) }
        Type::Slice(mut r) => { *r.elem = ty((*r.elem).clone(), rules); Type::Slice(r) }
        Type::Array(mut r) => { *r.elem = ty((*r.elem).clone(), rules); Type::Array(r) }
        Type::Tuple(mut r) => { for e in r.elems.iter_mut() { *e = ty(e.clone(), rules); } Type::Tuple(r) }
        t => t,
    }
}

// ------------------------------------------------------------------ printing
pub fn print(ts: TokenStream, texts: &[String], out: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        // VXP!(n);
        if let TokenTree::Ident(id) = &v[i] {
            if id == "VXP" {
                if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                    let n: usize = g.stream().to_string().parse().unwrap();
                    out.push('\n'); out.push_str(&texts[n]); out.push('\n');
                    i += 3;
                    if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') { i += 1; }
                    continue;
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                if g.delimiter() == Delimiter::Brace {
                    let mut rest = &inner[..];
                    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(n))) = (inner.first(), inner.get(2)) {
                        if id == "VXH" {
                            let n: usize = n.stream().to_string().parse().unwrap();
                            out.push_str(&texts[n]);
                            rest = &inner[3..];
                            if matches!(rest.first(), Some(TokenTree::Punct(p)) if p.as_char() == ';') { rest = &rest[1..]; }
                        }
                    }
                    out.push_str("{\n");
                    print(rest.iter().cloned().collect(), texts, out);
                    out.push_str("\n}");
                    // a newline unless followed by something that belongs to the same expression
                    match v.get(i + 1) { Some(TokenTree::Punct(_)) | None => {}, _ => out.push('\n') }
                } else {
                    out.push_str(o);
                    print(inner.into_iter().collect(), texts, out);
                    out.push_str(c);
                    if g.delimiter() != Delimiter::None { out.push(' '); }
                }
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.as_char() == ';' { out.push('\n'); }
                else if p.spacing() == proc_macro2::Spacing::Alone && p.as_char() != '.' && p.as_char() != '&' && p.as_char() != '!' { out.push(' '); }
            }
            t => { out.push_str(&t.to_string()); out.push(' '); }
        }
        i += 1;
    }
}

/// `Self` of the impl a constant is defined in.
fn rename_self(t: proc_macro2::TokenStream, to: &str) -> proc_macro2::TokenStream {
    t.into_iter().map(|x| match x {
        proc_macro2::TokenTree::Ident(i) if i == "Self" => proc_macro2::TokenTree::Ident(proc_macro2::Ident::new(to, i.span())),
        proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rename_self(g.stream(), to))),
        x => x,
    }).collect()
}
