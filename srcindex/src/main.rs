//! Lists the items of Rust source files with the byte ranges the extraction needs.
//!
//! srcindex FILE... prints one JSON object: file -> list of items. Items under #[cfg(test)] are left out.
use proc_macro2::Span;
use serde_json::{json, Map, Value};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn r(s: Span) -> Value {
    let b = s.byte_range();
    json!([b.start, b.end])
}
fn join(a: Span, b: Span) -> Value {
    json!([a.byte_range().start, b.byte_range().end])
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg") && {
                let t = a.meta.to_token_string();
                t.contains("test") || t.contains("feature") || t.contains("kani")
            })
    })
}
trait Toks {
    fn to_token_string(&self) -> String;
}
impl<T: syn::__private::ToTokens> Toks for T {
    fn to_token_string(&self) -> String {
        self.to_token_stream().to_string()
    }
}

/// Everything inside one function body.
#[derive(Default)]
struct Body {
    loops: Vec<Value>,
    calls: Vec<Value>,
    closures: Vec<Value>,
    macros: Vec<Value>,
    stmts: Vec<(usize, usize)>,
    binds: Vec<Value>,
    returns: Vec<Value>,
    depth: usize,
    paths: Vec<Value>,
    tries: Vec<Value>,
    attrs: Vec<Value>,
    ranges: Vec<Value>,
    eqs: Vec<Value>,
    inmut: bool,
}

impl<'a> Visit<'a> for Body {
    fn visit_attribute(&mut self, a: &'a syn::Attribute) {
        self.attrs.push(r(a.span()));
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        self.loops.push(json!({"kind": "for", "span": r(l.span()), "pat": r(l.pat.span()), "expr": r(l.expr.span()), "body": r(l.body.span()),
            "label": l.label.as_ref().map(|x| r(x.span())), "stmts": stmts(&l.body)}));
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        self.loops.push(json!({"kind": "while", "span": r(l.span()), "cond": r(l.cond.span()), "body": r(l.body.span()),
            "label": l.label.as_ref().map(|x| r(x.span())), "stmts": stmts(&l.body)}));
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        self.loops.push(json!({"kind": "loop", "span": r(l.span()), "body": r(l.body.span()),
            "label": l.label.as_ref().map(|x| r(x.span())), "stmts": stmts(&l.body)}));
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        let args = if c.args.is_empty() { Value::Null } else { r(c.args.span()) };
        self.calls.push(json!({"kind": "method", "name": c.method.to_string(), "span": r(c.span()), "recv": r(c.receiver.span()), "ident": r(c.method.span()),
            "args": args, "turbofish": c.turbofish.as_ref().map(|t| r(t.span())), "nargs": c.args.len()}));
        visit::visit_expr_method_call(self, c);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        let name = match &*c.func {
            syn::Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
            _ => String::new(),
        };
        let args = if c.args.is_empty() { Value::Null } else { r(c.args.span()) };
        self.calls.push(json!({"kind": "call", "name": name, "span": r(c.span()), "func": r(c.func.span()), "args": args, "nargs": c.args.len()}));
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_reference(&mut self, e: &'a syn::ExprReference) {
        self.inmut = e.mutability.is_some();
        visit::visit_expr_reference(self, e);
        self.inmut = false;
    }
    fn visit_expr_index(&mut self, e: &'a syn::ExprIndex) {
        if let syn::Expr::Range(g) = &*e.index {
            let nested = matches!(&*e.expr, syn::Expr::Index(b) if matches!(*b.index, syn::Expr::Range(_)));
            self.ranges.push(json!({"span": r(e.span()), "base": r(e.expr.span()), "mut": self.inmut, "nested": nested,
                "incl": matches!(g.limits, syn::RangeLimits::Closed(_)),
                "from": g.start.as_ref().map(|x| r(x.span())), "to": g.end.as_ref().map(|x| r(x.span()))}));
        }
        visit::visit_expr_index(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'a syn::ExprBinary) {
        if let syn::BinOp::Eq(_) | syn::BinOp::Ne(_) = e.op {
            self.eqs.push(json!({"span": r(e.span()), "left": r(e.left.span()), "right": r(e.right.span()), "ne": matches!(e.op, syn::BinOp::Ne(_))}));
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        self.tries.push(json!({"span": r(t.span()), "expr": r(t.expr.span())}));
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_return(&mut self, x: &'a syn::ExprReturn) {
        if self.depth == 0 {
            self.returns.push(json!({"span": r(x.span()), "expr": x.expr.as_ref().map(|e| r(e.span()))}));
        }
        visit::visit_expr_return(self, x);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        let params: Vec<Value> = c
            .inputs
            .iter()
            .map(|p| {
                let plain = matches!(p, syn::Pat::Ident(_)) || matches!(p, syn::Pat::Type(t) if matches!(*t.pat, syn::Pat::Ident(_)));
                json!({"span": r(p.span()), "plain": plain, "wild": matches!(p, syn::Pat::Wild(_))})
            })
            .collect();
        let ret = match &c.output {
            syn::ReturnType::Default => Value::Null,
            syn::ReturnType::Type(_, t) => r(t.span()),
        };
        self.closures.push(json!({"span": r(c.span()), "params": params, "ret": ret, "head_end": c.or2_token.span().byte_range().end,
            "body": r(c.body.span()), "block": matches!(*c.body, syn::Expr::Block(_)), "move": c.capture.is_some()}));
        self.depth += 1;
        visit::visit_expr_closure(self, c);
        self.depth -= 1;
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        self.macros.push(json!({"name": m.path.segments.last().unwrap().ident.to_string(), "span": r(m.span()), "text": m.tokens.to_string()}));
        visit::visit_macro(self, m);
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        for s in &b.stmts {
            let x = s.span().byte_range();
            self.stmts.push((x.start, x.end));
        }
        visit::visit_block(self, b);
    }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.binds.push(json!({"name": p.ident.to_string(), "span": r(p.ident.span()), "mut": p.mutability.is_some(), "ref": p.by_ref.is_some()}));
        visit::visit_pat_ident(self, p);
    }
    fn visit_path(&mut self, p: &'a syn::Path) {
        path(&mut self.paths, p);
        visit::visit_path(self, p);
    }
}

fn path(out: &mut Vec<Value>, p: &syn::Path) {
    let segs: Vec<Value> = p.segments.iter().map(|s| json!({"name": s.ident.to_string(), "span": r(s.ident.span())})).collect();
    if segs.len() > 1 {
        out.push(json!({"segs": segs, "span": r(p.span())}));
    }
}

struct Paths(Vec<Value>, Vec<Value>);
impl<'a> Visit<'a> for Paths {
    fn visit_path(&mut self, p: &'a syn::Path) {
        path(&mut self.0, p);
        visit::visit_path(self, p);
    }
    fn visit_attribute(&mut self, a: &'a syn::Attribute) {
        self.1.push(r(a.span()));
    }
    fn visit_visibility(&mut self, v: &'a syn::Visibility) {
        if !matches!(v, syn::Visibility::Inherited) {
            self.1.push(r(v.span()));
        }
    }
}

fn stmts(b: &syn::Block) -> Vec<Value> {
    b.stmts
        .iter()
        .map(|s| {
            let tail = matches!(s, syn::Stmt::Expr(_, None));
            json!({"span": r(s.span()), "tail": tail})
        })
        .collect()
}

fn sig(s: &syn::Signature) -> Value {
    let ret = match &s.output {
        syn::ReturnType::Default => Value::Null,
        syn::ReturnType::Type(_, t) => r(t.span()),
    };
    let wh = s.generics.where_clause.as_ref().map(|w| r(w.span()));
    let inputs: Vec<Value> = s
        .inputs
        .iter()
        .map(|i| match i {
            syn::FnArg::Receiver(x) => json!({"self": true, "span": r(x.span())}),
            syn::FnArg::Typed(t) => json!({"self": false, "span": r(t.span()), "pat": r(t.pat.span()), "ty": r(t.ty.span()),
                "name": match &*t.pat { syn::Pat::Ident(i) => json!(i.ident.to_string()), _ => Value::Null }}),
        })
        .collect();
    json!({"ret": ret, "where": wh, "inputs": inputs, "paren_end": s.paren_token.span.close().byte_range().end, "span": r(s.span())})
}

fn function(name: &str, id: String, span: Span, attrs: &[syn::Attribute], vis: Option<&syn::Visibility>, s: &syn::Signature, block: Option<&syn::Block>, extra: Value) -> Value {
    let mut b = Body::default();
    let mut sigp = Paths(vec![], vec![]);
    sigp.visit_signature(s);
    let mut params = vec![];
    for i in &s.inputs {
        if let syn::FnArg::Typed(t) = i {
            let mut pb = Body::default();
            pb.visit_pat(&t.pat);
            params.extend(pb.binds);
        }
    }
    let body = match block {
        Some(x) => {
            b.visit_block(x);
            json!({"span": r(x.span()), "stmts": stmts(x)})
        }
        None => Value::Null,
    };
    let _ = attrs;
    let start = s.span().byte_range().start;
    let vstart = vis.filter(|v| !matches!(v, syn::Visibility::Inherited)).map(|v| v.span().byte_range().start).unwrap_or(start);
    let mut paths = sigp.0;
    paths.extend(b.paths);
    b.stmts.sort();
    json!({"kind": "fn", "name": name, "id": id, "span": r(span), "sig_start": start, "vis_start": vstart, "sig": sig(s), "body": body, "params": params,
        "loops": b.loops, "calls": b.calls, "closures": b.closures, "macros": b.macros, "allstmts": b.stmts, "binds": b.binds, "returns": b.returns, "paths": paths,
        "ranges": b.ranges, "eqs": b.eqs, "tries": b.tries, "attrs": b.attrs, "ctx": extra})
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(x) => format!("&{}", ty_name(&x.elem)),
        syn::Type::Slice(x) => format!("[{}]", ty_name(&x.elem)),
        _ => t.to_token_string(),
    }
}

fn squeeze(t: &str) -> String {
    t.replace("'a ", "").replace(' ', "")
}

fn plain(kind: &str, id: String, span: Span, item: &syn::Item, start: usize) -> Value {
    let mut p = Paths(vec![], vec![]);
    p.visit_item(item);
    json!({"kind": kind, "id": id, "span": r(span), "start": start, "paths": p.0, "strip": p.1})
}

fn items(list: &[syn::Item], out: &mut Vec<Value>, skipped: &mut Vec<String>) {
    for i in list {
        match i {
            syn::Item::Fn(f) => {
                if !is_test(&f.attrs) {
                    let n = f.sig.ident.to_string();
                    out.push(function(&n, n.clone(), f.span(), &f.attrs, Some(&f.vis), &f.sig, Some(&f.block), Value::Null));
                }
            }
            syn::Item::Struct(s) => {
                if !is_test(&s.attrs) {
                    out.push(plain("struct", s.ident.to_string(), s.span(), i, s.struct_token.span().byte_range().start));
                }
            }
            syn::Item::Enum(s) => {
                if !is_test(&s.attrs) {
                    let vs: Vec<Value> = s.variants.iter().map(|v| json!({"name": v.ident.to_string(), "fields": v.fields.len(), "disc": v.discriminant.as_ref().map(|d| d.1.to_token_string())})).collect();
                    let mut x = plain("enum", s.ident.to_string(), s.span(), i, s.enum_token.span().byte_range().start);
                    x["variants"] = json!(vs);
                    out.push(x);
                }
            }
            syn::Item::Type(s) => out.push(plain("type", s.ident.to_string(), s.span(), i, s.type_token.span().byte_range().start)),
            syn::Item::Const(s) => out.push(plain("const", s.ident.to_string(), s.span(), i, s.const_token.span().byte_range().start)),
            syn::Item::Trait(t) => {
                let tn = t.ident.to_string();
                let mut methods = vec![];
                for m in &t.items {
                    match m {
                        syn::TraitItem::Fn(f) if !is_test(&f.attrs) => {
                            let n = f.sig.ident.to_string();
                            methods.push(json!(format!("{tn}::{n}")));
                            out.push(function(&n, format!("{tn}::{n}"), f.span(), &f.attrs, None, &f.sig, f.default.as_ref(), json!({"trait_def": tn})));
                        }
                        syn::TraitItem::Const(c) => {
                            let n = c.ident.to_string();
                            let end = c.ty.span().byte_range().end;
                            out.push(json!({"kind": "tconst", "id": format!("{tn}::{n}"), "span": r(c.span()), "start": c.const_token.span().byte_range().start, "decl_end": end,
                                "default": c.default.as_ref().map(|d| r(d.1.span()))}));
                            methods.push(json!(format!("{tn}::{n}")));
                        }
                        _ => {}
                    }
                }
                let mut p = Paths(vec![], vec![]);
                p.visit_generics(&t.generics);
                for b in &t.supertraits {
                    p.visit_type_param_bound(b);
                }
                out.push(json!({"kind": "trait", "id": tn, "span": r(t.span()), "start": t.trait_token.span().byte_range().start, "head_end": t.brace_token.span.open().byte_range().start,
                    "items": methods, "paths": p.0}));
            }
            syn::Item::Impl(im) => {
                if is_test(&im.attrs) {
                    continue;
                }
                let mut tn = ty_name(&im.self_ty);
                // `impl<'a> TryFrom<&'a A> for B<C>` is told from the same for `B<D>`
                let converts = im.trait_.as_ref().is_some_and(|t| ["From", "TryFrom"].contains(&t.1.segments.last().unwrap().ident.to_string().as_str()))
                    && im.generics.params.iter().all(|p| matches!(p, syn::GenericParam::Lifetime(_)));
                if (im.generics.params.is_empty() || converts) && matches!(&*im.self_ty, syn::Type::Path(p) if !p.path.segments.last().unwrap().arguments.is_empty()) {
                    tn = squeeze(&im.self_ty.to_token_string());
                }
                let tr = im.trait_.as_ref().map(|t| {
                    let s = t.1.segments.last().unwrap();
                    match s.ident.to_string().as_str() {
                        "From" | "TryFrom" => squeeze(&s.to_token_string()),
                        n => n.to_string(),
                    }
                });
                let mut p = Paths(vec![], vec![]);
                p.visit_generics(&im.generics);
                p.visit_type(&im.self_ty);
                if let Some(t) = &im.trait_ {
                    p.visit_path(&t.1);
                }
                let head = json!({"start": im.impl_token.span().byte_range().start, "end": im.brace_token.span.open().byte_range().start, "paths": p.0, "type": tn, "trait": tr});
                let base = match &tr {
                    Some(t) => format!("<{tn} as {t}>"),
                    None => tn.clone(),
                };
                for m in &im.items {
                    match m {
                        syn::ImplItem::Fn(f) if !is_test(&f.attrs) => {
                            let n = f.sig.ident.to_string();
                            out.push(function(&n, format!("{base}::{n}"), f.span(), &f.attrs, Some(&f.vis), &f.sig, Some(&f.block), head.clone()));
                        }
                        syn::ImplItem::Const(c) => {
                            out.push(json!({"kind": "iconst", "id": format!("{base}::{}", c.ident), "span": r(c.span()), "start": c.const_token.span().byte_range().start, "ctx": head}));
                        }
                        _ => {}
                    }
                }
            }
            syn::Item::Mod(m) => {
                if !is_test(&m.attrs) {
                    if let Some((_, l)) = &m.content {
                        items(l, out, skipped);
                    }
                }
            }
            syn::Item::Macro(m) => skipped.push(format!("macro {}", m.mac.path.segments.last().unwrap().ident)),
            _ => {}
        }
    }
    let _ = join;
}

fn main() {
    let mut all = Map::new();
    for f in std::env::args().skip(1) {
        let text = std::fs::read_to_string(&f).unwrap();
        match syn::parse_file(&text) {
            Ok(p) => {
                let mut out = vec![];
                let mut skipped = vec![];
                items(&p.items, &mut out, &mut skipped);
                all.insert(f, json!({"items": out, "skipped": skipped}));
            }
            Err(e) => {
                all.insert(f, json!({"error": e.to_string()}));
            }
        }
    }
    println!("{}", Value::Object(all));
}
