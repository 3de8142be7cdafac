//! Parses the Rust sources given on the command line and prints, as JSON, where every item,
//! function, loop, closure, call and local binding lies (byte offsets into the file).  It copies
//! nothing and decides nothing: /verif/vp uses these offsets to splice contracts into the text of
//! the functions, which is otherwise left as it is.
use serde_json::{json, Value};
use std::{env, fs};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn sp<S: Spanned>(s: &S) -> Value {
    let r = s.span().byte_range();
    json!([r.start, r.end])
}

#[derive(Default)]
struct Body {
    loops: Vec<Value>,
    stack: Vec<usize>,
    locals: Vec<Value>,
    calls: Vec<Value>,
    closures: Vec<Value>,
    macros: Vec<Value>,
    idents: Vec<Value>,
    conts: Vec<Value>,
    tails: Vec<Value>,
    stmts: usize,
    in_closure: usize,
    rets: usize,
    unsafes: usize,
    ifs: usize,
    matches: usize,
    stmt: Vec<[usize; 2]>,
}

/// does this block end in an unlabelled `continue`?
fn ends_continue(b: &syn::Block) -> bool {
    match b.stmts.last() {
        Some(syn::Stmt::Expr(syn::Expr::Continue(c), _)) => c.label.is_none(),
        _ => false,
    }
}
/// `continue`s after which the loop body has nothing left to run
fn tails_block(b: &syn::Block, out: &mut Vec<Value>) {
    // `if c { ..; continue; } rest`  is  `if c { ..; } else { rest }`
    for (n, st) in b.stmts.iter().enumerate() {
        if n + 1 == b.stmts.len() {
            break;
        }
        if let syn::Stmt::Expr(syn::Expr::If(i), None) = st {
            if i.else_branch.is_none() && ends_continue(&i.then_branch) {
                tails_block(&i.then_branch, out);
                let close = b.brace_token.span.close().byte_range().start;
                let end = sp(i);
                out.push(json!({"guard": [end[1], close]}));
            }
        }
    }
    match b.stmts.last() {
        Some(syn::Stmt::Expr(e, _)) => tails_expr(e, out),
        _ => {}
    }
}
fn tails_expr(e: &syn::Expr, out: &mut Vec<Value>) {
    match e {
        syn::Expr::Continue(c) if c.label.is_none() => out.push(sp(c)),
        syn::Expr::If(i) => {
            tails_block(&i.then_branch, out);
            if let Some((_, x)) = &i.else_branch {
                tails_expr(x, out);
            }
        }
        syn::Expr::Match(m) => m.arms.iter().for_each(|a| tails_expr(&a.body, out)),
        syn::Expr::Block(b) if b.label.is_none() => tails_block(&b.block, out),
        _ => {}
    }
}

impl Body {
    fn here(&self) -> Value {
        match self.stack.last() {
            Some(k) => json!(k),
            None => Value::Null,
        }
    }
    fn pat(&mut self, p: &syn::Pat) {
        struct P<'a>(&'a mut Body);
        impl<'a, 'ast> Visit<'ast> for P<'a> {
            fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
                let h = self.0.here();
                let c = self.0.in_closure > 0;
                self.0
                    .locals
                    .push(json!({"name": i.ident.to_string(), "loop": h, "span": sp(&i.ident), "closure": c}));
                visit::visit_pat_ident(self, i);
            }
        }
        P(self).visit_pat(p);
    }
    fn push_loop(&mut self, kind: &str, whole: Value, pat: Value, expr: Value, body: &syn::Block, label: Value, extra: Value) -> usize {
        let k = self.loops.len();
        let open = body.brace_token.span.open().byte_range();
        let close = body.brace_token.span.close().byte_range();
        let parent = self.here();
        if kind == "for" {
            tails_block(body, &mut self.tails);
        }
        self.loops.push(json!({"k": k, "kind": kind, "span": whole, "pat": pat, "expr": expr,
            "open": open.start, "close": close.start, "parent": parent, "label": label, "extra": extra,
            "closure": self.in_closure > 0}));
        k
    }
}

impl<'ast> Visit<'ast> for Body {
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        self.visit_expr(&f.expr);
        let extra = if let syn::Expr::Range(r) = &*f.expr {
            json!({"lo": r.start.as_ref().map(|e| sp(e)), "hi": r.end.as_ref().map(|e| sp(e)),
                   "closed": matches!(r.limits, syn::RangeLimits::Closed(_))})
        } else {
            Value::Null
        };
        let k = self.push_loop("for", sp(f), sp(&*f.pat), sp(&*f.expr), &f.body,
            f.label.as_ref().map(|l| json!(l.name.ident.to_string())).unwrap_or(Value::Null), extra);
        self.stack.push(k);
        self.pat(&f.pat);
        self.visit_block(&f.body);
        self.stack.pop();
    }
    fn visit_expr_while(&mut self, f: &'ast syn::ExprWhile) {
        let k = self.push_loop("while", sp(f), Value::Null, sp(&*f.cond), &f.body,
            f.label.as_ref().map(|l| json!(l.name.ident.to_string())).unwrap_or(Value::Null), Value::Null);
        self.stack.push(k);
        self.visit_expr(&f.cond);
        self.visit_block(&f.body);
        self.stack.pop();
    }
    fn visit_expr_loop(&mut self, f: &'ast syn::ExprLoop) {
        let k = self.push_loop("loop", sp(f), Value::Null, Value::Null, &f.body,
            f.label.as_ref().map(|l| json!(l.name.ident.to_string())).unwrap_or(Value::Null), Value::Null);
        self.stack.push(k);
        self.visit_block(&f.body);
        self.stack.pop();
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let Some(i) = &l.init {
            self.visit_expr(&i.expr);
            if let Some((_, d)) = &i.diverge {
                self.visit_expr(d);
            }
        }
        self.pat(&l.pat);
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        self.pat(&a.pat);
        if let Some((_, g)) = &a.guard {
            self.visit_expr(g);
        }
        self.visit_expr(&a.body);
    }
    fn visit_expr_let(&mut self, l: &'ast syn::ExprLet) {
        self.visit_expr(&l.expr);
        self.pat(&l.pat);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let k = self.closures.len();
        let inputs: Vec<Value> = c.inputs.iter().map(|p| sp(p)).collect();
        let ret = match &c.output {
            syn::ReturnType::Default => Value::Null,
            syn::ReturnType::Type(_, t) => sp(&**t),
        };
        let h = self.here();
        self.closures.push(json!({"k": k, "span": sp(c), "inputs": inputs, "ret": ret, "body": sp(&*c.body),
            "block": matches!(*c.body, syn::Expr::Block(_)), "loop": h}));
        self.in_closure += 1;
        for p in &c.inputs {
            self.pat(p);
        }
        self.visit_expr(&c.body);
        self.in_closure -= 1;
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let args: Vec<Value> = c.args.iter().map(|a| sp(a)).collect();
            let h = self.here();
            self.calls.push(json!({"path": segs, "span": sp(c), "fspan": sp(&*c.func), "args": args, "loop": h, "stmt": self.stmt.last()}));
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
        let args: Vec<Value> = c.args.iter().map(|a| sp(a)).collect();
        let h = self.here();
        self.calls.push(json!({"method": c.method.to_string(), "span": sp(c), "recv": sp(&*c.receiver),
            "mspan": sp(&c.method), "args": args, "loop": h, "stmt": self.stmt.last()}));
        visit::visit_expr_method_call(self, c);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        self.macros.push(json!({"name": name, "span": sp(m)}));
        // look inside the macros whose arguments are plain expressions
        if let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
            // parsed clones live only here, so visit them with a fresh borrow
            let v: Vec<syn::Expr> = args.into_iter().collect();
            let mut sub = Body::default();
            for e in &v {
                sub.visit_expr(e);
            }
            self.calls.extend(sub.calls);
            self.idents.extend(sub.idents);
        }
    }
    fn visit_expr_continue(&mut self, c: &'ast syn::ExprContinue) {
        let h = self.here();
        self.conts.push(json!({"loop": h, "span": sp(c)}));
    }
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        self.rets += 1;
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_unsafe(&mut self, u: &'ast syn::ExprUnsafe) {
        self.unsafes += 1;
        visit::visit_expr_unsafe(self, u);
    }
    fn visit_expr_if(&mut self, u: &'ast syn::ExprIf) {
        self.ifs += 1;
        visit::visit_expr_if(self, u);
    }
    fn visit_expr_match(&mut self, u: &'ast syn::ExprMatch) {
        self.matches += 1;
        visit::visit_expr_match(self, u);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if p.path.segments.len() == 1 {
            let s = &p.path.segments[0];
            self.idents.push(json!([s.ident.to_string(), s.ident.span().byte_range().start]));
        }
        visit::visit_expr_path(self, p);
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        self.stmts += 1;
        let r = s.span().byte_range();
        self.stmt.push([r.start, r.end]);
        visit::visit_stmt(self, s);
        self.stmt.pop();
    }
}

struct File {
    fns: Vec<Value>,
    items: Vec<Value>,
    calls: usize,
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_name(&r.elem),
        _ => "?".into(),
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg") && a.meta.require_list().map(|l| l.tokens.to_string().contains("test")).unwrap_or(false))
    })
}

impl File {
    fn func(&mut self, whole: Value, attrs: &[syn::Attribute], vis: Value, sig: &syn::Signature, block: &syn::Block, imp: Value, src: &str) {
        if is_test(attrs) {
            return;
        }
        let mut b = Body::default();
        let mut params = vec![];
        for i in &sig.inputs {
            match i {
                syn::FnArg::Receiver(r) => {
                    let typed = r.colon_token.is_some();
                    params.push(json!({"name": "self", "span": sp(r), "self": true, "typed": typed, "ty": if typed { sp(&*r.ty) } else { Value::Null },
                        "kw": sp(&r.self_token), "tyname": if typed { ty_name(&r.ty) } else { String::new() }}));
                }
                syn::FnArg::Typed(t) => {
                    let name = match &*t.pat {
                        syn::Pat::Ident(i) => i.ident.to_string(),
                        _ => "?".into(),
                    };
                    params.push(json!({"name": name, "span": sp(t), "ty": sp(&*t.ty), "pat": sp(&*t.pat), "tyname": ty_name(&t.ty)}));
                }
            }
        }
        b.visit_block(block);
        let attr_txt: Vec<String> = attrs
            .iter()
            .filter(|a| !a.path().is_ident("doc"))
            .map(|a| src[a.span().byte_range()].to_string())
            .collect();
        let ret = match &sig.output {
            syn::ReturnType::Default => Value::Null,
            syn::ReturnType::Type(_, t) => sp(&**t),
        };
        let wh = match &sig.generics.where_clause {
            Some(w) => sp(w),
            None => Value::Null,
        };
        let close = block.brace_token.span.close().byte_range();
        let open = block.brace_token.span.open().byte_range();
        let tail = match block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) => sp(e),
            _ => Value::Null,
        };
        let top: Vec<Value> = block.stmts.iter().map(|s| sp(s)).collect();
        self.fns.push(json!({
            "name": sig.ident.to_string(), "nspan": sp(&sig.ident), "whole": whole, "vis": vis, "attrs": attr_txt,
            "fn_token": sp(&sig.fn_token), "generics": if sig.generics.params.is_empty() { Value::Null } else { json!([sig.generics.span().byte_range().start, sig.generics.span().byte_range().end]) },
            "paren": [sig.paren_token.span.open().byte_range().start, sig.paren_token.span.close().byte_range().end],
            "params": params, "ret": ret, "where": wh, "open": open.start, "close": close.start, "impl": imp, "tail": tail, "top": top,
            "loops": b.loops, "locals": b.locals, "calls": b.calls, "closures": b.closures, "macros": b.macros,
            "idents": b.idents, "conts": b.conts, "tails": b.tails, "stmts": b.stmts, "rets": b.rets, "unsafes": b.unsafes,
            "ifs": b.ifs, "matches": b.matches,
        }));
    }

    fn items(&mut self, items: &[syn::Item], src: &str) {
        for it in items {
            match it {
                syn::Item::Fn(f) => {
                    self.func(sp(f), &f.attrs, sp(&f.vis), &f.sig, &f.block, Value::Null, src);
                }
                syn::Item::Impl(im) => {
                    if is_test(&im.attrs) {
                        continue;
                    }
                    let n = self.calls;
                    self.calls += 1;
                    let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    let imv = json!({"n": n, "ty": ty_name(&im.self_ty), "tyspan": sp(&*im.self_ty), "trait": tr,
                        "head": [im.impl_token.span.byte_range().start, im.brace_token.span.open().byte_range().start],
                        "generics": if im.generics.params.is_empty() { Value::Null } else { json!([im.generics.span().byte_range().start, im.generics.span().byte_range().end]) },
                        "trspan": im.trait_.as_ref().map(|(_, p, _)| sp(p))});
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            self.func(sp(f), &f.attrs, sp(&f.vis), &f.sig, &f.block, imv.clone(), src);
                        }
                    }
                }
                syn::Item::Struct(s) => {
                    self.items.push(json!({"kind": "struct", "name": s.ident.to_string(), "span": sp(s)}));
                }
                syn::Item::Enum(s) => {
                    self.items.push(json!({"kind": "enum", "name": s.ident.to_string(), "span": sp(s)}));
                }
                syn::Item::Type(s) => {
                    self.items.push(json!({"kind": "type", "name": s.ident.to_string(), "span": sp(s)}));
                }
                syn::Item::Const(s) => {
                    self.items.push(json!({"kind": "const", "name": s.ident.to_string(), "span": sp(s)}));
                }
                syn::Item::Trait(t) => {
                    self.items.push(json!({"kind": "trait", "name": t.ident.to_string(), "span": sp(t)}));
                    // default methods
                    let n = self.calls;
                    self.calls += 1;
                    let imv = json!({"n": n, "ty": t.ident.to_string(), "tyspan": sp(&t.ident), "trait": "trait",
                        "head": [t.trait_token.span.byte_range().start, t.brace_token.span.open().byte_range().start],
                        "generics": Value::Null, "trspan": Value::Null});
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            if let Some(b) = &f.default {
                                self.func(sp(f), &f.attrs, Value::Null, &f.sig, b, imv.clone(), src);
                            }
                        }
                    }
                }
                syn::Item::Macro(m) => {
                    self.items.push(json!({"kind": "macro", "name": m.ident.as_ref().map(|i| i.to_string()), "span": sp(m)}));
                }
                syn::Item::Mod(m) => {
                    if is_test(&m.attrs) {
                        continue;
                    }
                    if let Some((_, its)) = &m.content {
                        self.items(its, src);
                    }
                }
                _ => {}
            }
        }
    }
}

fn main() {
    let mut out = serde_json::Map::new();
    for path in env::args().skip(1) {
        let src = fs::read_to_string(&path).unwrap_or_else(|e| {
            eprintln!("extract: {}: {}", path, e);
            std::process::exit(3)
        });
        match syn::parse_file(&src) {
            Ok(f) => {
                let mut fl = File { fns: vec![], items: vec![], calls: 0 };
                fl.items(&f.items, &src);
                out.insert(path, json!({"fns": fl.fns, "items": fl.items}));
            }
            Err(e) => {
                out.insert(path, json!({"error": e.to_string()}));
            }
        }
    }
    println!("{}", Value::Object(out));
}
