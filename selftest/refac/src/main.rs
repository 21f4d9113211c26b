//! Development aid: apply one behaviour-preserving rewrite everywhere it fits.
//! refac T FILE EXCLUDES      rewrites FILE in place (functions named in EXCLUDES are left alone), prints the number of sites
//! refac where FILE LINE..    prints the keys of the functions at the given lines
use proc_macro2::Span;
use quote::{ToTokens, quote};
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct R {
    t: String,
    ex: HashSet<String>,
    owner: Vec<String>,
    n: usize,
    /// kind of the innermost callable: return type is Result / is a closure
    ret: Vec<Option<String>>,
    uid: usize,
    used: HashSet<String>,
    cur: String,
}

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn has_cfg_test(a: &[Attribute]) -> bool {
    a.iter().any(|x| toks(x).contains("test"))
}

#[derive(Default)]
struct Scan {
    ctl: bool,
    q: bool,
    ret: bool,
    lets: bool,
    aw: bool,
    depth: usize,
}
impl<'a> Visit<'a> for Scan {
    fn visit_expr_break(&mut self, e: &'a ExprBreak) {
        if self.depth == 0 || e.label.is_some() {
            self.ctl = true
        }
        visit::visit_expr_break(self, e)
    }
    fn visit_expr_continue(&mut self, e: &'a ExprContinue) {
        if self.depth == 0 || e.label.is_some() {
            self.ctl = true
        }
    }
    fn visit_expr_for_loop(&mut self, e: &'a ExprForLoop) {
        self.visit_expr(&e.expr);
        self.depth += 1;
        self.visit_block(&e.body);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, e: &'a ExprWhile) {
        self.visit_expr(&e.cond);
        self.depth += 1;
        self.visit_block(&e.body);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, e: &'a ExprLoop) {
        self.depth += 1;
        self.visit_block(&e.body);
        self.depth -= 1;
    }
    fn visit_expr_return(&mut self, e: &'a ExprReturn) {
        self.ret = true;
        visit::visit_expr_return(self, e)
    }
    fn visit_expr_try(&mut self, e: &'a ExprTry) {
        self.q = true;
        visit::visit_expr_try(self, e)
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_let(&mut self, e: &'a ExprLet) {
        self.lets = true;
        visit::visit_expr_let(self, e)
    }
}
fn scan_e(e: &Expr) -> Scan {
    let mut s = Scan::default();
    s.visit_expr(e);
    s
}
fn scan_b(e: &Block) -> Scan {
    let mut s = Scan::default();
    s.visit_block(e);
    s
}

fn idents(ts: proc_macro2::TokenStream, o: &mut HashSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), o),
            proc_macro2::TokenTree::Ident(i) => {
                o.insert(i.to_string());
            }
            _ => {}
        }
    }
}
fn ids<T: ToTokens>(t: &T) -> HashSet<String> {
    let mut o = HashSet::new();
    idents(t.to_token_stream(), &mut o);
    o
}

fn not(c: &Expr) -> Expr {
    if let Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) = c {
        let e = expr.clone();
        return *e;
    }
    let c = strip(c);
    parse_quote!(!(#c))
}
fn strip(c: &Expr) -> &Expr {
    match c {
        Expr::Paren(p) => strip(&p.expr),
        _ => c,
    }
}
fn block(e: &Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block.clone(),
        e => parse_quote!({ #e }),
    }
}
fn some_pat(p: &Pat) -> Option<(String, Pat)> {
    if let Pat::TupleStruct(t) = p {
        let n = t.path.segments.last()?.ident.to_string();
        if t.elems.len() == 1 && ["Some", "Ok", "Err"].contains(&n.as_str()) {
            return Some((n, t.elems[0].clone()));
        }
    }
    None
}
fn is_none_pat(p: &Pat) -> bool {
    toks(p) == "None"
}
fn simple(p: &Pat) -> bool {
    matches!(p, Pat::Ident(_) | Pat::Wild(_) | Pat::Tuple(_) | Pat::Reference(_))
}

impl R {
    fn fresh(&mut self, s: &str) -> Ident {
        self.uid += 1;
        Ident::new(&format!("{s}_{}", self.uid), Span::call_site())
    }
    fn in_result(&self) -> bool {
        self.ret.last().is_some_and(|r| r.as_deref().is_some_and(|x| x.starts_with("Result") || x.contains(":: Result")|| x.starts_with("PyResult")))
    }
    fn hit(&mut self) {
        self.n += 1;
        self.used.insert(self.cur.clone());
    }

    fn stmts(&mut self, b: &mut Block, in_loop: bool, fn_body: bool) {
        let t = self.t.clone();
        match t.as_str() {
            "letelse-continue" | "if-continue" if in_loop => {
                if let Some(Stmt::Expr(Expr::If(i), _)) = b.stmts.last().cloned() {
                    if i.else_branch.is_some() {
                        return;
                    }
                    let then = i.then_branch.stmts.clone();
                    match strip(&i.cond) {
                        Expr::Let(l) if t == "letelse-continue" => {
                            if some_pat(&l.pat).is_none() {
                                return;
                            }
                            let (p, e) = (&l.pat, &l.expr);
                            b.stmts.pop();
                            b.stmts.push(parse_quote!(let #p = #e else { continue; };));
                            b.stmts.extend(then);
                            self.hit();
                        }
                        c if t == "if-continue" => {
                            let mut s = Scan::default();
                            s.visit_expr(c);
                            if s.lets {
                                return;
                            }
                            let nc = not(c);
                            b.stmts.pop();
                            b.stmts.push(parse_quote!(if #nc { continue; }));
                            b.stmts.extend(then);
                            self.hit();
                        }
                        _ => {}
                    }
                }
            }
            "earlyret" if fn_body => {
                if let Some(Stmt::Expr(Expr::If(i), None)) = b.stmts.last().cloned() {
                    if let Some((_, els)) = &i.else_branch {
                        let mut then = i.then_branch.clone();
                        match then.stmts.pop() {
                            Some(Stmt::Expr(e, None)) => then.stmts.push(Stmt::Expr(parse_quote!(return #e), Some(Default::default()))),
                            Some(s) => then.stmts.push(s),
                            None => {}
                        }
                        let c = &i.cond;
                        b.stmts.pop();
                        b.stmts.push(parse_quote!(if #c #then));
                        if let Expr::Block(e) = &**els {
                            b.stmts.extend(e.block.stmts.clone());
                        } else {
                            b.stmts.push(Stmt::Expr((**els).clone(), None));
                        }
                        self.hit();
                    }
                }
            }
            "explicitret" if fn_body => {
                if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
                    if !matches!(e, Expr::Return(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
                        b.stmts.pop();
                        b.stmts.push(Stmt::Expr(parse_quote!(return #e), Some(Default::default())));
                        self.hit();
                    }
                }
            }
            "lettail" if fn_body => {
                if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
                    if !matches!(e, Expr::Return(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Path(_)) {
                        let v = self.fresh("result");
                        b.stmts.pop();
                        b.stmts.push(parse_quote!(let #v = #e;));
                        b.stmts.push(Stmt::Expr(parse_quote!(#v), None));
                        self.hit();
                    }
                }
            }
            "deferlet" => {
                let old = std::mem::take(&mut b.stmts);
                for s in old {
                    if let Stmt::Local(l) = &s {
                        if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                            if let (Expr::If(i), None, None) = (&*init.expr, &init.diverge, &p.by_ref) {
                                if let Some((_, els)) = &i.else_branch {
                                    let id = &p.ident;
                                    let asg = |b: &Block| -> Option<Block> {
                                        let mut b = b.clone();
                                        match b.stmts.pop() {
                                            Some(Stmt::Expr(e, None)) => b.stmts.push(parse_quote!(#id = #e;)),
                                            Some(s) => b.stmts.push(s),
                                            None => return None,
                                        }
                                        Some(b)
                                    };
                                    if let (Some(a), Expr::Block(eb)) = (asg(&i.then_branch), &**els) {
                                        if let Some(bb) = asg(&eb.block) {
                                            let c = &i.cond;
                                            b.stmts.push(parse_quote!(let #p;));
                                            b.stmts.push(parse_quote!(if #c #a else #bb));
                                            self.hit();
                                            continue;
                                        }
                                    }
                                }
                            }
                        }
                    }
                    b.stmts.push(s);
                }
            }
            "hoist" => {
                let old = std::mem::take(&mut b.stmts);
                for mut s in old {
                    let mut pre: Vec<Stmt> = vec![];
                    {
                        let e: Option<&mut Expr> = match &mut s {
                            Stmt::Expr(e, _) => Some(e),
                            Stmt::Local(l) => l.init.as_mut().map(|i| &mut *i.expr),
                            _ => None,
                        };
                        if let Some(e) = e {
                            self.hoist(e, &mut pre);
                        }
                    }
                    b.stmts.extend(pre);
                    b.stmts.push(s);
                }
            }
            "swaplets" => {
                let n = b.stmts.len();
                let mut i = 0;
                while i + 1 < n {
                    let ok = match (&b.stmts[i], &b.stmts[i + 1]) {
                        (Stmt::Local(x), Stmt::Local(y)) => {
                            let (px, py) = (ids(&x.pat), ids(&y.pat));
                            let (ex, ey) = (x.init.as_ref().map(|e| ids(&e.expr)).unwrap_or_default(), y.init.as_ref().map(|e| ids(&e.expr)).unwrap_or_default());
                            let m = |s: &HashSet<String>| s.iter().any(|z| z == "mut" || z.ends_with("_mut") || z == "next" || z == "push" || z == "add" || z.starts_with("add_") || z == "pop" || z == "now" || z == "take");
                            let q = |l: &Local| l.init.as_ref().is_some_and(|e| e.diverge.is_some() || scan_e(&e.expr).q || scan_e(&e.expr).ret);
                            px.is_disjoint(&ey) && py.is_disjoint(&ex) && px.is_disjoint(&py) && !m(&ex) && !m(&ey) && !(q(x) || q(y)) && x.init.is_some() && y.init.is_some()
                        }
                        _ => false,
                    };
                    if ok {
                        b.stmts.swap(i, i + 1);
                        self.hit();
                        i += 2;
                    } else {
                        i += 1;
                    }
                }
            }
            "collectloop" => {
                let old = std::mem::take(&mut b.stmts);
                for s in old {
                    if let Stmt::Local(l) = &s {
                        if let Some(init) = &l.init {
                            let ty = if let Pat::Type(p) = &l.pat { toks(&p.ty) } else { String::new() };
                            let pat = if let Pat::Type(p) = &l.pat { (*p.pat).clone() } else { l.pat.clone() };
                            let mut e = strip(&init.expr);
                            let mut q = false;
                            if let Expr::Try(t) = e {
                                e = &t.expr;
                                q = true;
                            }
                            if let (Expr::MethodCall(c), None) = (e, &init.diverge) {
                                let tf = c.turbofish.as_ref().map(toks).unwrap_or_default();
                                let vecty = if q { tf.contains("Vec") } else { tf.starts_with(":: < Vec") || (ty.starts_with("Vec") && tf.is_empty()) };
                                if c.method == "collect" && vecty {
                                    if let Expr::MethodCall(m) = &*c.receiver {
                                        if m.method == "map" {
                                            if let Expr::Closure(cl) = &m.args[0] {
                                                let sc = scan_e(&cl.body);
                                                if !sc.ret && (!sc.q) && cl.inputs.len() == 1 {
                                                    let (it, p, body) = (&m.receiver, &cl.inputs[0], &cl.body);
                                                    let p2 = if let Pat::Type(p) = p { &*p.pat } else { p };
                                                    let v = self.fresh("items");
                                                    b.stmts.push(parse_quote!(let mut #v = Vec::new();));
                                                    if q {
                                                        b.stmts.push(parse_quote!(for #p2 in #it { let item = #body; #v.push(item?); }));
                                                    } else {
                                                        b.stmts.push(parse_quote!(for #p2 in #it { #v.push(#body); }));
                                                    }
                                                    if ty.is_empty() {
                                                        b.stmts.push(parse_quote!(let #pat = #v;));
                                                    } else {
                                                        let t: Type = if let Pat::Type(p) = &l.pat { (*p.ty).clone() } else { unreachable!() };
                                                        b.stmts.push(parse_quote!(let #pat: #t = #v;));
                                                    }
                                                    self.hit();
                                                    continue;
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    b.stmts.push(s);
                }
            }
            _ => {}
        }
    }

    /// move arguments that are calls into `let`s before the statement (outermost call of the statement only)
    fn hoist(&mut self, e: &mut Expr, pre: &mut Vec<Stmt>) {
        match e {
            Expr::Try(t) => self.hoist(&mut t.expr, pre),
            Expr::MethodCall(m) => {
                // the receiver must not be affected
                let rc = ids(&m.receiver);
                if rc.iter().any(|x| x.ends_with("_mut")) || matches!(*m.receiver, Expr::MethodCall(_) | Expr::Try(_) | Expr::Call(_)) {
                    return;
                }
                for a in m.args.iter_mut() {
                    self.hoist_arg(a, pre)
                }
            }
            Expr::Call(c) => {
                for a in c.args.iter_mut() {
                    self.hoist_arg(a, pre)
                }
            }
            Expr::Struct(s) => {
                for f in s.fields.iter_mut() {
                    if f.colon_token.is_some() {
                        self.hoist_arg(&mut f.expr, pre)
                    }
                }
            }
            _ => {}
        }
    }
    fn hoist_arg(&mut self, a: &mut Expr, pre: &mut Vec<Stmt>) {
        let ok = match a {
            Expr::Call(_) | Expr::Try(_) | Expr::Binary(_) => true,
            Expr::MethodCall(m) => !m.method.to_string().ends_with("_mut"),
            _ => false,
        };
        if ok {
            let v = self.fresh("arg");
            pre.push(parse_quote!(let #v = #a;));
            *a = parse_quote!(#v);
            self.hit();
        }
    }

    fn expr(&mut self, e: &mut Expr) {
        let t = self.t.clone();
        match t.as_str() {
            "negif" => {
                if let Expr::If(i) = e {
                    if let Some((_, els)) = &i.else_branch {
                        let mut s = Scan::default();
                        s.visit_expr(&i.cond);
                        if !s.lets {
                            let c = not(&i.cond);
                            let (a, b) = (&i.then_branch, block(els));
                            *e = parse_quote!(if #c #b else #a);
                            self.hit();
                        }
                    }
                }
            }
            "matchbool" => {
                if let Expr::If(i) = e {
                    if let Some((_, els)) = &i.else_branch {
                        let mut s = Scan::default();
                        s.visit_expr(&i.cond);
                        if !s.lets {
                            let (c, a, b) = (strip(&i.cond), &i.then_branch, block(els));
                            *e = parse_quote!(match #c { true => #a, false => #b });
                            self.hit();
                        }
                    }
                }
            }
            "iflet2match" => {
                if let Expr::If(i) = e {
                    if let Expr::Let(l) = &*i.cond {
                        let els = i.else_branch.as_ref().map(|x| block(&x.1)).unwrap_or(parse_quote!({}));
                        let (p, x, a) = (&l.pat, &l.expr, &i.then_branch);
                        let k = some_pat(p).map(|k| k.0);
                        let w: Pat = match k.as_deref() {
                            Some("Some") => parse_quote!(None),
                            Some("Ok") => parse_quote!(Err(_)),
                            _ => parse_quote!(_),
                        };
                        let w = if some_pat(p).is_some_and(|k| simple(&k.1)) { w } else { parse_quote!(_) };
                        *e = parse_quote!(match #x { #p => #a, #w => #els });
                        self.hit();
                    }
                }
            }
            "match2iflet" => {
                if let Expr::Match(m) = e {
                    if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) {
                        let (i, j) = if some_pat(&m.arms[0].pat).is_some_and(|k| k.0 != "Err") { (0, 1) } else { (1, 0) };
                        if some_pat(&m.arms[i].pat).is_some_and(|k| k.0 == "Some") && (is_none_pat(&m.arms[j].pat) || toks(&m.arms[j].pat) == "_") {
                            let (p, x, a, b) = (&m.arms[i].pat, &m.expr, block(&m.arms[i].body), block(&m.arms[j].body));
                            *e = parse_quote!(if let #p = #x #a else #b);
                            self.hit();
                        }
                    }
                }
            }
            "armswap" => {
                if let Expr::Match(m) = e {
                    let ok = m.arms.iter().all(|a| a.guard.is_none() && matches!(&a.pat, Pat::TupleStruct(_) | Pat::Struct(_) | Pat::Path(_) | Pat::Ident(_) | Pat::Or(_) | Pat::Lit(_)) && a.attrs.is_empty())
                        && m.arms.iter().all(|a| !matches!(&a.pat, Pat::Ident(p) if p.ident.to_string().chars().next().unwrap().is_lowercase()));
                    let mut hs = HashSet::new();
                    let dis = m.arms.iter().all(|a| match &a.pat {
                        Pat::TupleStruct(p) => hs.insert(toks(&p.path)),
                        Pat::Struct(p) => hs.insert(toks(&p.path)),
                        p => hs.insert(toks(p)),
                    });
                    if ok && dis && m.arms.len() > 1 {
                        m.arms.reverse();
                        for a in m.arms.iter_mut() {
                            let b = block(&a.body);
                            a.body = parse_quote!(#b);
                            a.comma = None;
                        }
                        self.hit();
                    }
                }
            }
            "try2match" => {
                if let Expr::Try(x) = e {
                    if self.in_result() {
                        let i = &x.expr;
                        *e = parse_quote!(match #i { Ok(value) => value, Err(error) => return Err(error.into()) });
                        self.hit();
                    }
                }
            }
            "okor2match" => {
                if let Expr::Try(x) = e {
                    if let Expr::MethodCall(m) = strip(&x.expr) {
                        if self.in_result() && (m.method == "ok_or" || m.method == "ok_or_else") {
                            let i = &m.receiver;
                            let er: Expr = if m.method == "ok_or" {
                                m.args[0].clone()
                            } else if let Expr::Closure(c) = &m.args[0] {
                                (*c.body).clone()
                            } else {
                                let a = &m.args[0];
                                parse_quote!((#a)())
                            };
                            *e = parse_quote!(match #i { Some(value) => value, None => { return Err((#er).into()); } });
                            self.hit();
                        }
                    }
                }
            }
            "maperr2match" => {
                if let Expr::Try(x) = e {
                    if let Expr::MethodCall(m) = strip(&x.expr) {
                        if self.in_result() && m.method == "map_err" {
                            if let Expr::Closure(c) = &m.args[0] {
                                let (i, p, er) = (&m.receiver, &c.inputs[0], &c.body);
                                let p2 = if let Pat::Type(p) = p { &*p.pat } else { p };
                                *e = parse_quote!(match #i { Ok(value) => value, Err(#p2) => { return Err((#er).into()); } });
                                self.hit();
                            }
                        }
                    }
                }
            }
            "optmap2match" => {
                if let Expr::MethodCall(m) = e {
                    if m.method == "map" && m.args.len() == 1 {
                        if let Expr::Closure(c) = &m.args[0] {
                            if c.inputs.len() == 1 && !scan_e(&c.body).ret && !scan_e(&c.body).q {
                                let (i, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                                let p2 = if let Pat::Type(p) = p { &*p.pat } else { p };
                                *e = parse_quote!((match #i { Some(#p2) => Some(#b), None => None }));
                                self.hit();
                            }
                        }
                    }
                }
            }
            "unwrapor2match" => {
                if let Expr::MethodCall(m) = e {
                    if m.method == "unwrap_or" && m.args.len() == 1 {
                        let (i, b) = (&m.receiver, &m.args[0]);
                        *e = parse_quote!((match #i { Some(value) => value, None => #b }));
                        self.hit();
                    }
                }
            }
            "transpose" => {
                // x.map(|p| f).transpose()?  ->  match x { Some(p) => Some(f?), None => None }
                if let Expr::Try(x) = e {
                    if let Expr::MethodCall(m) = strip(&x.expr) {
                        if m.method == "transpose" {
                            if let Expr::MethodCall(m) = strip(&m.receiver) {
                                if m.method == "map" {
                                    if let Expr::Closure(c) = &m.args[0] {
                                        if !scan_e(&c.body).ret && !scan_e(&c.body).q {
                                            let (i, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                                            *e = parse_quote!((match #i { Some(#p) => Some(#b?), None => None }));
                                            self.hit();
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            "issome" => {
                if let Expr::MethodCall(m) = e {
                    let p: Option<Pat> = match m.method.to_string().as_str() {
                        "is_some" => Some(parse_quote!(Some(_))),
                        "is_none" => Some(parse_quote!(None)),
                        _ => None,
                    };
                    if let Some(p) = p {
                        let r = &m.receiver;
                        *e = parse_quote!((matches!(#r, #p)));
                        self.hit();
                    }
                }
            }
            "commute" => {
                if let Expr::Binary(b) = e {
                    let sw: Option<BinOp> = match b.op {
                        BinOp::Add(x) => Some(BinOp::Add(x)),
                        BinOp::Mul(x) => Some(BinOp::Mul(x)),
                        BinOp::Eq(x) => Some(BinOp::Eq(x)),
                        BinOp::Ne(x) => Some(BinOp::Ne(x)),
                        BinOp::Lt(_) => Some(BinOp::Gt(Default::default())),
                        BinOp::Gt(_) => Some(BinOp::Lt(Default::default())),
                        BinOp::Le(_) => Some(BinOp::Ge(Default::default())),
                        BinOp::Ge(_) => Some(BinOp::Le(Default::default())),
                        _ => None,
                    };
                    if let Some(op) = sw {
                        let (l, r) = (&b.left, &b.right);
                        *e = parse_quote!((#r) #op (#l));
                        self.hit();
                    }
                }
            }
            "opassign" => {
                if let Expr::Binary(b) = e {
                    let op: Option<BinOp> = match b.op {
                        BinOp::AddAssign(_) => Some(BinOp::Add(Default::default())),
                        BinOp::SubAssign(_) => Some(BinOp::Sub(Default::default())),
                        BinOp::MulAssign(_) => Some(BinOp::Mul(Default::default())),
                        BinOp::DivAssign(_) => Some(BinOp::Div(Default::default())),
                        _ => None,
                    };
                    if let Some(op) = op {
                        let (l, r) = (&b.left, &b.right);
                        *e = parse_quote!(#l = #l #op (#r));
                        self.hit();
                    }
                }
            }
            "foreach" => {
                if let Expr::ForLoop(f) = e {
                    let s = scan_b(&f.body);
                    if f.label.is_none() && !s.ctl && !s.q && !s.ret {
                        let (p, it, b) = (&f.pat, &f.expr, &f.body);
                        *e = parse_quote!((#it).into_iter().for_each(|#p| #b));
                        self.hit();
                    }
                }
            }
            "whilelet" => {
                if let Expr::ForLoop(f) = e {
                    if f.label.is_none() {
                        let v = self.fresh("iter");
                        let (p, it, b) = (&f.pat, &f.expr, &f.body);
                        *e = parse_quote!({ let mut #v = (#it).into_iter(); while let Some(#p) = #v.next() #b });
                        self.hit();
                    }
                }
            }
            "enumer" => {
                if let Expr::ForLoop(f) = e {
                    let (p, it, b, l) = (&f.pat, &f.expr, &f.body, &f.label);
                    *e = parse_quote!(#l for (_i, #p) in (#it).into_iter().enumerate() #b);
                    self.hit();
                }
            }
            "indexloop" => {
                if let Expr::ForLoop(f) = e {
                    if let (Expr::MethodCall(m), Pat::Ident(p)) = (strip(&f.expr), &*f.pat) {
                        if m.method == "iter" && m.args.is_empty() {
                            let (p, r, b, l) = (&p.ident, &m.receiver, &f.body, &f.label);
                            let i = self.fresh("i");
                            let ss = &b.stmts;
                            *e = parse_quote!(#l for #i in 0..#r.len() { let #p = &#r[#i]; #(#ss)* });
                            self.hit();
                        }
                    }
                }
            }
            "collect2" => {
                if let Expr::ForLoop(f) = e {
                    // collect the items first
                    let (p, it, b, l) = (&f.pat, &f.expr, &f.body, &f.label);
                    *e = parse_quote!(#l for #p in (#it).into_iter().collect::<Vec<_>>() #b);
                    self.hit();
                }
            }
            "fieldrev" => {
                if let Expr::Struct(s) = e {
                    if s.fields.len() > 1 {
                        let v: Vec<FieldValue> = s.fields.iter().rev().cloned().collect();
                        s.fields = v.into_iter().collect();
                        self.hit();
                    }
                }
            }
            "structlet" => {
                // Struct { a: f(x), .. } -> { let a = f(x); Struct { a, .. } }
                if let Expr::Struct(s) = e {
                    let mut pre: Vec<Stmt> = vec![];
                    let mut names = HashSet::new();
                    for f in s.fields.iter() {
                        names.insert(toks(&f.member));
                    }
                    let mut all = HashSet::new();
                    for f in s.fields.iter() {
                        if f.colon_token.is_some() {
                            all.extend(ids(&f.expr));
                        } else {
                            all.insert(toks(&f.member));
                        }
                    }
                    if s.rest.is_none() && s.fields.len() > 0 && names.is_disjoint(&all) && s.fields.iter().all(|f| matches!(f.member, Member::Named(_))) {
                        for f in s.fields.iter_mut() {
                            let (m, x) = (&f.member, &f.expr);
                            pre.push(parse_quote!(let #m = #x;));
                            f.expr = parse_quote!(#m);
                            f.colon_token = None;
                        }
                        let s2 = s.clone();
                        *e = parse_quote!({ #(#pre)* #s2 });
                        self.hit();
                    }
                }
            }
            "sumloop" => {
                if let Expr::MethodCall(m) = e {
                    if m.method == "sum" && m.turbofish.as_ref().is_none_or(|t| toks(t).contains("f64")) && m.turbofish.as_ref().is_none_or(|t| !toks(t).contains("Result")) {
                        let r = &m.receiver;
                        *e = parse_quote!({ let mut total: f64 = 0.0; for value in #r { total += value; } total });
                        self.hit();
                    }
                }
            }
            "demorgan" => {
                if let Expr::Binary(b) = e {
                    let op: Option<BinOp> = match b.op {
                        BinOp::And(_) => Some(BinOp::Or(Default::default())),
                        BinOp::Or(_) => Some(BinOp::And(Default::default())),
                        _ => None,
                    };
                    let mut s = Scan::default();
                    s.visit_expr(&b.left);
                    s.visit_expr(&b.right);
                    if let (Some(op), false) = (op, s.lets) {
                        let (l, r) = (&b.left, &b.right);
                        *e = parse_quote!((!(!(#l) #op !(#r))));
                        self.hit();
                    }
                }
            }
            "nestif" => {
                // if a && b {X}   ->  if a { if b {X} }
                if let Expr::If(i) = e {
                    if i.else_branch.is_none() {
                        if let Expr::Binary(ExprBinary { left, op: BinOp::And(_), right, .. }) = strip(&i.cond) {
                            let a = &i.then_branch;
                            *e = parse_quote!(if #left { if #right #a });
                            self.hit();
                        }
                    }
                }
            }
            "andthen" => {
                // a.ok_or(e)?.f()  : bind intermediate receiver:  { let r = a?; r.f() }  as a block expression
                if let Expr::MethodCall(m) = e {
                    if let Expr::Try(_) = &*m.receiver {
                        let r = &m.receiver;
                        let v = self.fresh("recv");
                        let mut m2 = m.clone();
                        m2.receiver = parse_quote!(#v);
                        *e = parse_quote!({ let #v = #r; #m2 });
                        self.hit();
                    }
                }
            }
            "getindex" => {
                if let Expr::Index(x) = e {
                    if !matches!(&*x.index, Expr::Range(_)) {
                        let (a, i) = (&x.expr, &x.index);
                        *e = parse_quote!((*#a.get(#i).expect("index out of range")));
                        self.hit();
                    }
                }
            }
            _ => {}
        }
    }

    fn callable<F: FnOnce(&mut Self)>(&mut self, name: &str, ret: Option<String>, f: F) {
        let key = format!("{}{}", self.owner.iter().map(|x| format!("{x}::")).collect::<String>(), name).replace(' ', "");
        if self.ex.contains(&key) {
            return;
        }
        let old = std::mem::replace(&mut self.cur, key);
        self.ret.push(ret);
        f(self);
        self.ret.pop();
        self.cur = old;
    }
}

fn rty(o: &ReturnType) -> Option<String> {
    match o {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some(toks(t)),
    }
}

impl VisitMut for R {
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if !has_cfg_test(&m.attrs) {
            visit_mut::visit_item_mod_mut(self, m)
        }
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let k = format!("{}{}", i.trait_.as_ref().map(|t| toks(&t.1) + "for").unwrap_or_default(), toks(&i.self_ty));
        let mac = has_cfg_test(&i.attrs) || i.attrs.iter().any(|a| toks(a).contains("pymethods"));
        if mac {
            return;
        }
        self.owner.push(k);
        visit_mut::visit_item_impl_mut(self, i);
        if self.t == "extract" && i.trait_.is_none() {
            let mut out = vec![];
            for it in std::mem::take(&mut i.items) {
                if let ImplItem::Fn(f) = &it {
                    let key = format!("{}{}", self.owner.iter().map(|x| format!("{x}::")).collect::<String>(), f.sig.ident).replace(' ', "");
                    let plain = f.sig.inputs.iter().all(|a| match a {
                        FnArg::Typed(t) => matches!(&*t.pat, Pat::Ident(p) if p.by_ref.is_none()) && !toks(&t.ty).contains("impl"),
                        FnArg::Receiver(_) => true,
                    });
                    if plain && !self.ex.contains(&key) && !f.sig.inputs.is_empty() && f.block.stmts.len() > 1 && f.sig.asyncness.is_none() && f.sig.constness.is_none() {
                        let inner = Ident::new(&format!("{}_inner", f.sig.ident), Span::call_site());
                        let mut g = f.clone();
                        g.sig.ident = inner.clone();
                        g.vis = Visibility::Inherited;
                        g.attrs.clear();
                        let mut h = f.clone();
                        let args: Vec<Expr> = f.sig.inputs.iter().filter_map(|a| match a {
                            FnArg::Typed(t) => {
                                let Pat::Ident(p) = &*t.pat else { unreachable!() };
                                let id = &p.ident;
                                Some(parse_quote!(#id))
                            }
                            _ => None,
                        }).collect();
                        for a in h.sig.inputs.iter_mut() {
                            match a {
                                FnArg::Typed(t) => {
                                    if let Pat::Ident(p) = &mut *t.pat {
                                        p.mutability = None;
                                    }
                                }
                                FnArg::Receiver(r) => {
                                    if r.reference.is_none() {
                                        r.mutability = None;
                                    }
                                }
                            }
                        }
                        let recv = matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_)));
                        h.block = if recv { parse_quote!({ self.#inner(#(#args),*) }) } else { parse_quote!({ Self::#inner(#(#args),*) }) };
                        out.push(ImplItem::Fn(h));
                        out.push(ImplItem::Fn(g));
                        self.n += 1;
                        self.used.insert(key);
                        continue;
                    }
                }
                out.push(it);
            }
            i.items = out;
        }
        self.owner.pop();
    }
    fn visit_item_trait_mut(&mut self, i: &mut ItemTrait) {
        self.owner.push(i.ident.to_string());
        visit_mut::visit_item_trait_mut(self, i);
        self.owner.pop();
    }
    fn visit_item_fn_mut(&mut self, i: &mut ItemFn) {
        if has_cfg_test(&i.attrs) || i.attrs.iter().any(|a| toks(a).contains("pyfunction") || toks(a).contains("pymodule")) || i.sig.constness.is_some() {
            return;
        }
        let (n, r) = (i.sig.ident.to_string(), rty(&i.sig.output));
        self.callable(&n, r, |s| {
            s.visit_block_mut(&mut i.block);
            s.stmts(&mut i.block, false, true);
        });
    }
    fn visit_impl_item_fn_mut(&mut self, i: &mut ImplItemFn) {
        if i.sig.constness.is_some() {
            return;
        }
        let (n, r) = (i.sig.ident.to_string(), rty(&i.sig.output));
        self.callable(&n, r, |s| {
            s.visit_block_mut(&mut i.block);
            s.stmts(&mut i.block, false, true);
        });
    }
    fn visit_trait_item_fn_mut(&mut self, i: &mut TraitItemFn) {
        let (n, r) = (i.sig.ident.to_string(), rty(&i.sig.output));
        if let Some(b) = &mut i.default {
            self.callable(&n, r, |s| {
                s.visit_block_mut(b);
                s.stmts(b, false, true);
            });
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.ret.push(rty(&c.output));
        visit_mut::visit_expr_closure_mut(self, c);
        self.ret.pop();
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        self.visit_expr_mut(&mut f.expr);
        for s in f.body.stmts.iter_mut() {
            self.visit_stmt_mut(s);
        }
        self.stmts(&mut f.body, true, false);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        if !matches!(self.t.as_str(), "letelse-continue" | "if-continue" | "earlyret" | "explicitret" | "lettail") {
            self.stmts(b, false, false);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if !self.cur.is_empty() {
            self.expr(e);
        }
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
}

struct Wh {
    owner: Vec<String>,
    spans: Vec<(usize, usize, String)>,
}
impl<'a> Visit<'a> for Wh {
    fn visit_item_impl(&mut self, i: &'a ItemImpl) {
        let k = format!("{}{}", i.trait_.as_ref().map(|t| toks(&t.1) + "for").unwrap_or_default(), toks(&i.self_ty));
        self.owner.push(k);
        visit::visit_item_impl(self, i);
        self.owner.pop();
    }
    fn visit_item_trait(&mut self, i: &'a ItemTrait) {
        self.owner.push(i.ident.to_string());
        visit::visit_item_trait(self, i);
        self.owner.pop();
    }
    fn visit_item_fn(&mut self, i: &'a ItemFn) {
        self.put(i.span(), &i.sig.ident);
        visit::visit_item_fn(self, i)
    }
    fn visit_impl_item_fn(&mut self, i: &'a ImplItemFn) {
        self.put(i.span(), &i.sig.ident);
        visit::visit_impl_item_fn(self, i)
    }
    fn visit_trait_item_fn(&mut self, i: &'a TraitItemFn) {
        self.put(i.span(), &i.sig.ident);
        visit::visit_trait_item_fn(self, i)
    }
}
impl Wh {
    fn put(&mut self, s: Span, n: &Ident) {
        let key = format!("{}{}", self.owner.iter().map(|x| format!("{x}::")).collect::<String>(), n).replace(' ', "");
        let key = key.strip_suffix("_inner").unwrap_or(&key).to_string();
        self.spans.push((s.start().line, s.end().line, key));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[2]).unwrap();
    let mut f = parse_file(&src).unwrap();
    if a[1] == "where" {
        let mut w = Wh { owner: vec![], spans: vec![] };
        w.visit_file(&f);
        for l in &a[3..] {
            let l: usize = l.parse().unwrap();
            if let Some(x) = w.spans.iter().filter(|x| x.0 <= l && l <= x.1).next() {
                println!("{}", x.2);
            } else {
                println!();
            }
        }
        return;
    }
    let ex = std::fs::read_to_string(&a[3]).unwrap_or_default();
    let file = a.get(4).cloned().unwrap_or_default();
    let ex: HashSet<String> = ex.lines().filter_map(|l| l.split_once('|').filter(|x| x.0 == file).map(|x| x.1.to_string())).collect();
    let mut r = R { t: a[1].clone(), ex, owner: vec![], n: 0, ret: vec![], uid: 0, used: HashSet::new(), cur: String::new() };
    r.visit_file_mut(&mut f);
    if r.n > 0 {
        std::fs::write(&a[2], prettyplease::unparse(&f)).unwrap();
    }
    println!("{}", r.n);
    let _ = quote!();
}
