//! Development aid: plant one small bug in every function of a file.
//! bugs K FILE EXCLUDES REL   rewrites FILE in place: in each function the K-th (modulo) place where a small change is possible is changed;
//!                            prints one line per function: REL|key<TAB>what was changed
use quote::ToTokens;
use std::collections::HashSet;
use std::hash::{DefaultHasher, Hash, Hasher};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

/// counts the places and changes the one with number `at`
struct M {
    n: usize,
    at: usize,
    log: String,
}

const NAMES: &[(&str, &str)] = &[
    ("min", "max"),
    ("any", "all"),
    ("is_some", "is_none"),
    ("is_ok", "is_err"),
    ("first", "last"),
    ("next", "last"),
    ("skip", "take"),
    ("min_flow", "max_flow"),
    ("min_volume", "max_volume"),
    ("inflow", "outflow"),
    ("get_in_flow", "get_out_flow"),
    ("push_front", "push_back"),
    ("pop_front", "pop_back"),
    ("month", "day"),
    ("floor", "ceil"),
    ("before", "after"),
    ("ne", "eq"),
    ("from_node_index", "to_node_index"),
    ("simulation_id", "schema_id"),
    ("get_min_flow", "get_max_flow"),
    ("get_min_volume", "get_max_volume"),
    ("sum", "product"),
    ("sin", "cos"),
    ("input_connectors", "output_connectors"),
    ("unwrap_or", "unwrap_or"),
    ("add_in_flow", "add_out_flow"),
    ("default_metric", "default_metric"),
    ("lower_bounds", "upper_bounds"),
    ("inflow_factor", "outflow_factor"),
    ("rows", "cols"),
    ("nrows", "ncols"),
    ("start", "end"),
    ("min_active", "max_active"),
    ("days", "hours"),
];

impl M {
    /// is this the place to change?
    fn here(&mut self, what: impl FnOnce() -> String) -> bool {
        let h = self.n == self.at;
        self.n += 1;
        if h {
            self.log = what();
        }
        h
    }
    fn ident(&mut self, i: &mut Ident) {
        let s = i.to_string();
        for (a, b) in NAMES {
            let o = if s == *a {
                b
            } else if s == *b {
                a
            } else {
                continue;
            };
            if a != b {
                if self.here(|| format!("{s} -> {o}")) {
                    *i = Ident::new(o, i.span());
                }
                return;
            }
        }
    }
}

impl VisitMut for M {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Binary(b) => {
                let alts: Vec<BinOp> = match b.op {
                    BinOp::Add(_) => vec![parse_quote!(-)],
                    BinOp::Sub(_) => vec![parse_quote!(+)],
                    BinOp::Mul(_) => vec![parse_quote!(/)],
                    BinOp::Div(_) => vec![parse_quote!(*)],
                    BinOp::Rem(_) => vec![parse_quote!(/)],
                    BinOp::Lt(_) => vec![parse_quote!(<=), parse_quote!(>)],
                    BinOp::Le(_) => vec![parse_quote!(<), parse_quote!(>=)],
                    BinOp::Gt(_) => vec![parse_quote!(>=), parse_quote!(<)],
                    BinOp::Ge(_) => vec![parse_quote!(>), parse_quote!(<=)],
                    BinOp::Eq(_) => vec![parse_quote!(!=)],
                    BinOp::Ne(_) => vec![parse_quote!(==)],
                    BinOp::And(_) => vec![parse_quote!(||)],
                    BinOp::Or(_) => vec![parse_quote!(&&)],
                    BinOp::AddAssign(_) => vec![parse_quote!(-=)],
                    BinOp::SubAssign(_) => vec![parse_quote!(+=)],
                    BinOp::MulAssign(_) => vec![parse_quote!(/=)],
                    BinOp::DivAssign(_) => vec![parse_quote!(*=)],
                    _ => vec![],
                };
                for o in alts {
                    let t = toks(b);
                    if self.here(|| format!("{t}: -> {}", toks(&o))) {
                        b.op = o;
                    }
                }
                if matches!(b.op, BinOp::Sub(_) | BinOp::Div(_)) {
                    let t = toks(b);
                    if self.here(|| format!("{t}: operands swapped")) {
                        std::mem::swap(&mut b.left, &mut b.right);
                    }
                }
            }
            Expr::Lit(l) => match &mut l.lit {
                Lit::Int(i) => {
                    let s = i.suffix().to_string();
                    if let Ok(v) = i.base10_parse::<u64>() {
                        if self.here(|| format!("{v} -> {}", v + 1)) {
                            *i = LitInt::new(&format!("{}{s}", v + 1), i.span());
                        }
                    }
                }
                Lit::Float(i) => {
                    let s = i.suffix().to_string();
                    if let Ok(v) = i.base10_parse::<f64>() {
                        if self.here(|| format!("{v} -> {}", v + 1.0)) {
                            *i = LitFloat::new(&format!("{:?}{s}", v + 1.0), i.span());
                        }
                    }
                }
                Lit::Bool(b) => {
                    if self.here(|| format!("{} -> {}", b.value, !b.value)) {
                        b.value = !b.value;
                    }
                }
                _ => {}
            },
            Expr::If(i) if !toks(&i.cond).contains("let ") => {
                let t = toks(&i.cond);
                if self.here(|| format!("if {t}: negated")) {
                    let c = &i.cond;
                    i.cond = parse_quote!(!(#c));
                }
            }
            Expr::MethodCall(m) => {
                self.ident(&mut m.method);
                let t = toks(m);
                let name = m.method.to_string();
                if matches!(name.as_str(), "rev" | "abs" | "max" | "min" | "clamp" | "skip" | "take" | "step_by" | "filter" | "sqrt" | "saturating_sub")
                    && self.here(|| format!("{}: call dropped", &t[..t.len().min(200)]))
                {
                    let r = m.receiver.clone();
                    *e = *r;
                    return;
                }
                if m.args.len() >= 2 {
                    for k in 0..m.args.len() - 1 {
                        if toks(&m.args[k]) != toks(&m.args[k + 1]) && !matches!(m.args[k], Expr::Closure(_)) && !matches!(m.args[k + 1], Expr::Closure(_)) {
                            if self.here(|| format!("{}: arguments {k} and {} swapped", &t[..t.len().min(200)], k + 1)) {
                                let (a, b) = (m.args[k].clone(), m.args[k + 1].clone());
                                m.args[k] = b;
                                m.args[k + 1] = a;
                            }
                        }
                    }
                }
            }
            Expr::Call(m) => {
                let t = toks(m);
                for k in 0..m.args.len().max(1) - 1 {
                    if toks(&m.args[k]) != toks(&m.args[k + 1]) && !matches!(m.args[k], Expr::Closure(_)) && !matches!(m.args[k + 1], Expr::Closure(_)) {
                        if self.here(|| format!("{}: arguments {k} and {} swapped", &t[..t.len().min(200)], k + 1)) {
                            let (a, b) = (m.args[k].clone(), m.args[k + 1].clone());
                            m.args[k] = b;
                            m.args[k + 1] = a;
                        }
                    }
                }
                if toks(&m.func) == "Some" && m.args.len() == 1 {
                    if self.here(|| format!("{} -> None", &t[..t.len().min(200)])) {
                        *e = parse_quote!(None);
                    }
                }
            }
            Expr::Field(f) => {
                if let Member::Named(i) = &mut f.member {
                    self.ident(i);
                }
            }
            Expr::Struct(s) => {
                let n = s.fields.len();
                for k in 0..n.max(1) - 1 {
                    let (a, b) = (s.fields[k].expr.clone(), s.fields[k + 1].expr.clone());
                    let (x, y) = (toks(&s.fields[k].member), toks(&s.fields[k + 1].member));
                    if toks(&a) != toks(&b) && self.here(|| format!("fields {x} and {y} swapped")) {
                        s.fields[k].expr = b;
                        s.fields[k + 1].expr = a;
                        for j in [k, k + 1] {
                            s.fields[j].colon_token = Some(Default::default());
                        }
                    }
                }
            }
            Expr::Match(m) => {
                for k in 0..m.arms.len().max(1) - 1 {
                    if toks(&m.arms[k].body) != toks(&m.arms[k + 1].body) && self.here(|| format!("arms {} and {} swapped", k, k + 1)) {
                        let (a, b) = (m.arms[k].body.clone(), m.arms[k + 1].body.clone());
                        m.arms[k].body = b;
                        m.arms[k + 1].body = a;
                        for j in [k, k + 1] {
                            m.arms[j].comma = Some(Default::default());
                        }
                    }
                }
            }
            Expr::Range(r) if r.end.is_some() => {
                let t = toks(r);
                if self.here(|| format!("{t}: limit")) {
                    r.limits = match r.limits {
                        RangeLimits::HalfOpen(_) => RangeLimits::Closed(Default::default()),
                        RangeLimits::Closed(_) => RangeLimits::HalfOpen(Default::default()),
                    };
                }
            }
            Expr::Break(b) if b.label.is_none() && b.expr.is_none() => {
                if self.here(|| "break -> continue".into()) {
                    *e = parse_quote!(continue);
                }
            }
            Expr::Continue(b) if b.label.is_none() => {
                if self.here(|| "continue -> break".into()) {
                    *e = parse_quote!(break);
                }
            }
            Expr::Unary(u) => {
                let t = toks(u);
                if matches!(u.op, UnOp::Not(_) | UnOp::Neg(_)) && self.here(|| format!("{t}: operator dropped")) {
                    let r = u.expr.clone();
                    *e = *r;
                }
            }
            _ => {}
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut k = 0;
        while k < b.stmts.len() {
            let t = toks(&b.stmts[k]);
            let drop = match &b.stmts[k] {
                Stmt::Expr(e, Some(_)) => !matches!(e, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_)),
                Stmt::Expr(Expr::If(i), None) => k + 1 < b.stmts.len() && i.else_branch.is_none(),
                Stmt::Expr(Expr::ForLoop(_), None) => true,
                _ => false,
            };
            if drop && self.here(|| format!("dropped: {}", t.chars().take(200).collect::<String>())) {
                b.stmts.remove(k);
                continue;
            }
            k += 1;
        }
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
}

struct F {
    k: usize,
    ex: HashSet<String>,
    file: String,
    owner: Vec<String>,
    n: usize,
}
impl F {
    fn one(&mut self, name: &Ident, at: &[Attribute], b: &mut Block) {
        let key = format!("{}{}", self.owner.iter().map(|x| format!("{x}::")).collect::<String>(), name).replace(' ', "");
        if self.ex.contains(&key) || at.iter().any(|x| toks(x).contains("test")) {
            return;
        }
        let mut m = M { n: 0, at: usize::MAX, log: String::new() };
        m.visit_block_mut(&mut b.clone());
        if m.n == 0 {
            return;
        }
        let mut h = DefaultHasher::new();
        (&self.file, &key).hash(&mut h);
        if self.k >= m.n {
            return;
        }
        let at = (h.finish() as usize % m.n + self.k) % m.n;
        let mut w = M { n: 0, at, log: String::new() };
        w.visit_block_mut(b);
        self.n += 1;
        println!("{}|{}\t{}", self.file, key, w.log.replace('\n', " "));
    }
}
impl VisitMut for F {
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if !m.attrs.iter().any(|x| toks(x).contains("test")) {
            visit_mut::visit_item_mod_mut(self, m);
        }
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let k = format!("{}{}", i.trait_.as_ref().map(|t| toks(&t.1) + "for").unwrap_or_default(), toks(&i.self_ty));
        self.owner.push(k);
        visit_mut::visit_item_impl_mut(self, i);
        self.owner.pop();
    }
    fn visit_item_trait_mut(&mut self, i: &mut ItemTrait) {
        self.owner.push(i.ident.to_string());
        visit_mut::visit_item_trait_mut(self, i);
        self.owner.pop();
    }
    fn visit_item_fn_mut(&mut self, i: &mut ItemFn) {
        let (a, n) = (i.attrs.clone(), i.sig.ident.clone());
        self.one(&n, &a, &mut i.block)
    }
    fn visit_impl_item_fn_mut(&mut self, i: &mut ImplItemFn) {
        let (a, n) = (i.attrs.clone(), i.sig.ident.clone());
        self.one(&n, &a, &mut i.block)
    }
    fn visit_trait_item_fn_mut(&mut self, i: &mut TraitItemFn) {
        let (a, n) = (i.attrs.clone(), i.sig.ident.clone());
        if let Some(b) = &mut i.default {
            self.one(&n, &a, b)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut f = parse_file(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    let ex = std::fs::read_to_string(&a[3]).unwrap_or_default();
    let ex = ex.lines().filter_map(|l| l.split_once('|').filter(|x| x.0 == a[4]).map(|x| x.1.to_string())).collect();
    let mut v = F { k: a[1].parse().unwrap(), ex, file: a[4].clone(), owner: vec![], n: 0 };
    v.visit_file_mut(&mut f);
    if v.n > 0 {
        std::fs::write(&a[2], prettyplease::unparse(&f)).unwrap();
    }
}
