//! Puts every mutation of a crate's sources behind a run-time switch.
//! usage: mutate <src dir> <drop file>
//! Rewrites every .rs file in place and prints one line per mutation: number, file, line, kind, text.
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    n: u32,
    file: String,
    drop: HashSet<u32>,
    list: Vec<String>,
}
impl M {
    fn id(&mut self, at: Span, kind: &str, what: &dyn ToTokens) -> Option<u32> {
        self.n += 1;
        let gone = self.drop.contains(&self.n);
        let mut w = what.to_token_stream().to_string().replace('\n', " ");
        // drop inner switches from the text
        while let Some(i) = w.find("crate :: mu (") {
            w.replace_range(i..i + 13, "MU(");
        }
        w.truncate(w.char_indices().nth(160).map_or(w.len(), |x| x.0));
        self.list.push(format!("{}\t{}\t{}\t{kind}\t{w}", self.n, self.file, at.start().line));
        if gone {
            let l = self.list.pop().unwrap();
            eprintln!("{l}");
            return None;
        }
        Some(self.n)
    }
    /// `alt` instead of `e`
    fn alt(&mut self, e: &mut Expr, kind: &str, what: &dyn ToTokens, alt: Expr) {
        if let Some(n) = self.id(e.span(), kind, what) {
            *e = parse_quote!((if crate::mu(#n) { #alt } else { #e }));
        }
    }
    fn neg(&mut self, e: &mut Expr, kind: &str, what: &dyn ToTokens) {
        if let Some(n) = self.id(e.span(), kind, what) {
            *e = parse_quote!((crate::mu(#n) != (#e)));
        }
    }
}
fn has_let(e: &Expr) -> bool {
    e.to_token_stream().to_string().split_whitespace().any(|w| w == "let") && matches!(e, Expr::Let(_) | Expr::Binary(_))
}
fn is_test(a: &[Attribute]) -> bool {
    a.iter().any(|a| a.to_token_stream().to_string().replace(' ', "").contains("test"))
}
impl VisitMut for M {
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_item_mod_mut(&mut self, i: &mut ItemMod) {
        if !is_test(&i.attrs) {
            visit_mut::visit_item_mod_mut(self, i);
        }
    }
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_impl_item_const_mut(&mut self, _: &mut ImplItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut ItemStatic) {}
    fn visit_item_fn_mut(&mut self, i: &mut ItemFn) {
        if !is_test(&i.attrs) && i.sig.constness.is_none() {
            visit_mut::visit_item_fn_mut(self, i);
        }
    }
    fn visit_impl_item_fn_mut(&mut self, i: &mut ImplItemFn) {
        if i.sig.constness.is_none() {
            visit_mut::visit_impl_item_fn_mut(self, i);
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        let orig = s.clone();
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Expr(e, Some(_)) = s {
            if matches!(e, Expr::MethodCall(_) | Expr::Call(_) | Expr::Assign(_) | Expr::Binary(_) | Expr::Continue(_) | Expr::Break(_)) {
                if let Some(n) = self.id(orig.span(), "del", &orig) {
                    *s = parse_quote!(if !crate::mu(#n) { #e; });
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Lit(l) = e {
            let w = l.clone();
            match &l.lit {
                Lit::Int(i) => {
                    let v: Option<u128> = i.base10_parse().ok();
                    if let Some(v) = v {
                        let t = LitInt::new(&format!("{}{}", v + 1, i.suffix()), i.span());
                        self.alt(e, "int+1", &w, parse_quote!(#t));
                    }
                }
                Lit::Float(f) => {
                    let f = f.clone();
                    self.alt(e, "float", &w, parse_quote!((#f + 1.0)));
                }
                Lit::Bool(_) => self.neg(e, "bool", &w),
                Lit::Str(_) => self.alt(e, "str", &w, parse_quote!("")),
                _ => {}
            }
            return;
        }
        let orig = e.clone();
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(mc) = e {
            let name = mc.method.to_string();
            if ["filter", "find", "any", "all", "position", "retain", "is_some_and", "is_none_or", "take_while", "skip_while", "partition", "rposition", "rfind", "dedup_by"].contains(&name.as_str()) {
                if let Some(Expr::Closure(c)) = mc.args.first_mut() {
                    if !matches!(*c.body, Expr::Block(_)) {
                        let w = c.body.clone();
                        self.neg(&mut c.body, "closure-negate", &w);
                        let w = c.body.clone();
                        self.alt(&mut c.body, "closure-true", &w, parse_quote!(true));
                    }
                }
            }
        }
        let cur = match e {
            Expr::If(_) | Expr::Match(_) | Expr::Struct(_) => e.clone(),
            _ => orig.clone(),
        };
        match cur {
            Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                let mk = |op: BinOp| -> Expr { parse_quote!((#l #op #r)) };
                match b.op {
                    BinOp::Eq(_) | BinOp::Ne(_) => self.neg(e, "negate", &orig),
                    BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => {
                        let o: BinOp = match b.op {
                            BinOp::Lt(_) => parse_quote!(<=),
                            BinOp::Le(_) => parse_quote!(<),
                            BinOp::Gt(_) => parse_quote!(>=),
                            _ => parse_quote!(>),
                        };
                        self.alt(e, "boundary", &orig, mk(o));
                        self.neg(e, "negate", &orig);
                    }
                    BinOp::And(_) if !has_let(&orig) => {
                        self.alt(e, "and-or", &orig, mk(parse_quote!(||)));
                        self.alt(e, "and-left", &orig, (**l).clone());
                        self.alt(e, "and-right", &orig, (**r).clone());
                    }
                    BinOp::Or(_) => {
                        self.alt(e, "or-and", &orig, mk(parse_quote!(&&)));
                        self.alt(e, "or-left", &orig, (**l).clone());
                        self.alt(e, "or-right", &orig, (**r).clone());
                    }
                    BinOp::Add(_) => self.alt(e, "arith", &orig, mk(parse_quote!(-))),
                    BinOp::Sub(_) => self.alt(e, "arith", &orig, mk(parse_quote!(+))),
                    BinOp::Mul(_) => self.alt(e, "arith", &orig, mk(parse_quote!(/))),
                    BinOp::Div(_) => self.alt(e, "arith", &orig, mk(parse_quote!(*))),
                    BinOp::Rem(_) => self.alt(e, "arith", &orig, mk(parse_quote!(/))),
                    _ => {}
                }
            }
            Expr::Unary(u) => {
                let x = &u.expr;
                match u.op {
                    UnOp::Not(_) => self.neg(e, "negate", &orig),
                    UnOp::Neg(_) => self.alt(e, "minus", &orig, parse_quote!(#x)),
                    _ => {}
                }
            }
            Expr::If(mut i) => {
                if !matches!(*i.cond, Expr::Let(_)) && !has_let(&i.cond) {
                    let w = i.cond.clone();
                    self.neg(&mut i.cond, "if", &w);
                    *e = Expr::If(i);
                }
            }
            Expr::Match(mut m) => {
                let Expr::Match(om) = &orig else { unreachable!() };
                let bodies: Vec<Expr> = om.arms.iter().map(|a| (*a.body).clone()).collect();
                let k = m.arms.len();
                for (i, a) in m.arms.iter_mut().enumerate() {
                    if let Some(g) = &mut a.guard {
                        let w = g.1.clone();
                        self.neg(&mut g.1, "guard", &w);
                    }
                    let o = &bodies[(i + 1) % k];
                    if k > 1 && o.to_token_stream().to_string() != a.body.to_token_stream().to_string() && o.to_token_stream().to_string().len() < 200 {
                        let w = quote!(#o);
                        let alt = o.clone();
                        self.alt(&mut a.body, "other-arm", &w, alt);
                    }
                }
                *e = Expr::Match(m);
            }
            Expr::Struct(mut s) if s.fields.len() > 1 => {
                let Expr::Struct(os) = &orig else { unreachable!() };
                let v: Vec<Expr> = os.fields.iter().map(|f| f.expr.clone()).collect();
                let k = v.len();
                for i in 0..k {
                    if s.fields[i].colon_token.is_some() && v[i].to_token_stream().to_string().len() < 300 {
                        let w = s.fields[i].clone();
                        let alt = v[(i + 1) % k].clone();
                        self.alt(&mut s.fields[i].expr, "other-field", &w, alt);
                        let w = s.fields[i].clone();
                        self.alt(&mut s.fields[i].expr, "default-field", &w, parse_quote!(Default::default()));
                    }
                }
                *e = Expr::Struct(s);
            }
            Expr::Call(c) => {
                for i in 1..c.args.len() {
                    let mut d = c.clone();
                    let (a, b) = (c.args[i - 1].clone(), c.args[i].clone());
                    if a.to_token_stream().to_string() == b.to_token_stream().to_string() {
                        continue;
                    }
                    d.args[i - 1] = b;
                    d.args[i] = a;
                    self.alt(e, "swap-args", &orig, Expr::Call(d));
                }
                let f = c.func.to_token_stream().to_string();
                if f == "Some" {
                    self.alt(e, "none", &orig, parse_quote!(None));
                }
            }
            Expr::MethodCall(mc) => {
                let name = mc.method.to_string();
                let r = &mc.receiver;
                let other = |n: &str| {
                    let mut d = mc.clone();
                    d.method = Ident::new(n, d.method.span());
                    Expr::MethodCall(d)
                };
                let pairs = [("first", "last"), ("min", "max"), ("any", "all"), ("is_some", "is_none"), ("floor", "ceil"), ("round", "trunc"), ("x", "y"), ("start", "end"), ("next", "last"), ("next", "next_back"), ("max_by", "min_by"), ("find", "rfind"), ("position", "rposition"), ("starts_with", "ends_with"), ("trim_start", "trim_end"), ("split_once", "rsplit_once"), ("checked_sub", "checked_add"), ("saturating_sub", "saturating_add"), ("sin", "cos"), ("trim_start_matches", "trim_end_matches"), ("to_lowercase", "to_uppercase"), ("eq_ignore_ascii_case", "eq"), ("union", "intersection"), ("lower", "upper")];
                for (a, b) in pairs {
                    if a != b && (name == a || name == b) {
                        self.alt(e, "other-method", &orig, other(if name == a { b } else { a }));
                    }
                }
                if ["contains", "contains_key", "is_empty", "starts_with", "ends_with", "is_some_and", "is_none_or", "eq", "any", "all", "exists", "insert", "intersects", "is_absolute", "is_file", "is_dir", "is_closed", "is_ccw"].contains(&name.as_str()) {
                    self.neg(e, "negate", &orig);
                }
                if ["trim", "trim_start", "trim_end", "trim_start_matches", "trim_end_matches", "abs", "floor", "ceil", "round", "trunc", "or", "or_else", "filter", "min", "max", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "rem_euclid", "clamp", "with_extension", "with_file_name", "strip_prefix", "join", "replace",  "powi", "sqrt", "signum", "copysign", "to_degrees", "to_radians"].contains(&name.as_str()) {
                    self.alt(e, "drop-call", &orig, (**r).clone());
                }
                if ["replace", "to_lowercase", "to_uppercase", "trim"].contains(&name.as_str()) {
                    self.alt(e, "drop-call-owned", &orig, parse_quote!((#r).to_string()));
                }
                if ["rev", "skip", "take", "chain", "step_by", "dedup", "unique", "sorted", "sorted_by", "sorted_by_key"].contains(&name.as_str()) {
                    // iterators of another type: through a box
                    if let Some(n) = self.id(e.span(), "drop-iter", &orig) {
                        *e = parse_quote!((if crate::mu(#n) { Box::new((#r).into_iter()) as Box<dyn Iterator<Item = _>> } else { Box::new(#e) as Box<dyn Iterator<Item = _>> }));
                    }
                }
                if ["get", "get_vec", "find", "find_map", "and_then", "get_mut", "position", "map", "filter", "or_else", "or", "first", "last", "cloned", "copied", "then", "then_some"].contains(&name.as_str()) {
                    self.alt(e, "to-none", &orig, parse_quote!(None));
                }
                if ["unwrap_or", "map_or"].contains(&name.as_str()) && !mc.args.is_empty() {
                    let a = &mc.args[0];
                    self.alt(e, "to-default", &orig, parse_quote!(#a));
                }
                if ["unwrap_or_default", "to_string", "clone", "unwrap_or_else"].contains(&name.as_str()) {
                    self.alt(e, "to-empty", &orig, parse_quote!(Default::default()));
                }
                for i in 1..mc.args.len() {
                    let mut d = mc.clone();
                    let (a, b) = (mc.args[i - 1].clone(), mc.args[i].clone());
                    if a.to_token_stream().to_string() == b.to_token_stream().to_string() {
                        continue;
                    }
                    d.args[i - 1] = b;
                    d.args[i] = a;
                    self.alt(e, "swap-args", &orig, Expr::MethodCall(d));
                }
            }
            Expr::Field(f) => {
                if let Member::Named(n) = &f.member {
                    let swap = [("x", "y"), ("start", "end"), ("lower_level", "upper_level"), ("departure_aerodromes", "arrival_aerodromes"), ("lat", "lng"), ("horizontal", "vertical"), ("climb_level", "descent_level"), ("cop", "next_fix"), ("min", "max")];
                    for (a, b) in swap {
                        let o = if n == a { b } else if n == b { a } else { continue };
                        let mut d = f.clone();
                        d.member = Member::Named(Ident::new(o, n.span()));
                        self.alt(e, "other-member", &orig, Expr::Field(d));
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_expr_assign_mut(&mut self, a: &mut ExprAssign) {
        self.visit_expr_mut(&mut a.right);
    }
    fn visit_expr_reference_mut(&mut self, r: &mut ExprReference) {
        if r.mutability.is_none() {
            visit_mut::visit_expr_reference_mut(self, r);
        }
    }
}

/// where every switch is: file, number, whole range, range of the mutation
struct Ranges(String);
fn switch(e: &Expr) -> Option<u32> {
    let Expr::Call(c) = e else { return None };
    if c.func.to_token_stream().to_string() != "crate :: mu" {
        return None;
    }
    c.args.first()?.to_token_stream().to_string().trim_end_matches("u32").parse().ok()
}
impl VisitMut for Ranges {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let w = e.span().byte_range();
        let hit = match &*e {
            Expr::If(i) => match &*i.cond {
                Expr::Unary(u) => switch(&u.expr).map(|n| (n, i.then_branch.span().byte_range())),
                c => switch(c).map(|n| (n, i.then_branch.span().byte_range())),
            },
            Expr::Binary(b) => switch(&b.left).map(|n| (n, w.start..b.op.span().byte_range().end)),
            _ => None,
        };
        if let Some((n, r)) = hit {
            println!("{}\t{n}\t{}\t{}\t{}\t{}", self.0, w.start, w.end, r.start, r.end);
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let ranges = a[2] == "ranges";
    let drop: HashSet<u32> = std::fs::read_to_string(&a[2]).unwrap_or_default().lines().filter_map(|l| l.trim().parse().ok()).collect();
    let mut files = vec![];
    let mut dirs = vec![std::path::PathBuf::from(&a[1])];
    while let Some(d) = dirs.pop() {
        for f in std::fs::read_dir(d).unwrap() {
            let p = f.unwrap().path();
            if p.is_dir() {
                dirs.push(p);
            } else if p.extension().is_some_and(|e| e == "rs") {
                files.push(p);
            }
        }
    }
    files.sort();
    let mut m = M { n: 0, file: String::new(), drop, list: vec![] };
    for f in files {
        let s = std::fs::read_to_string(&f).unwrap();
        let mut t = parse_file(&s).unwrap();
        if ranges {
            Ranges(f.strip_prefix(&a[1]).unwrap().display().to_string()).visit_file_mut(&mut t);
            continue;
        }
        m.file = f.strip_prefix(&a[1]).unwrap().display().to_string();
        m.visit_file_mut(&mut t);
        let mut out = t.to_token_stream().to_string();
        if m.file == "lib.rs" {
            out += r#"
static MU_ACTIVE: std::sync::OnceLock<u32> = std::sync::OnceLock::new();
static MU_HIT: [std::sync::atomic::AtomicBool; 20000] = [const { std::sync::atomic::AtomicBool::new(false) }; 20000];
#[doc(hidden)]
pub fn mu(n: u32) -> bool {
    use std::sync::atomic::Ordering::Relaxed;
    let a = *MU_ACTIVE.get_or_init(|| std::env::var("MUT").ok().and_then(|x| x.parse().ok()).unwrap_or(0));
    if a == 0 && !MU_HIT[n as usize].load(Relaxed) && !MU_HIT[n as usize].swap(true, Relaxed) {
        if let Ok(f) = std::env::var("MUTCOV") {
            use std::io::Write;
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(f) {
                let _ = f.write_all(format!("{n}\n").as_bytes());
            }
        }
    }
    a == n
}
"#;
        }
        std::fs::write(&f, out).unwrap();
    }
    for l in m.list {
        println!("{l}");
    }
}
