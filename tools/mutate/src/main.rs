//! Mutant schemata: rewrites Rust sources so that every mutant of them is in
//! one build, chosen at run time. `mutate <guard path> <first id> <skip file>
//! <file>...` rewrites the files in place and prints one line per mutant.
use std::{collections::HashSet, env, fs};
use syn::{spanned::Spanned, visit::Visit, *};

/// One node with alternatives: (start, end, alternatives as text).
struct Node {
    s: usize,
    e: usize,
    alts: Vec<(String, String)>,
    kind: Kind,
}
#[derive(PartialEq)]
enum Kind {
    Expr,
    Stmt,
    /// Inserted at the start of a body.
    Body,
}
struct M<'a> {
    src: &'a str,
    nodes: Vec<Node>,
    fns: Vec<String>,
    places: usize,
}
impl M<'_> {
    fn t(&self, s: &impl Spanned) -> &str {
        &self.src[s.span().byte_range()]
    }
    fn add(&mut self, s: &impl Spanned, kind: Kind, alts: Vec<(&str, String)>) {
        let r = s.span().byte_range();
        if alts.is_empty() {
            return;
        }
        let f = self.fns.join("::");
        let alts = alts.into_iter().map(|(d, a)| (format!("{f}: {d}"), a)).collect();
        self.nodes.push(Node { s: r.start, e: r.end, alts, kind });
    }
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg") && quote::quote!(#a).to_string().contains("test"))
    })
}
fn has_let(e: &Expr) -> bool {
    struct L(bool);
    impl<'a> Visit<'a> for L {
        fn visit_expr_let(&mut self, _: &'a ExprLet) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_block(&mut self, _: &'a Block) {}
    }
    let mut l = L(false);
    l.visit_expr(e);
    l.0
}
const METHODS: &[(&str, &str)] = &[
    ("strict_add", "strict_sub"), ("strict_sub", "strict_add"), ("checked_add", "checked_sub"),
    ("checked_sub", "checked_add"), ("checked_mul", "checked_add"), ("strict_mul", "strict_add"),
    ("strict_div", "strict_mul"), ("strict_rem", "strict_div"), ("min", "max"), ("max", "min"),
    ("div_ceil", "strict_div"), ("strict_shl", "strict_shr"), ("strict_shr", "strict_shl"), ("saturating_sub", "saturating_add"),
    ("saturating_add", "saturating_sub"), ("saturating_mul", "saturating_add"), ("all", "any"), ("any", "all"),
    ("first", "last"), ("last", "first"), ("count_ones", "count_zeros"), ("count_zeros", "count_ones"),
    ("wrapping_add", "wrapping_sub"), ("is_some", "is_none"), ("is_none", "is_some"),
    ("is_ok", "is_err"), ("is_err", "is_ok"), ("trailing_zeros", "leading_zeros"), ("extend", "extend0"),
    ("next", "next_back"), ("next_back", "next"), ("unchecked", "checked"), ("and_then", "and"), ("rposition", "position"),
];
/// Methods whose call may be dropped, giving the receiver.
const DROP: &[&str] = &["skip", "take", "rev", "fuse", "step_by", "filter", "saturating_sub", "strict_sub", "strict_add",
    "min", "max", "chain", "div_ceil", "strict_mul", "saturating_add", "or", "or_else", "to_le", "to_be", "swap_bytes", "by_ref"];

impl<'a> Visit<'a> for M<'_> {
    fn visit_item_mod(&mut self, i: &'a ItemMod) {
        if !is_test(&i.attrs) {
            visit::visit_item_mod(self, i);
        }
    }
    fn visit_item_macro(&mut self, _: &'a ItemMacro) {}
    fn visit_item_const(&mut self, _: &'a ItemConst) {}
    fn visit_item_static(&mut self, _: &'a ItemStatic) {}
    fn visit_impl_item_const(&mut self, _: &'a ImplItemConst) {}
    fn visit_trait_item_const(&mut self, _: &'a TraitItemConst) {}
    fn visit_type(&mut self, _: &'a Type) {}
    fn visit_generics(&mut self, _: &'a Generics) {}
    fn visit_attribute(&mut self, _: &'a Attribute) {}
    fn visit_pat(&mut self, _: &'a Pat) {}
    fn visit_path(&mut self, _: &'a Path) {}
    fn visit_angle_bracketed_generic_arguments(&mut self, _: &'a AngleBracketedGenericArguments) {}
    fn visit_item_impl(&mut self, i: &'a ItemImpl) {
        if is_test(&i.attrs) {
            return;
        }
        let ty: String = self.t(&*i.self_ty).split_whitespace().collect::<Vec<_>>().join(" ");
        let tr = i.trait_.as_ref().map(|(_, p, _)| self.t(p).to_string() + " for ").unwrap_or_default();
        self.fns.push(format!("<{tr}{ty}>"));
        visit::visit_item_impl(self, i);
        self.fns.pop();
    }
    fn visit_item_fn(&mut self, i: &'a ItemFn) {
        if i.sig.constness.is_some() || is_test(&i.attrs) {
            return;
        }
        self.fns.push(i.sig.ident.to_string());
        self.body(&i.sig, &i.block);
        visit::visit_block(self, &i.block);
        self.fns.pop();
    }
    fn visit_impl_item_fn(&mut self, i: &'a ImplItemFn) {
        if i.sig.constness.is_some() || is_test(&i.attrs) {
            return;
        }
        self.fns.push(i.sig.ident.to_string());
        self.body(&i.sig, &i.block);
        visit::visit_block(self, &i.block);
        self.fns.pop();
    }
    fn visit_trait_item_fn(&mut self, i: &'a TraitItemFn) {
        if i.sig.constness.is_some() {
            return;
        }
        let Some(b) = &i.default else { return };
        self.fns.push(format!("default {}", i.sig.ident));
        self.body(&i.sig, b);
        visit::visit_block(self, b);
        self.fns.pop();
    }
    fn visit_expr_const(&mut self, _: &'a ExprConst) {}
    fn visit_expr_repeat(&mut self, e: &'a ExprRepeat) {
        self.visit_expr(&e.expr);
    }
    fn visit_stmt(&mut self, s: &'a Stmt) {
        match s {
            Stmt::Expr(e, Some(_)) => {
                match e {
                    Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => {}
                    Expr::Macro(_) => self.add(s, Kind::Stmt, vec![("delete statement", String::new())]),
                    _ => {
                        self.add(s, Kind::Stmt, vec![("delete statement", String::new())]);
                        if let Expr::Assign(_) = e {}
                    }
                }
                visit::visit_stmt(self, s)
            }
            Stmt::Macro(_) => {}
            Stmt::Local(l) => {
                if let Some(i) = &l.init {
                    self.visit_expr(&i.expr);
                    if let Some((_, d)) = &i.diverge {
                        self.visit_expr(d);
                    }
                }
            }
            _ => visit::visit_stmt(self, s),
        }
    }
    fn visit_expr_assign(&mut self, e: &'a ExprAssign) {
        // The left side is a place.
        self.visit_expr(&e.right);
    }
    fn visit_expr_reference(&mut self, e: &'a ExprReference) {
        if e.mutability.is_some() {
            self.places += 1;
            self.visit_expr(&e.expr);
            self.places -= 1;
        } else {
            visit::visit_expr_reference(self, e);
        }
    }
    fn visit_expr_if(&mut self, e: &'a ExprIf) {
        if !has_let(&e.cond) {
            self.add(&*e.cond, Kind::Expr, vec![("if true", "true".into()), ("if false", "false".into())]);
        }
        visit::visit_expr_if(self, e);
    }
    fn visit_arm(&mut self, a: &'a Arm) {
        if let Some((_, g)) = &a.guard {
            if !has_let(g) {
                self.add(&**g, Kind::Expr, vec![("guard true", "true".into()), ("guard false", "false".into())]);
                self.visit_expr(g);
            }
        }
        self.visit_expr(&a.body);
    }
    fn visit_expr_while(&mut self, e: &'a ExprWhile) {
        if !has_let(&e.cond) {
            self.add(&*e.cond, Kind::Expr, vec![("while false", "false".into())]);
        }
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'a ExprBinary) {
        use BinOp::*;
        let (assign, ops): (bool, &[&str]) = match e.op {
            Add(_) => (false, &["-"]),
            Sub(_) => (false, &["+"]),
            Mul(_) => (false, &["/"]),
            Div(_) => (false, &["*"]),
            Rem(_) => (false, &["/"]),
            And(_) => (false, &["||"]),
            Or(_) => (false, &["&&"]),
            BitXor(_) => (false, &["|"]),
            BitAnd(_) => (false, &["|"]),
            BitOr(_) => (false, &["&", "^"]),
            Shl(_) => (false, &[">>"]),
            Shr(_) => (false, &["<<"]),
            Eq(_) => (false, &["!="]),
            Ne(_) => (false, &["=="]),
            Lt(_) => (false, &["<=", ">="]),
            Le(_) => (false, &["<", ">"]),
            Gt(_) => (false, &[">=", "<="]),
            Ge(_) => (false, &[">", "<"]),
            AddAssign(_) => (true, &["-="]),
            SubAssign(_) => (true, &["+="]),
            BitOrAssign(_) => (true, &["&=", "^=", "="]),
            BitAndAssign(_) => (true, &["|=", "="]),
            ShlAssign(_) => (true, &[">>="]),
            ShrAssign(_) => (true, &["<<="]),
            _ => (false, &[]),
        };
        if !has_let(&e.left) && !has_let(&e.right) {
            let (l, r) = (self.t(&*e.left).to_string(), self.t(&*e.right).to_string());
            let mut v: Vec<(&str, String)> = ops.iter().map(|o| (*o, format!("({l}) {o} ({r})"))).collect();
            if assign {
                v.iter_mut().for_each(|x| x.1 = x.1.replacen(&format!("({l})"), &l, 1));
            }
            if matches!(e.op, And(_) | Or(_)) {
                v.push(("left only", format!("({l})")));
                v.push(("right only", format!("({r})")));
            }
            self.add(e, Kind::Expr, v);
        }
        if assign {
            self.visit_expr(&e.right);
        } else {
            visit::visit_expr_binary(self, e);
        }
    }
    fn visit_expr_unary(&mut self, e: &'a ExprUnary) {
        match e.op {
            UnOp::Deref(_) => {
                // A place.
            }
            _ => {
                let i = self.t(&*e.expr).to_string();
                self.add(e, Kind::Expr, vec![("drop operator", format!("({i})"))]);
                self.visit_expr(&e.expr);
            }
        }
    }
    fn visit_expr_lit(&mut self, e: &'a ExprLit) {
        match &e.lit {
            Lit::Int(i) => {
                let d = i.base10_digits().to_string();
                let s = i.suffix();
                let n: u128 = d.parse().unwrap_or(0);
                let mut v = vec![("literal plus one", format!("{}{s}", n + 1))];
                if n > 0 {
                    v.push(("literal minus one", format!("{}{s}", n - 1)));
                }
                self.add(e, Kind::Expr, v);
            }
            Lit::Bool(b) => self.add(e, Kind::Expr, vec![("negated literal", (!b.value).to_string())]),
            _ => {}
        }
    }
    fn visit_expr_range(&mut self, e: &'a ExprRange) {
        let mut v = Vec::new();
        let s = e.start.as_ref().map(|x| self.t(&**x).to_string()).unwrap_or_default();
        let n = e.end.as_ref().map(|x| self.t(&**x).to_string()).unwrap_or_default();
        let op = if matches!(e.limits, RangeLimits::HalfOpen(_)) { ".." } else { "..=" };
        if !n.is_empty() {
            v.push(("range end plus one", format!("{s}{op}(({n}) + 1)")));
            v.push(("range end minus one", format!("{s}{op}(({n}) - 1)")));
        }
        if !s.is_empty() {
            v.push(("range start plus one", format!("(({s}) + 1){op}{n}")));
        }
        self.add(e, Kind::Expr, v);
        visit::visit_expr_range(self, e);
    }
    fn visit_expr_index(&mut self, e: &'a ExprIndex) {
        // The indexed expression is a place.
        self.visit_expr(&e.index);
    }
    fn visit_expr_call(&mut self, e: &'a ExprCall) {
        let f = self.t(&*e.func).to_string();
        if f == "Some" && self.places == 0 {
            self.add(e, Kind::Expr, vec![("Some to None", "None".into())]);
        }
        for a in &e.args {
            self.visit_expr(a);
        }
        if !matches!(&*e.func, Expr::Path(_)) {
            self.visit_expr(&e.func);
        }
        // Swapped arguments of the same type.
        if e.args.len() == 2 {
            let (a, b) = (self.t(&e.args[0]).to_string(), self.t(&e.args[1]).to_string());
            self.add(e, Kind::Expr, vec![("swapped arguments", format!("{f}({b}, {a})"))]);
        }
    }
    fn visit_expr_method_call(&mut self, e: &'a ExprMethodCall) {
        let whole = self.t(e).to_string();
        let base = e.span().byte_range().start;
        let m = e.method.span().byte_range();
        let name = e.method.to_string();
        let mut v = Vec::new();
        for (a, b) in METHODS {
            if name == *a {
                v.push((*b, format!("{}{b}{}", &whole[..m.start - base], &whole[m.end - base..])));
            }
        }
        if DROP.contains(&name.as_str()) {
            v.push(("dropped call", format!("({})", self.t(&*e.receiver))));
            if e.args.len() == 1 && ["min", "max", "or"].contains(&name.as_str()) {
                v.push(("argument only", format!("({})", self.t(&e.args[0]))));
            }
        }
        if self.places == 0 {
            self.add(e, Kind::Expr, v);
        }
        // Receivers may be places.
        if !matches!(&*e.receiver, Expr::Path(_) | Expr::Field(_) | Expr::Index(_)) {
            self.visit_expr(&e.receiver);
        }
        for a in &e.args {
            self.visit_expr(a);
        }
    }
    fn visit_expr_field(&mut self, _: &'a ExprField) {}
    fn visit_expr_macro(&mut self, _: &'a ExprMacro) {}
}
impl M<'_> {
    fn body(&mut self, sig: &Signature, b: &Block) {
        let r: Option<String> = match &sig.output {
            ReturnType::Default => None,
            ReturnType::Type(_, t) => Some(self.t(&**t).split_whitespace().collect::<Vec<_>>().join(" ")),
        };
        if b.stmts.is_empty() {
            return;
        }
        let v: Vec<(&str, String)> = match r.as_deref() {
            None => vec![("empty body", "return;".into())],
            Some("bool") => vec![("return true", "return true;".into()), ("return false", "return false;".into())],
            Some("usize") => vec![("return 0", "return 0;".into()), ("return 1", "return 1;".into())],
            Some("(usize, Option<usize>)") => vec![
                ("return unknown hint", "return (0, None);".into()),
                ("return zero hint", "return (0, Some(0));".into()),
            ],
            Some(x) if x.starts_with("Option<") => vec![("return None", "return None;".into())],
            Some(x) if x.starts_with("Result<()") => vec![("return Ok", "return Ok(());".into())],
            _ => vec![],
        };
        let s = b.brace_token.span.open().byte_range().end;
        let f = self.fns.join("::");
        if !v.is_empty() {
            let alts = v.into_iter().map(|(d, a)| (format!("{f}: {d}"), a)).collect();
            self.nodes.push(Node { s, e: s, alts, kind: Kind::Body });
        }
    }
}

fn emit(src: &str, nodes: &[Node], s: usize, e: usize, at: &mut usize, guard: &str, id: &mut usize, skip: &HashSet<usize>, file: &str) -> String {
    let mut out = String::new();
    let mut pos = s;
    while *at < nodes.len() && nodes[*at].s >= s && (nodes[*at].s < e || nodes[*at].s == nodes[*at].e && nodes[*at].s <= e) && nodes[*at].e <= e {
        let n = &nodes[*at];
        *at += 1;
        out += &src[pos..n.s];
        let mut arms = Vec::new();
        for (d, a) in &n.alts {
            *id += 1;
            if !skip.contains(id) {
                let line = src[..n.s].matches('\n').count() + 1;
                let orig: String = src[n.s..n.e].split_whitespace().collect::<Vec<_>>().join(" ");
                println!("{id}\t{file}:{line}\t{d}\t{orig}\t{}", a.split_whitespace().collect::<Vec<_>>().join(" "), orig = orig.chars().take(120).collect::<String>());
                arms.push((*id, a.clone()));
            }
        }
        let inner = emit(src, nodes, n.s, n.e, at, guard, id, skip, file);
        if arms.is_empty() {
            out += &inner;
        } else {
            match n.kind {
                Kind::Expr => {
                    out += "(";
                    for (i, a) in &arms {
                        out += &format!("if {guard}({i}) {{ /*<{i}*/{a}/*>*/ }} else ");
                    }
                    let ids: Vec<String> = arms.iter().map(|x| x.0.to_string()).collect();
                    out += &format!("{{ /*<{}*/{inner}/*>*/ }})", ids.join(","));
                }
                Kind::Stmt => out += &format!("if !{guard}({i}) {{ /*<{i}*/{inner}/*>*/ }}", i = arms[0].0),
                Kind::Body => {
                    for (i, a) in &arms {
                        out += &format!(" if {guard}({i}) {{ /*<{i}*/{a}/*>*/ }} ");
                    }
                }
            }
        }
        pos = n.e;
    }
    out += &src[pos..e];
    out
}

fn main() {
    let a: Vec<String> = env::args().collect();
    let guard = &a[1];
    let mut id: usize = a[2].parse().unwrap();
    let skip: HashSet<usize> = fs::read_to_string(&a[3]).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
    for f in &a[4..] {
        let src = fs::read_to_string(f).unwrap();
        let file = parse_file(&src).unwrap();
        let mut m = M { src: &src, nodes: Vec::new(), fns: Vec::new(), places: 0 };
        m.visit_file(&file);
        let mut nodes = m.nodes;
        // Outer first; same span: keep order of discovery.
        nodes.sort_by(|x, y| x.s.cmp(&y.s).then(y.e.cmp(&x.e)));
        let mut at = 0;
        let out = emit(&src, &nodes, 0, src.len(), &mut at, guard, &mut id, &skip, f);
        assert_eq!(at, nodes.len(), "{f}");
        fs::write(f, out).unwrap();
    }
    eprintln!("last id {id}");
}
