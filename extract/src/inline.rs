//! Calls of helpers the template knows nothing about (functions split off a function under contract), and constants of that
//! kind, are put back in place before extraction: parameter by argument, the helper's own text.
use super::*;
use quote::ToTokens;

/// functions and constants a template speaks of: called or declared in its text, or named in a directive about functions
pub fn mentioned(lines: &[String]) -> std::collections::HashSet<String> {
    let mut s = std::collections::HashSet::new();
    for l in lines {
        let t = l.trim();
        if t.starts_with("//") && !t.starts_with("//@") {
            continue;
        }
        let all = ["//@fn", "//@rule", "//@methods", "//@lift", "//@closurefn", "//@name", "//@before", "//@after ", "//@item"].iter().any(|d| t.starts_with(d));
        let mut w = String::new();
        let (mut prev, mut before) = (String::new(), String::new());
        for c in l.chars().chain(" ".chars()) {
            if c.is_alphanumeric() || c == '_' {
                w.push(c)
            } else if !w.is_empty() {
                let w = std::mem::take(&mut w);
                let upper = w.chars().all(|c| !c.is_lowercase());
                let decl = ["fn", "const", "static"].contains(&prev.as_str()) && !["spec", "proof"].contains(&before.as_str());
                if all || upper || decl {
                    s.insert(w.clone());
                }
                before = std::mem::replace(&mut prev, w);
            }
        }
    }
    s
}

struct Helper<'a> {
    sig: &'a syn::Signature,
    block: &'a syn::Block,
}
fn self_ty(path: &str) -> Option<String> {
    let imp = path.rsplit_once("::")?.0;
    let t = imp.split(" for ").last().unwrap().trim();
    if t.starts_with("trait ") {
        return None;
    }
    Some(strip_generics(&normstr(t)))
}
fn find_helper<'a>(items: &'a [syn::Item], ty: Option<&str>, name: &str) -> Option<Helper<'a>> {
    for it in items {
        match (it, ty) {
            (syn::Item::Fn(f), None) if f.sig.ident == name && !is_test_cfg(&f.attrs) => return Some(Helper { sig: &f.sig, block: &f.block }),
            (syn::Item::Impl(i), Some(t)) if i.trait_.is_none() && strip_generics(&norm(&i.self_ty)) == t => {
                for ii in &i.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            return Some(Helper { sig: &f.sig, block: &f.block });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}
/// the type of a place, as far as the file tells: self, a parameter, their fields
fn place_ty(items: &[syn::Item], selfty: Option<&String>, sig: &syn::Signature, e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(p) => {
            let n = p.path.get_ident()?.to_string();
            if n == "self" {
                return selfty.cloned();
            }
            for i in &sig.inputs {
                if let syn::FnArg::Typed(t) = i {
                    if norm(&t.pat) == n || norm(&t.pat) == format!("mut {}", n) {
                        let mut ty = &*t.ty;
                        while let syn::Type::Reference(r) = ty {
                            ty = &r.elem;
                        }
                        return Some(strip_generics(&norm(ty)));
                    }
                }
            }
            None
        }
        syn::Expr::Field(f) => {
            let base = place_ty(items, selfty, sig, &f.base)?;
            let syn::Member::Named(m) = &f.member else { return None };
            for it in items {
                if let syn::Item::Struct(s) = it {
                    if s.ident == base.as_str() {
                        for fd in &s.fields {
                            if fd.ident.as_ref() == Some(m) {
                                return Some(strip_generics(&norm(&fd.ty)));
                            }
                        }
                    }
                }
            }
            None
        }
        _ => None,
    }
}
/// the one type of the file which has a method of this name, for a local whose type is not written down
fn only_owner(items: &[syn::Item], e: &syn::Expr, name: &str) -> Option<String> {
    let syn::Expr::Path(p) = e else { return None };
    p.path.get_ident()?;
    // names the standard library's types have as well
    if name.len() < 5 || STD.contains(&name) {
        return None;
    }
    let mut found = None;
    for it in items {
        match it {
            syn::Item::Impl(i) => {
                for ii in &i.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            if found.is_some() || i.trait_.is_some() {
                                return None;
                            }
                            found = Some(strip_generics(&norm(&i.self_ty)));
                        }
                    }
                }
            }
            syn::Item::Trait(t) => {
                if t.items.iter().any(|x| matches!(x, syn::TraitItem::Fn(f) if f.sig.ident == name)) {
                    return None;
                }
            }
            _ => {}
        }
    }
    found
}
const STD: &[&str] = &[
    "is_empty", "clear", "insert", "remove", "first", "split", "parse", "extend", "append", "values", "count", "unwrap", "expect", "clone", "filter", "collect", "retain", "truncate", "contains", "contains_key", "entry", "flatten",
    "chain", "enumerate", "position", "swap_remove", "resize", "reserve", "drain", "sort_by", "replace", "trim_end", "as_str", "as_bytes", "as_ref", "as_mut", "is_some", "is_none", "is_ok", "is_err", "powf", "signum", "clamp",
    "values_mut", "iter_mut", "write", "flush", "read_line", "lines", "chars", "bytes", "starts_with", "ends_with",
];
fn find_const<'a>(items: &'a [syn::Item], ty: Option<&str>, name: &str) -> Option<&'a syn::Expr> {
    for it in items {
        match (it, ty) {
            (syn::Item::Const(c), None) if c.ident == name => return Some(&c.expr),
            (syn::Item::Impl(i), Some(t)) if i.trait_.is_none() && strip_generics(&norm(&i.self_ty)) == t => {
                for ii in &i.items {
                    if let syn::ImplItem::Const(c) = ii {
                        if c.ident == name {
                            return Some(&c.expr);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn idents(ts: TokenStream, out: &mut Vec<(String, usize, usize)>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                let (a, b) = rng(i.span());
                out.push((i.to_string(), a, b));
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
fn words_of(text: &str) -> Vec<String> {
    let mut v = vec![];
    if let Ok(ts) = TokenStream::from_str(text) {
        idents(ts, &mut v);
    }
    v.into_iter().map(|x| x.0).collect()
}
/// names bound anywhere in a block
fn bound(b: &syn::Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'x> Visit<'x> for V {
        fn visit_pat_ident(&mut self, p: &'x syn::PatIdent) {
            self.0.push(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0
}
/// (leaves early, calls itself, has something that cannot be moved)
fn shape(b: &syn::Block, name: &str) -> (bool, bool, bool) {
    struct V<'n>(bool, bool, bool, &'n str);
    impl<'x, 'n> Visit<'x> for V<'n> {
        fn visit_expr_return(&mut self, e: &'x syn::ExprReturn) {
            self.0 = true;
            syn::visit::visit_expr_return(self, e);
        }
        fn visit_expr_try(&mut self, e: &'x syn::ExprTry) {
            self.0 = true;
            syn::visit::visit_expr_try(self, e);
        }
        fn visit_expr_closure(&mut self, e: &'x syn::ExprClosure) {
            let was = self.0;
            syn::visit::visit_expr_closure(self, e);
            self.0 = was;
        }
        fn visit_path(&mut self, p: &'x syn::Path) {
            if p.segments.last().map(|s| s.ident == self.3).unwrap_or(false) {
                self.1 = true;
            }
            syn::visit::visit_path(self, p);
        }
        fn visit_expr_method_call(&mut self, m: &'x syn::ExprMethodCall) {
            if m.method == self.3 {
                self.1 = true;
            }
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_item(&mut self, _: &'x syn::Item) {
            self.2 = true;
        }
        fn visit_lit_str(&mut self, l: &'x syn::LitStr) {
            let v = l.value();
            if v.split('{').skip(1).any(|x| x.chars().next().map(|c| c.is_alphabetic() || c == '_').unwrap_or(false)) {
                self.2 = true;
            }
        }
        fn visit_macro(&mut self, m: &'x syn::Macro) {
            let s = m.tokens.to_string();
            if s.split('{').skip(1).any(|x| x.chars().next().map(|c| c.is_alphabetic() || c == '_').unwrap_or(false)) || s.contains("return") || s.contains('?') {
                self.2 = true;
            }
        }
    }
    let mut v = V(false, false, false, name);
    v.visit_block(b);
    (v.0, v.1, v.2)
}

struct Site {
    name: String,
    ty: Option<String>,
    lo: usize,
    hi: usize,
    args: Vec<(usize, usize)>,
    has_self: bool,
    recv: Option<String>,
}
struct Calls<'a> {
    sig: &'a syn::Signature,
    known: &'a std::collections::HashSet<String>,
    items: &'a [syn::Item],
    ty: Option<String>,
    sites: Vec<Site>,
    consts: Vec<(usize, usize, String)>,
    text: &'a str,
}
impl<'a, 'x> Visit<'x> for Calls<'a> {
    fn visit_expr(&mut self, e: &'x syn::Expr) {
        syn::visit::visit_expr(self, e);
        let target = |p: &syn::Path| -> Option<(String, Option<String>)> {
            let s: Vec<String> = p.segments.iter().map(|x| x.ident.to_string()).collect();
            let n = s.last()?.clone();
            if self.known.contains(&n) || p.leading_colon.is_some() {
                return None;
            }
            match s.len() {
                1 => Some((n, None)),
                2 if s[0] == "Self" || Some(&s[0]) == self.ty.as_ref() => Some((n, Some(self.ty.clone()?))),
                _ => None,
            }
        };
        match e {
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    if let Some((n, ty)) = target(&p.path) {
                        if let Some(h) = find_helper(self.items, ty.as_deref(), &n) {
                            if h.sig.receiver().is_none() {
                                let (lo, hi) = rng(c.span());
                                self.sites.push(Site { name: n, ty, lo, hi, args: c.args.iter().map(|a| rng(a.span())).collect(), has_self: false, recv: None });
                            }
                        }
                    }
                }
            }
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if !self.known.contains(&n) {
                    if let Some(t) = place_ty(self.items, self.ty.as_ref(), self.sig, &m.receiver).or_else(|| only_owner(self.items, &m.receiver, &n)) {
                        if let Some(h) = find_helper(self.items, Some(&t), &n) {
                            if h.sig.receiver().is_some() {
                                let (lo, hi) = rng(m.span());
                                let r = norm(&m.receiver);
                                let recv = if r == "self" { None } else { let (a, b) = rng(m.receiver.span()); Some(self.text[a..b].to_string()) };
                                self.sites.push(Site { name: n, ty: Some(t.clone()), lo, hi, args: m.args.iter().map(|a| rng(a.span())).collect(), has_self: true, recv });
                            }
                        }
                    }
                }
            }
            syn::Expr::Path(p) => {
                if let Some((n, ty)) = target(&p.path) {
                    if let Some(x) = find_const(self.items, ty.as_deref(), &n) {
                        let (lo, hi) = rng(p.span());
                        let (a, b) = rng(x.span());
                        self.consts.push((lo, hi, format!("({})", &self.text[a..b])));
                    }
                }
            }
            _ => {}
        }
    }
}

fn one(e: &syn::Expr, sub: &HashMap<String, String>) -> Option<String> {
    if let syn::Expr::Path(p) = e {
        p.path.get_ident().map(|i| i.to_string()).filter(|i| sub.contains_key(i))
    } else {
        None
    }
}

/// the helper's body with arguments for parameters: (statements, tail, names of parameters kept)
fn body_for(text: &str, h: &Helper, s: &Site) -> Option<(String, String, Vec<String>)> {
    let params: Vec<&syn::PatType> = h.sig.inputs.iter().filter_map(|i| if let syn::FnArg::Typed(t) = i { Some(t) } else { None }).collect();
    if params.len() != s.args.len() || h.sig.asyncness.is_some() || h.sig.unsafety.is_some() {
        return None;
    }
    let binds = bound(h.block);
    let mut lets = String::new();
    let mut own = vec![];
    let mut sub: HashMap<String, String> = HashMap::new();
    if let Some(r) = &s.recv {
        if h.sig.receiver().map(|x| x.reference.is_none()).unwrap_or(true) || !r.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') {
            return None;
        }
        sub.insert("self".to_string(), r.clone());
    }
    let selfroot = s.recv.as_ref().map(|r| r.split('.').next().unwrap().to_string()).unwrap_or("self".to_string());
    let arg = |k: usize| text[s.args[k].0..s.args[k].1].trim().to_string();
    for (k, p) in params.iter().enumerate() {
        let syn::Pat::Ident(pi) = &*p.pat else { return None };
        let (n, a) = (pi.ident.to_string(), arg(k));
        if pi.by_ref.is_some() || pi.subpat.is_some() {
            return None;
        }
        let stripped = a.trim_start_matches("&mut ").trim_start_matches('&').trim();
        let place = stripped.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') && !stripped.is_empty();
        // a copy taken at the call is not the place, when the helper may write the place
        let root = stripped.split('.').next().unwrap_or("").to_string();
        let written = !a.starts_with('&')
            && ((root == selfroot && h.sig.receiver().map(|r| r.mutability.is_some() && r.reference.is_some()).unwrap_or(false))
                || (0..params.len()).any(|j| j != k && arg(j).starts_with("&mut ") && words_of(&arg(j)).contains(&root)));
        let same = a == n;
        if (binds.contains(&n) && !same) || pi.mutability.is_some() || !place || written {
            // a value of its own
            if params.iter().enumerate().any(|(j, _)| j != k && words_of(&arg(j)).contains(&n)) {
                return None;
            }
            own.push(n.clone());
            lets.push_str(&format!("let {}{} = {};\n", if pi.mutability.is_some() { "mut " } else { "" }, n, a));
        } else {
            sub.insert(n, a);
        }
    }
    // a name bound in the helper must not hide one an argument speaks of
    let root = |v: &String| v.trim_start_matches("&mut ").trim_start_matches('&').trim().split('.').next().unwrap_or("").to_string();
    if binds.iter().any(|b| sub.values().any(|v| root(v) == *b)) {
        return None;
    }
    // replace the parameters
    struct D<'d> {
        sub: &'d HashMap<String, String>,
        edits: Vec<(usize, usize, String)>,
    }
    impl<'x, 'd> Visit<'x> for D<'d> {
        fn visit_expr(&mut self, e: &'x syn::Expr) {
            let one = |e: &syn::Expr| one(e, self.sub);
            match e {
                syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                    if let Some(n) = one(&u.expr) {
                        let v = &self.sub[&n];
                        if v.starts_with('&') {
                            let (a, b) = rng(u.span());
                            self.edits.push((a, b, v.trim_start_matches("&mut ").trim_start_matches('&').trim().to_string()));
                            return;
                        }
                    }
                }
                syn::Expr::MethodCall(m) => {
                    if let Some(n) = one(&m.receiver) {
                        let v = &self.sub[&n];
                        let (a, b) = rng(m.receiver.span());
                        self.edits.push((a, b, v.trim_start_matches("&mut ").trim_start_matches('&').trim().to_string()));
                        for x in &m.args {
                            self.visit_expr(x);
                        }
                        return;
                    }
                }
                syn::Expr::Field(f) => {
                    if let Some(n) = one(&f.base) {
                        let v = &self.sub[&n];
                        let (a, b) = rng(f.base.span());
                        self.edits.push((a, b, v.trim_start_matches("&mut ").trim_start_matches('&').trim().to_string()));
                        return;
                    }
                }
                syn::Expr::Index(f) => {
                    if let Some(n) = one(&f.expr) {
                        let v = &self.sub[&n];
                        let (a, b) = rng(f.expr.span());
                        self.edits.push((a, b, v.trim_start_matches("&mut ").trim_start_matches('&').trim().to_string()));
                        self.visit_expr(&f.index);
                        return;
                    }
                }
                syn::Expr::Path(_) => {
                    if let Some(n) = one(e) {
                        let (a, b) = rng(e.span());
                        self.edits.push((a, b, self.sub[&n].clone()));
                        return;
                    }
                }
                _ => {}
            }
            syn::visit::visit_expr(self, e);
        }
        fn visit_field_value(&mut self, f: &'x syn::FieldValue) {
            if f.colon_token.is_none() {
                if let Some(n) = one(&f.expr, self.sub) {
                    let (a, b) = rng(f.expr.span());
                    self.edits.push((a, b, format!("{}: {}", n, self.sub[&n])));
                }
                return;
            }
            syn::visit::visit_field_value(self, f);
        }
        fn visit_macro(&mut self, m: &'x syn::Macro) {
            let mut v = vec![];
            idents(m.tokens.clone(), &mut v);
            for (n, a, b) in v {
                if let Some(x) = self.sub.get(&n) {
                    self.edits.push((a, b, x.clone()));
                }
            }
        }
    }
    let mut d = D { sub: &sub, edits: vec![] };
    d.visit_block(h.block);
    d.edits.sort();
    let apply = |lo: usize, hi: usize| -> String {
        let mut o = String::new();
        let mut at = lo;
        for (a, b, t) in d.edits.iter().filter(|e| e.0 >= lo && e.1 <= hi) {
            o.push_str(&text[at..*a]);
            o.push_str(t);
            at = *b;
        }
        o.push_str(&text[at..hi]);
        o
    };
    let (blo, bhi) = rng(h.block.span());
    let tail = match h.block.stmts.last() {
        Some(syn::Stmt::Expr(e, None)) => Some(rng(e.span())),
        Some(syn::Stmt::Macro(m)) if m.semi_token.is_none() => Some(rng(m.span())),
        _ => None,
    };
    Some(match tail {
        Some((a, b)) => (format!("{}{}", lets, apply(blo + 1, a)), apply(a, b), own),
        None => (format!("{}{}", lets, apply(blo + 1, bhi - 1)), String::new(), own),
    })
}

impl Ctx {
    /// put helpers and constants unknown to the template back into the function `path` of `key`
    pub fn restore(&mut self, key: &str, path: &str) -> R<()> {
        if !key.ends_with(".rs") {
            return Ok(());
        }
        self.load_file(key)?;
        for _round in 0..12 {
            let src = &self.sources[key];
            let Some(f) = find_fn(&src.file.items, path) else { return Ok(()) };
            let text = src.text.as_str();
            let mut c = Calls { sig: f.sig, known: &self.known, items: &src.file.items, ty: self_ty(path), sites: vec![], consts: vec![], text };
            c.visit_block(f.block);
            let mut new = None;
            let mut what = String::new();
            if let Some((lo, hi, t)) = c.consts.first() {
                what = text[*lo..*hi].to_string();
                new = Some(format!("{}{}{}", &text[..*lo], t, &text[*hi..]));
            }
            for s in &c.sites {
                if new.is_some() {
                    break;
                }
                let Some(h) = find_helper(&src.file.items, s.ty.as_deref(), &s.name) else { continue };
                let (leaves, selfcall, odd) = shape(h.block, &s.name);
                if selfcall || odd || (s.has_self != h.sig.receiver().is_some()) {
                    continue;
                }
                // where the call stands
                struct P {
                    lo: usize,
                    hi: usize,
                    stmt: Option<(usize, usize, bool)>,
                    letinit: Option<(usize, usize)>,
                    tail: bool,
                    tried: bool,
                    inclosure: bool,
                }
                impl<'x> Visit<'x> for P {
                    fn visit_stmt(&mut self, st: &'x syn::Stmt) {
                        match st {
                            syn::Stmt::Expr(e, semi) if rng(e.span()) == (self.lo, self.hi) => {
                                let (a, b) = rng(st.span());
                                self.stmt = Some((a, b, semi.is_some()))
                            }
                            syn::Stmt::Local(l) => {
                                if let Some(i) = &l.init {
                                    if rng(i.expr.span()) == (self.lo, self.hi) && i.diverge.is_none() {
                                        self.letinit = Some(rng(st.span()));
                                    }
                                }
                            }
                            _ => {}
                        }
                        syn::visit::visit_stmt(self, st);
                    }
                    fn visit_expr_try(&mut self, t: &'x syn::ExprTry) {
                        if rng(t.expr.span()) == (self.lo, self.hi) {
                            self.tried = true;
                        }
                        syn::visit::visit_expr_try(self, t);
                    }
                    fn visit_expr_closure(&mut self, c: &'x syn::ExprClosure) {
                        let (a, b) = rng(c.span());
                        if a <= self.lo && self.hi <= b {
                            self.inclosure = true;
                        }
                        syn::visit::visit_expr_closure(self, c);
                    }
                }
                let mut p = P { lo: s.lo, hi: s.hi, stmt: None, letinit: None, tail: false, tried: false, inclosure: false };
                p.visit_block(f.block);
                if let Some(syn::Stmt::Expr(e, None)) = f.block.stmts.last() {
                    p.tail = rng(e.span()) == (s.lo, s.hi);
                }
                if leaves && (p.inclosure || !(p.tail || p.tried)) {
                    continue;
                }
                let Some((stmts, tail, lets)) = body_for(text, &h, s) else { continue };
                // names the helper binds must not be taken for the caller's
                let mut theirs: Vec<String> = bound(h.block);
                theirs.extend(lets);
                let fhi = rng(f.block.span()).1;
                let after = words_of(&text[s.hi..fhi - 1].replace(['{', '}', '(', ')', '[', ']'], " "));
                let clash = words_of(&stmts).iter().any(|w| theirs.contains(w) && after.contains(w));
                let empty = stmts.trim().is_empty();
                let inner = if empty && !tail.is_empty() { format!("({})", tail) } else { format!("({{\n{}{}\n}})", stmts, tail) };
                let (lo, hi, t) = if let (Some((a, b, semi)), false) = (p.stmt, clash) {
                    // a statement (or the tail) of its own: the helper's statements in its place
                    (a, b, if semi { if tail.is_empty() { stmts.clone() } else { format!("{}{};\n", stmts, tail) } } else { format!("{}{}", stmts, tail) })
                } else if let (Some((a, b)), false, false) = (p.letinit, clash, tail.is_empty()) {
                    (a, b, format!("{}{}{}{}", stmts, &text[a..s.lo], tail, &text[s.hi..b]))
                } else {
                    (s.lo, s.hi, inner)
                };
                what = s.name.clone();
                new = Some(format!("{}{}{}", &text[..lo], t, &text[hi..]));
            }
            let Some(t) = new else { return Ok(()) };
            let Ok(file) = syn::parse_file(&t) else { return Ok(()) };
            self.log.push(serde_json::json!({"rule":"restore","fn":path,"what":what}));
            self.sources.insert(key.to_string(), Source { text: t, file });
        }
        Ok(())
    }
}
