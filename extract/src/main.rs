//! Mechanical extraction of /repo functions into a Verus file.
//! usage: extract <repo-root> <template.vt> <out.rs> <out.json>
mod inline;
mod saved;
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;
use syn::spanned::Spanned;
use syn::visit::Visit;

type R<T> = Result<T, String>;

/// one parsed source text (a file of /repo, or the textual expansion of one of its macro_rules)
struct Source {
    text: String,
    file: syn::File,
}

fn norm<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}
fn normstr(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

#[derive(Debug, Clone)]
enum Piece {
    Lit(String),
    Sub(usize, usize),
}
#[derive(Debug, Clone)]
struct Edit {
    lo: usize,
    hi: usize,
    pieces: Vec<Piece>,
    seq: usize,
}

fn render(text: &str, edits: &[Edit], lo: usize, hi: usize, skip: Option<usize>) -> String {
    render2(text, edits, lo, hi, skip, None, None)
}
/// za / zb: positions whose zero-width inserts the enclosing edit has already emitted (or will emit)
fn render2(text: &str, edits: &[Edit], lo: usize, hi: usize, skip: Option<usize>, za: Option<usize>, zb: Option<usize>) -> String {
    // outermost edits inside [lo,hi]; insertions (lo==hi) sorted by seq
    let mut cand: Vec<&Edit> = edits
        .iter()
        .filter(|e| e.lo >= lo && e.hi <= hi && Some(e.seq) != skip)
        .filter(|e| !(e.lo == e.hi && (Some(e.lo) == za || Some(e.lo) == zb)))
        .collect();
    if let Some(s) = skip {
        // edits with the same range as the one being expanded and earlier seq are already applied
        let me = edits.iter().find(|e| e.seq == s).unwrap();
        cand.retain(|e| !(e.lo == me.lo && e.hi == me.hi && e.lo != e.hi && e.seq < s));
        // strictly containing edits cannot be inside
    }
    cand.sort_by(|a, b| a.lo.cmp(&b.lo).then(b.hi.cmp(&a.hi)).then(a.seq.cmp(&b.seq)));
    // zero-width inserts at the same lo as a replacement go first
    cand.sort_by(|a, b| {
        a.lo.cmp(&b.lo).then_with(|| {
            let az = a.lo == a.hi;
            let bz = b.lo == b.hi;
            bz.cmp(&az).then(b.hi.cmp(&a.hi)).then(a.seq.cmp(&b.seq))
        })
    });
    let mut out = String::new();
    let mut pos = lo;
    for e in cand {
        if e.lo < pos {
            continue; // inside an already rendered replacement
        }
        out.push_str(&text[pos..e.lo]);
        for p in &e.pieces {
            match p {
                Piece::Lit(s) => out.push_str(s),
                Piece::Sub(a, b) => {
                    let inner_skip = if *a == e.lo && *b == e.hi { Some(e.seq) } else { None };
                    let xa = if *a == e.lo { Some(*a) } else { None };
                    let xb = if *b == e.hi { Some(*b) } else { None };
                    out.push_str(&render2(text, edits, *a, *b, inner_skip, xa, xb));
                }
            }
        }
        pos = e.hi;
    }
    out.push_str(&text[pos..hi]);
    out
}

// ---------- template ----------
#[derive(Default, Debug)]
struct FnDir {
    cut: Option<(String, String, bool)>,
    src: String,
    path: String,
    name: Option<String>,
    ret: Option<String>,
    attrs: Vec<String>,
    vis: Option<String>,
    spec: String,
    start: String,
    end: String,
    sig: Option<String>,
    body_only_stub: bool,
    loops: BTreeMap<usize, LoopDir>,
    rules: Vec<Vec<String>>,
    lets: Vec<(String, usize, String)>,
    line: usize,
}
#[derive(Default, Debug, Clone)]
struct LoopDir {
    inv: String,
    start: String,
    end: String,
    before: String,
    after: String,
    itername: Option<String>,
    attrs: String,
}

struct Ctx {
    repo: String,
    vacuity: bool,
    sources: HashMap<String, Source>,
    /// identifiers the template mentions
    known: std::collections::HashSet<String>,
    log: Vec<serde_json::Value>,
}

impl Ctx {
    fn load_file(&mut self, key: &str) -> R<()> {
        if self.sources.contains_key(key) {
            return Ok(());
        }
        let p = format!("{}/{}", self.repo, key);
        let text = std::fs::read_to_string(&p).map_err(|e| format!("LOST-ANCHOR file {}: {}", p, e))?;
        let file = syn::parse_file(&text).map_err(|e| format!("PARSE {}: {}", p, e))?;
        self.sources.insert(key.to_string(), Source { text, file });
        Ok(())
    }
    /// expand `file!macro(prefix)` : all invocations of macro in file whose args start with prefix
    /// the defaults derived from serde attributes, as functions of a new source
    fn serde_source(&mut self, alias: &str, file: &str, name: &str) -> R<()> {
        self.load_file(file)?;
        let src = &self.sources[file];
        let it = find_item(&src.file.items, name).ok_or(format!("LOST-ANCHOR item {} in {}", name, file))?;
        let st = match it {
            syn::Item::Struct(s) => s,
            _ => return Err(format!("UNSUPPORTED serde of {}", name)),
        };
        let args = |attrs: &[syn::Attribute]| -> R<Vec<(String, Option<String>)>> {
            let mut v = vec![];
            for a in attrs {
                if a.path().is_ident("serde") {
                    a.parse_nested_meta(|m| {
                        let k = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                        let val = if m.input.peek(syn::Token![=]) { Some(m.value()?.parse::<syn::LitStr>()?.value()) } else { None };
                        v.push((k, val));
                        Ok(())
                    })
                    .map_err(|e| format!("UNSUPPORTED serde attribute in {}: {}", name, e))?;
                }
            }
            Ok(v)
        };
        let derives = st.attrs.iter().any(|a| a.path().is_ident("derive") && a.meta.to_token_stream().to_string().contains("DefaultFromSerde"));
        if !derives {
            return Err(format!("UNSUPPORTED {} does not derive DefaultFromSerde", name));
        }
        let mut deny = false;
        let mut camel = false;
        for (k, v) in args(&st.attrs)? {
            match (k.as_str(), v.as_deref()) {
                ("deny_unknown_fields", None) => deny = true,
                ("rename_all", Some("camelCase")) => camel = true,
                _ => return Err(format!("UNSUPPORTED serde attribute {} of {}", k, name)),
            }
        }
        let mut body = String::new();
        let mut optional = true;
        for f in &st.fields {
            let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
            let mut d = None;
            for (k, v) in args(&f.attrs)? {
                if k != "default" {
                    return Err(format!("UNSUPPORTED serde attribute {} of {}.{}", k, name, n));
                }
                d = Some(v);
            }
            let ty = f.ty.to_token_stream().to_string();
            match d {
                Some(Some(g)) => body.push_str(&format!("{}: {}(), ", n, g)),
                Some(None) => body.push_str(&format!("{}: dflt::<{}>(), ", n, ty)),
                None => {
                    optional = false;
                    body.push_str(&format!("{}: dflt::<{}>(), ", n, ty))
                }
            }
        }
        let out = format!("impl {name} {{\n    pub fn default() -> {name} {{ {name} {{ {body} }} }}\n    pub fn denies_unknown_fields() -> bool {{ {deny} }}\n    pub fn every_field_optional() -> bool {{ {optional} }}\n    pub fn camel_case() -> bool {{ {camel} }}\n}}\n");
        let f = syn::parse_file(&out).map_err(|e| format!("PARSE serde of {}: {}", name, e))?;
        self.log.push(serde_json::json!({"rule":"serde-attributes","struct":name,"file":file,"text":out}));
        self.sources.insert(alias.to_string(), Source { text: out, file: f });
        Ok(())
    }

    /// place: the implementation (file, key) whose body invokes the macro
    fn expand(&mut self, alias: &str, file: &str, mac: &str, prefix: &str, place: Option<(&str, &str)>) -> R<()> {
        self.load_file(file)?;
        if let Some((f, _)) = place {
            self.load_file(f)?;
        }
        let src = &self.sources[file];
        let asrc = &self.sources[place.map(|p| p.0).unwrap_or(file)];
        let mut rules: Option<TokenStream> = None;
        let mut args: Option<TokenStream> = None;
        for it in &src.file.items {
            if let syn::Item::Macro(m) = it {
                if m.ident.as_ref().map(|i| i == mac).unwrap_or(false) {
                    rules = Some(m.mac.tokens.clone());
                } else if m.mac.path.is_ident(mac) {
                    let t = m.mac.tokens.to_string();
                    if normstr(&t).starts_with(&normstr(prefix)) && args.is_none() {
                        args = Some(m.mac.tokens.clone());
                    }
                }
            }
        }
        let mut head = None;
        if let Some((_, key)) = place {
            args = None;
            let want = key.split(" for ").map(normstr).collect::<Vec<_>>().join(" for ");
            for it in &asrc.file.items {
                if let syn::Item::Impl(im) = it {
                    if impl_key(im) == want {
                        for ii in &im.items {
                            if let syn::ImplItem::Macro(m) = ii {
                                if m.mac.path.segments.last().map(|x| x.ident == mac).unwrap_or(false) {
                                    args = Some(m.mac.tokens.clone());
                                    head = Some(format!("impl {}", key));
                                }
                            }
                        }
                    }
                }
            }
        }
        let rules = rules.ok_or(format!("LOST-ANCHOR macro {} in {}", mac, file))?;
        let args = args.ok_or(format!("LOST-ANCHOR invocation {}!({}..) in {}", mac, prefix, file))?;
        // single arm: ( $a:frag, ... ) => { body };
        let toks: Vec<TokenTree> = rules.into_iter().collect();
        if toks.len() < 4 {
            return Err(format!("UNSUPPORTED macro {}", mac));
        }
        let (pat, body) = match (&toks[0], &toks[3]) {
            (TokenTree::Group(p), TokenTree::Group(b)) => (p.clone(), b.clone()),
            _ => return Err(format!("UNSUPPORTED macro {}", mac)),
        };
        if toks.iter().filter(|t| matches!(t, TokenTree::Group(_))).count() != 2 {
            return Err(format!("UNSUPPORTED macro {} has several arms", mac));
        }
        let mut names = vec![];
        let pt: Vec<TokenTree> = pat.stream().into_iter().collect();
        let mut i = 0;
        while i < pt.len() {
            if let TokenTree::Punct(p) = &pt[i] {
                if p.as_char() == '$' {
                    names.push(pt[i + 1].to_string());
                    i += 4;
                    continue;
                }
            }
            i += 1;
        }
        // split args at top-level commas, keep source text of each
        let mut vals: Vec<String> = vec![];
        let mut cur: Option<(usize, usize)> = None;
        for t in args.into_iter() {
            if let TokenTree::Punct(p) = &t {
                if p.as_char() == ',' {
                    if let Some((a, b)) = cur.take() {
                        vals.push(asrc.text[a..b].to_string());
                    }
                    continue;
                }
            }
            let (a, b) = rng(t.span());
            cur = Some(match cur {
                None => (a, b),
                Some((x, _)) => (x, b),
            });
        }
        if let Some((a, b)) = cur.take() {
            vals.push(asrc.text[a..b].to_string());
        }
        if vals.len() != names.len() {
            return Err(format!("UNSUPPORTED macro {} args {:?} vs {:?}", mac, names, vals));
        }
        // textual substitution in body
        let (blo, bhi) = rng(body.span());
        let text = &src.text;
        let mut reps: Vec<(usize, usize, String)> = vec![];
        fn walk(ts: TokenStream, names: &[String], vals: &[String], reps: &mut Vec<(usize, usize, String)>) {
            let v: Vec<TokenTree> = ts.into_iter().collect();
            let mut i = 0;
            while i < v.len() {
                match &v[i] {
                    TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < v.len() => {
                        let n = v[i + 1].to_string();
                        if let Some(k) = names.iter().position(|x| *x == n) {
                            reps.push((rng(v[i].span()).0, rng(v[i + 1].span()).1, vals[k].clone()));
                            i += 2;
                            continue;
                        }
                    }
                    TokenTree::Group(g) => walk(g.stream(), names, vals, reps),
                    _ => {}
                }
                i += 1;
            }
        }
        walk(body.stream(), &names, &vals, &mut reps);
        reps.sort();
        let mut out = String::new();
        let mut pos = blo + 1;
        for (a, b, s) in reps {
            out.push_str(&text[pos..a]);
            out.push_str(&s);
            pos = b;
        }
        out.push_str(&text[pos..bhi - 1]);
        if let Some(h) = head {
            out = format!("{} {{\n{}\n}}\n", h, out);
        }
        let f = syn::parse_file(&out).map_err(|e| format!("PARSE expansion of {}: {}", mac, e))?;
        self.log.push(serde_json::json!({"rule":"macro-expansion","macro":mac,"args":vals,"file":file}));
        self.sources.insert(alias.to_string(), Source { text: out, file: f });
        Ok(())
    }
}

struct Found<'a> {
    attrs: &'a [syn::Attribute],
    vis: Option<&'a syn::Visibility>,
    sig: &'a syn::Signature,
    block: &'a syn::Block,
}

fn impl_key(i: &syn::ItemImpl) -> String {
    let s = norm(&i.self_ty);
    match &i.trait_ {
        Some((_, p, _)) => format!("{} for {}", norm(p), s),
        None => s,
    }
}
fn strip_generics(s: &str) -> String {
    let mut o = String::new();
    let mut d = 0;
    for c in s.chars() {
        match c {
            '<' => d += 1,
            '>' => d -= 1,
            c if d == 0 => o.push(c),
            _ => {}
        }
    }
    o
}
fn is_test_cfg(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| norm(a).contains("cfg(test)"))
}

fn find_fn<'a>(items: &'a [syn::Item], path: &str) -> Option<Found<'a>> {
    let (imp, name) = match path.rsplit_once("::") {
        Some((a, b)) => (Some(a.trim().to_string()), b.trim().to_string()),
        None => (None, path.trim().to_string()),
    };
    for pass in 0..2 {
        for it in items {
            match it {
                syn::Item::Fn(f) if imp.is_none() && f.sig.ident == name && !is_test_cfg(&f.attrs) => {
                    return Some(Found { attrs: &f.attrs, vis: Some(&f.vis), sig: &f.sig, block: &f.block })
                }
                syn::Item::Mod(m) if !is_test_cfg(&m.attrs) => {
                    if let Some((_, its)) = &m.content {
                        if let Some(f) = find_fn(its, path) {
                            return Some(f);
                        }
                    }
                }
                syn::Item::Impl(i) if imp.is_some() => {
                    let want = imp.as_ref().unwrap();
                    let key = impl_key(i);
                    let wantn = want
                        .split(" for ")
                        .map(normstr)
                        .collect::<Vec<_>>()
                        .join(" for ");
                    let ok = if pass == 0 { key == wantn } else { strip_generics(&key) == wantn };
                    if ok {
                        for ii in &i.items {
                            if let syn::ImplItem::Fn(f) = ii {
                                if f.sig.ident == name {
                                    return Some(Found { attrs: &f.attrs, vis: Some(&f.vis), sig: &f.sig, block: &f.block });
                                }
                            }
                        }
                    }
                }
                syn::Item::Trait(t) if imp.is_some() => {
                    if imp.as_ref().unwrap() == &format!("trait {}", t.ident) {
                        for ti in &t.items {
                            if let syn::TraitItem::Fn(f) = ti {
                                if f.sig.ident == name {
                                    if let Some(b) = &f.default {
                                        return Some(Found { attrs: &f.attrs, vis: None, sig: &f.sig, block: b });
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    None
}

struct Coll<'a> {
    text: &'a str,
    edits: Vec<Edit>,
    loopno: usize,
    dir: &'a FnDir,
    rules: HashMap<String, Vec<Vec<String>>>,
    used: BTreeMap<String, usize>,
    err: Option<String>,
    subst: Vec<(String, String, usize)>, // normalised pattern, replacement, hits
    usedloops: Vec<usize>,
    stmt_let_counts: HashMap<String, usize>,
    usedlets: Vec<usize>,
    enum_n: usize,
    spawn_n: usize,
    call_n: HashMap<String, usize>,
}
impl<'a> Coll<'a> {
    fn has(&self, r: &str) -> bool {
        self.rules.contains_key(r)
    }
    fn push(&mut self, lo: usize, hi: usize, pieces: Vec<Piece>, rule: &str) {
        let seq = self.edits.len();
        self.edits.push(Edit { lo, hi, pieces, seq });
        if !rule.is_empty() {
            *self.used.entry(rule.to_string()).or_default() += 1;
        }
    }
    fn ins(&mut self, at: usize, s: String) {
        if !s.trim().is_empty() {
            self.push(at, at, vec![Piece::Lit(s)], "");
        }
    }
    fn try_subst(&mut self, sp: Span) -> bool {
        let (lo, hi) = rng(sp);
        let n = normstr(&self.text[lo..hi]);
        for k in 0..self.subst.len() {
            if self.subst[k].0 == n {
                self.subst[k].2 += 1;
                let rep = self.subst[k].1.clone();
                self.push(lo, hi, vec![Piece::Lit(rep)], "subst");
                return true;
            }
        }
        false
    }
    /// pattern substitutions with one hole `$e`
    fn try_subst_hole(&mut self, e: &syn::Expr) -> bool {
        let (lo, hi) = rng(e.span());
        let reps: Vec<Vec<String>> = self.rules.get("method").cloned().unwrap_or_default();
        // method: NAME -> FUN : `recv.NAME(args)` => `FUN(recv, args)`
        if let syn::Expr::MethodCall(m) = e {
            for r in &reps {
                if m.method == r[0] {
                    let (ra, rb) = rng(m.receiver.span());
                    let mut p = vec![Piece::Lit(format!("{}(", r[1])), Piece::Sub(ra, rb)];
                    for a in &m.args {
                        let (x, y) = rng(a.span());
                        p.push(Piece::Lit(", ".into()));
                        p.push(Piece::Sub(x, y));
                    }
                    p.push(Piece::Lit(")".into()));
                    self.push(lo, hi, p, "method");
                    return true;
                }
            }
        }
        false
    }
    /// `tmpl a.b `TEXT``: `recv.a(x).b(y)` => TEXT with $0 = recv, $1.. = arguments in order,
    /// $pN / $bN = pattern and body of a one-parameter closure argument, @inv etc. = loop annotations
    fn try_tmpl(&mut self, e: &syn::Expr) -> bool {
        let reps: Vec<Vec<String>> = self.rules.get("tmpl").cloned().unwrap_or_default();
        if reps.is_empty() {
            return false;
        }
        for r in &reps {
            let chain: Vec<&str> = r[0].split('.').collect();
            let mut cur = e;
            let mut calls: Vec<&syn::ExprMethodCall> = vec![];
            let mut ok = true;
            for name in chain.iter().rev() {
                match cur {
                    syn::Expr::MethodCall(m) if m.method == name => {
                        calls.push(m);
                        cur = &m.receiver;
                    }
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if !ok {
                continue;
            }
            calls.reverse();
            let args: Vec<&syn::Expr> = calls.iter().flat_map(|c| c.args.iter()).collect();
            let t: Vec<char> = r[1].chars().collect();
            let mut pieces: Vec<Piece> = vec![];
            let mut lit = String::new();
            let mut i = 0;
            let d = if r[1].contains("@inv") { Some(()) } else { None };
            let mut good = true;
            // first pass: applicability
            let txt = &r[1];
            for n in 1..10 {
                let needs_arg = txt.contains(&format!("${}", n)) || txt.contains(&format!("$p{}", n)) || txt.contains(&format!("$b{}", n));
                if needs_arg && args.len() < n {
                    good = false;
                }
                if good && (txt.contains(&format!("$p{}", n)) || txt.contains(&format!("$b{}", n))) {
                    match args[n - 1] {
                        syn::Expr::Closure(c) if c.inputs.len() == if txt.contains(&format!("$q{}", n)) { 2 } else { 1 } => {}
                        _ => good = false,
                    }
                }
            }
            if !good {
                continue;
            }
            let d = d.map(|_| self.loopdir().1).unwrap_or_default();
            while i < t.len() {
                if t[i] == '$' && i + 1 < t.len() {
                    let (kind, dg, adv) = if t[i + 1].is_ascii_digit() {
                        ('x', t[i + 1], 2)
                    } else {
                        (t[i + 1], t[i + 2], 3)
                    };
                    let n = dg.to_digit(10).unwrap() as usize;
                    pieces.push(Piece::Lit(std::mem::take(&mut lit)));
                    let sp = if n == 0 {
                        cur.span()
                    } else {
                        match (kind, args[n - 1]) {
                            ('p', syn::Expr::Closure(c)) => c.inputs[0].span(),
                            ('q', syn::Expr::Closure(c)) => c.inputs[1].span(),
                            ('b', syn::Expr::Closure(c)) => c.body.span(),
                            (_, a) => a.span(),
                        }
                    };
                    let (a, b) = rng(sp);
                    pieces.push(Piece::Sub(a, b));
                    i += adv;
                } else if t[i] == '@' {
                    let rest: String = t[i + 1..].iter().take_while(|c| c.is_alphabetic()).collect();
                    let v = match rest.as_str() {
                        "before" => d.before.clone(),
                        "attrs" => d.attrs.clone(),
                        "it" => d.itername.clone().map(|n| format!("{}: ", n)).unwrap_or_default(),
                        "inv" => d.inv.clone(),
                        "start" => d.start.clone(),
                        "end" => d.end.clone(),
                        "after" => d.after.clone(),
                        _ => {
                            self.err = Some(format!("UNSUPPORTED template hook @{}", rest));
                            String::new()
                        }
                    };
                    lit.push('\n');
                    lit.push_str(&v);
                    lit.push('\n');
                    i += 1 + rest.len();
                } else {
                    lit.push(t[i]);
                    i += 1;
                }
            }
            pieces.push(Piece::Lit(lit));
            let (lo, hi) = rng(e.span());
            self.push(lo, hi, pieces, &format!("tmpl {}", r[0]));
            return true;
        }
        false
    }
    /// rule `spawnfn METHOD TEXT`: `recv.METHOD(|| ..)` => TEXT with $# = its number among these calls (the closure is extracted by itself)
    fn try_spawn(&mut self, e: &syn::Expr) -> bool {
        let Some(reps) = self.rules.get("spawnfn").cloned() else { return false };
        if let syn::Expr::MethodCall(m) = e {
            for r in &reps {
                if m.method == r[0] && m.args.len() == 1 && matches!(m.args[0], syn::Expr::Closure(_)) {
                    let k = self.spawn_n;
                    self.spawn_n += 1;
                    let (lo, hi) = rng(e.span());
                    match r[1].split(" ;; ").nth(k) {
                        Some(t) => self.push(lo, hi, vec![Piece::Lit(t.trim().to_string())], "spawnfn"),
                        None => self.err = Some(format!("UNSUPPORTED further call of {}", r[0])),
                    }
                    return true;
                }
            }
        }
        false
    }
    /// rule `inline PATH`: `PATH(|x| body)` => body
    fn try_inline(&mut self, e: &syn::Expr) -> bool {
        let Some(reps) = self.rules.get("inline").cloned() else { return false };
        if let syn::Expr::Call(c) = e {
            if reps.iter().any(|r| normstr(&r[0]) == norm(&c.func)) && c.args.len() == 1 {
                if let syn::Expr::Closure(k) = &c.args[0] {
                    let (lo, hi) = rng(e.span());
                    let (a, b) = rng(k.body.span());
                    self.push(lo, hi, vec![Piece::Lit("(".into()), Piece::Sub(a, b), Piece::Lit(")".into())], "inline");
                    let b: &'static syn::Expr = Box::leak(Box::new((*k.body).clone()));
                    self.visit_expr(b);
                    return true;
                }
            }
        }
        false
    }
    /// rule `structlit NAME TEXT`: `NAME { f: e, .. }` => TEXT with $f = e; every field is named exactly once
    fn try_structlit(&mut self, e: &syn::Expr) -> bool {
        let Some(reps) = self.rules.get("structlit").cloned() else { return false };
        if let syn::Expr::Struct(st) = e {
            let n = st.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
            for r in reps.iter().filter(|r| r[0] == n) {
                if st.rest.is_some() {
                    self.err = Some("UNSUPPORTED struct update".into());
                    return true;
                }
                // written order is the evaluation order
                let mut pieces = vec![Piece::Lit("{ ".into())];
                let mut t = r[1].clone();
                for f in &st.fields {
                    let m = f.member.to_token_stream().to_string();
                    if !t.contains(&format!("${}", m)) {
                        self.err = Some(format!("UNSUPPORTED field {}", m));
                    }
                    t = t.replace(&format!("${}", m), &format!("__f_{}", m));
                    let (a, b) = rng(f.expr.span());
                    pieces.push(Piece::Lit(format!("let __f_{} = ", m)));
                    pieces.push(Piece::Sub(a, b));
                    pieces.push(Piece::Lit("; ".into()));
                    let x: &'static syn::Expr = Box::leak(Box::new(f.expr.clone()));
                    self.visit_expr(x);
                }
                if t.contains('$') {
                    self.err = Some(format!("UNSUPPORTED literal of {}", n));
                }
                pieces.push(Piece::Lit(t + " }"));
                let (lo, hi) = rng(e.span());
                self.push(lo, hi, pieces, "structlit");
                return true;
            }
        }
        false
    }
    fn loopdir(&mut self) -> (usize, LoopDir) {
        let k = self.loopno;
        self.loopno += 1;
        let d = self.dir.loops.get(&k).cloned().unwrap_or_default();
        self.usedloops.push(k);
        (k, d)
    }
    fn body_inserts(&mut self, b: &syn::Block, d: &LoopDir) {
        let (lo, hi) = rng(b.span());
        self.ins(lo + 1, format!("\n{}\n", d.start));
        if !d.start.trim().is_empty() {}
        if !d.end.trim().is_empty() {
            self.ins(hi - 1, format!("\n{}\n", d.end));
        }
    }
}

impl<'a, 'ast> Visit<'ast> for Coll<'a> {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        // after-let hooks
        let name = match &l.pat {
            syn::Pat::Ident(p) => Some(p.ident.to_string()),
            syn::Pat::Type(t) => match &*t.pat {
                syn::Pat::Ident(p) => Some(p.ident.to_string()),
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = name {
            let c = self.stmt_let_counts.entry(n.clone()).or_default();
            let k = *c;
            *c += 1;
            let dir = self.dir;
            for (i, (nm, idx, txt)) in dir.lets.iter().enumerate() {
                if *nm == n && *idx == k {
                    let (_, hi) = rng(l.span());
                    self.ins(hi, format!("\n{}\n", txt));
                    self.usedlets.push(i);
                }
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_type(&mut self, t: &'ast syn::Type) {
        if self.try_subst(t.span()) {
            return;
        }
        syn::visit::visit_type(self, t);
    }
    fn visit_pat(&mut self, t: &'ast syn::Pat) {
        if self.try_subst(t.span()) {
            return;
        }
        syn::visit::visit_pat(self, t);
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        // before/after hooks on the statement that calls a given function
        let simple = match s {
            syn::Stmt::Local(_) => true,
            syn::Stmt::Expr(e, _) => !matches!(
                e,
                syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_)
            ),
            _ => false,
        };
        if simple {
            let dir = self.dir;
            let n = norm(s);
            let mut seen: Vec<String> = vec![];
            for (i, (nm, idx, txt)) in dir.lets.iter().enumerate() {
                if let Some((w, call)) = nm.split_once(':') {
                    if n.contains(&format!("{}(", call)) {
                        if !seen.contains(nm) {
                            seen.push(nm.clone());
                            *self.stmt_let_counts.entry(nm.clone()).or_default() += 1;
                        }
                        if self.stmt_let_counts[nm] == idx + 1 {
                            let (lo, hi) = rng(s.span());
                            self.ins(if w == "before" { lo } else { hi }, format!("\n{}\n", txt));
                            self.usedlets.push(i);
                        }
                    }
                }
            }
        }
        if self.try_subst(s.span()) {
            return;
        }
        if let syn::Stmt::Macro(m) = s {
            self.handle_macro(&m.mac, m.span());
            return;
        }
        // .for_each statement
        if self.has("foreach") {
            if let syn::Stmt::Expr(syn::Expr::MethodCall(m), _) = s {
                if m.method == "for_each" && m.args.len() == 1 {
                    if let syn::Expr::Closure(c) = &m.args[0] {
                        let (_, d) = self.loopdir();
                        let (lo, hi) = rng(s.span());
                        let (ra, rb) = rng(m.receiver.span());
                        let pat = &c.inputs[0];
                        let (pa, pb) = rng(pat.span());
                        let (ba, bb) = rng(c.body.span());
                        let it = d.itername.clone().map(|n| format!("{}: ", n)).unwrap_or_default();
                        let (open, close) = if matches!(*c.body, syn::Expr::Block(_)) {
                            (format!("{{ {} ", d.start), format!("; {} }}", d.end))
                        } else {
                            (format!("{{ {} ", d.start), format!("; {} }}", d.end))
                        };
                        self.push(
                            lo,
                            hi,
                            vec![
                                Piece::Lit(format!("{}\n{} for ", d.before, d.attrs)),
                                Piece::Sub(pa, pb),
                                Piece::Lit(format!(" in {}", it)),
                                Piece::Sub(ra, rb),
                                Piece::Lit(format!("\n{}\n{}", d.inv, open)),
                                Piece::Sub(ba, bb),
                                Piece::Lit(close),
                                Piece::Lit(format!("\n{}\n", d.after)),
                            ],
                            "foreach",
                        );
                        self.visit_expr(&m.receiver);
                        self.visit_expr(&c.body);
                        return;
                    }
                }
            }
        }
        syn::visit::visit_stmt(self, s);
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if self.try_subst(e.span()) {
            return;
        }
        if self.try_spawn(e) || self.try_inline(e) || self.try_structlit(e) {
            return;
        }
        if !self.try_tmpl(e) {
            self.try_subst_hole(e);
        }
        match e {
            syn::Expr::ForLoop(f) => {
                let (k, d) = self.loopdir();
                let (lo, hi) = rng(f.span());
                let (pa, pb) = rng(f.pat.span());
                let (ea, eb) = rng(f.expr.span());
                let (ba, bb) = rng(f.body.span());
                // enumerate?
                let mut enumd: Option<(&syn::Pat, &syn::Pat, &syn::Expr)> = None;
                if let syn::Expr::MethodCall(m) = &*f.expr {
                    if m.method == "enumerate" && m.args.is_empty() {
                        if let syn::Pat::Tuple(t) = &*f.pat {
                            if t.elems.len() == 2 {
                                enumd = Some((&t.elems[0], &t.elems[1], &m.receiver));
                            }
                        }
                    }
                }
                let iterloop = self
                    .rules
                    .get("iterloop")
                    .map(|v| v.iter().any(|a| a[0] == k.to_string() || a[0] == "*"))
                    .unwrap_or(false);
                let itn = d.itername.clone().map(|n| format!("{}: ", n)).unwrap_or_default();
                let lab = f.label.as_ref().map(|l| format!("{} ", l.to_token_stream())).unwrap_or_default();
                if iterloop {
                    let mut p = vec![];
                    let n = k;
                    let (patp, exprp) = match &enumd {
                        Some((_, b, x)) => (rng(b.span()), rng(x.span())),
                        None => ((pa, pb), (ea, eb)),
                    };
                    p.push(Piece::Lit(format!("{{ let mut __it{} = ", n)));
                    p.push(Piece::Sub(exprp.0, exprp.1));
                    p.push(Piece::Lit(";".into()));
                    if enumd.is_some() {
                        p.push(Piece::Lit(format!(" let mut __n{}: usize = 0;", n)));
                    }
                    p.push(Piece::Lit(format!("\n{}\n{}{} loop\n{}\n{{ match __it{}.next() {{ Some(", d.before, d.attrs, lab, d.inv, n)));
                    p.push(Piece::Sub(patp.0, patp.1));
                    p.push(Piece::Lit(") => { ".to_string()));
                    if let Some((ip, _, _)) = &enumd {
                        let (a, b) = rng(ip.span());
                        p.push(Piece::Lit("let ".into()));
                        p.push(Piece::Sub(a, b));
                        p.push(Piece::Lit(format!(" = __n{}; __n{} = __n{} + 1; ", n, n, n)));
                    }
                    p.push(Piece::Sub(ba, bb));
                    p.push(Piece::Lit(format!(" }} None => {{ break; }} }} }}\n{}\n }}", d.after)));
                    self.push(lo, hi, p, "iterloop");
                    self.body_inserts(&f.body, &d);
                } else if let (Some((ip, xp, x)), true) = (&enumd, self.has("enumerate")) {
                    let (ia, ib) = rng(ip.span());
                    let (xa, xb) = rng(xp.span());
                    let (ra, rb) = rng(x.span());
                    let n = k;
                    self.enum_n += 1;
                    self.push(
                        lo,
                        hi,
                        vec![
                            Piece::Lit(format!("{{ let mut __n{}: usize = 0;\n{}\n{}{} for ", n, d.before, d.attrs, lab)),
                            Piece::Sub(xa, xb),
                            Piece::Lit(format!(" in {}", itn)),
                            Piece::Sub(ra, rb),
                            Piece::Lit(format!("\n{}\n{{ let ", d.inv)),
                            Piece::Sub(ia, ib),
                            Piece::Lit(format!(" = __n{}; ", n)),
                            Piece::Sub(ba, bb),
                            Piece::Lit(format!(" __n{} = __n{} + 1; }}\n{}\n }}", n, n, d.after)),
                        ],
                        "enumerate",
                    );
                    // `continue` inside would skip the counter
                    struct C(bool);
                    impl<'x> Visit<'x> for C {
                        fn visit_expr_continue(&mut self, _: &'x syn::ExprContinue) {
                            self.0 = true;
                        }
                    }
                    let mut c = C(false);
                    c.visit_block(&f.body);
                    if c.0 {
                        self.err = Some("UNSUPPORTED continue in enumerate loop".into());
                    }
                    self.body_inserts(&f.body, &d);
                } else {
                    self.ins(lo, format!("{}\n{} ", d.before, d.attrs));
                    if self.has("itermut") && matches!(&*f.expr, syn::Expr::Path(_)) {
                        // `for x in m` with m: &mut C is `for x in m.iter_mut()`
                        self.push(ea, eb, vec![Piece::Lit(itn), Piece::Sub(ea, eb), Piece::Lit(".iter_mut()".into())], "itermut");
                    } else if !itn.is_empty() {
                        self.push(ea, eb, vec![Piece::Lit(itn), Piece::Sub(ea, eb)], "");
                    }
                    self.ins(ba, format!("\n{}\n", d.inv));
                    self.body_inserts(&f.body, &d);
                    if self.has("patlet") && !matches!(&*f.pat, syn::Pat::Ident(_)) {
                        // `for PAT in X { B }` => `for __e in X { let PAT = __e; B }`
                        self.push(pa, pb, vec![Piece::Lit(format!("__e{}", k))], "patlet");
                        self.push(ba + 1, ba + 1, vec![Piece::Lit(" let ".into()), Piece::Lit(self.text[pa..pb].to_string()), Piece::Lit(format!(" = __e{};", k))], "");
                    }
                    self.ins(hi, format!("\n{}\n", d.after));
                }
                self.visit_pat(&f.pat);
                self.visit_expr(&f.expr);
                if self.has("contelse") {
                    // `if c { continue; } rest` directly in the loop body => `if c { } else { rest }`
                    for (i, st) in f.body.stmts.iter().enumerate() {
                        if let syn::Stmt::Expr(syn::Expr::If(x), _) = st {
                            let plain = x.else_branch.is_none()
                                && x.then_branch.stmts.len() == 1
                                && matches!(&x.then_branch.stmts[0], syn::Stmt::Expr(syn::Expr::Continue(c), _) if c.label.is_none());
                            if plain && i + 1 < f.body.stmts.len() {
                                let (a, b) = rng(x.then_branch.span());
                                let (_, z) = rng(f.body.stmts.last().unwrap().span());
                                self.push(a, b, vec![Piece::Lit("{ } else {".into())], "contelse");
                                self.push(z, z, vec![Piece::Lit(" }".into())], "");
                            }
                        }
                    }
                }
                self.visit_block(&f.body);
                return;
            }
            syn::Expr::While(w) => {
                let (_, d) = self.loopdir();
                let (lo, hi) = rng(w.span());
                let (ba, _) = rng(w.body.span());
                self.ins(lo, format!("{}\n{} ", d.before, d.attrs));
                self.ins(ba, format!("\n{}\n", d.inv));
                self.body_inserts(&w.body, &d);
                self.ins(hi, format!("\n{}\n", d.after));
                syn::visit::visit_expr(self, e);
                return;
            }
            syn::Expr::Loop(w) => {
                let (_, d) = self.loopdir();
                let (lo, hi) = rng(w.span());
                let (ba, _) = rng(w.body.span());
                self.ins(lo, format!("{}\n{} ", d.before, d.attrs));
                self.ins(ba, format!("\n{}\n", d.inv));
                self.body_inserts(&w.body, &d);
                self.ins(hi, format!("\n{}\n", d.after));
                syn::visit::visit_expr(self, e);
                return;
            }
            syn::Expr::Binary(b)
                if self.has("assignop")
                    && matches!(b.op, syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_) | syn::BinOp::MulAssign(_) | syn::BinOp::DivAssign(_)) =>
            {
                use syn::BinOp::*;
                let op = match b.op {
                    AddAssign(_) => Some("+"),
                    SubAssign(_) => Some("-"),
                    MulAssign(_) => Some("*"),
                    DivAssign(_) => Some("/"),
                    _ => None,
                };
                if let (Some(op), Some(f)) = (op, op.and_then(|o| self.rules.get("binop").and_then(|v| v.iter().find(|r| r[0] == o)).map(|r| r[1].clone()))) {
                    let _ = op;
                    let (la, lb) = rng(b.left.span());
                    let (ra, rb) = rng(b.right.span());
                    let (lo, hi) = rng(b.span());
                    self.push(lo, hi, vec![Piece::Sub(la, lb), Piece::Lit(format!(" = {}(", f)), Piece::Sub(la, lb), Piece::Lit(", ".into()), Piece::Sub(ra, rb), Piece::Lit(")".into())], "assignop");
                } else if let Some(op) = op {
                    let (la, lb) = rng(b.left.span());
                    let (ra, rb) = rng(b.right.span());
                    let (lo, hi) = rng(b.span());
                    self.push(
                        lo,
                        hi,
                        vec![
                            Piece::Sub(la, lb),
                            Piece::Lit(" = ".into()),
                            Piece::Sub(la, lb),
                            Piece::Lit(format!(" {} (", op)),
                            Piece::Sub(ra, rb),
                            Piece::Lit(")".into()),
                        ],
                        "assignop",
                    );
                }
            }
            syn::Expr::Assign(a) if self.has("assignif") && matches!(&*a.right, syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_)) && matches!(&*a.left, syn::Expr::Index(_)) => {
                // `p[i] = if ..` evaluates the right-hand side first
                let (la, lb) = rng(a.left.span());
                let (ra, rb) = rng(a.right.span());
                let (lo, hi) = rng(a.span());
                self.push(lo, hi, vec![Piece::Lit("{ let __r = same(".into()), Piece::Sub(ra, rb), Piece::Lit("); ".into()), Piece::Sub(la, lb), Piece::Lit(" = __r; }".into())], "assignif");
            }
            // rule `assignderef TEXT`: `*E = R` => TEXT with $0 = E, $1 = R
            syn::Expr::Assign(a) if self.has("assignderef") && matches!(&*a.left, syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_))) => {
                if let syn::Expr::Unary(u) = &*a.left {
                    let t = self.rules["assignderef"][0][0].clone();
                    let (x0, x1) = rng(u.expr.span());
                    let (y0, y1) = rng(a.right.span());
                    let (lo, hi) = rng(a.span());
                    let mut p = vec![];
                    let (h, rest) = t.split_once("$0").unwrap_or((&t, ""));
                    let (m, z) = rest.split_once("$1").unwrap_or((rest, ""));
                    p.push(Piece::Lit(h.into()));
                    p.push(Piece::Sub(x0, x1));
                    p.push(Piece::Lit(m.into()));
                    p.push(Piece::Sub(y0, y1));
                    p.push(Piece::Lit(z.into()));
                    self.push(lo, hi, p, "assignderef");
                    self.visit_expr(&u.expr);
                    self.visit_expr(&a.right);
                    return;
                }
            }
            // rule `nounsafe`: `unsafe { .. }` => `{ .. }` (what is unsafe inside goes through contracts)
            syn::Expr::Unsafe(u) if self.has("nounsafe") => {
                let (a, b) = rng(u.span());
                let (x, y) = rng(u.block.span());
                self.push(a, b, vec![Piece::Sub(x, y)], "nounsafe");
            }
            syn::Expr::Binary(b) if self.has("binop") && self.binop_fun(b).is_some() => {
                let f = self.binop_fun(b).unwrap();
                let (la, lb) = rng(b.left.span());
                let (ra, rb) = rng(b.right.span());
                let (lo, hi) = rng(b.span());
                self.push(lo, hi, vec![Piece::Lit(format!("{}(", f)), Piece::Sub(la, lb), Piece::Lit(", ".into()), Piece::Sub(ra, rb), Piece::Lit(")".into())], "binop");
            }
            // rule `callt PATH TEXT`: `PATH(args)` => TEXT with $0.. = arguments
            syn::Expr::Call(c) if self.rules.get("callt").map_or(false, |v| v.iter().any(|r| normstr(&r[0]) == norm(&c.func))) => {
                let n = norm(&c.func);
                let t = self.rules["callt"].iter().find(|r| normstr(&r[0]) == n).unwrap()[1].clone();
                let mut p = vec![];
                let mut rest = t.as_str();
                while let Some(k) = rest.find('$') {
                    p.push(Piece::Lit(rest[..k].into()));
                    let i: usize = rest[k + 1..k + 2].parse().unwrap_or(99);
                    match c.args.iter().nth(i) {
                        Some(a) => {
                            let (x, y) = rng(a.span());
                            p.push(Piece::Sub(x, y));
                        }
                        None => self.err = Some(format!("UNSUPPORTED arguments of {}", n)),
                    }
                    rest = &rest[k + 2..];
                }
                p.push(Piece::Lit(rest.into()));
                let (lo, hi) = rng(e.span());
                self.push(lo, hi, p, "callt");
                for x in &c.args {
                    self.visit_expr(x);
                }
                return;
            }
            syn::Expr::Call(c) if self.call_fun(c).is_some() => {
                let f = self.call_fun(c).unwrap();
                let (fa, fb) = rng(c.func.span());
                let f = if f.contains("$#") {
                    let k = self.call_n.entry(f.clone()).or_default();
                    *k += 1;
                    f.replace("$#", &(*k - 1).to_string())
                } else {
                    f
                };
                self.push(fa, fb, vec![Piece::Lit(f)], "call");
                for x in &c.args {
                    self.visit_expr(x);
                }
                return;
            }
            syn::Expr::Call(c) if self.fnmut_name(c).is_some() => {
                let (_, fb) = rng(c.func.span());
                self.push(fb, fb, vec![Piece::Lit(".call".into())], "fnmut");
            }
            // rule `deref FUN`: `*E` => `(E).FUN()`
            syn::Expr::Unary(u) if self.has("deref") && matches!(u.op, syn::UnOp::Deref(_)) => {
                let f = self.rules["deref"][0][0].clone();
                let (a, b) = rng(u.expr.span());
                let (lo, hi) = rng(u.span());
                self.push(lo, hi, vec![Piece::Lit("(".into()), Piece::Sub(a, b), Piece::Lit(format!(").{}()", f))], "deref");
            }
            syn::Expr::Unary(u) if self.has("neg") => {
                let nf = self.rules["neg"][0].first().cloned().unwrap_or("fneg".into());
                if let syn::UnOp::Neg(_) = u.op {
                    let (a, b) = rng(u.expr.span());
                    let (lo, hi) = rng(u.span());
                    self.push(lo, hi, vec![Piece::Lit(format!("{}(", nf)), Piece::Sub(a, b), Piece::Lit(")".into())], "neg");
                }
            }
            // rule `castto TYPE FUN`: `E as TYPE` => `FUN(E)`
            syn::Expr::Cast(c) if self.rules.get("castto").map_or(false, |v| v.iter().any(|r| r[0] == norm(&c.ty))) => {
                let t = norm(&c.ty);
                let f = self.rules["castto"].iter().find(|r| r[0] == t).unwrap()[1].clone();
                let (a, b) = rng(c.expr.span());
                let (lo, hi) = rng(c.span());
                self.push(lo, hi, vec![Piece::Lit(format!("{}(", f)), Piece::Sub(a, b), Piece::Lit(")".into())], "castto");
            }
            syn::Expr::Cast(c) if self.has("castf32") => {
                let t = norm(&c.ty);
                if t == "f32" || t == "f64" {
                    let (a, b) = rng(c.expr.span());
                    let (lo, hi) = rng(c.span());
                    self.push(
                        lo,
                        hi,
                        vec![Piece::Lit(format!("to_{}(", t)), Piece::Sub(a, b), Piece::Lit(")".into())],
                        "castf32",
                    );
                }
            }
            syn::Expr::Lit(l) if self.has("floatlit") => {
                if let syn::Lit::Float(f) = &l.lit {
                    match decimal(f.base10_digits()) {
                        Some((n, d)) => {
                            let (lo, hi) = rng(l.span());
                            let fun = self.rules["floatlit"][0][0].clone();
                            self.push(lo, hi, vec![Piece::Lit(format!("{}({}, {})", fun, n, d))], "floatlit");
                        }
                        None => self.err = Some(format!("UNSUPPORTED float literal {}", f)),
                    }
                }
            }
            syn::Expr::Reference(r) if self.has("vecrange") && r.mutability.is_some() => {
                if let syn::Expr::Index(ix) = &*r.expr {
                    if matches!(*ix.index, syn::Expr::Range(_)) {
                        let (_, b) = rng(ix.expr.span());
                        self.push(b, b, vec![Piece::Lit(".as_mut_slice()".into())], "vecrange");
                    }
                }
            }
            // rule `strrange`: `&text[a..b]` => a call that asks for boundaries
            syn::Expr::Reference(r) if self.has("strrange") && r.mutability.is_none() => {
                if let syn::Expr::Index(ix) = &*r.expr {
                    if let syn::Expr::Range(g) = &*ix.index {
                        if matches!(g.limits, syn::RangeLimits::HalfOpen(_)) && (g.start.is_some() || g.end.is_some()) {
                            let (lo, hi) = rng(r.span());
                            let f = match (&g.start, &g.end) {
                                (Some(_), Some(_)) => "t_range(",
                                (Some(_), None) => "t_from(",
                                _ => "t_upto(",
                            };
                            let (a, b) = rng(ix.expr.span());
                            let mut ps = vec![Piece::Lit(f.into()), Piece::Sub(a, b)];
                            for x in [&g.start, &g.end].into_iter().flatten() {
                                let (a, b) = rng(x.span());
                                ps.push(Piece::Lit(", ".into()));
                                ps.push(Piece::Sub(a, b));
                            }
                            ps.push(Piece::Lit(")".into()));
                            self.push(lo, hi, ps, "strrange");
                        }
                    }
                }
            }
            syn::Expr::Closure(c) => {
                let (a, b) = rng(c.span());
                if self.edits.iter().any(|e| (e.lo, e.hi) == (a, b) && self.has("lift")) {
                    return; // lifted: replaced as a whole
                }
            }
            syn::Expr::Macro(m) => {
                self.handle_macro(&m.mac, m.span());
                return;
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}

impl<'a> Coll<'a> {
    /// rule `binop OP FUN`: `a OP b` => `FUN(a, b)`
    fn binop_fun(&self, b: &syn::ExprBinary) -> Option<String> {
        let op = b.op.to_token_stream().to_string();
        self.rules.get("binop")?.iter().find(|r| r[0] == op).map(|r| r[1].clone())
    }
    /// rule `call PATH FUN`: `PATH(args)` => `FUN(args)`
    fn call_fun(&self, c: &syn::ExprCall) -> Option<String> {
        let n = norm(&c.func);
        self.rules.get("call")?.iter().find(|r| normstr(&r[0]) == n).map(|r| r[1].clone())
    }
    /// rule `fnmut NAME`: `NAME(args)` => `NAME.call(args)` for a closure parameter
    fn fnmut_name(&self, c: &syn::ExprCall) -> Option<String> {
        let n = norm(&c.func);
        self.rules.get("fnmut")?.iter().find(|r| r[0] == n).map(|r| r[0].clone())
    }
    fn handle_macro(&mut self, m: &syn::Macro, _sp: Span) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let (_, mb) = rng(m.span());
        let (ma, _) = rng(m.path.span());
        if self.has("noassert") && (name.starts_with("assert") || name.starts_with("debug_assert")) {
            self.push(ma, mb, vec![Piece::Lit("()".into())], "noassert");
            return;
        }
        if let Some(f) = self.rules.get("mac").and_then(|v| v.iter().find(|r| r[0] == name)).map(|r| r[1].clone()) {
            if f.contains("$0") {
                if let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                    let mut pieces = vec![];
                    let mut rest = f.as_str();
                    while let Some(k) = rest.find('$') {
                        pieces.push(Piece::Lit(rest[..k].into()));
                        let n: usize = rest[k + 1..k + 2].parse().unwrap_or(0);
                        if n >= args.len() {
                            break;
                        }
                        let e: &'static syn::Expr = Box::leak(Box::new(args[n].clone()));
                        let (a, b) = rng(e.span());
                        pieces.push(Piece::Sub(a, b));
                        self.visit_expr(e);
                        rest = &rest[k + 2..];
                    }
                    pieces.push(Piece::Lit(rest.into()));
                    self.push(ma, mb, pieces, "mac");
                    return;
                }
            }
            self.push(ma, mb, vec![Piece::Lit(f)], "mac");
            return;
        }
        if self.has("nodebugassert") && name.starts_with("debug_assert") {
            self.push(ma, mb, vec![Piece::Lit("()".into())], "nodebugassert");
            return;
        }
        if name == "assert_eq" || name == "debug_assert_eq" || name == "assert_ne" {
            if let Ok(args) = m.parse_body_with(
                syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
            ) {
                if args.len() >= 2 {
                    let (a, b) = rng(args[0].span());
                    let (c, d) = rng(args[1].span());
                    for k in 0..2 {
                        let e: &'static syn::Expr = Box::leak(Box::new(args[k].clone()));
                        self.visit_expr(e);
                    }
                    let op = if name == "assert_ne" { "!=" } else { "==" };
                    self.push(
                        ma,
                        mb,
                        vec![
                            Piece::Lit("assert!(".into()),
                            Piece::Sub(a, b),
                            Piece::Lit(format!(" {} ", op)),
                            Piece::Sub(c, d),
                            Piece::Lit(")".into()),
                        ],
                        "assert_eq",
                    );
                }
            }
        }
        if name == "assert" || name == "debug_assert" {
            if let Ok(args) = m.parse_body_with(
                syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
            ) {
                let a: &'static syn::Expr = Box::leak(Box::new(args[0].clone()));
                self.visit_expr(a);
                // drop the message
                if args.len() > 1 {
                    let (_, a1) = rng(args[0].span());
                    let (_, z) = rng(args[args.len() - 1].span());
                    self.push(a1, z, vec![], "drop-assert-message");
                }
            }
        }
        if name == "vec" {
            if let Ok(args) = m.parse_body_with(
                |p: syn::parse::ParseStream| -> syn::Result<Vec<syn::Expr>> {
                    let mut v = vec![];
                    while !p.is_empty() {
                        v.push(p.parse::<syn::Expr>()?);
                        if !p.is_empty() {
                            if p.peek(syn::Token![;]) { p.parse::<syn::Token![;]>()?; } else { p.parse::<syn::Token![,]>()?; }
                        }
                    }
                    Ok(v)
                },
            ) {
                for a in args.iter() {
                    // parsed from the original tokens, spans are valid
                    let a: &'static syn::Expr = Box::leak(Box::new(a.clone()));
                    self.visit_expr(a);
                }
            }
        }
    }
}

/// a decimal literal as an exact fraction
fn decimal(t: &str) -> Option<(u64, u64)> {
    let (m, e) = match t.split_once(['e', 'E']) {
        Some((m, e)) => (m, e.parse::<i32>().ok()?),
        None => (t, 0),
    };
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let f = f.trim_end_matches('0');
    let mut n: u64 = format!("{}{}", i, f).parse().ok()?;
    let mut e = e - f.len() as i32;
    let mut d: u64 = 1;
    while e > 0 {
        n = n.checked_mul(10)?;
        e -= 1;
    }
    while e < 0 {
        d = d.checked_mul(10)?;
        e += 1;
    }
    Some((n, d))
}

fn emit_fn(ctx: &mut Ctx, d: &FnDir) -> R<String> {
    if d.src.ends_with(".rs") {
        ctx.restore(&d.src, &d.path)?;
    }
    let src = ctx.sources.get(&d.src).ok_or(format!("unknown source {}", d.src))?;
    let f = find_fn(&src.file.items, &d.path).ok_or(format!("LOST-ANCHOR fn {} in {}", d.path, d.src))?;
    let text = src.text.as_str();
    let mut rules: HashMap<String, Vec<Vec<String>>> = HashMap::new();
    let mut subst = vec![];
    for r in &d.rules {
        if r[0] == "subst" {
            subst.push((normstr(&r[1]), r[2].clone(), 0));
        } else if r[0] == "subst?" {
            subst.push((normstr(&r[1]), r[2].clone(), 1));
        } else {
            rules.entry(r[0].clone()).or_default().push(r[1..].to_vec());
        }
    }
    let mut c = Coll {
        text,
        edits: vec![],
        loopno: 0,
        dir: d,
        rules,
        used: Default::default(),
        err: None,
        subst,
        usedloops: vec![],
        stmt_let_counts: Default::default(),
        usedlets: vec![],
        enum_n: 0,
        spawn_n: 0,
        call_n: Default::default(),
    };
    // hide attributes inside the body (clippy etc.)
    struct At(Vec<(usize, usize)>);
    impl<'x> Visit<'x> for At {
        fn visit_attribute(&mut self, a: &'x syn::Attribute) {
            self.0.push(rng(a.span()));
        }
    }
    let mut at = At(vec![]);
    at.visit_block(f.block);
    let (blo, bhi) = rng(f.block.span());
    if ctx.vacuity {
        c.ins(blo + 1, "\nassert(false);\n".to_string());
    }
    c.ins(blo + 1, format!("\n{}\n", d.start));
    for (a, b) in at.0 {
        c.push(a, b, vec![], "drop-attr");
    }
    if !d.end.trim().is_empty() {
        // tail expression -> let
        match f.block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) if d.ret.is_some() => {
                let (a, b) = rng(e.span());
                let is_loop = matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) );
                if is_loop {
                    c.ins(b, format!("\n{}\n", d.end));
                } else {
                    c.push(
                        a,
                        b,
                        vec![
                            Piece::Lit(format!("let {} = ", d.ret.as_ref().unwrap())),
                            Piece::Sub(a, b),
                            Piece::Lit(format!(";\n{}\n{}", d.end, d.ret.as_ref().unwrap())),
                        ],
                        "tail-let",
                    );
                }
            }
            _ => c.ins(bhi - 1, format!("\n{}\n", d.end)),
        }
    }
    if let Some(ls) = c.rules.get("lift").cloned() {
        let cs = closures(f.block);
        for r in ls {
            let k: usize = r[0].parse().map_err(|_| "closure no")?;
            let cl = *cs.get(k).ok_or(format!("LOST-ANCHOR closure {} in {}", k, d.path))?;
            let l = lift_closure(text, cl).map_err(|e| format!("{} ({})", e, d.path))?;
            let init = format!("{} {{ {}{} }}", r[1], l.caps.iter().map(|x| format!("{}: {}, ", x.0, x.1)).collect::<String>(), r[2]);
            let (clo, chi) = rng(cl.span());
            let mut done = false;
            for st in &f.block.stmts {
                let (slo, shi) = rng(st.span());
                if !(slo <= clo && chi <= shi) {
                    continue;
                }
                let mut var = format!("__c{}", k);
                let mut user: Option<&syn::Stmt> = Some(st);
                let whole = matches!(st, syn::Stmt::Local(x) if x.init.as_ref().map(|i| rng(i.expr.span()) == (clo, chi)).unwrap_or(false));
                if whole {
                    if let syn::Stmt::Local(x) = st {
                        match &x.pat {
                            syn::Pat::Ident(p) => {
                                var = p.ident.to_string();
                                if p.mutability.is_none() {
                                    let at = rng(p.span()).0;
                                    c.push(at, at, vec![Piece::Lit("mut ".into())], "");
                                }
                            }
                            _ => return Err(format!("UNSUPPORTED closure binding in {}", d.path)),
                        }
                    }
                    c.push(clo, chi, vec![Piece::Lit(init.clone())], "lift");
                    // the one statement that passes it on
                    struct Use<'n>(&'n str, Vec<(usize, usize)>, bool);
                    impl<'x, 'n> Visit<'x> for Use<'n> {
                        fn visit_expr(&mut self, e: &'x syn::Expr) {
                            if let syn::Expr::Path(p) = e {
                                if p.path.is_ident(self.0) {
                                    self.1.push(rng(e.span()));
                                }
                            }
                            if let syn::Expr::Reference(r) = e {
                                if matches!(&*r.expr, syn::Expr::Path(p) if p.path.is_ident(self.0)) {
                                    self.2 = true;
                                }
                            }
                            syn::visit::visit_expr(self, e);
                        }
                    }
                    user = None;
                    for s2 in &f.block.stmts {
                        let mut u = Use(&var, vec![], false);
                        u.visit_stmt(s2);
                        if u.1.len() > 1 || (u.1.len() == 1 && user.is_some()) {
                            return Err(format!("UNSUPPORTED closure {} used twice in {}", var, d.path));
                        }
                        if let Some((a, _)) = u.1.first() {
                            if !u.2 {
                                c.push(*a, *a, vec![Piece::Lit("&mut ".into())], "");
                            }
                            user = Some(s2);
                        }
                    }
                } else {
                    c.push(slo, slo, vec![Piece::Lit(format!("let mut {} = {};\n", var, init))], "");
                    c.push(clo, chi, vec![Piece::Lit(format!("&mut {}", var))], "lift");
                }
                let user = user.ok_or(format!("UNSUPPORTED closure {} not used in {}", var, d.path))?;
                let mut after = String::new();
                match user {
                    syn::Stmt::Expr(_, Some(_)) | syn::Stmt::Local(_) => {}
                    _ => after.push(';'),
                }
                for x in l.caps.iter().filter(|x| x.2) {
                    after.push_str(&format!("\n{} = {}.{};", x.1, var, x.0));
                }
                after.push_str(&format!("\nlet ghost __g{} = {};\n", k, var));
                let at = rng(user.span()).1;
                c.push(at, at, vec![Piece::Lit(after)], "");
                done = true;
            }
            if !done {
                return Err(format!("UNSUPPORTED place of closure {} in {}", k, d.path));
            }
        }
    }
    if let Some((name, text, keep_tail)) = &d.cut {
        let pos = f.block.stmts.iter().position(|st| match st {
            syn::Stmt::Local(l) => match &l.pat {
                syn::Pat::Ident(p) => p.ident == name.as_str(),
                syn::Pat::Type(t) => matches!(&*t.pat, syn::Pat::Ident(p) if p.ident == name.as_str()),
                _ => false,
            },
            _ => false,
        });
        let k = pos.ok_or(format!("LOST-ANCHOR let {} in {}", name, d.path))?;
        let cutat = rng(f.block.stmts[k].span()).1;
        if *keep_tail {
            c.push(blo + 1, cutat, vec![Piece::Lit(text.clone())], "tail-of");
            for st in &f.block.stmts[k + 1..] {
                c.visit_stmt(st);
            }
        } else {
            c.push(cutat, bhi - 1, vec![Piece::Lit(format!("\n{}\n", text))], "tail-cut");
            for st in &f.block.stmts[..=k] {
                c.visit_stmt(st);
            }
        }
    } else {
        c.visit_block(f.block);
    }
    // signature
    if d.sig.is_none() {
        c.visit_signature(f.sig);
    }
    if let Some(e) = c.err {
        return Err(format!("{} ({})", e, d.path));
    }
    for (p, _, n) in &c.subst {
        if *n == 0 {
            return Err(format!("LOST-ANCHOR subst `{}` in {}", p, d.path));
        }
    }
    for k in d.loops.keys() {
        if !c.usedloops.contains(k) {
            return Err(format!("LOST-ANCHOR loop {} in {}", k, d.path));
        }
    }
    for i in 0..d.lets.len() {
        if !c.usedlets.contains(&i) {
            return Err(format!("LOST-ANCHOR let {} in {}", d.lets[i].0, d.path));
        }
    }
    let (slo, shi) = rng(f.sig.span());
    let sigtext = match &d.sig {
        Some(s) => s.clone(),
        None => {
            let mut s = match (&f.sig.output, &d.ret) {
                (syn::ReturnType::Type(_, ty), Some(r)) => {
                    let (ta, tb) = rng(ty.span());
                    let arrow = render(text, &c.edits, slo, ta, None);
                    let tail = render(text, &c.edits, tb, shi, None);
                    format!("{}({}: {}){}", arrow, r, render(text, &c.edits, ta, tb, None), tail)
                }
                _ => render(text, &c.edits, slo, shi, None),
            };
            if let Some(n) = &d.name {
                s = s.replacen(&format!("fn {}", f.sig.ident), &format!("fn {}", n), 1);
            }
            s
        }
    };
    let vis = d.vis.clone().unwrap_or_else(|| f.vis.map(|v| v.to_token_stream().to_string()).unwrap_or_default());
    let vis = vis.replace("pub (crate)", "pub").replace("pub ( crate )", "pub");
    let body = render(text, &c.edits, blo, bhi, None);
    let _ = f.attrs;
    ctx.log.push(serde_json::json!({
        "fn": d.path, "src": d.src, "rules": c.used, "loops": c.loopno,
        "sig_overridden": d.sig.is_some(),
        "substs": d.rules.iter().filter(|r| r[0].starts_with("subst")).map(|r| format!("{} => {}", r[1], r[2])).collect::<Vec<_>>(),
        "bytes": bhi - slo,
    }));
    let attrs = d.attrs.join("\n");
    if d.body_only_stub {
        return Ok(body);
    }
    Ok(format!("{}\n{} {}\n{}\n{}\n", attrs, vis, sigtext, d.spec, body))
}

/// a closure literal: its captured places and the body with them replaced by fields of `self`
struct Lifted {
    /// (field name, source text of the captured place, assigned to)
    caps: Vec<(String, String, bool)>,
    body: String,
    inputs: Vec<(String, Option<String>)>,
}
fn closures<'a>(b: &'a syn::Block) -> Vec<&'a syn::ExprClosure> {
    struct V<'a>(Vec<&'a syn::ExprClosure>);
    impl<'a> Visit<'a> for V<'a> {
        fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
            self.0.push(c);
        }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0
}
fn lift_closure(text: &str, c: &syn::ExprClosure) -> R<Lifted> {
    struct Bound(Vec<String>);
    impl<'x> Visit<'x> for Bound {
        fn visit_pat_ident(&mut self, p: &'x syn::PatIdent) {
            self.0.push(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut bound = Bound(vec![]);
    for i in &c.inputs {
        bound.visit_pat(i);
    }
    bound.visit_expr(&c.body);
    struct Caps {
        bound: Vec<String>,
        caps: Vec<(String, String, bool)>,
        edits: Vec<(usize, usize, String)>,
        err: Option<String>,
    }
    impl Caps {
        /// the captured place an expression denotes
        fn place(&self, e: &syn::Expr) -> Option<(String, String)> {
            match e {
                syn::Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => {
                    let n = p.path.segments[0].ident.to_string();
                    if n == "self" || self.bound.contains(&n) || !n.starts_with(|c: char| c.is_lowercase() || c == '_') {
                        None
                    } else {
                        Some((n.clone(), n))
                    }
                }
                syn::Expr::Field(_) => {
                    let t = norm(e);
                    if t.starts_with("self.") && t[5..].chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') {
                        Some((t.replace('.', "_"), t))
                    } else {
                        None
                    }
                }
                _ => None,
            }
        }
        fn hit(&mut self, e: &syn::Expr, w: bool) -> bool {
            if let Some((f, t)) = self.place(e) {
                let (lo, hi) = rng(e.span());
                match self.caps.iter_mut().find(|c| c.0 == f) {
                    Some(c) => c.2 |= w,
                    None => self.caps.push((f.clone(), t, w)),
                }
                self.edits.push((lo, hi, format!("self.{}", f)));
                return true;
            }
            false
        }
    }
    impl<'x> Visit<'x> for Caps {
        fn visit_expr(&mut self, e: &'x syn::Expr) {
            match e {
                syn::Expr::Assign(a) => {
                    if !self.hit(&a.left, true) {
                        self.visit_expr(&a.left);
                    }
                    self.visit_expr(&a.right);
                    return;
                }
                syn::Expr::Binary(b) if b.op.to_token_stream().to_string().ends_with('=') && !matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Le(_) | syn::BinOp::Ge(_)) => {
                    if !self.hit(&b.left, true) {
                        self.visit_expr(&b.left);
                    }
                    self.visit_expr(&b.right);
                    return;
                }
                syn::Expr::Call(c) => {
                    if !matches!(&*c.func, syn::Expr::Path(_)) {
                        self.visit_expr(&c.func);
                    }
                    for a in &c.args {
                        self.visit_expr(a);
                    }
                    return;
                }
                syn::Expr::Reference(r) if r.mutability.is_some() => {
                    if self.place(&r.expr).is_some() {
                        self.err = Some("UNSUPPORTED mutable borrow of a captured variable".into());
                    }
                }
                syn::Expr::Return(_) => self.err = Some("UNSUPPORTED return in a lifted closure".into()),
                syn::Expr::Closure(_) => self.err = Some("UNSUPPORTED nested closure".into()),
                syn::Expr::Macro(m) => {
                    self.mac(&m.mac);
                    return;
                }
                syn::Expr::Path(p) if p.path.is_ident("self") => self.err = Some("UNSUPPORTED capture of self".into()),
                _ => {}
            }
            if self.hit(e, false) {
                return;
            }
            syn::visit::visit_expr(self, e);
        }
        fn visit_stmt(&mut self, s: &'x syn::Stmt) {
            if let syn::Stmt::Macro(m) = s {
                self.mac(&m.mac);
                return;
            }
            syn::visit::visit_stmt(self, s);
        }
    }
    impl Caps {
        fn mac(&mut self, m: &syn::Macro) {
            match m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                Ok(args) => {
                    for a in args {
                        let a: &'static syn::Expr = Box::leak(Box::new(a));
                        self.visit_expr(a);
                    }
                }
                Err(_) => self.err = Some("UNSUPPORTED macro in a lifted closure".into()),
            }
        }
    }
    let mut k = Caps { bound: bound.0, caps: vec![], edits: vec![], err: None };
    k.visit_expr(&c.body);
    if let Some(e) = k.err {
        return Err(e);
    }
    if k.caps.iter().any(|c| c.2 && c.1.starts_with("self.")) {
        return Err("UNSUPPORTED closure assigning a field".into());
    }
    let (lo, hi) = rng(c.body.span());
    k.edits.sort();
    let mut body = String::new();
    let mut pos = lo;
    for (a, b, t) in k.edits {
        body.push_str(&text[pos..a]);
        body.push_str(&t);
        pos = b;
    }
    body.push_str(&text[pos..hi]);
    let inputs = c
        .inputs
        .iter()
        .map(|i| match i {
            syn::Pat::Type(t) => (t.pat.to_token_stream().to_string(), Some(t.ty.to_token_stream().to_string())),
            p => (p.to_token_stream().to_string(), None),
        })
        .collect();
    Ok(Lifted { caps: k.caps, body, inputs })
}
/// //@lift ALIAS FILE PATH K STRUCT `types` `extra fields` [`name: ty` ..] : closure K of a function as a struct of its
/// captured places with a method `call`; the struct is emitted here, the method is the function `STRUCT::call` of ALIAS
fn emit_lift(ctx: &mut Ctx, w: &[String]) -> R<String> {
    ctx.restore(&w[1], &w[2])?;
    let src = &ctx.sources[&w[1]];
    let f = find_fn(&src.file.items, &w[2]).ok_or(format!("LOST-ANCHOR fn {} in {}", w[2], w[1]))?;
    let k: usize = w[3].parse().map_err(|_| "closure no")?;
    let cs = closures(f.block);
    let c = cs.get(k).ok_or(format!("LOST-ANCHOR closure {} in {}", k, w[2]))?;
    let l = lift_closure(&src.text, c).map_err(|e| format!("{} ({})", e, w[2]))?;
    let tys: Vec<&str> = w[5].split(';').map(|s| s.trim()).collect();
    if tys.len() != l.inputs.len() {
        return Err(format!("UNSUPPORTED closure {} of {} takes {} arguments", k, w[2], l.inputs.len()));
    }
    let mut params = String::new();
    let mut lets = String::new();
    for (i, (p, t)) in l.inputs.iter().enumerate() {
        let ty = t.clone().unwrap_or(tys[i].to_string());
        if normstr(&ty) != normstr(tys[i]) {
            return Err(format!("UNSUPPORTED closure {} of {}: argument type {}", k, w[2], ty));
        }
        params.push_str(&format!(", __a{}: {}", i, ty));
        lets.push_str(&if ty.starts_with("&") && ty.contains("mut") { format!("let {} = &mut *__a{};\n", p, i) } else { format!("let {} = __a{};\n", p, i) });
    }
    let fields: String = l
        .caps
        .iter()
        .map(|c| {
            let ty = w[7..].iter().find_map(|x| x.split_once(':').filter(|(n, _)| n.trim() == c.0).map(|(_, t)| t.trim().to_string())).unwrap_or("f32".into());
            format!("pub {}: {}, ", c.0, ty)
        })
        .collect();
    let text = format!("impl {} {{ fn call(&mut self{}) {{\n{}{};\n}} }}\n", w[4], params, lets, l.body);
    let file = syn::parse_file(&text).map_err(|e| format!("PARSE lifted closure of {}: {}", w[2], e))?;
    ctx.log.push(serde_json::json!({"rule":"lift","fn":w[2],"closure":k,"captures":l.caps.iter().map(|c| c.1.clone()).collect::<Vec<_>>()}));
    ctx.sources.insert(w[0].clone(), Source { text, file });
    Ok(format!("pub struct {} {{ {}{} }}\n", w[4], fields, w[6]))
}

/// //@closurefn ALIAS FILE PATH METHOD K NAME: the K-th parameterless closure given to METHOD in a function becomes the
/// function NAME of ALIAS; its captured places are the parameters of the signature written with //@sig
fn emit_closurefn(ctx: &mut Ctx, w: &[String]) -> R<()> {
    ctx.restore(&w[1], &w[2])?;
    let src = &ctx.sources[&w[1]];
    let f = find_fn(&src.file.items, &w[2]).ok_or(format!("LOST-ANCHOR fn {} in {}", w[2], w[1]))?;
    let k: usize = w[4].parse().map_err(|_| "closure no")?;
    struct V<'a>(&'a str, Vec<&'a syn::ExprClosure>);
    impl<'a> Visit<'a> for V<'a> {
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            if m.method == self.0 && m.args.len() == 1 {
                if let syn::Expr::Closure(c) = &m.args[0] {
                    self.1.push(c);
                }
            }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut v = V(&w[3], vec![]);
    v.visit_block(f.block);
    let c = v.1.get(k).ok_or(format!("LOST-ANCHOR closure {} of {} in {}", k, w[3], w[2]))?;
    if !c.inputs.is_empty() {
        return Err(format!("UNSUPPORTED closure {} of {} takes arguments", k, w[3]));
    }
    let (a, b) = rng(c.body.span());
    let text = format!("fn {}() {{ {} }}\n", w[5], &src.text[a..b]);
    let file = syn::parse_file(&text).map_err(|e| format!("PARSE closure of {}: {}", w[2], e))?;
    ctx.log.push(serde_json::json!({"rule":"closurefn","fn":w[2],"method":w[3],"closure":k}));
    ctx.sources.insert(w[0].clone(), Source { text, file });
    Ok(())
}

fn find_item<'a>(items: &'a [syn::Item], name: &str) -> Option<&'a syn::Item> {
    for it in items {
        let ok = match it {
            syn::Item::Struct(s) => s.ident == name,
            syn::Item::Enum(s) => s.ident == name,
            syn::Item::Const(s) => s.ident == name,
            syn::Item::Type(s) => s.ident == name,
            _ => false,
        };
        if ok {
            return Some(it);
        }
        if let syn::Item::Mod(m) = it {
            if let Some((_, its)) = &m.content {
                if let Some(f) = find_item(its, name) {
                    return Some(f);
                }
            }
        }
    }
    None
}

fn emit_item(ctx: &mut Ctx, src: &str, name: &str, derive: &str, substs: &[(String, String)]) -> R<String> {
    if src.ends_with(".rs") {
        ctx.load_file(src)?;
    }
    let s = ctx.sources.get(src).ok_or(format!("unknown source {}", src))?;
    let it = find_item(&s.file.items, name).ok_or(format!("LOST-ANCHOR item {} in {}", name, src))?;
    let mut edits: Vec<Edit> = vec![];
    struct A<'b> {
        e: &'b mut Vec<Edit>,
        text: &'b str,
        substs: Vec<(String, String, usize)>,
    }
    impl<'b, 'x> Visit<'x> for A<'b> {
        fn visit_attribute(&mut self, a: &'x syn::Attribute) {
            let (lo, hi) = rng(a.span());
            let seq = self.e.len();
            self.e.push(Edit { lo, hi, pieces: vec![], seq });
        }
        fn visit_type(&mut self, t: &'x syn::Type) {
            let (lo, hi) = rng(t.span());
            let n = normstr(&self.text[lo..hi]);
            for s in self.substs.iter_mut() {
                if s.0 == n {
                    s.2 += 1;
                    let seq = self.e.len();
                    self.e.push(Edit { lo, hi, pieces: vec![Piece::Lit(s.1.clone())], seq });
                    return;
                }
            }
            syn::visit::visit_type(self, t);
        }
        fn visit_field(&mut self, f: &'x syn::Field) {
            // Verus contracts are public: make fields visible to them
            if let syn::Visibility::Inherited = f.vis {
                let at = match &f.ident {
                    Some(i) => rng(i.span()).0,
                    None => rng(f.ty.span()).0,
                };
                let seq = self.e.len();
                self.e.push(Edit { lo: at, hi: at, pieces: vec![Piece::Lit("pub ".into())], seq });
            }
            syn::visit::visit_field(self, f);
        }
        fn visit_variant(&mut self, v: &'x syn::Variant) {
            // enum payload fields take no visibility
            for a in &v.attrs {
                self.visit_attribute(a);
            }
            for f in &v.fields {
                self.visit_type(&f.ty);
            }
        }
    }
    let mut a = A {
        e: &mut edits,
        text: &s.text,
        substs: substs.iter().map(|(x, y)| (normstr(x), y.clone(), 0)).collect(),
    };
    a.visit_item(it);
    for x in &a.substs {
        if x.2 == 0 {
            return Err(format!("LOST-ANCHOR subst {} in item {}", x.0, name));
        }
    }
    let (lo, hi) = rng(it.span());
    let t = render(&s.text, &edits, lo, hi, None);
    let mut t = t.trim_start().to_string();
    loop {
        // comments between the item's attributes
        if t.starts_with("//") {
            t = t.split_once('\n').map(|x| x.1).unwrap_or("").trim_start().to_string();
        } else if t.starts_with("/*") {
            t = t.split_once("*/").map(|x| x.1).unwrap_or("").trim_start().to_string();
        } else {
            break;
        }
    }
    let t = if t.starts_with("pub") { t } else { format!("pub {}", t) };
    let t = t.replacen("pub(crate)", "pub", 1);
    ctx.log.push(serde_json::json!({"item": name, "src": src}));
    Ok(format!("{}\n{}\n", derive, t))
}

fn run() -> R<()> {
    let a: Vec<String> = std::env::args().collect();
    let (repo, tpl, out, outj) = (&a[1], &a[2], &a[3], &a[4]);
    let mut ctx = Ctx { vacuity: a.iter().any(|x| x == "--vacuity"), repo: repo.clone(), sources: HashMap::new(), known: Default::default(), log: vec![] };
    let res = process(&mut ctx, tpl);
    match res {
        Ok((text, regions)) => {
            std::fs::write(out, text).map_err(|e| e.to_string())?;
            let j = serde_json::json!({"ok": true, "log": ctx.log, "regions": regions});
            std::fs::write(outj, serde_json::to_string_pretty(&j).unwrap()).map_err(|e| e.to_string())?;
            Ok(())
        }
        Err(e) => {
            let j = serde_json::json!({"ok": false, "error": e});
            std::fs::write(outj, serde_json::to_string_pretty(&j).unwrap()).map_err(|e| e.to_string())?;
            Err(e)
        }
    }
}

fn read_with_includes(path: &str) -> R<Vec<String>> {
    let dir = std::path::Path::new(path).parent().unwrap();
    let mut out = vec![];
    for l in std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            // `//@include FILE `A` `a` ...`: textual inclusion, every A in it replaced by a
            let w = words(f);
            for mut x in read_with_includes(dir.join(&w[0]).to_str().unwrap())? {
                for k in 0..(w.len() - 1) / 2 {
                    x = x.replace(&w[1 + 2 * k], &w[2 + 2 * k]);
                }
                out.push(x);
            }
        } else {
            out.push(l.to_string());
        }
    }
    Ok(out)
}

/// split directive arguments: words, `backtick quoted`
fn words(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    let mut q = false;
    for c in s.chars() {
        if c == '`' {
            if q {
                v.push(std::mem::take(&mut cur));
            }
            q = !q;
        } else if c.is_whitespace() && !q {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

fn process(ctx: &mut Ctx, tpl: &str) -> R<(String, serde_json::Value)> {
    let lines = read_with_includes(tpl)?;
    ctx.known = inline::mentioned(&lines);
    let mut out = String::new();
    let mut regions: Vec<serde_json::Value> = vec![];
    let mut i = 0;
    let mut rulesets: HashMap<String, Vec<Vec<String>>> = HashMap::new();
    while i < lines.len() {
        let l = &lines[i];
        let t = l.trim();
        if let Some(rest) = t.strip_prefix("//@macro ") {
            // //@macro alias file macro `prefix`
            let w = words(rest);
            ctx.expand(&w[0], &w[1], &w[2], w.get(3).map(|s| s.as_str()).unwrap_or(""), None)?;
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@macroin ") {
            // //@macroin alias DEFFILE macro USEFILE `Trait for Type`: the invocation inside that implementation
            let w = words(rest);
            ctx.expand(&w[0], &w[1], &w[2], "", Some((&w[3], &w[4])))?;
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@serde ") {
            // //@serde alias FILE Struct: what the serde attributes of a configuration mean, as source text
            let w = words(rest);
            ctx.serde_source(&w[0], &w[1], &w[2])?;
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@saved ") {
            let w = words(rest);
            out.push_str(&saved::saved(ctx, &w)?);
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@lift ") {
            let w = words(rest);
            out.push_str(&emit_lift(ctx, &w)?);
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@closurefn ") {
            let w = words(rest);
            emit_closurefn(ctx, &w)?;
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@methods ") {
            // //@methods FILE `Trait for Type` m1 m2 ..: the implementation has no method besides these
            let w = words(rest);
            ctx.load_file(&w[0])?;
            let mut seen = false;
            for it in &ctx.sources[&w[0]].file.items {
                if let syn::Item::Impl(im) = it {
                    if strip_generics(&impl_key(im)) == strip_generics(&w[1].split(" for ").map(normstr).collect::<Vec<_>>().join(" for ")) {
                        seen = true;
                        for ii in &im.items {
                            if let syn::ImplItem::Fn(f) = ii {
                                if !w[2..].iter().any(|m| f.sig.ident == m) {
                                    return Err(format!("UNSUPPORTED {} has a method {} not under contract", w[1], f.sig.ident));
                                }
                            }
                        }
                    }
                }
            }
            if !seen {
                return Err(format!("LOST-ANCHOR impl {} in {}", w[1], w[0]));
            }
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@item ") {
            let w = words(rest);
            let mut derive = String::new();
            let mut substs = vec![];
            let mut k = 2;
            while k < w.len() {
                if w[k] == "derive" {
                    derive = format!("#[derive({})]", w[k + 1]);
                    k += 2;
                } else if w[k] == "attr" {
                    derive.push_str(&w[k + 1]);
                    k += 2;
                } else if w[k] == "subst" {
                    substs.push((w[k + 1].clone(), w[k + 2].clone()));
                    k += 3;
                } else {
                    return Err(format!("bad item option {}", w[k]));
                }
            }
            out.push_str(&emit_item(ctx, &w[0], &w[1], &derive, &substs)?);
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@ruleset ") {
            let w = words(rest);
            let mut v = vec![];
            i += 1;
            while lines[i].trim() != "//@endruleset" {
                let t = lines[i].trim().strip_prefix("//@rule ").ok_or("bad ruleset")?;
                v.push(words(t));
                i += 1;
            }
            i += 1;
            rulesets.insert(w[0].clone(), v);
        } else if let Some(rest) = t.strip_prefix("//@fn ") {
            let w = words(rest);
            let mut d = FnDir { src: w[0].clone(), path: w[1].clone(), line: i, ..Default::default() };
            i += 1;
            // sections
            #[derive(Clone)]
            enum Sec {
                None,
                Spec,
                Start,
                End,
                Inv(usize),
                LS(usize),
                LE(usize),
                LB(usize),
                LA(usize),
                Let(usize),
                Sig,
                Cut,
            }
            let mut sec = Sec::None;
            loop {
                if i >= lines.len() {
                    return Err(format!("unterminated //@fn {}", d.path));
                }
                let t = lines[i].trim().to_string();
                if t == "//@endfn" {
                    i += 1;
                    break;
                }
                if let Some(r) = t.strip_prefix("//@") {
                    let w = words(r);
                    match w[0].as_str() {
                        "ret" => d.ret = Some(w[1].clone()),
                        "name" => d.name = Some(w[1].clone()),
                        "vis" => d.vis = Some(w.get(1).cloned().unwrap_or_default()),
                        "attr" => d.attrs.push(r.trim_start_matches("attr").trim().to_string()),
                        "rule" => d.rules.push(w[1..].to_vec()),
                        "rules" => {
                            let rs = rulesets.get(&w[1]).ok_or("no ruleset")?;
                            d.rules.extend(rs.iter().cloned());
                        }
                        "spec" => sec = Sec::Spec,
                        "start" => sec = Sec::Start,
                        "end" => sec = Sec::End,
                        "sig" => {
                            d.sig = Some(String::new());
                            sec = Sec::Sig
                        }
                        "loop" => {
                            let k = w[1].parse().map_err(|_| "loop no")?;
                            let e = d.loops.entry(k).or_default();
                            if let Some(n) = w.get(2) {
                                e.itername = Some(n.clone());
                            }
                            sec = Sec::Inv(k)
                        }
                        "loopattr" => {
                            let k: usize = w[1].parse().map_err(|_| "loop no")?;
                            d.loops.entry(k).or_default().attrs = w[2].clone();
                        }
                        "loopstart" => sec = Sec::LS(w[1].parse().map_err(|_| "loop no")?),
                        "loopend" => sec = Sec::LE(w[1].parse().map_err(|_| "loop no")?),
                        "beforeloop" => sec = Sec::LB(w[1].parse().map_err(|_| "loop no")?),
                        "afterloop" => sec = Sec::LA(w[1].parse().map_err(|_| "loop no")?),
                        "afterlet" => {
                            let k = w.get(2).map(|x| x.parse().unwrap_or(0)).unwrap_or(0);
                            d.lets.push((w[1].clone(), k, String::new()));
                            sec = Sec::Let(d.lets.len() - 1)
                        }
                        w0 @ ("before" | "after") => {
                            let k = w.get(2).map(|x| x.parse().unwrap_or(0)).unwrap_or(0);
                            d.lets.push((format!("{}:{}", w0, w[1]), k, String::new()));
                            sec = Sec::Let(d.lets.len() - 1)
                        }
                        w0 @ ("cutafter" | "onlyafter") => {
                            d.cut = Some((w[1].clone(), String::new(), w0 == "onlyafter"));
                            sec = Sec::Cut
                        }
                        x => return Err(format!("bad directive {} in {}", x, d.path)),
                    }
                } else {
                    let s = format!("{}\n", lines[i]);
                    match sec.clone() {
                        Sec::None => {
                            if !t.is_empty() {
                                return Err(format!("text outside section in {}: {}", d.path, t));
                            }
                        }
                        Sec::Spec => d.spec.push_str(&s),
                        Sec::Start => d.start.push_str(&s),
                        Sec::End => d.end.push_str(&s),
                        Sec::Cut => d.cut.as_mut().unwrap().1.push_str(&s),
                        Sec::Sig => d.sig.as_mut().unwrap().push_str(&s),
                        Sec::Inv(k) => d.loops.entry(k).or_default().inv.push_str(&s),
                        Sec::LS(k) => d.loops.entry(k).or_default().start.push_str(&s),
                        Sec::LE(k) => d.loops.entry(k).or_default().end.push_str(&s),
                        Sec::LB(k) => d.loops.entry(k).or_default().before.push_str(&s),
                        Sec::LA(k) => d.loops.entry(k).or_default().after.push_str(&s),
                        Sec::Let(k) => d.lets[k].2.push_str(&s),
                    }
                }
                i += 1;
            }
            let startl = out.lines().count() + 1;
            let t = emit_fn(ctx, &d)?;
            out.push_str(&t);
            let endl = out.lines().count();
            regions.push(serde_json::json!({"fn": d.path, "src": d.src, "name": d.name, "start": startl, "end": endl}));
        } else {
            out.push_str(l);
            out.push('\n');
            i += 1;
        }
    }
    Ok((out, serde_json::Value::Array(regions)))
}

fn main() {
    let _ = TokenStream::from_str("");
    if let Err(e) = run() {
        eprintln!("{}", e);
        std::process::exit(3);
    }
}
