//! `//@saved ROOT defined `A,B` ignoring `T.f,..` with `F=w,G=r``: what serde's derive makes of the types reachable from
//! ROOT, as ghost relations over documents read off their attributes on every run:
//! w_T(a, d): d is a document written for a;  r_T(d, a): a is a value read from d;  a_T(a, b): b is as good as a;
//! g_T(a): its weight tables satisfy the storage invariant, its free-form values hold no such table; t_T: then so does the
//! document; j_T: a document equal but for its tables' padding is written for the same value
//! l_T(a, d): reading a written document does not fail and yields a value as good as the one written
use crate::*;
use std::collections::BTreeSet;
use std::fmt::Write;

/// the bodies of what is emitted for a type
#[derive(Default)]
struct Text {
    w: String,
    r: String,
    a: String,
    l: String,
    g: String,
    t: String,
    j: String,
    /// more that t_T ensures
    te: String,
    /// no t_T, j_T
    plain: bool,
    rec: bool,
}

pub struct Saved<'a> {
    pub raw: Vec<String>,
    pub ctx: &'a mut Ctx,
    pub defined: Vec<String>,
    pub ignoring: Vec<String>,
    pub with: Vec<(String, String)>,
    pub files: Vec<String>,
    pub out: String,
    pub seen: BTreeSet<String>,
    pub queue: Vec<syn::Type>,
}

type Attrs = Vec<(String, Option<String>)>;

fn serde_attrs(attrs: &[syn::Attribute], what: &str) -> R<Attrs> {
    let mut v: Attrs = vec![];
    for a in attrs {
        if a.path().is_ident("serde") {
            a.parse_nested_meta(|m| {
                let k = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                if m.input.peek(syn::token::Paren) {
                    m.parse_nested_meta(|n| {
                        let s = n.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                        let val = if n.input.peek(syn::Token![=]) { Some(n.value()?.parse::<syn::LitStr>()?.value()) } else { None };
                        v.push((format!("{}.{}", k, s), val));
                        Ok(())
                    })?;
                    return Ok(());
                }
                let val = if m.input.peek(syn::Token![=]) { Some(m.value()?.parse::<syn::LitStr>()?.value()) } else { None };
                v.push((k, val));
                Ok(())
            })
            .map_err(|e| format!("UNSUPPORTED serde attribute in {}: {}", what, e))?;
        }
    }
    Ok(v)
}

fn derives(attrs: &[syn::Attribute], name: &str) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derive") && a.meta.require_list().map(|l| l.tokens.to_string().split(',').any(|x| x.rsplit(':').next().unwrap_or("").trim() == name)).unwrap_or(false)
    })
}

fn rename(rule: &str, s: &str, variant: bool) -> R<String> {
    Ok(match (rule, variant) {
        ("camelCase", false) => {
            let mut out = String::new();
            let mut up = false;
            for c in s.chars() {
                if c == '_' {
                    up = true;
                } else if up {
                    out.push(c.to_ascii_uppercase());
                    up = false;
                } else {
                    out.push(c);
                }
            }
            let mut cs = out.chars();
            match cs.next() {
                Some(c) => c.to_ascii_lowercase().to_string() + cs.as_str(),
                None => out,
            }
        }
        ("camelCase", true) => {
            let mut cs = s.chars();
            match cs.next() {
                Some(c) => c.to_ascii_lowercase().to_string() + cs.as_str(),
                None => String::new(),
            }
        }
        ("snake_case", false) | ("PascalCase", true) => s.to_string(),
        ("lowercase", true) => s.to_ascii_lowercase(),
        ("UPPERCASE", _) => s.to_ascii_uppercase(),
        _ => return Err(format!("UNSUPPORTED serde rename_all = {}", rule)),
    })
}

const PRIM: [&str; 12] = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool", "f32"];

/// the keys a weight table is recognised by
const TABLE: [&str; 6] = ["weights", "feature_index_size", "model_index_size", "feature_state_size", "model_index_size_shift", "feature_state_size_shift"];

enum Kind {
    Prim(String),
    Text,
    Opaque,
    OptOpaque,
    Dyn(String),
    Opt(syn::Type),
    Vec(syn::Type),
    HashMap(syn::Type, syn::Type),
    Boxed(syn::Type),
    Tuple(Vec<syn::Type>),
    Named(String),
}

struct Field {
    acc: String,
    id: String,
    ty: syn::Type,
    key_w: String,
    key_r: String,
    skip_w: bool,
    skip_r: bool,
    skip_if: Option<String>,
    dflt: bool,
    with_w: Option<String>,
    with_r: Option<String>,
    ignored: bool,
}

impl<'a> Saved<'a> {
    fn all_files(&mut self) -> R<()> {
        let root = format!("{}/reductionml-core/src", self.ctx.repo);
        let mut stack = vec![root];
        while let Some(d) = stack.pop() {
            for e in std::fs::read_dir(&d).map_err(|e| e.to_string())? {
                let p = e.map_err(|e| e.to_string())?.path();
                if p.is_dir() {
                    stack.push(p.to_string_lossy().to_string());
                } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                    self.files.push(p.to_string_lossy()[self.ctx.repo.len() + 1..].to_string());
                }
            }
        }
        self.files.sort();
        for f in self.files.clone() {
            self.ctx.load_file(&f)?;
        }
        Ok(())
    }
    /// the top-level definition of that name, and its file
    fn find(&self, name: &str) -> R<(String, syn::Item)> {
        let mut hit = vec![];
        for f in &self.files {
            for it in &self.ctx.sources[f].file.items {
                let ok = match it {
                    syn::Item::Struct(s) => s.ident == name,
                    syn::Item::Enum(s) => s.ident == name,
                    syn::Item::Type(s) => s.ident == name,
                    _ => false,
                };
                if ok {
                    hit.push((f.clone(), it.clone()));
                }
            }
        }
        if hit.len() != 1 {
            return Err(format!("UNSUPPORTED saved type {} has {} definitions", name, hit.len()));
        }
        for f in &self.files {
            for it in &self.ctx.sources[f].file.items {
                if let syn::Item::Impl(im) = it {
                    if let Some((_, p, _)) = &im.trait_ {
                        let t = p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                        if (t == "Serialize" || t == "Deserialize") && im.self_ty.to_token_stream().to_string() == name {
                            return Err(format!("UNSUPPORTED hand-written {} for {}", t, name));
                        }
                    }
                }
            }
        }
        Ok(hit.remove(0))
    }
    fn kind(&self, t: &syn::Type) -> R<Kind> {
        let un = || format!("UNSUPPORTED saved type {}", t.to_token_stream());
        match t {
            syn::Type::Tuple(x) => Ok(Kind::Tuple(x.elems.iter().cloned().collect())),
            syn::Type::Paren(x) => self.kind(&x.elem),
            syn::Type::TraitObject(x) => match x.bounds.first() {
                Some(syn::TypeParamBound::Trait(b)) if x.bounds.len() == 1 => Ok(Kind::Dyn(b.path.segments.last().unwrap().ident.to_string())),
                _ => Err(un()),
            },
            syn::Type::Path(p) => {
                let s = p.path.segments.last().ok_or_else(un)?;
                let id = s.ident.to_string();
                let args: Vec<syn::Type> = match &s.arguments {
                    syn::PathArguments::AngleBracketed(b) => b.args.iter().filter_map(|x| if let syn::GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).collect(),
                    _ => vec![],
                };
                match (id.as_str(), args.len()) {
                    ("Option", 1) => match self.kind(&args[0])? {
                        Kind::Opaque => Ok(Kind::OptOpaque),
                        Kind::Opt(_) | Kind::OptOpaque => Err(un()),
                        _ => Ok(Kind::Opt(args[0].clone())),
                    },
                    ("HashMap", 2) => Ok(Kind::HashMap(args[0].clone(), args[1].clone())),
                    ("Vec", 1) => Ok(Kind::Vec(args[0].clone())),
                    ("Box", 1) => Ok(Kind::Boxed(args[0].clone())),
                    ("String", 0) => Ok(Kind::Text),
                    ("Value", 0) => Ok(Kind::Opaque),
                    (x, 0) if PRIM.contains(&x) => Ok(Kind::Prim(id)),
                    (_, 0) => {
                        if let (_, syn::Item::Type(a)) = self.find(&id)? {
                            if !a.generics.params.is_empty() {
                                return Err(un());
                            }
                            return self.kind(&a.ty);
                        }
                        Ok(Kind::Named(id))
                    }
                    _ => Err(un()),
                }
            }
            _ => Err(un()),
        }
    }
    fn mangle(&self, t: &syn::Type) -> R<String> {
        Ok(match self.kind(t)? {
            Kind::Prim(p) => p,
            Kind::Text => "String".into(),
            Kind::Opaque => "Opaque".into(),
            Kind::OptOpaque => "MaybeOpaque".into(),
            Kind::Dyn(n) => format!("Any{}", n),
            Kind::Opt(x) => format!("Opt_{}", self.mangle(&x)?),
            Kind::Vec(x) => format!("Vec_{}", self.mangle(&x)?),
            Kind::HashMap(k, x) => format!("HashMap_{}_{}", self.mangle(&k)?, self.mangle(&x)?),
            Kind::Boxed(x) => self.mangle(&x)?,
            Kind::Tuple(x) => {
                let v = x.iter().map(|y| self.mangle(y)).collect::<R<Vec<_>>>()?;
                format!("T{}_{}", v.len(), v.join("_"))
            }
            Kind::Named(n) => n,
        })
    }
    /// the type as Verus sees it
    fn ty(&self, t: &syn::Type) -> R<String> {
        Ok(match self.kind(t)? {
            Kind::Prim(p) => p,
            Kind::Text => "String".into(),
            Kind::Opaque => "Value".into(),
            Kind::OptOpaque => "Option<Value>".into(),
            Kind::Dyn(n) => format!("Any{}", n),
            Kind::Opt(x) => format!("Option<{}>", self.ty(&x)?),
            Kind::Vec(x) => format!("Vec<{}>", self.ty(&x)?),
            Kind::HashMap(k, x) => format!("HashMap<{}, {}>", self.ty(&k)?, self.ty(&x)?),
            Kind::Boxed(x) => format!("Box<{}>", self.ty(&x)?),
            Kind::Tuple(x) => format!("({})", x.iter().map(|y| self.ty(y)).collect::<R<Vec<_>>>()?.join(", ")),
            Kind::Named(n) => n,
        })
    }
    /// the value behind the boxes
    fn de(&self, t: &syn::Type, e: &str) -> R<String> {
        Ok(match self.kind(t)? {
            Kind::Boxed(x) => self.de(&x, &format!("*{}", e))?,
            _ => e.to_string(),
        })
    }
    fn need(&mut self, t: &syn::Type) -> R<String> {
        if let Kind::Boxed(x) = self.kind(t)? {
            return self.need(&x);
        }
        let m = self.mangle(t)?;
        if self.seen.insert(m.clone()) {
            self.queue.push(t.clone());
        }
        Ok(m)
    }
    fn put(&mut self, m: &str, ty: &str, x: Text) {
        let (d1, d2) = if x.rec { (" decreases a", " decreases b") } else { ("", "") };
        let m = if self.raw.contains(&m.to_string()) { format!("{}_raw", m) } else { m.to_string() };
        let Text { w, r, a, l, g, t, j, te, plain, .. } = x;
        let _ = write!(
            self.out,
            "pub open spec fn w_{m}(a: {ty}, d: Doc) -> bool{d1} {{ {w} }}\npub open spec fn r_{m}(d: Doc, b: {ty}) -> bool{d2} {{ {r} }}\npub open spec fn a_{m}(a: {ty}, b: {ty}) -> bool{d1} {{ {a} }}\npub open spec fn g_{m}(a: {ty}) -> bool{d1} {{ {g} }}\n\
             pub proof fn l_{m}(a: {ty}, d: Doc)\n    requires w_{m}(a, d)\n    ensures r_{m}(d, a), forall|b: {ty}| #[trigger] r_{m}(d, b) ==> a_{m}(a, b){d1}\n{{ {l} }}\n"
        );
        if plain || m.ends_with("_raw") {
            return;
        }
        let _ = write!(
            self.out,
            "pub proof fn t_{m}(a: {ty}, d: Doc)\n    requires w_{m}(a, d), g_{m}(a)\n    ensures tables_ok(d){te}{d1}\n{{ {t} }}\npub proof fn j_{m}(a: {ty}, d: Doc, e: Doc)\n    requires w_{m}(a, d), g_{m}(a), same(d, e)\n    ensures w_{m}(a, e){d1}\n{{ {j} }}\n"
        );
    }
    fn fields(&mut self, owner: &str, fs: &syn::Fields, rule: Option<&str>, pre: &str) -> R<Vec<Field>> {
        let mut v = vec![];
        for (i, f) in fs.iter().enumerate() {
            let id = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string());
            let base = match rule {
                Some(r) if f.ident.is_some() => rename(r, &id, false)?,
                _ => id.clone(),
            };
            let mut x = Field {
                acc: format!("{}{}", pre, id),
                id: id.clone(),
                ty: f.ty.clone(),
                key_w: base.clone(),
                key_r: base,
                skip_w: false,
                skip_r: false,
                skip_if: None,
                dflt: false,
                with_w: None,
                with_r: None,
                ignored: self.ignoring.contains(&format!("{}.{}", owner, id)),
            };
            for (k, val) in serde_attrs(&f.attrs, owner)? {
                match (k.as_str(), val) {
                    ("skip", _) => {
                        x.skip_w = true;
                        x.skip_r = true;
                    }
                    ("skip_serializing", _) => x.skip_w = true,
                    ("skip_deserializing", _) => x.skip_r = true,
                    ("skip_serializing_if", Some(p)) => x.skip_if = Some(p),
                    ("default", _) => x.dflt = true,
                    ("rename", Some(n)) => {
                        x.key_w = n.clone();
                        x.key_r = n;
                    }
                    ("rename.serialize", Some(n)) => x.key_w = n,
                    ("rename.deserialize", Some(n)) => x.key_r = n,
                    ("serialize_with", Some(n)) => x.with_w = Some(n),
                    ("deserialize_with", Some(n)) => x.with_r = Some(n),
                    (o, _) => return Err(format!("UNSUPPORTED serde attribute {} of {}.{}", o, owner, id)),
                }
            }
            v.push(x);
        }
        for i in 0..v.len() {
            for j in 0..i {
                if !v[i].skip_w && !v[j].skip_w && v[i].key_w == v[j].key_w {
                    return Err(format!("UNSUPPORTED {} writes the key {} twice", owner, v[i].key_w));
                }
            }
        }
        Ok(v)
    }
    /// over the fields of a document that is a map; what the lemma needs about the values read comes back in te
    fn named(&mut self, owner: &str, fs: &[Field], deny: bool) -> R<Text> {
        let raw = self.raw.contains(&owner.to_string());
        let m = "d->Map_0";
        let (mut w, mut r, mut a, mut g) = (vec![], vec![], vec![], vec![]);
        let (mut l, mut l2, mut t, mut j) = (String::new(), String::new(), String::new(), String::new());
        let (mut kws, mut krs) = (vec![], vec![]);
        for f in fs {
            if f.ignored {
                if !(f.skip_w && f.skip_r) {
                    return Err(format!("UNSUPPORTED {}.{} is expected to be left out of a saved model", owner, f.id));
                }
                continue;
            }
            let n = self.need(&f.ty)?;
            let fb = format!("b.{}", f.id);
            let b = self.de(&f.ty, &fb)?;
            let fa = self.de(&f.ty, &f.acc)?;
            let (kw, kr) = (format!("{:?}@", f.key_w), format!("{:?}@", f.key_r));
            let opt = matches!(self.kind(&f.ty)?, Kind::Opt(_) | Kind::OptOpaque);
            let with = f.with_w.is_some() || f.with_r.is_some();
            if with && !raw {
                return Err(format!("UNSUPPORTED serialize_with in {}", owner));
            }
            let wf = match &f.with_w {
                None => format!("w_{}", n),
                Some(p) => self.with.iter().find(|x| &x.0 == p).map(|x| x.1.clone()).ok_or(format!("UNSUPPORTED serialize_with {}", p))?,
            };
            let rf = match &f.with_r {
                None => format!("r_{}", n),
                Some(p) => self.with.iter().find(|x| &x.0 == p).map(|x| x.1.clone()).ok_or(format!("UNSUPPORTED deserialize_with {}", p))?,
            };
            if !with {
                g.push(format!("g_{}({})", n, fa));
            }
            let (mut pre, mut post) = (String::new(), "");
            if !f.skip_w {
                kws.push(f.key_w.clone());
                let here = format!("{m}.contains_key({kw}) && {wf}({}, {m}[{kw}])", fa);
                match f.skip_if.as_deref() {
                    None => w.push(here),
                    Some("Option::is_none") => {
                        pre = format!("if !({} is None) {{ ", f.acc);
                        post = "} ";
                        w.push(format!("(if {} is None {{ !{m}.contains_key({kw}) }} else {{ {here} }})", f.acc))
                    }
                    Some(p) => return Err(format!("UNSUPPORTED skip_serializing_if {}", p)),
                }
                if !with {
                    let _ = write!(l, "{pre}l_{n}({fa}, {m}[{kw}]); {post}");
                    let _ = write!(t, "{pre}t_{n}({fa}, {m}[{kw}]); {post}");
                    let _ = write!(j, "{pre}assert(same({m}[{kw}], e->Map_0[{kw}])); j_{n}({fa}, {m}[{kw}], e->Map_0[{kw}]); {post}");
                }
            } else {
                w.push(format!("!{m}.contains_key({kw})"));
            }
            if f.skip_r {
                r.push(format!("{fb} == default_of::<{}>({:?}@)", self.ty(&f.ty)?, format!("{}.{}", owner, f.id)));
            } else {
                let missing = if f.dflt {
                    format!("{fb} == default_of::<{}>({:?}@)", self.ty(&f.ty)?, format!("{}.{}", owner, f.id))
                } else if opt && f.with_r.is_none() {
                    format!("{fb} is None")
                } else {
                    "false".into()
                };
                r.push(format!("(if {m}.contains_key({kr}) {{ {rf}({m}[{kr}], {b}) }} else {{ {missing} }})"));
                krs.push(f.key_r.clone());
            }
            match (&f.with_w, &f.with_r) {
                (Some(p), Some(q)) => {
                    let al = self.with.iter().find(|x| x.0 == format!("{}~{}", p, q)).map(|x| x.1.clone()).ok_or(format!("UNSUPPORTED {} with {}", p, q))?;
                    a.push(format!("{}({}, {})", al, fa, b));
                    let lem = self.with.iter().find(|x| x.0 == format!("{}+{}", p, q)).map(|x| x.1.clone()).ok_or(format!("UNSUPPORTED {} with {}", p, q))?;
                    if !f.skip_w {
                        let _ = write!(l, "{lem}({fa}, {m}[{kw}]); ");
                    }
                }
                _ => {
                    a.push(format!("a_{}({}, {})", n, fa, b));
                    if !f.skip_r {
                        let _ = write!(l2, "assert(r_{n}({m}[{kr}], {b}) ==> a_{n}({fa}, {b})); ");
                    }
                }
            }
        }
        let dom = |v: &[String]| format!("(forall|k: Seq<char>| #[trigger] {m}.contains_key(k) ==> {})", if v.is_empty() { "false".into() } else { v.iter().map(|k| format!("k == {:?}@", k)).collect::<Vec<_>>().join(" || ") });
        w.push(dom(&kws));
        if deny {
            // an unknown key is an error
            r.push(dom(&krs));
        }
        if !raw {
            let out = TABLE.iter().find(|k| !kws.contains(&k.to_string())).ok_or(format!("UNSUPPORTED {} looks like a weight table", owner))?;
            let mut ks = vec![out.to_string()];
            ks.extend(kws.iter().cloned());
            t = format!("{} assert(!{m}.contains_key({out:?}@)); {t} assert forall|k: Seq<char>| #[trigger] {m}.contains_key(k) implies tables_ok({m}[k]) by {{ {} }}", Self::distinct(&ks), kws.iter().map(|k| format!("if k == {k:?}@ {{ assert(tables_ok({m}[{k:?}@])); }} ")).collect::<String>());
            j = format!("{} assert(!{m}.contains_key({out:?}@)); {j}", Self::distinct(&ks));
        }
        let c = |v: Vec<String>| if v.is_empty() { "true".to_string() } else { v.join(" && ") };
        Ok(Text { w: c(w), r: c(r), a: c(a), g: c(g), l, t, j, te: l2, plain: false, rec: true })
    }
    fn container(&self, attrs: &[syn::Attribute], name: &str) -> R<(Option<String>, bool)> {
        if !derives(attrs, "Serialize") || !derives(attrs, "Deserialize") {
            return Err(format!("UNSUPPORTED {} does not derive both Serialize and Deserialize", name));
        }
        let (mut rule, mut deny) = (None, false);
        for (k, v) in serde_attrs(attrs, name)? {
            match (k.as_str(), v) {
                ("rename_all", Some(r)) => rule = Some(r),
                ("deny_unknown_fields", _) => deny = true,
                (o, _) => return Err(format!("UNSUPPORTED serde attribute {} of {}", o, name)),
            }
        }
        Ok((rule, deny))
    }
    fn distinct(names: &[String]) -> String {
        let mut l = String::new();
        for n in names {
            let _ = write!(l, "reveal_strlit({:?}); ", n);
        }
        for i in 0..names.len() {
            for j in 0..i {
                let (x, y): (Vec<char>, Vec<char>) = (names[i].chars().collect(), names[j].chars().collect());
                if x.len() == y.len() {
                    if let Some(k) = (0..x.len()).find(|k| x[*k] != y[*k]) {
                        let _ = write!(l, "assert({:?}@[{k}] != {:?}@[{k}]); ", names[i], names[j]);
                    }
                } else {
                    let _ = write!(l, "assert({:?}@.len() != {:?}@.len()); ", names[i], names[j]);
                }
            }
        }
        l
    }
    fn emit(&mut self, t: &syn::Type) -> R<()> {
        let m = self.mangle(t)?;
        let ty = self.ty(t)?;
        match self.kind(t)? {
            Kind::Prim(p) => {
                let c = match p.as_str() {
                    "bool" => "Doc::Bool($)".to_string(),
                    "f32" => "Doc::Single($)".to_string(),
                    _ => "Doc::Int($ as int)".to_string(),
                };
                self.put(&m, &ty, Text { w: format!("d == {}", c.replace('$', "a")), r: format!("d == {}", c.replace('$', "b")), a: "a == b".into(), g: "true".into(), ..Default::default() });
            }
            Kind::Text => self.put(&m, &ty, Text { w: "d == Doc::Text(a@)".into(), r: "d == Doc::Text(b@)".into(), a: "a@ == b@".into(), g: "true".into(), ..Default::default() }),
            Kind::Opaque => self.put(&m, &ty, Text { w: "d == doc_of(a)".into(), r: "d == doc_of(b)".into(), a: "doc_of(a) == doc_of(b)".into(), g: "no_tables(doc_of(a))".into(), t: "lemma_plain(d);".into(), j: "lemma_plain_same(d, e);".into(), ..Default::default() }),
            Kind::OptOpaque => self.put(&m, &ty, Text { w: "d == maybe_doc(a)".into(), r: "d == maybe_doc(b)".into(), a: "maybe_doc(a) == maybe_doc(b)".into(), g: "no_tables(maybe_doc(a))".into(), t: "lemma_plain(d);".into(), j: "lemma_plain_same(d, e);".into(), ..Default::default() }),
            Kind::Boxed(_) => (),
            Kind::Opt(x) => {
                let n = self.need(&x)?;
                let (dx, dy) = (self.de(&x, "x")?, self.de(&x, "y")?);
                self.put(
                    &m,
                    &ty,
                    Text {
                        w: format!("match a {{ None => d == Doc::Null, Some(x) => d != Doc::Null && w_{n}({dx}, d) }}"),
                        r: format!("match b {{ None => d == Doc::Null, Some(x) => d != Doc::Null && r_{n}(d, {dx}) }}"),
                        a: format!("match (a, b) {{ (None, None) => true, (Some(x), Some(y)) => a_{n}({dx}, {dy}), _ => false }}"),
                        g: format!("match a {{ None => true, Some(x) => g_{n}({dx}) }}"),
                        l: format!("match a {{ None => {{ }}, Some(x) => {{ l_{n}({dx}, d); }} }}"),
                        t: format!("match a {{ None => {{ }}, Some(x) => {{ t_{n}({dx}, d); }} }}"),
                        j: format!("match a {{ None => {{ }}, Some(x) => {{ j_{n}({dx}, d, e); }} }}"),
                        rec: true,
                        ..Default::default()
                    },
                );
            }
            Kind::HashMap(k, x) => {
                let (nk, n) = (self.need(&k)?, self.need(&x)?);
                let (tk, tx) = (self.ty(&k)?, self.ty(&x)?);
                self.put(
                    &m,
                    &ty,
                    Text {
                        w: format!("d is Map && (forall|k: {tk}| #[trigger] a@.contains_key(k) ==> d->Map_0.contains_key(key_{nk}(k)) && w_{n}(a@[k], d->Map_0[key_{nk}(k)])) && (forall|s: Seq<char>| #[trigger] d->Map_0.contains_key(s) ==> exists|k: {tk}| #[trigger] a@.contains_key(k) && s == key_{nk}(k))"),
                        r: format!("d is Map && (forall|k: {tk}| #[trigger] b@.contains_key(k) ==> d->Map_0.contains_key(key_{nk}(k)) && r_{n}(d->Map_0[key_{nk}(k)], b@[k])) && (forall|s: Seq<char>| #[trigger] d->Map_0.contains_key(s) ==> exists|k: {tk}| #[trigger] b@.contains_key(k) && s == key_{nk}(k))"),
                        a: format!("forall|k: {tk}| (#[trigger] a@.contains_key(k)) == b@.contains_key(k) && (a@.contains_key(k) ==> a_{n}(a@[k], b@[k]))"),
                        g: "true".into(),
                        l: format!("let dm = d->Map_0; assert forall|k: {tk}| #[trigger] a@.contains_key(k) implies r_{n}(dm[key_{nk}(k)], a@[k]) by {{ l_{n}(a@[k], dm[key_{nk}(k)]); }} assert forall|b: {ty}| #[trigger] r_{m}(d, b) implies a_{m}(a, b) by {{ assert forall|k: {tk}| (#[trigger] a@.contains_key(k)) == b@.contains_key(k) && (a@.contains_key(k) ==> a_{n}(a@[k], b@[k])) by {{ keys_{nk}(); assert(dm.contains_key(key_{nk}(k)) == a@.contains_key(k)); assert(dm.contains_key(key_{nk}(k)) == b@.contains_key(k)); if a@.contains_key(k) {{ l_{n}(a@[k], dm[key_{nk}(k)]); let y: {tx} = b@[k]; assert(r_{n}(dm[key_{nk}(k)], y)); }} }} }}"),
                        plain: true,
                        ..Default::default()
                    },
                );
            }
            Kind::Vec(x) => {
                if let Kind::Boxed(_) = self.kind(&x)? {
                    return Err(format!("UNSUPPORTED saved type {}", t.to_token_stream()));
                }
                let n = self.need(&x)?;
                let tx = self.ty(&x)?;
                self.put(
                    &m,
                    &ty,
                    Text {
                        w: format!("d is List && d->List_0.len() == a@.len() && (forall|i: int| 0 <= i < a@.len() ==> w_{n}(#[trigger] a@[i], d->List_0[i]))"),
                        r: format!("d is List && d->List_0.len() == b@.len() && (forall|i: int| 0 <= i < b@.len() ==> r_{n}(d->List_0[i], #[trigger] b@[i]))"),
                        a: format!("a@.len() == b@.len() && (forall|i: int| #![trigger a@[i]] #![trigger b@[i]] 0 <= i < a@.len() ==> a_{n}(a@[i], b@[i]))"),
                        g: format!("forall|i: int| 0 <= i < a@.len() ==> g_{n}(#[trigger] a@[i])"),
                        l: format!("let s = d->List_0; assert forall|i: int| 0 <= i < a@.len() implies r_{n}(s[i], #[trigger] a@[i]) by {{ l_{n}(a@[i], s[i]); }} assert forall|b: {ty}| #[trigger] r_{m}(d, b) implies a_{m}(a, b) by {{ assert forall|i: int| 0 <= i < a@.len() implies #[trigger] a_{n}(a@[i], b@[i]) by {{ l_{n}(a@[i], s[i]); let y: {tx} = b@[i]; assert(r_{n}(s[i], y)); }} }}"),
                        t: format!("let s = d->List_0; assert forall|i: int| 0 <= i < s.len() implies tables_ok(#[trigger] s[i]) by {{ assert(w_{n}(a@[i], s[i])); t_{n}(a@[i], s[i]); }}"),
                        j: format!("let s = d->List_0; let q = e->List_0; assert forall|i: int| 0 <= i < a@.len() implies w_{n}(#[trigger] a@[i], q[i]) by {{ assert(same(s[i], q[i])); j_{n}(a@[i], s[i], q[i]); }}"),
                        ..Default::default()
                    },
                );
            }
            Kind::Tuple(xs) => {
                for x in &xs {
                    if let Kind::Boxed(_) = self.kind(x)? {
                        return Err(format!("UNSUPPORTED saved type {}", t.to_token_stream()));
                    }
                }
                let ns = xs.iter().map(|x| self.need(x)).collect::<R<Vec<_>>>()?;
                let k = ns.len();
                let e = |f: &dyn Fn(usize, &str) -> String| ns.iter().enumerate().map(|(i, n)| f(i, n)).collect::<Vec<_>>().join(" && ");
                let c = |f: &dyn Fn(usize, &str) -> String| ns.iter().enumerate().map(|(i, n)| f(i, n)).collect::<String>();
                let x = Text {
                    w: format!("d is List && d->List_0.len() == {k} && {}", e(&|i, n| format!("w_{n}(a.{i}, d->List_0[{i}])"))),
                    r: format!("d is List && d->List_0.len() == {k} && {}", e(&|i, n| format!("r_{n}(d->List_0[{i}], b.{i})"))),
                    a: e(&|i, n| format!("a_{n}(a.{i}, b.{i})")),
                    g: e(&|i, n| format!("g_{n}(a.{i})")),
                    l: c(&|i, n| format!("l_{n}(a.{i}, d->List_0[{i}]); ")),
                    t: format!("{} let s = d->List_0; assert forall|i: int| 0 <= i < s.len() implies tables_ok(#[trigger] s[i]) by {{ {} }}", c(&|i, n| format!("t_{n}(a.{i}, d->List_0[{i}]); ")), c(&|i, _| format!("if i == {i} {{ assert(tables_ok(s[{i}])); }} "))),
                    j: c(&|i, n| format!("assert(same(d->List_0[{i}], e->List_0[{i}])); j_{n}(a.{i}, d->List_0[{i}], e->List_0[{i}]); ")),
                    rec: true,
                    ..Default::default()
                };
                self.put(&m, &ty, x);
            }
            Kind::Dyn(tr) => self.emit_dyn(&m, &ty, &tr)?,
            Kind::Named(n) => {
                let (file, it) = self.find(&n)?;
                if !self.defined.contains(&n) {
                    self.aliases(&it)?;
                    let mut substs = vec![];
                    collect_dyn(&it, &mut substs);
                    let t = emit_item(self.ctx, &file, &n, "", &[])?;
                    let mut t = t;
                    for d in substs {
                        t = t.replace(&format!("dyn {}", d), &format!("Any{}", d));
                    }
                    t = t.replace("serde_json::Value", "Value");
                    self.out.push_str(&t);
                }
                match it {
                    syn::Item::Struct(s) => self.emit_struct(&n, &s)?,
                    syn::Item::Enum(e) => self.emit_enum(&n, &e)?,
                    _ => return Err(format!("UNSUPPORTED saved item {}", n)),
                }
            }
        }
        Ok(())
    }
    /// the type aliases an item mentions
    fn aliases(&mut self, it: &syn::Item) -> R<()> {
        struct V(Vec<String>);
        impl<'x> Visit<'x> for V {
            fn visit_type_path(&mut self, t: &'x syn::TypePath) {
                if let Some(s) = t.path.segments.last() {
                    self.0.push(s.ident.to_string());
                }
                syn::visit::visit_type_path(self, t);
            }
        }
        let mut v = V(vec![]);
        v.visit_item(it);
        for n in v.0 {
            if self.seen.contains(&format!("type {}", n)) || n == "Result" {
                continue;
            }
            let mut hit = None;
            for f in &self.files {
                for i in &self.ctx.sources[f].file.items {
                    if let syn::Item::Type(a) = i {
                        if a.ident == n && a.generics.params.is_empty() {
                            hit = Some((f.clone(), i.clone()));
                        }
                    }
                }
            }
            if let Some((f, i)) = hit {
                self.seen.insert(format!("type {}", n));
                self.aliases(&i)?;
                let t = emit_item(self.ctx, &f, &n, "", &[])?;
                self.out.push_str(&t);
            }
        }
        Ok(())
    }
    fn emit_struct(&mut self, n: &str, s: &syn::ItemStruct) -> R<()> {
        if !s.generics.params.is_empty() {
            return Err(format!("UNSUPPORTED generic saved type {}", n));
        }
        let (rule, deny) = self.container(&s.attrs, n)?;
        match &s.fields {
            syn::Fields::Unit => self.put(n, n, Text { w: "d == Doc::Null".into(), r: "d == Doc::Null".into(), a: "true".into(), g: "true".into(), ..Default::default() }),
            syn::Fields::Unnamed(u) => {
                let fs = self.fields(n, &s.fields, None, "a.")?;
                if u.unnamed.len() != 1 || fs[0].skip_w || fs[0].skip_r || fs[0].with_w.is_some() || fs[0].with_r.is_some() {
                    return Err(format!("UNSUPPORTED saved tuple type {}", n));
                }
                let x = self.need(&fs[0].ty)?;
                let (da, db) = (self.de(&fs[0].ty, "a.0")?, self.de(&fs[0].ty, "b.0")?);
                let x = Text { w: format!("w_{x}({da}, d)"), r: format!("r_{x}(d, {db})"), a: format!("a_{x}({da}, {db})"), g: format!("g_{x}({da})"), l: format!("l_{x}({da}, d);"), t: format!("t_{x}({da}, d);"), j: format!("j_{x}({da}, d, e);"), rec: true, ..Default::default() };
                self.put(n, n, x);
            }
            syn::Fields::Named(_) => {
                let fs = self.fields(n, &s.fields, rule.as_deref(), "a.")?;
                let nm = if self.raw.contains(&n.to_string()) { format!("{}_raw", n) } else { n.to_string() };
                let mut x = self.named(n, &fs, deny)?;
                x.w = format!("d is Map && {}", x.w);
                x.r = format!("d is Map && {}", x.r);
                let l2 = std::mem::take(&mut x.te);
                x.l = format!("{} assert forall|b: {n}| #[trigger] r_{nm}(d, b) implies a_{nm}(a, b) by {{ {l2} }}", x.l);
                x.te = ", d is Map, !table(d->Map_0)".into();
                x.rec = true;
                self.put(n, n, x);
            }
        }
        Ok(())
    }
    fn emit_enum(&mut self, n: &str, e: &syn::ItemEnum) -> R<()> {
        let (rule, _) = self.container(&e.attrs, n)?;
        let mut x = Text { rec: true, ..Default::default() };
        let mut names = vec![];
        for v in &e.variants {
            let id = v.ident.to_string();
            let mut kw = match &rule {
                Some(x) => rename(x, &id, true)?,
                None => id.clone(),
            };
            let mut kr = kw.clone();
            for (k, val) in serde_attrs(&v.attrs, n)? {
                match (k.as_str(), val) {
                    ("rename", Some(x)) => {
                        kw = x.clone();
                        kr = x;
                    }
                    ("rename.serialize", Some(x)) => kw = x,
                    ("rename.deserialize", Some(x)) => kr = x,
                    (o, _) => return Err(format!("UNSUPPORTED serde attribute {} of {}::{}", o, n, id)),
                }
            }
            for x in [&kw, &kr] {
                if !names.contains(x) {
                    names.push(x.clone());
                }
            }
            let only = |k: &str, side: &str| format!("d is Map && d->Map_0.contains_key({k:?}@) && (forall|k: Seq<char>| #[trigger] d->Map_0.contains_key(k) ==> k == {k:?}@){side}");
            match &v.fields {
                syn::Fields::Unit => {
                    let _ = write!(x.w, "{n}::{id} => d == Doc::Text({kw:?}@), ");
                    let _ = write!(x.r, "{n}::{id} => d == Doc::Text({kr:?}@), ");
                    let _ = write!(x.a, "({n}::{id}, {n}::{id}) => true, ");
                    let _ = write!(x.g, "{n}::{id} => true, ");
                    for s in [&mut x.l, &mut x.t, &mut x.j] {
                        let _ = write!(s, "{n}::{id} => {{ }}, ");
                    }
                }
                syn::Fields::Unnamed(u) if u.unnamed.len() == 1 => {
                    let y = self.need(&u.unnamed[0].ty)?;
                    let (dx, dy) = (self.de(&u.unnamed[0].ty, "x")?, self.de(&u.unnamed[0].ty, "y")?);
                    let out = if kw == TABLE[0] { TABLE[1] } else { TABLE[0] };
                    let far = Self::distinct(&[out.to_string(), kw.clone()]);
                    let _ = write!(x.w, "{n}::{id}(x) => {}, ", only(&kw, &format!(" && w_{y}({dx}, d->Map_0[{kw:?}@])")));
                    let _ = write!(x.r, "{n}::{id}(x) => {}, ", only(&kr, &format!(" && r_{y}(d->Map_0[{kr:?}@], {dx})")));
                    let _ = write!(x.a, "({n}::{id}(x), {n}::{id}(y)) => a_{y}({dx}, {dy}), ");
                    let _ = write!(x.g, "{n}::{id}(x) => g_{y}({dx}), ");
                    let _ = write!(x.l, "{n}::{id}(x) => {{ l_{y}({dx}, d->Map_0[{kw:?}@]); }}, ");
                    let _ = write!(x.t, "{n}::{id}(x) => {{ {far} assert(!d->Map_0.contains_key({out:?}@)); t_{y}({dx}, d->Map_0[{kw:?}@]); }}, ");
                    let _ = write!(x.j, "{n}::{id}(x) => {{ {far} assert(!d->Map_0.contains_key({out:?}@)); assert(same(d->Map_0[{kw:?}@], e->Map_0[{kw:?}@])); j_{y}({dx}, d->Map_0[{kw:?}@], e->Map_0[{kw:?}@]); }}, ");
                }
                _ => return Err(format!("UNSUPPORTED saved variant {}::{}", n, id)),
            }
        }
        let wild = if e.variants.len() > 1 { "_ => false, " } else { "" };
        x.w = format!("match a {{ {} }}", x.w);
        x.r = format!("match b {{ {} }}", x.r);
        x.a = format!("match (a, b) {{ {} {wild} }}", x.a);
        x.g = format!("match a {{ {} }}", x.g);
        x.l = format!("{} match a {{ {} }}", Self::distinct(&names), x.l);
        x.t = format!("match a {{ {} }}", x.t);
        x.j = format!("match a {{ {} }}", x.j);
        self.put(n, n, x);
        Ok(())
    }
    /// typetag's registry: every implementation, found by its name
    fn emit_dyn(&mut self, m: &str, ty: &str, tr: &str) -> R<()> {
        let mut tag = None;
        let mut impls: Vec<(String, String)> = vec![];
        for f in self.files.clone() {
            for it in self.ctx.sources[&f].file.items.clone() {
                let tt = |attrs: &[syn::Attribute]| -> R<Option<Attrs>> {
                    for a in attrs {
                        let segs: Vec<String> = a.path().segments.iter().map(|s| s.ident.to_string()).collect();
                        if segs == ["typetag", "serde"] {
                            let mut v: Attrs = vec![];
                            if let syn::Meta::List(_) = &a.meta {
                                a.parse_nested_meta(|n| {
                                    let k = n.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                                    v.push((k, Some(n.value()?.parse::<syn::LitStr>()?.value())));
                                    Ok(())
                                })
                                .map_err(|e| format!("UNSUPPORTED typetag attribute: {}", e))?;
                            }
                            return Ok(Some(v));
                        }
                    }
                    Ok(None)
                };
                match &it {
                    syn::Item::Trait(t) if t.ident == tr => {
                        let a = tt(&t.attrs)?.ok_or(format!("UNSUPPORTED trait {} is not saved by typetag", tr))?;
                        match &a[..] {
                            [(k, Some(v))] if k == "tag" => tag = Some(v.clone()),
                            _ => return Err(format!("UNSUPPORTED typetag attribute of {}", tr)),
                        }
                    }
                    syn::Item::Impl(im) => {
                        if let Some((_, p, _)) = &im.trait_ {
                            if p.segments.last().map(|s| s.ident == tr).unwrap_or(false) {
                                if let Some(a) = tt(&im.attrs)? {
                                    let x = im.self_ty.to_token_stream().to_string();
                                    let name = match &a[..] {
                                        [] => x.clone(),
                                        [(k, Some(v))] if k == "name" => v.clone(),
                                        _ => return Err(format!("UNSUPPORTED typetag attribute of {}", x)),
                                    };
                                    impls.push((x, name));
                                } else {
                                    return Err(format!("UNSUPPORTED {} of {} is not saved by typetag", tr, im.self_ty.to_token_stream()));
                                }
                            }
                        }
                    }
                    _ => (),
                }
            }
        }
        let tag = tag.ok_or(format!("LOST-ANCHOR trait {}", tr))?;
        impls.sort();
        let mut def = format!("pub enum {ty} {{ ");
        let mut y = Text { rec: true, ..Default::default() };
        let mut l2 = String::new();
        let rest = format!("Doc::Map(d->Map_0.remove({tag:?}@))");
        let rest_e = format!("Doc::Map(e->Map_0.remove({tag:?}@))");
        for (x, name) in &impls {
            if let (_, syn::Item::Struct(s)) = self.find(x)? {
                let (rule, _) = self.container(&s.attrs, x)?;
                for f in self.fields(x, &s.fields, rule.as_deref(), "a.")? {
                    if f.key_w == tag || f.key_r == tag {
                        return Err(format!("UNSUPPORTED {} has a field saved as the tag {}", x, tag));
                    }
                }
            }
            let t: syn::Type = syn::parse_str(x).map_err(|e| e.to_string())?;
            let n = self.need(&t)?;
            let _ = write!(def, "{x}({x}), ");
            let _ = write!(y.w, "{ty}::{x}(x) => d->Map_0[{tag:?}@] == Doc::Text({name:?}@) && w_{n}(x, {rest}), ");
            let _ = write!(y.r, "{ty}::{x}(x) => d->Map_0[{tag:?}@] == Doc::Text({name:?}@) && r_{n}({rest}, x), ");
            let _ = write!(y.a, "({ty}::{x}(x), {ty}::{x}(y)) => a_{n}(x, y), ");
            let _ = write!(y.g, "{ty}::{x}(x) => g_{n}(x), ");
            let _ = write!(y.l, "{ty}::{x}(x) => {{ l_{n}(x, {rest}); }}, ");
            let _ = write!(y.t, "{ty}::{x}(x) => {{ t_{n}(x, {rest}); }}, ");
            let _ = write!(y.j, "{ty}::{x}(x) => {{ t_{n}(x, {rest}); lemma_untagged(d, e, {tag:?}@); j_{n}(x, {rest}, {rest_e}); }}, ");
            let _ = write!(l2, "({ty}::{x}(x), {ty}::{x}(y)) => {{ assert(r_{n}({rest}, y) ==> a_{n}(x, y)); }}, ");
        }
        let _ = write!(self.out, "{} }}\n", def);
        let names: Vec<String> = impls.iter().map(|x| x.1.clone()).collect();
        let wild = if impls.len() > 1 { "_ => false, " } else { "" };
        let head = format!("d is Map && d->Map_0.contains_key({tag:?}@) && ");
        let far: String = TABLE.iter().map(|k| Self::distinct(&[k.to_string(), tag.clone()])).collect();
        y.w = format!("{head}match a {{ {} }}", y.w);
        y.r = format!("{head}match b {{ {} }}", y.r);
        y.a = format!("match (a, b) {{ {} {wild} }}", y.a);
        y.g = format!("match a {{ {} }}", y.g);
        y.l = format!("{} match a {{ {} }} assert forall|b: {ty}| #[trigger] r_{m}(d, b) implies a_{m}(a, b) by {{ match (a, b) {{ {l2} _ => {{ }} }} }}", Self::distinct(&names), y.l);
        y.t = format!("{far} match a {{ {} }} lemma_tagged(d, {tag:?}@);", y.t);
        y.j = format!("{far} match a {{ {} }}", y.j);
        self.put(m, ty, y);
        Ok(())
    }
}

fn collect_dyn(it: &syn::Item, out: &mut Vec<String>) {
    struct V<'b>(&'b mut Vec<String>);
    impl<'b, 'x> Visit<'x> for V<'b> {
        fn visit_type_trait_object(&mut self, t: &'x syn::TypeTraitObject) {
            if let Some(syn::TypeParamBound::Trait(b)) = t.bounds.first() {
                self.0.push(b.path.segments.last().unwrap().ident.to_string());
            }
        }
    }
    V(out).visit_item(it);
}

pub fn saved(ctx: &mut Ctx, w: &[String]) -> R<String> {
    let list = |k: &str| -> Vec<String> {
        match w.iter().position(|x| x == k) {
            Some(i) => w[i + 1].split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect(),
            None => vec![],
        }
    };
    let with = list("with").iter().map(|x| { let (a, b) = x.split_once('=').unwrap(); (a.trim().to_string(), b.trim().to_string()) }).collect();
    let (defined, ignoring) = (list("defined"), list("ignoring"));
    let raw = list("raw");
    let mut s = Saved { raw, ctx, defined, ignoring, with, files: vec![], out: String::new(), seen: BTreeSet::new(), queue: vec![] };
    s.all_files()?;
    for x in w[0].split(',') {
        let root: syn::Type = syn::parse_str(x.trim()).map_err(|e| e.to_string())?;
        s.need(&root)?;
    }
    while let Some(t) = s.queue.pop() {
        s.emit(&t)?;
    }
    let out = s.out;
    ctx.log.push(serde_json::json!({"rule": "saved", "root": w[0], "text": out}));
    Ok(out)
}
