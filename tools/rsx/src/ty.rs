//! Rust types to Lean types.
use crate::extract::*;
use std::collections::BTreeMap;
use syn::*;

pub fn last_ident(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => last_ident(&r.elem),
        Type::Paren(r) => last_ident(&r.elem),
        Type::Group(r) => last_ident(&r.elem),
        _ => None,
    }
}

pub fn is_result(t: &Type) -> bool {
    last_ident(t).map_or(false, |s| s.ends_with("Result"))
}

pub fn result_inner(t: &Type) -> Option<&Type> {
    if !is_result(t) {
        return None;
    }
    if let Type::Path(p) = t {
        if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
            for x in &a.args {
                if let GenericArgument::Type(t) = x {
                    return Some(t);
                }
            }
        }
    }
    None
}

const KW: &[&str] = &[
    "end", "to", "open", "where", "at", "from", "fun", "in", "do", "then", "else", "instance", "variable", "section", "prefix", "infix", "local", "by", "show",
    "have", "mut", "Type", "Prop", "def", "theorem", "match", "with", "let", "if", "for", "class", "structure", "namespace", "export", "import", "return",
    "meta", "partial", "private", "protected", "public", "example", "axiom", "universe", "notation", "macro", "syntax", "deriving", "forall", "exists", "Sort", "this", "suffices", "abbrev", "using", "calc", "nomatch", "set_option", "mutual", "unsafe", "scoped", "attribute", "module", "final", "initialize", "builtin", "finally", "try", "catch", "unless", "break", "continue", "assert", "dbg_trace", "pure", "throw", "max", "min", "id", "idx", "slice", "rec", "universe", "opaque", "inductive", "Nat", "List", "M", "F", "G", "G1", "G2", "lemma", "infixl", "infixr", "postfix", "nonrec", "noncomputable", "irreducible", "omit", "include", "init", "only", "generalizing", "extends", "macro_rules", "elab", "λ", "unwrap", "resize",
];

pub fn lean_id(s: &str) -> String {
    let s = s.strip_prefix("r#").unwrap_or(s);
    if KW.contains(&s) {
        return format!("{s}_");
    }
    if s.starts_with('_') {
        return format!("u{s}");
    }
    s.to_string()
}

#[derive(Clone)]
pub struct TyCx<'a> {
    pub cx: &'a Ctx,
    pub file: String,
    pub gen: BTreeMap<String, String>, // rust generic -> lean type
    pub consts: Vec<String>,
    pub order: Vec<String>,
    pub pairing: Vec<String>,
    pub self_ty: Option<Type>,
    pub assoc: std::collections::HashMap<String, Type>,
    pub sig: Option<Signature>,
}

fn classify(bounds: &str) -> Option<&'static str> {
    let b: Vec<&str> = bounds.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
    let has = |xs: &[&str]| xs.iter().any(|x| b.contains(x));
    if has(&["Pairing"]) {
        Some("@pairing")
    } else if has(&["CurveGroup", "AffineRepr", "PrimeGroup", "Group"]) {
        Some("G")
    } else if has(&["PrimeField", "FftField", "Field"]) {
        Some("F")
    } else if has(&["Rng", "CryptoRng", "RngCore"]) {
        Some("Rng")
    } else if has(&["Network"]) {
        Some("Net")
    } else {
        None
    }
}

impl<'a> TyCx<'a> {
    pub fn new(cx: &'a Ctx, f: &Func) -> Self {
        let mut t = TyCx {
            cx,
            file: f.file.clone(),
            gen: BTreeMap::new(),
            consts: vec![],
            order: vec![],
            pairing: vec![],
            self_ty: f.self_ty_full.clone(),
            assoc: f.assoc.clone(),
            sig: Some(f.sig.clone()),
        };
        if let Some(g) = &f.impl_gen {
            t.add(g);
        }
        t.add(&f.sig.generics);
        t
    }
    pub fn for_generics(cx: &'a Ctx, file: &str, g: &Generics) -> Self {
        let mut t = TyCx {
            cx,
            file: file.into(),
            gen: BTreeMap::new(),
            consts: vec![],
            order: vec![],
            pairing: vec![],
            self_ty: None,
            assoc: Default::default(),
            sig: None,
        };
        t.add(g);
        t
    }
    fn add(&mut self, g: &Generics) {
        for p in &g.params {
            match p {
                GenericParam::Type(p) => {
                    let mut b = ts(&p.bounds);
                    if let Some(w) = &g.where_clause {
                        for q in &w.predicates {
                            if let WherePredicate::Type(q) = q {
                                if ts(&q.bounded_ty) == p.ident.to_string() {
                                    b += " + ";
                                    b += &ts(&q.bounds);
                                }
                            }
                        }
                    }
                    let n = p.ident.to_string();
                    // configured generics first
                    let mut l = None;
                    if let Some(m) = self.cx.cfg["generics"].as_object() {
                        for (k, v) in m {
                            if b.split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| x == k) {
                                l = Some(v.as_str().unwrap().to_string());
                            }
                        }
                    }
                    let l = l.unwrap_or_else(|| match classify(&b) {
                        Some("@pairing") => {
                            self.pairing.push(n.clone());
                            "@pairing".into()
                        }
                        Some(x) => x.to_string(),
                        None => n.clone(),
                    });
                    self.gen.insert(n.clone(), l);
                    self.order.push(n);
                }
                GenericParam::Const(c) => self.consts.push(c.ident.to_string()),
                _ => {}
            }
        }
    }

    /// binders of a structure
    pub fn binders(&self) -> String {
        let mut s = String::new();
        let mut seen = vec![];
        for g in &self.order {
            let l = &self.gen[g];
            for x in self.expand(l) {
                if x == "Net" || x == "Rng" || seen.contains(&x) {
                    continue;
                }
                s += &format!(" ({x} : Type)");
                seen.push(x);
            }
        }
        s
    }
    fn expand(&self, l: &str) -> Vec<String> {
        if l == "@pairing" {
            vec!["F".into(), "G1".into(), "G2".into()]
        } else if l.starts_with('=') || l.is_empty() {
            vec![]
        } else {
            vec![l.to_string()]
        }
    }

    pub fn ty(&self, t: &Type) -> Res<String> {
        Ok(match t {
            Type::Reference(r) => self.ty(&r.elem)?,
            Type::Paren(r) => self.ty(&r.elem)?,
            Type::Group(r) => self.ty(&r.elem)?,
            Type::Slice(s) => format!("(List {})", self.ty(&s.elem)?),
            Type::Array(s) => format!("(List {})", self.ty(&s.elem)?),
            Type::Tuple(x) if x.elems.is_empty() => "Unit".into(),
            Type::Tuple(x) => {
                let v: Res<Vec<String>> = x.elems.iter().map(|e| self.ty(e)).collect();
                format!("({})", v?.join(" × "))
            }
            Type::ImplTrait(i) => {
                let b = ts(&i.bounds);
                if let Some(k) = classify(&b) {
                    if k != "@pairing" {
                        return Ok(k.into());
                    }
                }
                // impl Iterator<Item = X> / impl IntoIterator
                for b in &i.bounds {
                    if let TypeParamBound::Trait(tb) = b {
                        let seg = tb.path.segments.last().unwrap();
                        if let PathArguments::AngleBracketed(a) = &seg.arguments {
                            for g in &a.args {
                                if let GenericArgument::AssocType(at) = g {
                                    return Ok(format!("(List {})", self.ty(&at.ty)?));
                                }
                            }
                        }
                    }
                }
                return unsup(format!("type {}", b));
            }
            Type::Path(p) => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = p.path.segments.last().unwrap();
                let name = last.ident.to_string();
                let full = segs.join("::");
                if let Some(m) = self.cx.cfg["types"].get(&full).or(self.cx.cfg["types"].get(&name)).and_then(|x| x.as_str()) {
                    if !m.contains('$') {
                        return Ok(m.into());
                    }
                    let args = self.args(last)?;
                    let mut m = m.to_string();
                    for (i, a) in args.iter().enumerate() {
                        m = m.replace(&format!("${i}"), a);
                    }
                    return Ok(m);
                }
                if let Some(q) = &p.qself {
                    // <X as Trait>::Name
                    let x = self.ty(&q.ty)?;
                    return self.assoc_ty(&x, &ts(&q.ty), &name);
                }
                if segs.len() == 1 {
                    if name == "Self" {
                        if let Some(s) = &self.self_ty {
                            return self.ty(s);
                        }
                        return Ok("Self".into());
                    }
                    if let Some(l) = self.gen.get(&name) {
                        return Ok(l.trim_start_matches('=').to_string());
                    }
                    match name.as_str() {
                        "usize" | "u8" | "u16" | "u32" | "u64" | "u128" => return Ok("ℕ".into()),
                        "isize" | "i8" | "i16" | "i32" | "i64" | "i128" => return Ok("ℤ".into()),
                        "bool" => return Ok("Bool".into()),
                        "String" | "str" => return Ok("String".into()),
                        "Vec" | "Box" | "Rc" | "Arc" => {
                            let args = self.args(last)?;
                            let a = &args[0];
                            if name == "Vec" {
                                return Ok(format!("(List {a})"));
                            }
                            return Ok(a.clone());
                        }
                        "Option" => return Ok(format!("(Option {})", self.args(last)?[0])),
                        "BigUint" => return Ok("ℕ".into()),
                        _ => {}
                    }
                    if let Some(al) = self.cx.k.aliases.get(&self.file).and_then(|m| m.get(&name)) {
                        let al = al.clone();
                        let mut sub = self.clone();
                        let args = self.args(last)?;
                        let mut i = 0;
                        for g in &al.generics.params {
                            if let GenericParam::Type(tp) = g {
                                if let Some(a) = args.get(i) {
                                    sub.gen.insert(tp.ident.to_string(), format!("={a}"));
                                } else {
                                    let b = ts(&tp.bounds);
                                    let l = classify(&b).unwrap_or("=_");
                                    sub.gen.insert(tp.ident.to_string(), l.into());
                                }
                                i += 1;
                            }
                        }
                        return sub.ty(&al.ty);
                    }
                    if is_result(t) {
                        return Ok(format!("(M {})", self.args(last)?.first().cloned().unwrap_or("Unit".into())));
                    }
                    if self.cx.k.structs.iter().any(|s| s.1.ident == name) || self.cx.k.enums.iter().any(|s| s.1.ident == name) {
                        return self.struct_ty(last);
                    }
                    // alias anywhere
                    for m in self.cx.k.aliases.values() {
                        if let Some(al) = m.get(&name) {
                            let mut sub = self.clone();
                            let args = self.args(last)?;
                            let mut i = 0;
                            for g in &al.generics.params {
                                if let GenericParam::Type(tp) = g {
                                    if let Some(a) = args.get(i) {
                                        sub.gen.insert(tp.ident.to_string(), format!("={a}"));
                                    }
                                    i += 1;
                                }
                            }
                            return sub.ty(&al.ty);
                        }
                    }
                    return unsup(format!("type {}", ts(t)));
                }
                // X::Name
                if segs[0] == "Self" && segs.len() == 2 {
                    if let Some(a) = self.assoc.get(&name) {
                        return self.ty(a);
                    }
                }
                let q = segs[segs.len() - 2].clone();
                if self.gen.contains_key(&q) {
                    let x = self.gen[&q].clone();
                    return self.assoc_ty(&x, &q, &name);
                }
                if segs.len() >= 3 && self.gen.contains_key(&segs[0]) {
                    return self.assoc_ty(&q, &q, &name);
                }
                // a module path
                let mut p2 = p.clone();
                let s = p2.path.segments.last().unwrap().clone();
                p2.path.segments.clear();
                p2.path.segments.push(s);
                return self.ty(&Type::Path(p2));
            }
            _ => return unsup(format!("type {}", ts(t))),
        })
    }

    fn assoc_ty(&self, lean: &str, q: &str, name: &str) -> Res<String> {
        let lean = lean.trim_start_matches('=');
        if let Some(m) = self.cx.cfg["assoc"].get(format!("{q}::{name}")).or(self.cx.cfg["assoc"].get(name)).and_then(|x| x.as_str()) {
            return Ok(m.into());
        }
        Ok(match (lean, name) {
            (_, "ScalarField") | (_, "BaseField") => "F".into(),
            ("G", "Affine") | ("G", "Group") => "G".into(),
            ("@pairing", "G1") | ("@pairing", "G1Affine") => "G1".into(),
            ("@pairing", "G2") | ("@pairing", "G2Affine") => "G2".into(),
            (_, "G1") => "G1".into(),
            (_, "G2") => "G2".into(),
            _ => return unsup(format!("associated type {q}::{name}")),
        })
    }

    pub fn args(&self, s: &PathSegment) -> Res<Vec<String>> {
        let mut v = vec![];
        if let PathArguments::AngleBracketed(a) = &s.arguments {
            for x in &a.args {
                match x {
                    GenericArgument::Type(t) => {
                        // a const argument can look like a type
                        if let Some(n) = last_ident(t) {
                            if self.consts.contains(&n) {
                                continue;
                            }
                        }
                        if let Type::Infer(_) = t {
                            v.push("_".into());
                            continue;
                        }
                        let r = self.ty(t)?;
                        if r == "@pairing" {
                            v.push("F G1 G2".into());
                        } else {
                            v.push(r);
                        }
                    }
                    _ => {}
                }
            }
        }
        Ok(v)
    }

    fn struct_ty(&self, s: &PathSegment) -> Res<String> {
        let args = self.args(s)?;
        let n = s.ident.to_string();
        let args: Vec<String> = args.into_iter().filter(|a| a != "Net" && a != "Rng" && !a.is_empty()).collect();
        if args.is_empty() {
            // `Foo` written without arguments inside expressions: infer from the declaration
            return Ok(n);
        }
        Ok(format!("({} {})", n, args.join(" ")))
    }

    pub fn ret_ty(&self) -> Res<(String, bool)> {
        match &self.sig.as_ref().unwrap().output {
            ReturnType::Default => Ok(("Unit".into(), false)),
            ReturnType::Type(_, t) => {
                if is_result(t) {
                    let inner = match result_inner(t) {
                        Some(x) => self.ty(x)?,
                        None => "Unit".into(),
                    };
                    Ok((inner, true))
                } else {
                    Ok((self.ty(t)?, false))
                }
            }
        }
    }

    /// Lean type variables that occur in the result but in no parameter.
    pub fn tyvars_in_sig(&self) -> Vec<String> {
        let sig = self.sig.as_ref().unwrap();
        let mut p = String::new();
        for a in &sig.inputs {
            match a {
                FnArg::Receiver(_) => {
                    if let Some(s) = &self.self_ty {
                        p += &self.ty(s).unwrap_or_default();
                        p += " ";
                    }
                }
                FnArg::Typed(t) => {
                    p += &self.ty(&t.ty).unwrap_or_default();
                    p += " ";
                }
            }
        }
        let r = self.ret_ty().map(|x| x.0).unwrap_or_default();
        let toks = |s: &str| -> Vec<String> { s.split(|c: char| !c.is_alphanumeric()).map(|x| x.to_string()).collect() };
        let (pt, rt) = (toks(&p), toks(&r));
        ["F", "G", "G1", "G2"].iter().map(|s| s.to_string()).filter(|v| rt.contains(v) && !pt.contains(v)).collect()
    }
}
