//! `rsx extract CONFIG.json REPO OUTDIR`: mechanical translation of named Rust functions into Lean 4.
//!
//! The translation is syntax directed; see DESIGN.md ("What the extraction keeps and drops").
use crate::ty::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use syn::*;

pub type Res<T> = std::result::Result<T, String>;
pub fn unsup<T>(s: impl Into<String>) -> Res<T> {
    Err(format!("unsupported: {}", s.into()))
}
pub fn ts<T: quote::ToTokens>(t: &T) -> String {
    quote::quote!(#t).to_string()
}

/// A Rust function found in the crate.
#[derive(Clone)]
pub struct Func {
    pub file: String,
    pub modname: String,
    pub self_ty: Option<String>,
    pub impl_gen: Option<Generics>,
    pub self_ty_full: Option<Type>,
    pub trait_: Option<String>,
    pub trait_full: Option<String>,
    pub name: String,
    pub sig: Signature,
    pub block: Block,
    pub line: usize,
    pub assoc: HashMap<String, Type>,
}

#[derive(Default)]
pub struct Krate {
    pub funcs: Vec<Func>,
    pub structs: Vec<(String, ItemStruct)>,
    pub enums: Vec<(String, ItemEnum)>,
    pub consts: HashMap<String, Vec<(String, Type, Expr)>>, // name -> (file, ty, expr)
    pub aliases: HashMap<String, HashMap<String, ItemType>>, // file -> alias
    pub uses: HashMap<String, HashMap<String, String>>,      // file -> name -> full path
    pub macros: HashMap<(String, String), proc_macro2::TokenStream>, // macro_rules! of a file
}

fn cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && ts(a).contains("test"))
}

fn collect_use(t: &UseTree, prefix: &str, out: &mut HashMap<String, String>) {
    match t {
        UseTree::Path(p) => collect_use(&p.tree, &format!("{}{}::", prefix, p.ident), out),
        UseTree::Name(n) => {
            out.insert(n.ident.to_string(), format!("{}{}", prefix, n.ident));
        }
        UseTree::Rename(r) => {
            out.insert(r.rename.to_string(), format!("{}{}", prefix, r.ident));
        }
        UseTree::Group(g) => g.items.iter().for_each(|i| collect_use(i, prefix, out)),
        UseTree::Glob(_) => {}
    }
}

impl Krate {
    pub fn add_file(&mut self, root: &str, rel: &str) -> Res<()> {
        let text = fs::read_to_string(format!("{root}/{rel}")).map_err(|e| format!("{rel}: {e}"))?;
        let f = parse_file(&text).map_err(|e| format!("{rel}: {e}"))?;
        let stem = rel.trim_end_matches("/mod.rs").trim_end_matches(".rs").rsplit('/').next().unwrap().to_string();
        self.items(rel, &stem, &f.items);
        Ok(())
    }
    fn items(&mut self, rel: &str, modname: &str, items: &[Item]) {
        for it in items {
            match it {
                Item::Fn(f) if !cfg_test(&f.attrs) => self.funcs.push(Func {
                    file: rel.into(),
                    modname: modname.into(),
                    self_ty: None,
                    impl_gen: None,
                    self_ty_full: None,
                    trait_: None,
                    trait_full: None,
                    name: f.sig.ident.to_string(),
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    line: f.sig.fn_token.span.start().line,
                    assoc: HashMap::new(),
                }),
                Item::Impl(i) if !cfg_test(&i.attrs) => {
                    let st = last_ident(&i.self_ty).unwrap_or_default();
                    let mut assoc = HashMap::new();
                    for x in &i.items {
                        if let ImplItem::Type(t) = x {
                            assoc.insert(t.ident.to_string(), t.ty.clone());
                        }
                    }
                    for x in &i.items {
                        if let ImplItem::Const(c) = x {
                            self.consts.entry(format!("{}::{}", st, c.ident)).or_default().push((rel.into(), c.ty.clone(), c.expr.clone()));
                        }
                        if let ImplItem::Fn(f) = x {
                            if cfg_test(&f.attrs) {
                                continue;
                            }
                            self.funcs.push(Func {
                                file: rel.into(),
                                modname: modname.into(),
                                self_ty: Some(st.clone()),
                                impl_gen: Some(i.generics.clone()),
                                self_ty_full: Some((*i.self_ty).clone()),
                                trait_: i.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string()),
                                trait_full: i.trait_.as_ref().map(|t| ts(t.1.segments.last().unwrap())),
                                name: f.sig.ident.to_string(),
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                line: f.sig.fn_token.span.start().line,
                                assoc: assoc.clone(),
                            });
                        }
                    }
                }
                Item::Trait(t) => {
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            if let Some(b) = &f.default {
                                self.funcs.push(Func {
                                    file: rel.into(),
                                    modname: modname.into(),
                                    self_ty: Some("Self".into()),
                                    impl_gen: Some(t.generics.clone()),
                                    self_ty_full: None,
                                    trait_: Some(t.ident.to_string()),
                                    trait_full: Some(t.ident.to_string()),
                                    name: f.sig.ident.to_string(),
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                    line: f.sig.fn_token.span.start().line,
                                    assoc: HashMap::new(),
                                });
                            }
                        }
                    }
                }
                Item::Macro(m) if m.ident.is_some() => {
                    self.macros.insert((rel.into(), m.ident.as_ref().unwrap().to_string()), m.mac.tokens.clone());
                }
                Item::Struct(s) => self.structs.push((rel.into(), s.clone())),
                Item::Enum(s) => self.enums.push((rel.into(), s.clone())),
                Item::Const(c) => self.consts.entry(c.ident.to_string()).or_default().push((rel.into(), (*c.ty).clone(), (*c.expr).clone())),
                Item::Type(t) => {
                    self.aliases.entry(rel.into()).or_default().insert(t.ident.to_string(), t.clone());
                }
                Item::Use(u) => collect_use(&u.tree, "", self.uses.entry(rel.into()).or_default()),
                Item::Mod(m) if !cfg_test(&m.attrs) => {
                    if let Some((_, its)) = &m.content {
                        self.items(rel, &m.ident.to_string(), its);
                    }
                }
                _ => {}
            }
        }
    }
}

/// What the configuration asks for (or what a call pulled in).
#[derive(Clone)]
pub struct Entry {
    pub lean: String,
    pub func: usize,
    pub helper: bool,
    pub info: FnInfo,
    pub module: String,
}

/// Calling convention of an extracted function.
#[derive(Clone, Default)]
pub struct FnInfo {
    /// indices of parameters (self included) that are `&mut`
    pub muts: Vec<usize>,
    /// returns a Result (or Option: false)
    pub is_result: bool,
    pub unit: bool,
    pub has_self: bool,
    pub nparams: usize,
    /// explicit generic arguments to hand over by name, e.g. F, G
    pub tyvars: Vec<String>,
    pub dropped: Vec<usize>,
}

pub struct Ctx {
    pub k: Krate,
    pub entries: BTreeMap<String, Entry>, // by lean name
    pub by_func: HashMap<usize, String>,
    pub cfg: Value,
    pub done: BTreeMap<String, String>, // lean name -> text
    pub order: Vec<String>,
    pub errors: Vec<(String, String)>,
    pub in_progress: BTreeSet<String>,
    pub drops: BTreeSet<String>,
    pub calls: BTreeMap<String, BTreeSet<String>>,
    pub structs_done: BTreeMap<String, String>,
    pub pure_fns: BTreeSet<String>,
}

pub fn main(a: &[String]) {
    let cfg: Value = serde_json::from_str(&fs::read_to_string(&a[0]).expect("config")).expect("config json");
    let root = &a[1];
    let out = &a[2];
    let mut k = Krate::default();
    let mut errors = vec![];
    for f in cfg["files"].as_array().unwrap() {
        if let Err(e) = k.add_file(root, f.as_str().unwrap()) {
            errors.push((f.as_str().unwrap().to_string(), e));
        }
    }
    // default methods of a trait whose implementor is modelled by one type
    for f in k.funcs.iter_mut() {
        if f.self_ty.as_deref() == Some("Self") && f.self_ty_full.is_none() {
            if let Some(t) = f.trait_.as_ref().and_then(|t| cfg["trait_self"][t].as_str()) {
                f.self_ty_full = parse_str::<Type>(t).ok();
            }
        }
    }
    let mut cx = Ctx {
        k,
        entries: BTreeMap::new(),
        by_func: HashMap::new(),
        cfg: cfg.clone(),
        done: BTreeMap::new(),
        order: vec![],
        errors,
        in_progress: BTreeSet::new(),
        drops: BTreeSet::new(),
        calls: BTreeMap::new(),
        structs_done: BTreeMap::new(),
        pure_fns: BTreeSet::new(),
    };
    cx.run(out);
}

impl Ctx {
    pub fn find(&self, it: &Value) -> Res<usize> {
        let name = it["fn"].as_str().unwrap();
        let file = it["file"].as_str();
        let st = it["impl"].as_str();
        let tr = it["trait"].as_str();
        let ok = |f: &Func, strict_file: bool| {
            f.name == name
                && (!strict_file || file.map_or(true, |x| f.file == x))
                && (st.map_or(it["anyimpl"].as_bool().unwrap_or(false) || f.self_ty.is_none(), |x| f.self_ty.as_deref() == Some(x)))
                && tr.map_or(true, |x| f.trait_full.as_deref().map(|s| s.replace(' ', "")) == Some(x.replace(' ', "")) || f.trait_.as_deref() == Some(x))
                && it["selfref"].as_bool().map_or(true, |r| matches!(f.self_ty_full, Some(Type::Reference(_))) == r)
                && it["modname"].as_str().map_or(true, |m| f.modname == m)
        };
        for strict in [true, false] {
            let c: Vec<usize> = (0..self.k.funcs.len()).filter(|&i| ok(&self.k.funcs[i], strict)).collect();
            match c.len() {
                1 => return Ok(c[0]),
                0 => continue,
                _ if tr.is_some() => {
                    // several impls of the trait: the one without arguments, if that is what was asked for
                    let x = tr.unwrap().replace(' ', "");
                    let e: Vec<usize> = c.iter().cloned().filter(|&i| self.k.funcs[i].trait_full.as_deref().map(|s| s.replace(' ', "")) == Some(x.clone())).collect();
                    if e.len() == 1 {
                        return Ok(e[0]);
                    }
                    return Err(format!("lost anchor: {name} is ambiguous ({})", c.len()));
                }
                _ => return Err(format!("lost anchor: {name} is ambiguous ({})", c.len())),
            }
        }
        Err(format!("lost anchor: no function {name}"))
    }

    fn run(&mut self, out: &str) {
        let cfg = self.cfg.clone();
        for it in cfg["items"].as_array().unwrap() {
            let lean = it["lean"].as_str().unwrap().to_string();
            match self.find(it) {
                Ok(i) => {
                    let info = self.fn_info(i);
                    self.by_func.insert(i, lean.clone());
                    self.entries.insert(
                        lean.clone(),
                        Entry { lean, func: i, helper: false, info, module: it["module"].as_str().unwrap_or("Main").into() },
                    );
                }
                Err(e) => self.errors.push((lean, e)),
            }
        }
        for s in cfg["structs"].as_array().unwrap_or(&vec![]) {
            let n = s.as_str().unwrap();
            match self.emit_struct(n) {
                Ok(t) => {
                    self.structs_done.insert(n.into(), t);
                }
                Err(e) => self.errors.push((n.into(), e)),
            }
        }
        let names: Vec<String> = cfg["items"].as_array().unwrap().iter().map(|x| x["lean"].as_str().unwrap().to_string()).collect();
        for n in names {
            if self.entries.contains_key(&n) {
                self.emit(&n);
            }
        }
        // ---- output, one Lean file per module
        let mut mods: Vec<String> = vec![];
        for m in cfg["modules"].as_array().unwrap() {
            mods.push(m["name"].as_str().unwrap().into());
        }
        for m in cfg["modules"].as_array().unwrap() {
            let name = m["name"].as_str().unwrap();
            let mut t = String::new();
            for i in m["imports"].as_array().unwrap() {
                t += &format!("import {}\n", i.as_str().unwrap());
            }
            t += "set_option linter.all false\nset_option autoImplicit false\nopen Rs\n";
            t += "noncomputable section\n";
            t += &format!("namespace {}\n", m["ns"].as_str().unwrap_or("Rs"));
            t += m["variables"].as_str().unwrap_or("");
            t += "\n\n";
            for s in m["structs"].as_array().unwrap_or(&vec![]) {
                if let Some(x) = self.structs_done.get(s.as_str().unwrap()) {
                    t += x;
                    t += "\n";
                }
            }
            if let Some(p) = m["preamble"].as_str() {
                t += p;
                t += "\n";
            }
            for n in &self.order {
                if self.entries[n].module == name {
                    t += &self.done[n];
                    t += "\n";
                }
            }
            t += &format!("end {}\n", m["ns"].as_str().unwrap_or("Rs"));
            let p = format!("{out}/{}.lean", name);
            fs::write(p, t).unwrap();
        }
        let fns: Vec<Value> = self
            .order
            .iter()
            .map(|n| {
                let e = &self.entries[n];
                let f = &self.k.funcs[e.func];
                json!({"lean": n, "file": f.file, "line": f.line, "fn": f.name, "impl": f.self_ty, "trait": f.trait_full, "helper": e.helper, "module": e.module,
                       "calls": self.calls.get(n).cloned().unwrap_or_default()})
            })
            .collect();
        let errs: Vec<Value> = self.errors.iter().map(|(a, b)| json!({"item": a, "error": b})).collect();
        let rep = json!({"functions": fns, "errors": errs, "drops": self.drops});
        fs::write(format!("{out}/extract.json"), serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        for (a, b) in &self.errors {
            eprintln!("extract: {a}: {b}");
        }
    }

    pub fn emit(&mut self, n: &str) {
        if self.done.contains_key(n) || self.in_progress.contains(n) || self.errors.iter().any(|e| e.0 == n) {
            return;
        }
        self.in_progress.insert(n.into());
        let e = self.entries[n].clone();
        match crate::body::translate(self, &e) {
            Ok(t) => {
                self.done.insert(n.into(), t);
                self.order.push(n.into());
            }
            Err(x) => {
                let f = &self.k.funcs[e.func];
                self.errors.push((n.into(), format!("{} ({}:{})", x, f.file, f.line)));
            }
        }
        self.in_progress.remove(n);
    }

    /// Registers a function that a call mentions and that the configuration does not list.
    pub fn auto(&mut self, i: usize, caller: &Entry) -> String {
        if let Some(n) = self.by_func.get(&i) {
            return n.clone();
        }
        let f = &self.k.funcs[i];
        let lean = format!("{}.{}", f.modname, if let Some(s) = &f.self_ty { format!("{}_{}", s, f.name) } else { f.name.clone() });
        let mut lean = lean;
        while self.entries.contains_key(&lean) {
            lean.push('\'');
        }
        let info = self.fn_info(i);
        self.by_func.insert(i, lean.clone());
        self.entries.insert(lean.clone(), Entry { lean: lean.clone(), func: i, helper: true, info, module: caller.module.clone() });
        lean
    }

    pub fn fn_info(&self, i: usize) -> FnInfo {
        let f = &self.k.funcs[i];
        let mut info = FnInfo::default();
        let tcx = TyCx::new(self, f);
        for (j, a) in f.sig.inputs.iter().enumerate() {
            match a {
                FnArg::Receiver(r) => {
                    info.has_self = true;
                    if r.reference.is_some() && r.mutability.is_some() {
                        info.muts.push(j);
                    }
                }
                FnArg::Typed(t) => {
                    if let Type::Reference(r) = &*t.ty {
                        if r.mutability.is_some() {
                            info.muts.push(j);
                        }
                    }
                    // generic `&mut R`
                }
            }
        }
        if self.cfg["thread_net"].as_bool().unwrap_or(false) {
            for (j, a) in f.sig.inputs.iter().enumerate() {
                let t = match a {
                    FnArg::Receiver(_) => f.self_ty_full.as_ref().and_then(|t| tcx.ty(t).ok()),
                    FnArg::Typed(t) => tcx.ty(&t.ty).ok(),
                };
                if t.as_deref() == Some("Net") && !info.muts.contains(&j) {
                    info.muts.push(j);
                }
            }
            info.muts.sort();
        }
        if self.cfg["no_writeback"].as_array().map_or(false, |a| a.iter().any(|x| x == f.name.as_str())) {
            info.muts.clear();
        }
        info.nparams = f.sig.inputs.len();
        match &f.sig.output {
            ReturnType::Default => info.unit = true,
            ReturnType::Type(_, t) => {
                info.is_result = is_result(t);
                if let Some(inner) = result_inner(t) {
                    info.unit = ts(inner) == "()";
                } else {
                    info.unit = ts(t) == "()";
                }
            }
        }
        info.tyvars = tcx.tyvars_in_sig();
        info
    }

    fn emit_struct(&mut self, n: &str) -> Res<String> {
        let c: Vec<(String, ItemStruct)> = self.k.structs.iter().filter(|s| s.1.ident == n).cloned().collect();
        if c.is_empty() {
            let c: Vec<(String, ItemEnum)> = self.k.enums.iter().filter(|s| s.1.ident == n).cloned().collect();
            if c.len() != 1 {
                return Err(format!("lost anchor: struct {n}"));
            }
            let (file, s) = &c[0];
            let tcx = TyCx::for_generics(self, file, &s.generics);
            let mut t = format!("inductive {}{} where\n", n, tcx.binders());
            for v in &s.variants {
                t += &format!("  | {}", v.ident);
                for f in &v.fields {
                    t += &format!(" (_ : {})", tcx.ty(&f.ty)?);
                }
                t += "\n";
            }
            t += "  deriving DecidableEq\n";
            return Ok(t);
        }
        if c.len() != 1 {
            return Err(format!("lost anchor: struct {n} is ambiguous"));
        }
        let (file, s) = &c[0];
        let tcx = TyCx::for_generics(self, file, &s.generics);
        let params = self.cfg["struct_params"][n].as_str().map(|x| format!(" ({x} : Type)")).unwrap_or(tcx.binders());
        let mut t = format!("structure {n}{params} where\n");
        let skip: Vec<String> = self.cfg["skip_fields"][n].as_array().unwrap_or(&vec![]).iter().map(|x| x.as_str().unwrap().to_string()).collect();
        for (j, f) in s.fields.iter().enumerate() {
            let name = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(format!("f{j}"));
            if skip.contains(&name) || last_ident(&f.ty).as_deref() == Some("PhantomData") {
                continue;
            }
            t += &format!("  {} : {}\n", lean_id(&name), tcx.ty(&f.ty)?);
        }
        if !self.cfg["noext"].as_array().unwrap_or(&vec![]).iter().any(|x| x == n) {
            t = format!("@[ext] {t}");
        }
        t += "  deriving DecidableEq, Inhabited\n";
        if self.cfg["noderive"].as_array().unwrap_or(&vec![]).iter().any(|x| x == n) {
            t = t.replace("  deriving DecidableEq, Inhabited\n", "");
        }
        Ok(t)
    }
}
