//! Function bodies to Lean terms, through a small imperative intermediate form.
use crate::extract::*;
use crate::ty::*;
use std::collections::{BTreeSet, HashMap};
use syn::*;

#[derive(Clone, Debug)]
pub enum L {
    Let(String, Option<String>, String),
    Bind(String, Option<String>, String),
    Set(String, String),
    If(String, Vec<L>, Vec<L>),
    Match(String, Vec<(String, Vec<L>)>),
    For(String, String, Vec<L>),
    While(Vec<L>, String, Vec<L>),
    Ret(String),
    Throw(&'static str),
    Break,
    Continue,
}

#[derive(Clone, Debug)]
pub enum T {
    None,
    Val(String),
    If(String, Box<Blk>, Box<Blk>),
    Match(String, Vec<(String, Blk)>),
}
#[derive(Clone, Debug)]
pub struct Blk {
    pub ls: Vec<L>,
    pub tail: T,
}

#[derive(Clone)]
enum Var {
    Lean(String),
    Alias(Expr, usize), // a mutable borrow of another place, scope depth
}

pub struct B<'a> {
    cx: &'a mut Ctx,
    e: Entry,
    f: Func,
    fresh: usize,
    scopes: Vec<HashMap<String, Var>>,
    inline: usize,
    used: BTreeSet<String>,
    ret_mut: Vec<String>,
    is_result: bool,
    unit: bool,
}

const PANIC: &str = "Err.panic";
const ERR: &str = "Err.err";

/// variables assigned in `ls` that are not declared there
fn assigned(ls: &[L], out: &mut Vec<String>) {
    let mut local: BTreeSet<String> = BTreeSet::new();
    fn names(p: &str) -> Vec<String> {
        p.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '\'')).filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
    }
    fn go(ls: &[L], local: &mut BTreeSet<String>, out: &mut Vec<String>) {
        for l in ls {
            match l {
                L::Let(p, _, _) | L::Bind(p, _, _) => local.extend(names(p)),
                L::Set(v, _) => {
                    if !local.contains(v) && !out.contains(v) {
                        out.push(v.clone());
                    }
                }
                L::If(_, a, b) => {
                    go(a, &mut local.clone(), out);
                    go(b, &mut local.clone(), out);
                }
                L::Match(_, arms) => {
                    for (p, a) in arms {
                        let mut l2 = local.clone();
                        l2.extend(names(p));
                        go(a, &mut l2, out);
                    }
                }
                L::For(p, _, b) => {
                    let mut l2 = local.clone();
                    l2.extend(names(p));
                    go(b, &mut l2, out);
                }
                L::While(a, _, b) => {
                    let mut l2 = local.clone();
                    go(a, &mut l2, out);
                    go(b, &mut l2, out);
                }
                _ => {}
            }
        }
    }
    go(ls, &mut local, out);
}

fn has_ret(ls: &[L]) -> bool {
    ls.iter().any(|l| match l {
        L::Ret(_) | L::Break | L::Continue => true,
        L::If(_, a, b) => has_ret(a) || has_ret(b),
        L::Match(_, arms) => arms.iter().any(|a| has_ret(&a.1)),
        L::For(_, _, b) | L::While(_, _, b) => has_ret(b),
        _ => false,
    })
}
fn loop_ctl(ls: &[L]) -> bool {
    ls.iter().any(|l| match l {
        L::If(_, a, b) => loop_ctl(a) || loop_ctl(b),
        L::Match(_, arms) => arms.iter().any(|a| loop_ctl(&a.1)),
        L::For(_, _, b) | L::While(_, _, b) => has_ret(b) || loop_ctl(b),
        _ => false,
    })
}
/// a `break` of this loop
fn breaks(ls: &[L]) -> bool {
    ls.iter().any(|l| match l {
        L::Break => true,
        L::If(_, a, b) => breaks(a) || breaks(b),
        L::Match(_, arms) => arms.iter().any(|a| breaks(&a.1)),
        _ => false,
    })
}
fn diverges(ls: &[L]) -> bool {
    match ls.last() {
        Some(L::Ret(_)) | Some(L::Throw(_)) => true,
        Some(L::While(_, c, b)) => c == "true" && !breaks(b),
        Some(L::If(_, a, b)) => diverges(a) && diverges(b),
        Some(L::Match(_, arms)) => !arms.is_empty() && arms.iter().all(|a| diverges(&a.1)),
        _ => false,
    }
}
fn monadic(ls: &[L]) -> bool {
    ls.iter().any(|l| match l {
        L::Let(..) | L::Set(..) => false,
        L::Bind(..) | L::Ret(_) | L::Throw(_) | L::Break | L::Continue | L::While(..) => true,
        L::If(_, a, b) => monadic(a) || monadic(b),
        L::Match(_, arms) => arms.iter().any(|a| monadic(&a.1)),
        L::For(_, _, b) => monadic(b),
    })
}
fn blk_monadic(b: &Blk) -> bool {
    monadic(&b.ls)
        || match &b.tail {
            T::If(_, a, b) => blk_monadic(a) || blk_monadic(b),
            T::Match(_, arms) => arms.iter().any(|a| blk_monadic(&a.1)),
            _ => false,
        }
}
fn tuple(v: &[String]) -> String {
    match v.len() {
        0 => "()".into(),
        1 => v[0].clone(),
        _ => format!("({})", v.join(", ")),
    }
}
/// the pattern of a fold state
fn vpat(v: &[String]) -> String {
    match v.len() {
        0 => "(_ : Unit)".into(),
        1 => v[0].clone(),
        _ => format!("({})", v.join(", ")),
    }
}

fn ind(n: usize) -> String {
    "  ".repeat(n)
}

/// Functional emission. `fin` produces the end of the sequence; `m`: in the monad.
fn seq(ls: &[L], d: usize, m: bool, fin: &dyn Fn(usize) -> String) -> String {
    let Some((l, rest)) = ls.split_first() else { return fin(d) };
    let i = ind(d);
    let ty = |t: &Option<String>| t.as_ref().map(|t| format!(" : {t}")).unwrap_or_default();
    match l {
        L::Let(p, t, e) => format!("{i}let {p}{} := {e}\n{}", ty(t), seq(rest, d, m, fin)),
        L::Bind(p, t, e) => {
            if p == "_" {
                format!("{i}let _ ← {e}\n{}", seq(rest, d, m, fin))
            } else {
                format!("{i}let {p}{} ← {e}\n{}", ty(t), seq(rest, d, m, fin))
            }
        }
        L::Set(v, e) => format!("{i}let {v} := {e}\n{}", seq(rest, d, m, fin)),
        L::Ret(v) => format!("{i}pure {v}\n"),
        L::Throw(e) => format!("{i}throw {e}\n"),
        L::If(c, a, b) => {
            let (ra, rb) = (has_ret(a) || diverges(a), has_ret(b) || diverges(b));
            if ra || rb {
                let fa = |a: &Vec<L>| {
                    if diverges(a) {
                        seq(a, d + 1, m, &|_| String::new())
                    } else {
                        let mut x = a.clone();
                        x.extend(rest.iter().cloned());
                        seq(&x, d + 1, m, fin)
                    }
                };
                return format!("{i}if {c} then do\n{}{i}else do\n{}", fa(a), fa(b));
            }
            let mut v = vec![];
            assigned(a, &mut v);
            assigned(b, &mut v);
            let mut u = vec![];
            for x in v {
                if !u.contains(&x) {
                    u.push(x);
                }
            }
            let v = u;
            let mm = monadic(a) || monadic(b);
            if v.is_empty() && !mm {
                return seq(rest, d, m, fin);
            }
            let end = |dd: usize| if mm { format!("{}pure {}\n", ind(dd), tuple(&v)) } else { format!("{}{}\n", ind(dd), tuple(&v)) };
            let (arrow, doo) = if mm { ("←", " do") } else { (":=", "") };
            format!(
                "{i}let {} {arrow} (if {c} then{doo}\n{}{i}else{doo}\n{}{i})\n{}",
                vpat(&v),
                seq(a, d + 1, mm, &end),
                seq(b, d + 1, mm, &end),
                seq(rest, d, m, fin)
            )
        }
        L::Match(s, arms) => {
            if arms.iter().any(|a| has_ret(&a.1)) {
                let mut t = format!("{i}match {s} with\n");
                for (p, a) in arms {
                    let x = if diverges(a) {
                        seq(a, d + 1, m, &|_| String::new())
                    } else {
                        let mut x = a.clone();
                        x.extend(rest.iter().cloned());
                        seq(&x, d + 1, m, fin)
                    };
                    t += &format!("{i}| {p} => {}\n{x}", if m { "do" } else { "" });
                }
                return t;
            }
            let mut v: Vec<String> = vec![];
            for (p, a) in arms {
                let mut w = vec![];
                assigned(a, &mut w);
                for x in w {
                    if !v.contains(&x) && !p.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|y| y == x) {
                        v.push(x);
                    }
                }
            }
            let mm = arms.iter().any(|a| monadic(&a.1));
            if v.is_empty() && !mm {
                return seq(rest, d, m, fin);
            }
            let end = |dd: usize| if mm { format!("{}pure {}\n", ind(dd), tuple(&v)) } else { format!("{}{}\n", ind(dd), tuple(&v)) };
            let (arrow, doo) = if mm { ("←", " do") } else { (":=", "") };
            let mut t = format!("{i}let {} {arrow} (match {s} with\n", vpat(&v));
            for (p, a) in arms {
                t += &format!("{i}  | {p} =>{doo}\n{}", seq(a, d + 2, mm, &end));
            }
            t += &format!("{i}  )\n");
            t + &seq(rest, d, m, fin)
        }
        L::For(p, it, b) => {
            let mut v = vec![];
            assigned(b, &mut v);
            v.retain(|x| !p.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '\'')).any(|y| y == x));
            let mm = monadic(b);
            if v.is_empty() && !mm {
                return seq(rest, d, m, fin);
            }
            let end = |dd: usize| if mm { format!("{}pure {}\n", ind(dd), tuple(&v)) } else { format!("{}{}\n", ind(dd), tuple(&v)) };
            if mm {
                format!(
                    "{i}let {} ← foldlM% (fun {} {p} => do\n{}{i}  ) {} {it}\n{}",
                    vpat(&v),
                    vpat(&v),
                    seq(b, d + 2, true, &end),
                    tuple(&v),
                    seq(rest, d, m, fin)
                )
            } else {
                format!(
                    "{i}let {} := foldl% (fun {} {p} =>\n{}{i}  ) {} {it}\n{}",
                    vpat(&v),
                    vpat(&v),
                    seq(b, d + 2, false, &end),
                    tuple(&v),
                    seq(rest, d, m, fin)
                )
            }
        }
        L::While(pre, c, b) => {
            let mut v = vec![];
            assigned(b, &mut v);
            let end = |dd: usize| format!("{}pure {}\n", ind(dd), tuple(&v));
            format!(
                "{i}let {} ← whileM (fun {} => do\n{}{}pure {c}) (fun {} => do\n{}{i}  ) {}\n{}",
                vpat(&v),
                vpat(&v),
                seq(pre, d + 2, true, &|_| String::new()),
                ind(d + 2),
                vpat(&v),
                seq(b, d + 2, true, &end),
                tuple(&v),
                seq(rest, d, m, fin)
            )
        }
        L::Break | L::Continue => format!("{i}LOOPCTL\n"),
    }
}

/// like `blk`, with the values of outer variables in front of the result
fn blk_with(b: &Blk, d: usize, m: bool, vars: &[String]) -> String {
    let t = b.tail.clone();
    let vs = vars.to_vec();
    let p = if m { "pure " } else { "" };
    seq(&b.ls, d, m, &move |d| {
        let i = ind(d);
        let doo = if m { " do" } else { "" };
        match &t {
            T::None => format!("{i}{p}({}, ())\n", vs.join(", ")),
            T::Val(v) => format!("{i}{p}({}, {v})\n", vs.join(", ")),
            T::If(c, a, b) => format!("{i}if {c} then{doo}\n{}{i}else{doo}\n{}", blk_with(a, d + 1, m, &vs), blk_with(b, d + 1, m, &vs)),
            T::Match(s, arms) => {
                let mut x = format!("{i}match {s} with\n");
                for (p, a) in arms {
                    x += &format!("{i}| {p} =>{doo}\n{}", blk_with(a, d + 1, m, &vs));
                }
                x
            }
        }
    })
}

fn blk(b: &Blk, d: usize, m: bool) -> String {
    let t = b.tail.clone();
    seq(&b.ls, d, m, &move |d| {
        let i = ind(d);
        match &t {
            T::None => {
                if m {
                    format!("{i}pure ()\n")
                } else {
                    format!("{i}()\n")
                }
            }
            T::Val(v) => {
                if m {
                    format!("{i}pure {v}\n")
                } else {
                    format!("{i}{v}\n")
                }
            }
            T::If(c, a, b) => {
                let doo = if m { " do" } else { "" };
                format!("{i}if {c} then{doo}\n{}{i}else{doo}\n{}", blk(a, d + 1, m), blk(b, d + 1, m))
            }
            T::Match(s, arms) => {
                let doo = if m { " do" } else { "" };
                let mut x = format!("{i}match {s} with\n");
                for (p, a) in arms {
                    x += &format!("{i}| {p} =>{doo}\n{}", blk(a, d + 1, m));
                }
                x
            }
        }
    })
}

// ---- imperative emission, for functions whose loops leave early
fn imp(ls: &[L], d: usize, muts: &BTreeSet<String>) -> String {
    let mut t = String::new();
    let i = ind(d);
    for l in ls {
        match l {
            L::Let(p, ty, e) | L::Bind(p, ty, e) => {
                let mu = p.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| muts.contains(x));
                let a = if matches!(l, L::Let(..)) { ":=" } else { "←" };
                t += &format!("{i}let {}{p}{} {a} {e}\n", if mu { "mut " } else { "" }, ty.as_ref().map(|t| format!(" : {t}")).unwrap_or_default());
            }
            L::Set(v, e) => t += &format!("{i}{v} := {e}\n"),
            L::Ret(v) => t += &format!("{i}return {v}\n"),
            L::Throw(e) => t += &format!("{i}throw {e}\n"),
            L::Break => t += &format!("{i}break\n"),
            L::Continue => t += &format!("{i}continue\n"),
            L::If(c, a, b) => {
                t += &format!("{i}if {c} then\n{}", imp_ne(a, d + 1, muts));
                if !b.is_empty() {
                    t += &format!("{i}else\n{}", imp_ne(b, d + 1, muts));
                }
            }
            L::Match(s, arms) => {
                t += &format!("{i}match {s} with\n");
                for (p, a) in arms {
                    t += &format!("{i}| {p} =>\n{}", imp_ne(a, d + 1, muts));
                }
            }
            L::For(p, it, b) => t += &format!("{i}for {p} in {it} do\n{}", imp_ne(b, d + 1, muts)),
            L::While(pre, c, b) => {
                t += &format!("{i}for _ in Forever.mk do\n{}", imp(pre, d + 1, muts));
                if c != "true" {
                    t += &format!("{}if !{c} then\n{}break\n", ind(d + 1), ind(d + 2));
                }
                t += &imp_ne(b, d + 1, muts);
            }
        }
    }
    t
}
fn imp_ne(ls: &[L], d: usize, muts: &BTreeSet<String>) -> String {
    if ls.is_empty() {
        format!("{}pure ()\n", ind(d))
    } else {
        imp(ls, d, muts)
    }
}
fn imp_blk(b: &Blk, d: usize, muts: &BTreeSet<String>) -> String {
    let mut t = imp(&b.ls, d, muts);
    let i = ind(d);
    match &b.tail {
        T::None if matches!(b.ls.last(), Some(L::While(..))) && diverges(&b.ls) => t += &format!("{i}throw {PANIC}\n"),
        T::None => t += &format!("{i}return ()\n"),
        T::Val(v) => t += &format!("{i}return {v}\n"),
        T::If(c, a, b) => t += &format!("{i}if {c} then\n{}{i}else\n{}", imp_blk(a, d + 1, muts), imp_blk(b, d + 1, muts)),
        T::Match(s, arms) => {
            t += &format!("{i}match {s} with\n");
            for (p, a) in arms {
                t += &format!("{i}| {p} =>\n{}", imp_blk(a, d + 1, muts));
            }
        }
    }
    t
}
fn all_sets(ls: &[L], out: &mut BTreeSet<String>) {
    for l in ls {
        match l {
            L::Set(v, _) => {
                out.insert(v.clone());
            }
            L::If(_, a, b) => {
                all_sets(a, out);
                all_sets(b, out);
            }
            L::Match(_, arms) => arms.iter().for_each(|a| all_sets(&a.1, out)),
            L::For(_, _, b) | L::While(_, _, b) => all_sets(b, out),
            _ => {}
        }
    }
}

fn is_recursive(cx: &Ctx, lean: &str) -> bool {
    cx.cfg["recursive"].as_array().map_or(false, |v| v.iter().any(|x| x == lean))
}

pub fn translate(cx: &mut Ctx, e: &Entry) -> Res<String> {
    let f = cx.k.funcs[e.func].clone();
    let mut b = B {
        cx,
        e: e.clone(),
        f: f.clone(),
        fresh: 0,
        scopes: vec![HashMap::new()],
        inline: 0,
        used: BTreeSet::new(),
        ret_mut: vec![],
        is_result: e.info.is_result,
        unit: e.info.unit,
    };
    // parameters
    let mut params = String::new();
    let mut ptys: Vec<String> = vec![];
    let mut pre: Vec<L> = vec![];
    {
        let tcx = TyCx::new(b.cx, &f);
        for c in &tcx.consts {
            params += &format!(" ({c} : ℕ)");
        }
    }
    for c in TyCx::new(b.cx, &f).consts {
        b.bind(&c, &c);
    }
    for (j, a) in f.sig.inputs.iter().enumerate() {
        let (name, ty, mutable_pat): (String, String, Option<Pat>) = match a {
            FnArg::Receiver(_) => {
                let t = {
                    let tcx = TyCx::new(b.cx, &f);
                    match &f.self_ty_full {
                        Some(t) => tcx.ty(t)?,
                        None => return unsup("self in trait"),
                    }
                };
                b.bind("self", "self");
                ("self".into(), t, None)
            }
            FnArg::Typed(t) => {
                let lt = TyCx::new(b.cx, &f).ty(&t.ty)?;
                match &*t.pat {
                    Pat::Ident(p) => {
                        let l = lean_id(&p.ident.to_string());
                        b.bind(&p.ident.to_string(), &l);
                        (l, lt, None)
                    }
                    Pat::Wild(_) => (format!("w{j}"), lt, None),
                    p => (format!("arg{j}"), lt, Some(p.clone())),
                }
            }
        };
        if e.info.muts.contains(&j) {
            b.ret_mut.push(name.clone());
        }
        if let Some(p) = mutable_pat {
            let s = b.pat(&p)?;
            pre.push(L::Let(s, None, name.clone()));
        }
        if ty == "Net" && b.cx.cfg["drop_net"].as_bool().unwrap_or(false) {
            continue;
        }
        params += &format!(" ({name} : {ty})");
        ptys.push(ty);
    }
    let (rt, _) = TyCx::new(b.cx, &f).ret_ty()?;
    let mut body = b.fn_body(&f.block)?;
    pre.append(&mut body.ls);
    body.ls = pre;
    let mut outs: Vec<String> = vec![];
    if !b.unit {
        outs.push(rt.clone());
    }
    for (j, a) in f.sig.inputs.iter().enumerate() {
        if e.info.muts.contains(&j) {
            outs.push(match a {
                FnArg::Receiver(_) => TyCx::new(b.cx, &f).ty(f.self_ty_full.as_ref().unwrap())?,
                FnArg::Typed(t) => TyCx::new(b.cx, &f).ty(&t.ty)?,
            });
        }
    }
    let rty = match outs.len() {
        0 => "Unit".to_string(),
        1 => outs[0].clone(),
        _ => format!("({})", outs.join(" × ")),
    };
    let is_pure = !blk_monadic(&body) && !e.info.is_result;
    if is_recursive(b.cx, &e.lean) {
        // open recursion: the function is given what its recursive calls do
        params = format!(" (rec__ : {} → M {rty}){params}", ptys.join(" → "));
    }
    {
        // type variables that a caller cannot infer from the arguments: hand them over by name
        let toks = |s: &str| -> Vec<String> { s.split(|c: char| !c.is_alphanumeric()).map(|x| x.to_string()).collect() };
        let all = toks(&format!("{rty} {}", blk(&body, 1, !is_pure)));
        let given = toks(&params);
        let tv: Vec<String> = ["F", "G", "G1", "G2"].iter().map(|s| s.to_string()).filter(|v| all.contains(v) && !given.contains(v)).collect();
        b.cx.entries.get_mut(&e.lean).unwrap().info.tyvars = tv;
    }
    let head = format!("/-- {}:{} `{}` -/\n{}", f.file, f.line, f.name, if e.helper { "@[rs_helper]\n" } else { "" });
    let name = &e.lean;
    if is_pure {
        b.cx.pure_fns.insert(e.lean.clone());
        return Ok(format!("{head}def {name}{params} : {rty} :=\n{}", blk(&body, 1, false)));
    }
    let ctl = loop_ctl(&body.ls) || tail_ctl(&body.tail);
    if ctl {
        let mut muts = BTreeSet::new();
        all_sets(&body.ls, &mut muts);
        tail_sets(&body.tail, &mut muts);
        let mut pm = String::new();
        for r in f.sig.inputs.iter() {
            let n = match r {
                FnArg::Receiver(_) => "self".to_string(),
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(p) => lean_id(&p.ident.to_string()),
                    _ => continue,
                },
            };
            if muts.contains(&n) {
                pm += &format!("  let mut {n} := {n}\n");
            }
        }
        return Ok(format!("{head}def {name}{params} : M {rty} := do\n{pm}{}", imp_blk(&body, 1, &muts)));
    }
    Ok(format!("{head}def {name}{params} : M {rty} := do\n{}", blk(&body, 1, true)))
}
fn tail_ctl(t: &T) -> bool {
    match t {
        T::If(_, a, b) => loop_ctl(&a.ls) || loop_ctl(&b.ls) || tail_ctl(&a.tail) || tail_ctl(&b.tail),
        T::Match(_, arms) => arms.iter().any(|a| loop_ctl(&a.1.ls) || tail_ctl(&a.1.tail)),
        _ => false,
    }
}
fn tail_sets(t: &T, o: &mut BTreeSet<String>) {
    match t {
        T::If(_, a, b) => {
            all_sets(&a.ls, o);
            all_sets(&b.ls, o);
            tail_sets(&a.tail, o);
            tail_sets(&b.tail, o);
        }
        T::Match(_, arms) => arms.iter().for_each(|a| {
            all_sets(&a.1.ls, o);
            tail_sets(&a.1.tail, o)
        }),
        _ => {}
    }
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        Expr::Reference(p) => strip(&p.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => strip(&u.expr),
        _ => e,
    }
}
fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

/// (lvalue, list of adaptors) for an iterator that hands out `&mut`
struct MutSrc {
    lv: Expr,
    ops: Vec<(String, String)>, // name, lean argument
}
enum It {
    Mut(MutSrc),
    Val(String),
    Zip(Box<It>, Box<It>),
    Enum(Box<It>),
}

impl<'a> B<'a> {
    fn tmp(&mut self) -> String {
        self.fresh += 1;
        format!("t__{}", self.fresh)
    }
    fn bind(&mut self, rust: &str, lean: &str) {
        self.scopes.last_mut().unwrap().insert(rust.into(), Var::Lean(lean.into()));
    }
    fn var(&self, n: &str) -> Option<Var> {
        self.scopes.iter().rev().find_map(|s| s.get(n).cloned())
    }
    fn ty(&self, t: &Type) -> Res<String> {
        TyCx::new(self.cx, &self.f).ty(t)
    }
    fn ret_tuple(&self, v: Option<String>) -> String {
        let mut o = vec![];
        if !self.unit {
            o.push(v.unwrap_or("()".into()));
        }
        o.extend(self.ret_mut.iter().cloned());
        tuple(&o)
    }

    fn fn_body(&mut self, b: &Block) -> Res<Blk> {
        self.block(b, true)
    }

    /// `top`: the value of the block is the result of the function
    fn block(&mut self, b: &Block, top: bool) -> Res<Blk> {
        self.scopes.push(HashMap::new());
        let r = self.block_in(b, top);
        self.scopes.pop();
        r
    }
    fn block_in(&mut self, b: &Block, top: bool) -> Res<Blk> {
        let mut ls = vec![];
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            if i + 1 == n {
                if let Stmt::Expr(e, None) = s {
                    let tail = self.tail(e, top, &mut ls)?;
                    return Ok(Blk { ls, tail });
                }
                if let Stmt::Macro(m) = s {
                    if m.semi_token.is_none() {
                        let tail = self.tail(&Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }), top, &mut ls)?;
                        return Ok(Blk { ls, tail });
                    }
                }
            }
            self.stmt(s, &mut ls)?;
        }
        let tail = if diverges(&ls) {
            T::None
        } else if top {
            T::Val(self.ret_tuple(None))
        } else {
            T::None
        };
        Ok(Blk { ls, tail })
    }

    fn is_stmt_like(&self, e: &Expr) -> bool {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Assign(_) | Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => true,
            Expr::Binary(b) => is_assign_op(&b.op),
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                !(n == "vec" || n == "izip" || n == "format" || n == "matches" || n == "write")
            }
            Expr::MethodCall(m) => m.method == "for_each",
            _ => false,
        }
    }

    fn tail(&mut self, e: &Expr, top: bool, ls: &mut Vec<L>) -> Res<T> {
        match e {
            Expr::Macro(m) if self.cx.k.macros.contains_key(&(self.f.file.clone(), m.mac.path.segments.last().unwrap().ident.to_string())) => {
                let x = self.expand(&m.mac)?.unwrap();
                return self.tail(&x, top, ls);
            }
            Expr::Paren(p) => return self.tail(&p.expr, top, ls),
            Expr::If(i) if !matches!(&*i.cond, Expr::Let(_)) && i.else_branch.is_some() => {
                let c = self.ex(&i.cond, ls)?;
                let a = self.block(&i.then_branch, top)?;
                let b = self.else_blk(&i.else_branch.as_ref().unwrap().1, top)?;
                return Ok(T::If(c, Box::new(a), Box::new(b)));
            }
            Expr::If(i) if i.else_branch.is_some() => {
                let Expr::Let(l) = &*i.cond else { unreachable!() };
                let s = self.ex(&l.expr, ls)?;
                self.scopes.push(HashMap::new());
                let p = self.pat(&l.pat)?;
                let a = self.block(&i.then_branch, top)?;
                self.scopes.pop();
                let b = self.else_blk(&i.else_branch.as_ref().unwrap().1, top)?;
                return Ok(T::Match(s, vec![(p, a), ("_".into(), b)]));
            }
            Expr::Match(m) => {
                let s = self.ex(&m.expr, ls)?;
                let mut arms: Vec<(String, Blk)> = vec![];
                // from the last arm on: a guarded arm falls through to a match on the arms after it
                for (k, a) in m.arms.iter().rev().enumerate() {
                    self.scopes.push(HashMap::new());
                    let p = self.pat(&last_pat(&a.pat, k == 0 && a.guard.is_none()))?;
                    let mut pre = vec![];
                    let g = match &a.guard {
                        Some((_, g)) => Some(self.ex(g, &mut pre)?),
                        None => None,
                    };
                    let mut b = self.else_blk(&a.body, top)?;
                    self.scopes.pop();
                    if let Some(g) = g {
                        let rest = match arms.iter().position(|a| a.0 == p) {
                            Some(k) => arms.remove(k).1,
                            None => Blk { ls: vec![], tail: T::Match(s.clone(), arms.clone()) },
                        };
                        b = Blk { ls: pre, tail: T::If(g, Box::new(b), Box::new(rest)) };
                    }
                    arms.insert(0, (p, b));
                }
                return Ok(T::Match(s, arms));
            }
            Expr::Block(b) => {
                let mut x = self.block(&b.block, top)?;
                ls.append(&mut x.ls);
                return Ok(x.tail);
            }
            _ => {}
        }
        if self.is_stmt_like(e) || matches!(e, Expr::If(_)) {
            self.stmt_expr(e, ls)?;
            if diverges(ls) {
                return Ok(T::None);
            }
            return Ok(if top { T::Val(self.ret_tuple(None)) } else { T::None });
        }
        if top {
            // Ok(v) / Err(e) / v
            if self.is_result {
                if let Some(v) = self.result_value(e, ls)? {
                    return Ok(T::Val(self.ret_tuple(Some(v))));
                }
                return Ok(T::None);
            }
            let v = self.ex(e, ls)?;
            return Ok(T::Val(self.ret_tuple(Some(v))));
        }
        let v = self.ex(e, ls)?;
        Ok(T::Val(v))
    }
    fn else_blk(&mut self, e: &Expr, top: bool) -> Res<Blk> {
        if let Expr::Block(b) = e {
            if b.label.is_none() {
                return self.block(&b.block, top);
            }
        }
        let mut ls = vec![];
        self.scopes.push(HashMap::new());
        let tail = self.tail(e, top, &mut ls);
        self.scopes.pop();
        Ok(Blk { ls, tail: tail? })
    }

    /// The value of an expression of type Result in returning position.
    fn result_value(&mut self, e: &Expr, ls: &mut Vec<L>) -> Res<Option<String>> {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                match p.path.segments.last().unwrap().ident.to_string().as_str() {
                    "Ok" => return Ok(Some(self.ex(&c.args[0], ls)?)),
                    "Err" => {
                        ls.push(L::Throw(ERR));
                        return Ok(None);
                    }
                    _ => {}
                }
            }
        }
        Ok(Some(self.ex(e, ls)?))
    }

    fn stmt(&mut self, s: &Stmt, ls: &mut Vec<L>) -> Res<()> {
        match s {
            Stmt::Local(l) => self.local(l, ls),
            Stmt::Item(Item::Const(c)) => {
                let v = self.ex(&c.expr, ls)?;
                let n = lean_id(&c.ident.to_string());
                let t = self.ty(&c.ty)?;
                self.bind(&c.ident.to_string(), &n);
                ls.push(L::Let(n, Some(t), v));
                Ok(())
            }
            Stmt::Item(Item::Use(_)) => Ok(()),
            Stmt::Item(i) => unsup(format!("nested item {}", ts(i))),
            Stmt::Expr(e, _) => self.stmt_expr(e, ls),
            Stmt::Macro(m) => self.stmt_macro(&m.mac, ls),
        }
    }

    fn local(&mut self, l: &Local, ls: &mut Vec<L>) -> Res<()> {
        let (pat, ann) = match &l.pat {
            Pat::Type(t) => ((*t.pat).clone(), Some(self.ty(&t.ty)).transpose().ok().flatten()),
            p => (p.clone(), None),
        };
        let ann = ann.filter(|a| !a.contains('_') || a.contains("ShamirPrime"));
        let Some(init) = &l.init else {
            // declared, assigned later in every branch: needs a default value
            let p = self.pat(&pat)?;
            ls.push(L::Let(p, ann, "default".into()));
            return Ok(());
        };
        if let Some((_, els)) = &init.diverge {
            let s = self.ex(&init.expr, ls)?;
            let mut eb = vec![];
            self.stmt_expr(els, &mut eb)?;
            let p = self.pat(&pat)?;
            // let-else: bind through a match
            let names: Vec<String> = pat_vars(&pat);
            if names.len() != 1 || !diverges(&eb) {
                return unsup("let-else");
            }
            let n = lean_id(&names[0]);
            let e = match eb.last() {
                Some(L::Throw(x)) => format!("throw {x}"),
                _ => return unsup("let-else with return"),
            };
            ls.push(L::Bind(n.clone(), ann, format!("(match {s} with | {p} => pure {n} | _ => {e})")));
            return Ok(());
        }
        // arrays taken apart: element by element
        if let Pat::Slice(p) = &pat {
            if p.elems.iter().all(|e| matches!(e, Pat::Ident(i) if i.subpat.is_none()) || matches!(e, Pat::Wild(_))) {
                let v = self.ex(&init.expr, ls)?;
                let t = self.tmp();
                ls.push(L::Let(t.clone(), None, v));
                for (j, e) in p.elems.iter().enumerate() {
                    let n = self.pat(e)?;
                    ls.push(L::Bind(n, None, format!("(idx {t} {j})")));
                }
                return Ok(());
            }
        }
        // pairs of vectors collected from pairs
        if let (Pat::Type(t), Expr::MethodCall(m)) = (&l.pat, &*init.expr) {
            if m.method == "collect" && m.turbofish.is_none() && matches!(&*t.ty, Type::Tuple(_)) {
                let v = self.ex(&init.expr, ls)?;
                let p = self.pat(&pat)?;
                ls.push(L::Let(p, None, format!("(List.unzip {})", atom(&v))));
                return Ok(());
            }
        }
        // aliases of places
        if let Pat::Ident(p) = &pat {
            if let Expr::MethodCall(m) = &*init.expr {
                let n = m.method.to_string();
                if self.cx.cfg["lens"].get(&n).is_some() || matches!(n.as_str(), "chunks_mut" | "chunks_exact_mut" | "par_chunks_mut" | "iter_mut") {
                    let d = self.scopes.len();
                    self.scopes.last_mut().unwrap().insert(p.ident.to_string(), Var::Alias((*init.expr).clone(), d));
                    return Ok(());
                }
            }
            if let Expr::Reference(r) = &*init.expr {
                if r.mutability.is_some() {
                    let d = self.scopes.len();
                    self.scopes.last_mut().unwrap().insert(p.ident.to_string(), Var::Alias((*r.expr).clone(), d));
                    return Ok(());
                }
            }
        }
        let v = self.ex_blk(&init.expr, ls)?;
        if let T::None = v {
            return Ok(());
        }
        let p = {
            // `let iter = ..`: names are bound after the initialiser is read
            self.pat(&pat)?
        };
        match v {
            T::Val(v) => ls.push(L::Let(p, ann, v)),
            t => {
                let b = Blk { ls: vec![], tail: t };
                let m = blk_monadic(&b);
                let s = blk(&b, 2, m);
                if m {
                    ls.push(L::Bind(p, ann, format!("(do\n{s}    )")));
                } else {
                    ls.push(L::Let(p, ann, format!("(\n{s}    )")));
                }
            }
        }
        Ok(())
    }

    /// Like `ex`, but keeps if/match as a tail.
    fn ex_blk(&mut self, e: &Expr, ls: &mut Vec<L>) -> Res<T> {
        match e {
            Expr::If(_) | Expr::Match(_) => {
                let t = self.tail(e, false, ls)?;
                let b = Blk { ls: vec![], tail: t };
                // assignments to outer variables inside a value-if are not supported
                let mut v = vec![];
                collect_assigned(&b, &mut v);
                if tail_has_ret(&b) {
                    return unsup("return inside a conditional expression");
                }
                if v.is_empty() {
                    return Ok(b.tail);
                }
                // assignments to outer variables: the branches hand over the new values together with the result
                let mut u: Vec<String> = vec![];
                for x in v {
                    if !u.contains(&x) {
                        u.push(x);
                    }
                }
                let m = blk_monadic(&b);
                let s = blk_with(&b, 3, m, &u);
                let t = self.tmp();
                if m {
                    ls.push(L::Bind(t.clone(), None, format!("(do\n{s}    )")));
                } else {
                    ls.push(L::Let(t.clone(), None, format!("(\n{s}    )")));
                }
                let n = u.len() + 1;
                for (j, x) in u.iter().enumerate() {
                    ls.push(L::Set(x.clone(), format!("{t}{}", proj(j, n))));
                }
                Ok(T::Val(format!("{t}{}", proj(n - 1, n))))
            }
            Expr::Block(b) => {
                let mut x = self.block(&b.block, false)?;
                ls.append(&mut x.ls);
                Ok(x.tail)
            }
            _ => Ok(T::Val(self.ex(e, ls)?)),
        }
    }

    /// `format!` arguments: literal with `{}` and `{name}` only
    fn fmt(&mut self, a: &[Expr], ls: &mut Vec<L>) -> Res<String> {
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = a.first() else { return unsup("format string") };
        let f = f.value();
        let mut out: Vec<String> = vec![];
        let mut text = String::new();
        let mut next = 1;
        let mut it = f.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => {
                    it.next();
                    text.push('{');
                }
                '}' => {
                    it.next();
                    text.push('}');
                }
                '{' => {
                    let n: String = it.by_ref().take_while(|c| *c != '}').collect();
                    if !text.is_empty() {
                        out.push(format!("({text:?} : String).toList"));
                        text.clear();
                    }
                    let v = if n.is_empty() {
                        next += 1;
                        match a.get(next - 1) {
                            Some(e) => self.ex(e, ls)?,
                            None => return unsup("format arguments"),
                        }
                    } else if n.chars().all(|c| c.is_alphanumeric() || c == '_') {
                        let e: Expr = syn::parse_str(&n).map_err(|e| e.to_string())?;
                        self.ex(&e, ls)?
                    } else {
                        return unsup(format!("format specification {n}"));
                    };
                    out.push(format!("Disp.disp {}", atom(&v)));
                }
                c => text.push(c),
            }
        }
        if !text.is_empty() || out.is_empty() {
            out.push(format!("({text:?} : String).toList"));
        }
        Ok(format!("({})", out.join(" ++ ")))
    }

    fn stmt_macro(&mut self, m: &Macro, ls: &mut Vec<L>) -> Res<()> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "debug" | "trace" | "info" | "warn" | "error" | "println" | "eprintln" => {
                self.cx.drops.insert(format!("macro {n}!"));
                Ok(())
            }
            "bail" => {
                ls.push(L::Throw(ERR));
                Ok(())
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                ls.push(L::Throw(PANIC));
                Ok(())
            }
            "ensure" | "assert" => {
                let args = macro_args(m)?;
                let c = self.ex(&args[0], ls)?;
                ls.push(L::If(format!("!{c}"), vec![L::Throw(if n == "ensure" { ERR } else { PANIC })], vec![]));
                Ok(())
            }
            "assert_eq" | "assert_ne" => {
                let args = macro_args(m)?;
                let a = self.ex(&args[0], ls)?;
                let b = self.ex(&args[1], ls)?;
                let c = if n == "assert_eq" { format!("!({a} == {b})") } else { format!("({a} == {b})") };
                ls.push(L::If(c, vec![L::Throw(PANIC)], vec![]));
                Ok(())
            }
            _ => unsup(format!("macro {n}!")),
        }
    }

    fn stmt_expr(&mut self, e: &Expr, ls: &mut Vec<L>) -> Res<()> {
        match e {
            Expr::Paren(p) => self.stmt_expr(&p.expr, ls),
            Expr::Macro(m) => self.stmt_macro(&m.mac, ls),
            Expr::Assign(a) => {
                let v = self.ex(&a.right, ls)?;
                self.assign(&a.left, v, ls)
            }
            Expr::Binary(b) if is_assign_op(&b.op) => {
                let r = self.ex(&b.right, ls)?;
                let l = self.ex(&b.left, ls)?;
                let v = self.binop(&assign_base(&b.op), l, r, ls)?;
                self.assign(&b.left, v, ls)
            }
            Expr::If(i) => {
                let (s, p) = match &*i.cond {
                    Expr::Let(l) => {
                        let s = self.ex(&l.expr, ls)?;
                        (s, Some(l.pat.clone()))
                    }
                    c => (self.ex(c, ls)?, None),
                };
                self.scopes.push(HashMap::new());
                let ps = p.as_ref().map(|p| self.pat(p)).transpose()?;
                let a = self.unit_block(&i.then_branch)?;
                self.scopes.pop();
                let b = match &i.else_branch {
                    None => vec![],
                    Some((_, e)) => {
                        let mut v = vec![];
                        self.scopes.push(HashMap::new());
                        match &**e {
                            Expr::Block(b) => v = self.unit_block(&b.block)?,
                            x => self.stmt_expr(x, &mut v)?,
                        }
                        self.scopes.pop();
                        v
                    }
                };
                match ps {
                    None => ls.push(L::If(s, a, b)),
                    Some(p) => ls.push(L::Match(s, vec![(p, a), ("_".into(), b)])),
                }
                Ok(())
            }
            Expr::Match(m) => {
                let s = self.ex(&m.expr, ls)?;
                let mut arms: Vec<(String, Vec<L>)> = vec![];
                for (k, a) in m.arms.iter().rev().enumerate() {
                    self.scopes.push(HashMap::new());
                    let p = self.pat(&last_pat(&a.pat, k == 0 && a.guard.is_none()))?;
                    let mut pre = vec![];
                    let g = match &a.guard {
                        Some((_, g)) => Some(self.ex(g, &mut pre)?),
                        None => None,
                    };
                    let mut v = vec![];
                    match &*a.body {
                        Expr::Block(b) => v = self.unit_block(&b.block)?,
                        x => self.stmt_expr(x, &mut v)?,
                    }
                    self.scopes.pop();
                    if let Some(g) = g {
                        let rest = match arms.iter().position(|a| a.0 == p) {
                            Some(k) => arms.remove(k).1,
                            None => vec![L::Match(s.clone(), arms.clone())],
                        };
                        pre.push(L::If(g, v, rest));
                        v = pre;
                    }
                    arms.insert(0, (p, v));
                }
                ls.push(L::Match(s, arms));
                Ok(())
            }
            Expr::Block(b) => {
                let mut v = self.unit_block(&b.block)?;
                ls.append(&mut v);
                Ok(())
            }
            Expr::Unsafe(b) => {
                let mut v = self.unit_block(&b.block)?;
                ls.append(&mut v);
                Ok(())
            }
            Expr::Return(r) => {
                let v = match &r.expr {
                    None => self.ret_tuple(None),
                    Some(e) => {
                        let v = if self.is_result {
                            match self.result_value(e, ls)? {
                                Some(v) => v,
                                None => return Ok(()),
                            }
                        } else {
                            self.ex(e, ls)?
                        };
                        self.ret_tuple(Some(v))
                    }
                };
                ls.push(L::Ret(v));
                Ok(())
            }
            Expr::Break(b) if b.expr.is_none() => {
                ls.push(L::Break);
                Ok(())
            }
            Expr::Continue(_) => {
                ls.push(L::Continue);
                Ok(())
            }
            Expr::ForLoop(f) => self.for_loop(&f.pat, &f.expr, &f.body, ls),
            Expr::While(w) => {
                let mut pre = vec![];
                let c = self.ex(&w.cond, &mut pre)?;
                let b = self.unit_block(&w.body)?;
                ls.push(L::While(pre, c, b));
                Ok(())
            }
            Expr::Loop(w) if w.label.is_none() => {
                let b = self.unit_block(&w.body)?;
                ls.push(L::While(vec![], "true".into(), b));
                Ok(())
            }
            Expr::Tuple(t) if t.elems.is_empty() => Ok(()),
            Expr::MethodCall(m) => {
                // x.iter_mut()...for_each(|..| ..)
                if m.method == "for_each" {
                    if let Some(Expr::Closure(c)) = m.args.first() {
                        let body = match &*c.body {
                            Expr::Block(b) => b.block.clone(),
                            e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), Some(Default::default()))] },
                        };
                        return self.for_loop(&c.inputs[0], &m.receiver, &body, ls);
                    }
                    if let Some(Expr::Path(f)) = m.args.first() {
                        let pat: Pat = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: Ident::new("x__", proc_macro2::Span::call_site()), subpat: None });
                        let call: Expr = syn::parse_quote!(#f(x__));
                        let body = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(call, Some(Default::default()))] };
                        return self.for_loop(&pat, &m.receiver, &body, ls);
                    }
                    return unsup("for_each");
                }
                self.call_stmt(e, ls)
            }
            _ => self.call_stmt(e, ls),
        }
    }
    fn call_stmt(&mut self, e: &Expr, ls: &mut Vec<L>) -> Res<()> {
        // value discarded: effects are already in ls
        let _ = self.ex(e, ls)?;
        Ok(())
    }

    fn unit_block(&mut self, b: &Block) -> Res<Vec<L>> {
        self.scopes.push(HashMap::new());
        let mut ls = vec![];
        for s in &b.stmts {
            match s {
                Stmt::Expr(Expr::Call(c), None) if matches!(ts(&c.func).replace(' ', "").as_str(), "Ok" | "eyre::Ok") => {
                    let _ = c;
                }
                _ => self.stmt(s, &mut ls)?,
            }
        }
        self.scopes.pop();
        Ok(ls)
    }

    // ---------------------------------------------------------------- loops

    fn mut_iter(&mut self, e: &Expr, ls: &mut Vec<L>) -> Res<It> {
        match e {
            Expr::Paren(p) => self.mut_iter(&p.expr, ls),
            Expr::Reference(r) if r.mutability.is_some() => Ok(It::Mut(MutSrc { lv: (*r.expr).clone(), ops: vec![] })),
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                if let Some(Var::Alias(x, _)) = self.var(&n) {
                    if matches!(x, Expr::MethodCall(_)) {
                        return self.mut_iter(&x, ls);
                    }
                    return Ok(It::Mut(MutSrc { lv: x, ops: vec![] }));
                }
                if self.ret_mut.contains(&lean_id(&n)) {
                    return Ok(It::Mut(MutSrc { lv: e.clone(), ops: vec![] }));
                }
                Ok(It::Val(self.ex(e, ls)?))
            }
            Expr::Macro(m) if m.mac.path.segments.last().unwrap().ident == "izip" => {
                let args = macro_args(&m.mac)?;
                let mut its = vec![];
                for a in &args {
                    its.push(self.mut_iter(a, ls)?);
                }
                let mut it = its.into_iter();
                let mut acc = it.next().unwrap();
                let rest: Vec<It> = it.collect();
                // izip! nests to the left but hands out flat tuples: build right nested products
                let mut all = vec![acc];
                all.extend(rest);
                let mut r = all.pop().unwrap();
                while let Some(x) = all.pop() {
                    r = It::Zip(Box::new(x), Box::new(r));
                }
                acc = r;
                Ok(acc)
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter_mut" | "par_iter_mut" => Ok(It::Mut(MutSrc { lv: (*m.receiver).clone(), ops: vec![] })),
                    "with_min_len" | "with_max_len" | "into_iter" | "into_par_iter" => {
                        let i = self.mut_iter(&m.receiver, ls)?;
                        Ok(i)
                    }
                    "zip" | "zip_eq" => {
                        let a = self.mut_iter(&m.receiver, ls)?;
                        let b = self.mut_iter(&m.args[0], ls)?;
                        if n == "zip_eq" {
                            let (la, lb) = (self.it_val(&a, ls)?, self.it_val(&b, ls)?);
                            ls.push(L::If(format!("!({la}.length == {lb}.length)"), vec![L::Throw(PANIC)], vec![]));
                        }
                        Ok(It::Zip(Box::new(a), Box::new(b)))
                    }
                    "enumerate" => {
                        let a = self.mut_iter(&m.receiver, ls)?;
                        Ok(It::Enum(Box::new(a)))
                    }
                    "skip" | "take" | "rev" | "chunks_mut" | "par_chunks_mut" | "chunks_exact_mut" => {
                        let base = if n.contains("chunks") {
                            It::Mut(MutSrc { lv: (*m.receiver).clone(), ops: vec![] })
                        } else {
                            self.mut_iter(&m.receiver, ls)?
                        };
                        match base {
                            It::Mut(mut s) => {
                                let a = if m.args.is_empty() { String::new() } else { self.ex(&m.args[0], ls)? };
                                s.ops.push((n.replace("par_", ""), a));
                                Ok(It::Mut(s))
                            }
                            It::Val(_) => Ok(It::Val(self.ex(e, ls)?)),
                            _ => unsup("adaptor on a zipped mutable iterator"),
                        }
                    }
                    _ => Ok(It::Val(self.ex(e, ls)?)),
                }
            }
            _ => Ok(It::Val(self.ex(e, ls)?)),
        }
    }
    fn has_mut(i: &It) -> bool {
        match i {
            It::Mut(_) => true,
            It::Val(_) => false,
            It::Zip(a, b) => Self::has_mut(a) || Self::has_mut(b),
            It::Enum(a) => Self::has_mut(a),
        }
    }
    fn it_val(&mut self, i: &It, ls: &mut Vec<L>) -> Res<String> {
        Ok(match i {
            It::Mut(s) => {
                let mut v = self.ex(&s.lv, ls)?;
                for (n, a) in &s.ops {
                    v = match n.as_str() {
                        "skip" => format!("({v}.drop {a})"),
                        "take" => format!("({v}.take {a})"),
                        "rev" => format!("({v}.reverse)"),
                        "chunks_mut" => format!("(toChunks {a} {v})"),
                        "chunks_exact_mut" => format!("(toChunksExact {a} {v})"),
                        _ => return unsup(n.clone()),
                    };
                }
                v
            }
            It::Val(v) => v.clone(),
            It::Zip(a, b) => {
                let (a, b) = (self.it_val(a, ls)?, self.it_val(b, ls)?);
                format!("(List.zip {a} {b})")
            }
            It::Enum(a) => format!("(renum {})", self.it_val(a, ls)?),
        })
    }
    /// names of the mutable components, with their sources, following the pattern
    fn mut_names(&mut self, i: &It, p: &Pat, out: &mut Vec<(String, Expr, Vec<(String, String)>)>) -> Res<()> {
        let p = match p {
            Pat::Paren(x) => &*x.pat,
            Pat::Reference(x) => &*x.pat,
            Pat::Type(x) => &*x.pat,
            x => x,
        };
        match (i, p) {
            (It::Val(_), _) => Ok(()),
            (It::Mut(s), Pat::Ident(x)) => {
                out.push((lean_id(&x.ident.to_string()), s.lv.clone(), s.ops.clone()));
                Ok(())
            }
            (It::Mut(_), Pat::Wild(_)) => Ok(()),
            (It::Zip(a, b), Pat::Tuple(t)) => {
                if t.elems.len() == 2 {
                    self.mut_names(a, &t.elems[0], out)?;
                    self.mut_names(b, &t.elems[1], out)
                } else if t.elems.len() > 2 {
                    self.mut_names(a, &t.elems[0], out)?;
                    let mut t2 = t.clone();
                    t2.elems = t.elems.iter().skip(1).cloned().collect();
                    self.mut_names(b, &Pat::Tuple(t2), out)
                } else {
                    unsup("pattern")
                }
            }
            (It::Enum(a), Pat::Tuple(t)) if t.elems.len() == 2 => self.mut_names(a, &t.elems[1], out),
            _ => unsup(format!("mutable iterator pattern {}", ts(p))),
        }
    }

    fn for_loop(&mut self, pat: &Pat, it: &Expr, body: &Block, ls: &mut Vec<L>) -> Res<()> {
        let i = self.mut_iter(it, ls)?;
        if !Self::has_mut(&i) {
            let src = self.it_val(&i, ls)?;
            self.scopes.push(HashMap::new());
            let p = self.pat(pat)?;
            let b = self.unit_block(body)?;
            self.scopes.pop();
            // push-only loop: V.push(e) last, V otherwise untouched, no other assignment
            let mut v = vec![];
            assigned(&b, &mut v);
            if v.len() == 1 && !has_ret(&b) {
                if let Some(L::Set(x, e)) = b.last() {
                    let pre = format!("({x} ++ [");
                    let before: Vec<L> = b[..b.len() - 1].to_vec();
                    let mut w = vec![];
                    assigned(&before, &mut w);
                    if x == &v[0] && e.starts_with(&pre) && e.ends_with("])") && w.is_empty() && !mentions(&before, x) && !word_in(&e[pre.len()..], x) {
                        let val = e[pre.len()..e.len() - 2].to_string();
                        let bl = Blk { ls: before, tail: T::Val(val) };
                        if blk_monadic(&bl) {
                            let t = self.tmp();
                            ls.push(L::Bind(t.clone(), None, format!("(mapM% (fun {p} => do\n{}    ) {src})", blk(&bl, 4, true))));
                            ls.push(L::Set(x.clone(), format!("({x} ++ {t})")));
                        } else {
                            ls.push(L::Set(x.clone(), format!("({x} ++ map% (fun {p} =>\n{}    ) {src})", blk(&bl, 4, false))));
                        }
                        return Ok(());
                    }
                }
            }
            ls.push(L::For(p, src, b));
            return Ok(());
        }
        // loop over mutable references: collect the new elements and write them back
        let mut names = vec![];
        self.mut_names(&i, pat, &mut names)?;
        let src = self.it_val(&i, ls)?;
        self.scopes.push(HashMap::new());
        let p = self.pat(pat)?;
        // &mut variables are plain variables in the body
        let b = self.unit_block(body)?;
        self.scopes.pop();
        if has_ret(&b) {
            return unsup("early exit in a loop over mutable references");
        }
        let mut v = vec![];
        assigned(&b, &mut v);
        let outer: Vec<String> = v.iter().filter(|x| !names.iter().any(|n| &n.0 == *x)).cloned().collect();
        let outs: Vec<String> = names.iter().map(|n| n.0.clone()).collect();
        let res = self.tmp();
        if outer.is_empty() {
            let bl = Blk { ls: b, tail: T::Val(tuple(&outs)) };
            if blk_monadic(&bl) {
                ls.push(L::Bind(res.clone(), None, format!("(mapM% (fun {p} => do\n{}    ) {src})", blk(&bl, 4, true))));
            } else {
                ls.push(L::Let(res.clone(), None, format!("(map% (fun {p} =>\n{}    ) {src})", blk(&bl, 4, false))));
            }
        } else {
            // fold over the outer state, collecting
            let acc = self.tmp();
            let mut b2 = b;
            b2.push(L::Set(acc.clone(), format!("({acc} ++ [{}])", tuple(&outs))));
            ls.push(L::Let(acc.clone(), None, "[]".into()));
            ls.push(L::For(p, src, b2));
            ls.push(L::Let(res.clone(), None, acc));
        }
        let n = names.len();
        for (j, (_, lv, ops)) in names.into_iter().enumerate() {
            let part = if n == 1 { res.clone() } else { format!("({res}.map (fun t => t{}))", proj(j, n)) };
            let cur = self.ex(&lv, ls)?;
            let mut val = part;
            // undo the adaptors from the outermost inwards
            let mut views = vec![cur];
            for (o, a) in &ops {
                let b = views.last().unwrap().clone();
                views.push(match o.as_str() {
                    "skip" => format!("({b}.drop {a})"),
                    "take" => format!("({b}.take {a})"),
                    "rev" => format!("({b}.reverse)"),
                    "chunks_mut" => format!("(toChunks {a} {b})"),
                    "chunks_exact_mut" => format!("(toChunksExact {a} {b})"),
                    _ => return unsup(o.clone()),
                });
            }
            let top = views.pop().unwrap();
            val = format!("(overwrite {top} {val})");
            for (o, a) in ops.iter().rev() {
                let b = views.pop().unwrap();
                val = match o.as_str() {
                    "skip" => format!("({b}.take {a} ++ {val})"),
                    "take" => format!("({val} ++ {b}.drop {a})"),
                    "rev" => format!("({val}.reverse)"),
                    "chunks_mut" => format!("({val}.flatten)"),
                    "chunks_exact_mut" => format!("(overwrite {b} ({val}.flatten))"),
                    _ => return unsup(o.clone()),
                };
            }
            self.assign(&lv, val, ls)?;
        }
        Ok(())
    }

    // ---------------------------------------------------------------- places

    fn assign(&mut self, lhs: &Expr, v: String, ls: &mut Vec<L>) -> Res<()> {
        match lhs {
            Expr::Paren(p) => self.assign(&p.expr, v, ls),
            Expr::Group(p) => self.assign(&p.expr, v, ls),
            Expr::Reference(p) => self.assign(&p.expr, v, ls),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.assign(&u.expr, v, ls),
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                match self.var(&n) {
                    Some(Var::Lean(x)) => {
                        ls.push(L::Set(x, v));
                        Ok(())
                    }
                    Some(Var::Alias(e, _)) => self.assign(&e, v, ls),
                    None => unsup(format!("assignment to {n}")),
                }
            }
            Expr::Field(f) => {
                let b = self.ex(&f.base, ls)?;
                let nv = match &f.member {
                    Member::Named(n) if self.cx.cfg["soft"].as_array().map_or(false, |a| a.iter().any(|x| x == &n.to_string())) => {
                        let n = n.to_string();
                        format!("(Set{}{}.set {} {})", n[..1].to_uppercase(), &n[1..], atom(&b), atom(&v))
                    }
                    Member::Named(n) => format!("{{ {b} with {} := {v} }}", lean_id(&n.to_string())),
                    Member::Unnamed(i) => {
                        if i.index == 0 {
                            format!("({v}, {b}.2)")
                        } else {
                            format!("({b}.1, {v})")
                        }
                    }
                };
                self.assign(&f.base, nv, ls)
            }
            Expr::Index(ix) => {
                let b = self.ex(&ix.expr, ls)?;
                if let Expr::Range(r) = &*ix.index {
                    let (lo, hi) = self.range(r, &b, ls)?;
                    let t = self.tmp();
                    ls.push(L::Bind(t.clone(), None, format!("(rsetSlice {b} {lo} {hi} {v})")));
                    return self.assign(&ix.expr, t, ls);
                }
                let i = self.ex(&ix.index, ls)?;
                let t = self.tmp();
                ls.push(L::Bind(t.clone(), None, format!("(rset {b} {i} {v})")));
                self.assign(&ix.expr, t, ls)
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let Some(f) = self.cx.cfg["lens"].get(&n).and_then(|x| x.as_str()).map(str::to_string) {
                    let b = self.ex(&m.receiver, ls)?;
                    let a = self.ex(&m.args[0], ls)?;
                    let t = self.tmp();
                    ls.push(L::Bind(t.clone(), None, format!("({f}.set {} {} {})", atom(&b), atom(&a), atom(&v))));
                    return self.assign(&m.receiver, t, ls);
                }
                match n.as_str() {
                    "as_mut_slice" | "as_mut" | "borrow_mut" => self.assign(&m.receiver, v, ls),
                    "unwrap" | "expect" => {
                        if let Expr::MethodCall(m2) = &*m.receiver {
                            let b = self.ex(&m2.receiver, ls)?;
                            let t = self.tmp();
                            match m2.method.to_string().as_str() {
                                "last_mut" => {
                                    ls.push(L::Bind(t.clone(), None, format!("(rset {b} ({b}.length - 1) {v})")));
                                    return self.assign(&m2.receiver, t, ls);
                                }
                                "first_mut" => {
                                    ls.push(L::Bind(t.clone(), None, format!("(rset {b} 0 {v})")));
                                    return self.assign(&m2.receiver, t, ls);
                                }
                                "get_mut" => {
                                    let i = self.ex(&m2.args[0], ls)?;
                                    ls.push(L::Bind(t.clone(), None, format!("(rset {b} {i} {v})")));
                                    return self.assign(&m2.receiver, t, ls);
                                }
                                _ => {}
                            }
                        }
                        unsup(format!("assignment to {}", ts(lhs)))
                    }
                    _ => unsup(format!("assignment to {}", ts(lhs))),
                }
            }
            // a value a contract hands out: what is written into the temporary is lost
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if self.cx.cfg["externs"].get(ts(&p.path).replace(' ', "").as_str()).is_some()) => Ok(()),
            _ => unsup(format!("assignment to {}", ts(lhs))),
        }
    }

    fn range(&mut self, r: &ExprRange, b: &str, ls: &mut Vec<L>) -> Res<(String, String)> {
        let lo = match &r.start {
            Some(e) => self.ex(e, ls)?,
            None => "0".into(),
        };
        let hi = match (&r.end, &r.limits) {
            (Some(e), RangeLimits::HalfOpen(_)) => self.ex(e, ls)?,
            (Some(e), RangeLimits::Closed(_)) => format!("({} + 1)", self.ex(e, ls)?),
            (None, _) => format!("{b}.length"),
        };
        Ok((lo, hi))
    }

    // ---------------------------------------------------------------- patterns

    fn pat(&mut self, p: &Pat) -> Res<String> {
        Ok(match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if let Some((_, s)) = &i.subpat {
                    return unsup(format!("@ pattern {}", ts(s)));
                }
                if n == "None" {
                    return Ok("none".into());
                }
                if n.chars().next().unwrap().is_uppercase() {
                    return Ok(format!(".{n}"));
                }
                let mut l = lean_id(&n);
                // the names of a block that is run in place must not capture those around it
                if self.inline > 0 && (self.used.contains(&l) || self.var(&n).is_some()) {
                    self.fresh += 1;
                    l = format!("{l}__{}", self.fresh);
                }
                self.used.insert(l.clone());
                self.bind(&n, &l);
                l
            }
            Pat::Wild(_) => "_".into(),
            Pat::Rest(_) => return unsup(".. pattern"),
            Pat::Reference(r) => self.pat(&r.pat)?,
            Pat::Paren(r) => self.pat(&r.pat)?,
            Pat::Type(t) => {
                let x = self.pat(&t.pat)?;
                x
            }
            Pat::Tuple(t) => {
                let v: Res<Vec<String>> = t.elems.iter().map(|e| self.pat(e)).collect();
                format!("({})", v?.join(", "))
            }
            Pat::TupleStruct(t) => {
                let n = t.path.segments.last().unwrap().ident.to_string();
                let v: Res<Vec<String>> = t.elems.iter().map(|e| self.pat(e)).collect();
                let v = v?;
                match n.as_str() {
                    "Some" => format!("some {}", v[0]),
                    "Ok" if self.cx.cfg["io_results"] == true => format!(".ok {}", atom(&v[0])),
                    "Err" if self.cx.cfg["io_results"] == true => format!(".error {}", atom(&v[0])),
                    "Ok" | "Err" => return unsup("pattern on a Result"),
                    _ => format!(".{n} {}", v.join(" ")),
                }
            }
            Pat::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                let two = p.path.segments.len() >= 2 && p.path.segments[p.path.segments.len() - 2].ident == "Ordering";
                match n.as_str() {
                    "None" => "none".into(),
                    "Less" if two => ".lt".into(),
                    "Equal" if two => ".eq".into(),
                    "Greater" if two => ".gt".into(),
                    _ => format!(".{n}"),
                }
            }
            Pat::Lit(l) => match &l.lit {
                Lit::Int(i) => i.base10_digits().to_string(),
                Lit::Bool(b) => b.value.to_string(),
                Lit::Char(c) => format!("{:?}", c.value()),
                _ => return unsup("literal pattern"),
            },
            Pat::Struct(s) => {
                let mut o = vec![];
                for f in &s.fields {
                    let v = self.pat(&f.pat)?;
                    let Member::Named(n) = &f.member else { return unsup("struct pattern") };
                    o.push(format!("{} := {}", lean_id(&n.to_string()), v));
                }
                if s.rest.is_some() {
                    o.push("..".into());
                }
                format!("{{ {} }}", o.join(", "))
            }
            Pat::Or(o) => {
                let v: Res<Vec<String>> = o.cases.iter().map(|e| self.pat(e)).collect();
                v?.join(" | ")
            }
            Pat::Slice(s) => {
                let v: Res<Vec<String>> = s.elems.iter().map(|e| self.pat(e)).collect();
                format!("[{}]", v?.join(", "))
            }
            _ => return unsup(format!("pattern {}", ts(p))),
        })
    }

    // ---------------------------------------------------------------- expressions

    fn binop(&mut self, op: &BinOp, a: String, b: String, ls: &mut Vec<L>) -> Res<String> {
        let bind = |s: &mut Self, f: &str, ls: &mut Vec<L>| {
            let t = s.tmp();
            ls.push(L::Bind(t.clone(), None, format!("({f} {a} {b})")));
            t
        };
        Ok(match op {
            BinOp::Add(_) => format!("({a} + {b})"),
            // `( :)` keeps Lean from searching one common type for a mixed sum such as point + point * scalar
            BinOp::Mul(_) if self.cx.cfg["ascribe_mul"].as_bool().unwrap_or(false) => format!("({a} * {b} :)"),
            BinOp::Mul(_) => format!("({a} * {b})"),
            BinOp::Sub(_) => {
                if self.is_nat(&a) && self.is_nat(&b) {
                    bind(self, "rsub", ls)
                } else if self.cx.cfg["pure_sub"].as_bool().unwrap_or(true) && self.not_nat(&a, &b) {
                    format!("(psub {a} {b})")
                } else {
                    bind(self, "rsub", ls)
                }
            }
            BinOp::Div(_) => bind(self, "rdiv", ls),
            BinOp::Rem(_) => bind(self, "rmod", ls),
            BinOp::BitAnd(_) => format!("({a} &&& {b})"),
            BinOp::BitOr(_) => format!("({a} ||| {b})"),
            BinOp::BitXor(_) => format!("({a} ^^^ {b})"),
            BinOp::Shl(_) => format!("({a} <<< {b})"),
            BinOp::Shr(_) => format!("({a} >>> {b})"),
            BinOp::Eq(_) => format!("({a} == {b})"),
            BinOp::Ne(_) => format!("(!({a} == {b}))"),
            BinOp::Lt(_) => format!("(decide ({a} < {b}))"),
            BinOp::Le(_) => format!("(decide ({a} ≤ {b}))"),
            BinOp::Gt(_) => format!("(decide ({b} < {a}))"),
            BinOp::Ge(_) => format!("(decide ({b} ≤ {a}))"),
            BinOp::And(_) => format!("({a} && {b})"),
            BinOp::Or(_) => format!("({a} || {b})"),
            _ => return unsup("operator"),
        })
    }
    fn is_nat(&self, a: &str) -> bool {
        a.chars().all(|c| c.is_ascii_digit()) || a.ends_with(".length") || a.ends_with(".length)")
    }
    /// `psub` only has an instance for types with true subtraction, so choosing it for integers cannot elaborate;
    /// it is chosen when neither side looks like an integer.
    fn not_nat(&self, _a: &str, _b: &str) -> bool {
        // decided by the file-level hint: the functions listed in "nat_sub" use the checked form throughout
        !self.cx.cfg["nat_sub"].as_array().map_or(false, |v| v.iter().any(|x| x.as_str() == Some(&self.e.lean)))
            && !natish(&self.f, _a)
            && !natish(&self.f, _b)
    }

    pub fn ex(&mut self, e: &Expr, ls: &mut Vec<L>) -> Res<String> {
        match e {
            Expr::Paren(p) => self.ex(&p.expr, ls),
            Expr::Group(p) => self.ex(&p.expr, ls),
            Expr::Reference(r) => self.ex(&r.expr, ls),
            Expr::Cast(c) => {
                let v = self.ex(&c.expr, ls)?;
                let t = ts(&c.ty);
                if matches!(t.as_str(), "usize" | "u64" | "u128" | "u32" | "i32" | "i64" | "u8" | "u16") {
                    self.cx.drops.insert(format!("cast to {t} (identity on the mathematical value)"));
                    return Ok(v);
                }
                unsup(format!("cast to {t}"))
            }
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => self.ex(&u.expr, ls),
                UnOp::Neg(_) => {
                    let v = self.ex(&u.expr, ls)?;
                    Ok(format!("(-{v})"))
                }
                UnOp::Not(_) => {
                    let v = self.ex(&u.expr, ls)?;
                    Ok(format!("(rnot {v})"))
                }
                _ => unsup("unary"),
            },
            Expr::Lit(l) => Ok(match &l.lit {
                Lit::Int(i) => {
                    let d = i.base10_digits().to_string();
                    if i.suffix().is_empty() {
                        d
                    } else {
                        format!("({d} : ℕ)")
                    }
                }
                Lit::Bool(b) => b.value.to_string(),
                Lit::Str(s) if self.cx.cfg["strings"] == true => format!("({:?} : String).toList", s.value()),
                Lit::Str(s) => format!("{:?}", s.value()),
                Lit::Char(c) => format!("(Char.ofNat {})", c.value() as u32),
                _ => return unsup(format!("literal {}", ts(l))),
            }),
            Expr::Path(p) => self.path(p, ls),
            Expr::Tuple(t) => {
                if t.elems.is_empty() {
                    return Ok("()".into());
                }
                let v: Res<Vec<String>> = t.elems.iter().map(|x| self.ex(x, ls)).collect();
                Ok(format!("({})", v?.join(", ")))
            }
            Expr::Array(a) => {
                let v: Res<Vec<String>> = a.elems.iter().map(|x| self.ex(x, ls)).collect();
                Ok(format!("[{}]", v?.join(", ")))
            }
            Expr::Repeat(r) => {
                let v = self.ex(&r.expr, ls)?;
                let n = self.ex(&r.len, ls)?;
                Ok(format!("(List.replicate {n} {v})"))
            }
            Expr::Binary(b) => {
                if is_assign_op(&b.op) {
                    self.stmt_expr(e, ls)?;
                    return Ok("()".into());
                }
                if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) {
                    let a = self.ex(&b.left, ls)?;
                    let mut pre = vec![];
                    let r = self.ex(&b.right, &mut pre)?;
                    if pre.is_empty() {
                        return self.binop(&b.op, a, r, ls);
                    }
                    let t = self.tmp();
                    let bl = Blk { ls: pre, tail: T::Val(r) };
                    let m = blk_monadic(&bl);
                    let body = blk(&bl, 4, m);
                    let (doo, pu) = if m { (" do", "pure ") } else { ("", "") };
                    let s = if matches!(b.op, BinOp::And(_)) {
                        format!("(if {a} then{doo}\n{body}      else {pu}false)")
                    } else {
                        format!("(if {a} then {pu}true else{doo}\n{body}      )")
                    };
                    if m {
                        ls.push(L::Bind(t.clone(), Some("Bool".into()), s));
                    } else {
                        ls.push(L::Let(t.clone(), Some("Bool".into()), s));
                    }
                    return Ok(t);
                }
                let l = self.ex(&b.left, ls)?;
                let r = self.ex(&b.right, ls)?;
                self.binop(&b.op, l, r, ls)
            }
            Expr::Field(f) => {
                let b = self.ex(&f.base, ls)?;
                Ok(match &f.member {
                    Member::Named(n) => format!("{b}.{}", lean_id(&n.to_string())),
                    Member::Unnamed(i) => {
                        let b2 = b.clone();
                        // newtype structs and tuples
                        format!("{b2}.{}", i.index + 1)
                    }
                })
            }
            Expr::Index(ix) => {
                let b = self.ex(&ix.expr, ls)?;
                if let Expr::Range(r) = &*ix.index {
                    let (lo, hi) = self.range(r, &b, ls)?;
                    if r.start.is_none() && r.end.is_none() {
                        return Ok(b);
                    }
                    let t = self.tmp();
                    ls.push(L::Bind(t.clone(), None, format!("(slice {b} {lo} {hi})")));
                    return Ok(t);
                }
                let i = self.ex(&ix.index, ls)?;
                let t = self.tmp();
                ls.push(L::Bind(t.clone(), None, format!("(idx {b} {i})")));
                Ok(t)
            }
            Expr::Range(r) => {
                let lo = match &r.start {
                    Some(e) => self.ex(e, ls)?,
                    None => return unsup("range without start"),
                };
                match (&r.end, &r.limits) {
                    (Some(e), RangeLimits::HalfOpen(_)) => {
                        let h = self.ex(e, ls)?;
                        Ok(if lo == "0" { format!("(List.range {h})") } else { format!("(rrange {lo} {h})") })
                    }
                    (Some(e), RangeLimits::Closed(_)) => {
                        let h = self.ex(e, ls)?;
                        Ok(format!("(rrange {lo} ({h} + 1))"))
                    }
                    (None, _) => unsup("open range"),
                }
            }
            Expr::Try(t) => self.ex(&t.expr, ls),
            Expr::If(_) | Expr::Match(_) => {
                let t = self.ex_blk(e, ls)?;
                let b = Blk { ls: vec![], tail: t };
                let m = blk_monadic(&b);
                let s = blk(&b, 2, m);
                let n = self.tmp();
                if m {
                    ls.push(L::Bind(n.clone(), None, format!("(do\n{s}    )")));
                } else {
                    ls.push(L::Let(n.clone(), None, format!("(\n{s}    )")));
                }
                Ok(n)
            }
            Expr::Block(b) => {
                self.inline += 1;
                let x = self.block(&b.block, false);
                self.inline -= 1;
                let mut x = x?;
                ls.append(&mut x.ls);
                match x.tail {
                    T::None => Ok("()".into()),
                    T::Val(v) => Ok(v),
                    t => {
                        let b = Blk { ls: vec![], tail: t };
                        let m = blk_monadic(&b);
                        let s = blk(&b, 2, m);
                        let n = self.tmp();
                        if m {
                            ls.push(L::Bind(n.clone(), None, format!("(do\n{s}    )")));
                        } else {
                            ls.push(L::Let(n.clone(), None, format!("(\n{s}    )")));
                        }
                        Ok(n)
                    }
                }
            }
            Expr::Struct(s) if s.fields.len() == 1 && self.cx.cfg["newtypes"].as_array().map_or(false, |a| a.iter().any(|x| s.path.segments.last().unwrap().ident == x.as_str().unwrap_or(""))) => self.ex(&s.fields[0].expr, ls),
            Expr::Struct(s) => {
                let mut o = vec![];
                for f in &s.fields {
                    let Member::Named(n) = &f.member else { return unsup("struct literal") };
                    if f.colon_token.is_some() && ts(&f.expr).contains("PhantomData") {
                        continue;
                    }
                    let v = self.ex(&f.expr, ls)?;
                    o.push(format!("{} := {}", lean_id(&n.to_string()), v));
                }
                let ty = self.ty(&Type::Path(TypePath { qself: None, path: s.path.clone() }));
                let base = match &s.rest {
                    Some(r) => format!("{} with ", self.ex(r, ls)?),
                    None => String::new(),
                };
                // enum struct variants and unresolved types get no ascription
                Ok(match ty {
                    Ok(t) if t.starts_with('(') => format!("({{ {base}{} }} : {t})", o.join(", ")),
                    _ => format!("{{ {base}{} }}", o.join(", ")),
                })
            }
            Expr::Macro(m) => {
                if let Some(x) = self.expand(&m.mac)? {
                    return self.ex(&x, ls);
                }
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "vec" => {
                        if let Ok(r) = syn::parse2::<VecRepeat>(m.mac.tokens.clone()) {
                            let v = self.ex(&r.0, ls)?;
                            let n = self.ex(&r.1, ls)?;
                            return Ok(format!("(List.replicate {n} {v})"));
                        }
                        let a = macro_args(&m.mac)?;
                        let v: Res<Vec<String>> = a.iter().map(|x| self.ex(x, ls)).collect();
                        Ok(format!("[{}]", v?.join(", ")))
                    }
                    "izip" => {
                        let a = macro_args(&m.mac)?;
                        let v: Res<Vec<String>> = a.iter().map(|x| self.ex(x, ls)).collect();
                        let mut v = v?;
                        let mut r = v.pop().unwrap();
                        while let Some(x) = v.pop() {
                            r = format!("(List.zip {x} {r})");
                        }
                        Ok(r)
                    }
                    "format" if self.cx.cfg["strings"] == true => {
                        let a = macro_args(&m.mac)?;
                        self.fmt(&a, ls)
                    }
                    "write" if self.cx.cfg["strings"] == true => {
                        let a = macro_args(&m.mac)?;
                        let v = self.fmt(&a[1..], ls)?;
                        let old = self.ex(&a[0], ls)?;
                        self.assign(&a[0], format!("({old} ++ {v})"), ls)?;
                        Ok("()".into())
                    }
                    "format" => Ok("\"\"".into()),
                    _ => {
                        self.stmt_macro(&m.mac, ls)?;
                        if diverges(ls) {
                            return Ok("default".into());
                        }
                        Ok("()".into())
                    }
                }
            }
            Expr::Call(c) => self.call(c, ls),
            Expr::MethodCall(m) if self.cx.cfg["lens"].get(m.method.to_string()).is_some() => {
                let f = self.cx.cfg["lens"][m.method.to_string()].as_str().unwrap().to_string();
                let b = self.ex(&m.receiver, ls)?;
                let a = self.ex(&m.args[0], ls)?;
                let t = self.tmp();
                ls.push(L::Bind(t.clone(), None, format!("({f}.get {} {})", atom(&b), atom(&a))));
                Ok(t)
            }
            Expr::MethodCall(m) => self.method(m, ls),
            Expr::Closure(_) => {
                let (p, b) = self.closure(e)?;
                if blk_monadic(&b) {
                    return unsup("fallible closure as a value");
                }
                Ok(format!("(fun {} =>\n{}    )", p.join(" "), blk(&b, 4, false)))
            }
            Expr::Unsafe(u) => {
                let _ = u;
                unsup("unsafe block")
            }
            Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) | Expr::Assign(_) | Expr::ForLoop(_) | Expr::While(_) => {
                self.stmt_expr(e, ls)?;
                Ok("()".into())
            }
            _ => unsup(format!("expression {}", ts(e))),
        }
    }

    fn field_of(&self, t: &str) -> Option<&'static str> {
        // type-level prefix of an associated call: which Lean type
        let _ = t;
        None
    }

    /// The Lean type named by a path prefix such as `F`, `C::ScalarField`, `P::G1`, `Self::Foo`.
    fn prefix_ty(&self, p: &Path) -> Option<String> {
        let mut q = p.clone();
        let n = q.segments.len();
        if n < 2 {
            return None;
        }
        let segs: Vec<PathSegment> = q.segments.iter().take(n - 1).cloned().collect();
        q.segments = segs.into_iter().collect();
        if q.segments.len() == 1 && q.segments[0].ident == "Self" {
            return self.f.self_ty_full.as_ref().and_then(|t| self.ty(t).ok());
        }
        self.ty(&Type::Path(TypePath { qself: None, path: q })).ok()
    }

    fn path(&mut self, p: &ExprPath, ls: &mut Vec<L>) -> Res<String> {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last().unwrap().clone();
        if segs.len() == 1 {
            match self.var(&last) {
                Some(Var::Lean(x)) => return Ok(x),
                Some(Var::Alias(e, _)) => return self.ex(&e, ls),
                None => {}
            }
            if last == "None" {
                return Ok("none".into());
            }
            if last == "Self" {
                return unsup("Self value");
            }
        }
        let full = segs.join("::");
        if let Some(x) = self.cx.cfg["consts"].get(&full).or_else(|| self.cx.cfg["consts"].get(&last)).and_then(|x| x.as_str()) {
            return Ok(x.to_string());
        }
        if let Some(q) = &p.qself {
            let t = self.ty(&q.ty)?;
            return match last.as_str() {
                "ZERO" => Ok(format!("(0 : {t})")),
                "ONE" => Ok(format!("(1 : {t})")),
                _ => unsup(format!("path {}", ts(p))),
            };
        }
        if segs.len() >= 2 {
            if let Some(t) = self.prefix_ty(&p.path) {
                match last.as_str() {
                    "ZERO" => return Ok(format!("(0 : {t})")),
                    "ONE" => return Ok(format!("(1 : {t})")),
                    "GENERATOR" => return Ok(format!("(fieldGenerator : {t})")),
                    _ => {}
                }
                // enum variant
                let en = segs[segs.len() - 2].clone();
                let en = if en == "Self" { self.f.self_ty.clone().unwrap_or_default() } else { en };
                if self.cx.k.enums.iter().any(|x| x.1.ident == en && x.1.variants.iter().any(|v| v.ident == last)) {
                    return Ok(format!("{en}.{last}"));
                }
                let key = format!("{}::{}", en, last);
                if let Some(c) = self.cx.k.consts.get(&key).cloned() {
                    let (_, ty, e) = c[0].clone();
                    let v = self.ex(&e, ls)?;
                    let t = self.ty(&ty)?;
                    return Ok(format!("({v} : {t})"));
                }
            }
        }
        if let Some(c) = self.cx.k.consts.get(&last).cloned() {
            let c2: Vec<_> = c.iter().filter(|x| x.0 == self.f.file).cloned().collect();
            let c = if c2.is_empty() { c } else { c2 };
            if c.len() == 1 {
                let (_, ty, e) = c[0].clone();
                let v = self.ex(&e, ls)?;
                let t = self.ty(&ty)?;
                return Ok(format!("({v} : {t})"));
            }
        }
        // function used as a value
        if let Ok(Some(n)) = self.resolve(&p.path) {
            self.cx.emit(&n);
            self.note(&n)?;
            if self.cx.pure_fns.contains(&n) {
                return Ok(self.qual(&n));
            }
            return unsup(format!("fallible function {n} as a value"));
        }
        unsup(format!("path {}", ts(p)))
    }

    fn note(&mut self, n: &str) -> Res<()> {
        if !self.cx.done.contains_key(n) && !self.cx.in_progress.contains(n) {
            return Err(format!("callee {n} not translated"));
        }
        self.cx.calls.entry(self.e.lean.clone()).or_default().insert(n.into());
        Ok(())
    }
    fn qual(&self, n: &str) -> String {
        n.to_string()
    }

    /// Resolves a path in call position to an extracted function.
    fn resolve(&mut self, p: &Path) -> Res<Option<String>> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = segs.last().unwrap().clone();
        let mut quals: Vec<String> = segs[..segs.len() - 1].to_vec();
        if let Some(q) = quals.last().cloned() {
            if q == "Self" {
                if let Some(s) = &self.f.self_ty {
                    *quals.last_mut().unwrap() = s.clone();
                }
            }
            // local alias of a type
            if let Some(al) = self.cx.k.aliases.get(&self.f.file).and_then(|m| m.get(&q)) {
                if let Some(x) = last_ident(&al.ty) {
                    *quals.last_mut().unwrap() = x;
                }
            }
        } else if let Some(full) = self.cx.k.uses.get(&self.f.file).and_then(|m| m.get(&name)) {
            quals = full.split("::").map(|x| x.to_string()).collect();
            quals.pop();
        }
        let q = quals.iter().rev().find(|x| *x != "super" && *x != "self" && *x != "crate").cloned();
        let supers = quals.iter().filter(|x| *x == "super").count();
        let cands: Vec<usize> = (0..self.cx.k.funcs.len())
            .filter(|&i| {
                let f = &self.cx.k.funcs[i];
                if f.name != name {
                    return false;
                }
                match &q {
                    None => f.self_ty.is_none(),
                    Some(q) => f.self_ty.as_deref() == Some(q) || (f.self_ty.is_none() && &f.modname == q),
                }
            })
            .collect();
        let pick = |c: Vec<usize>| -> Option<usize> { if c.len() == 1 { Some(c[0]) } else { None } };
        if let Some(i) = pick(cands.clone()) {
            return Ok(Some(self.cx.auto(i, &self.e.clone())));
        }
        let same: Vec<usize> = cands.iter().cloned().filter(|&i| self.cx.k.funcs[i].file == self.f.file && supers == 0).collect();
        if let Some(i) = pick(same) {
            return Ok(Some(self.cx.auto(i, &self.e.clone())));
        }
        // nearest file by common directory prefix
        let dir = |f: &str| f.trim_end_matches(".rs").trim_end_matches("/mod").to_string();
        let me = dir(&self.f.file);
        let common = |a: &str, b: &str| a.split('/').zip(b.split('/')).take_while(|(x, y)| x == y).count();
        if let Some(best) = cands.iter().map(|&i| common(&dir(&self.cx.k.funcs[i].file), &me)).max() {
            let c: Vec<usize> = cands.into_iter().filter(|&i| common(&dir(&self.cx.k.funcs[i].file), &me) == best).collect();
            // inherent before trait
            let c2: Vec<usize> = c.iter().cloned().filter(|&i| self.cx.k.funcs[i].trait_.is_none()).collect();
            if let Some(i) = pick(c2).or(pick(c)) {
                return Ok(Some(self.cx.auto(i, &self.e.clone())));
            }
            return unsup(format!("ambiguous call {}", path_str(p)));
        }
        Ok(None)
    }

    fn resolve_method(&mut self, name: &str) -> Res<Option<String>> {
        if let Some(x) = self.cx.cfg["methods"].get(name).and_then(|x| x.as_str()) {
            return Ok(Some(x.to_string()));
        }
        let cands: Vec<usize> = (0..self.cx.k.funcs.len())
            .filter(|&i| {
                let f = &self.cx.k.funcs[i];
                f.name == name && f.self_ty.is_some() && matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_)))
            })
            .collect();
        let pick = |c: &Vec<usize>| -> Option<usize> { if c.len() == 1 { Some(c[0]) } else { None } };
        let same: Vec<usize> = cands.iter().cloned().filter(|&i| self.cx.k.funcs[i].self_ty == self.f.self_ty && self.cx.k.funcs[i].file == self.f.file).collect();
        if let Some(i) = pick(&cands).or(pick(&same)) {
            return Ok(Some(self.cx.auto(i, &self.e.clone())));
        }
        if !cands.is_empty() {
            return unsup(format!("ambiguous method {name}"));
        }
        Ok(None)
    }

    /// Emits a call to an extracted function with translated arguments.
    fn do_call(&mut self, n: &str, args: &[&Expr], generics: Option<&PathArguments>, ls: &mut Vec<L>) -> Res<String> {
        self.cx.emit(n);
        self.note(n)?;
        let ent = self.cx.entries[n].clone();
        let callee = self.cx.k.funcs[ent.func].clone();
        let mut s = self.qual(n);
        for v in &ent.info.tyvars {
            s += &format!(" ({v} := {v})");
        }
        // const generics
        let (cc, ctys) = {
            let t = TyCx::new(self.cx, &callee);
            let tys: Vec<Res<String>> = callee
                .sig
                .inputs
                .iter()
                .map(|a| match a {
                    FnArg::Receiver(_) => Ok("self".into()),
                    FnArg::Typed(x) => t.ty(&x.ty),
                })
                .collect();
            (t.consts.clone(), tys)
        };
        // an opaque type variable (`T`) that the call names
        if let Some(PathArguments::AngleBracketed(a)) = generics {
            let gp: Vec<String> = callee.sig.generics.type_params().map(|p| p.ident.to_string()).collect();
            let gs: Vec<Type> = a.args.iter().filter_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None }).collect();
            if gp.len() == gs.len() {
                let lean: Vec<Option<String>> = {
                    let t = TyCx::new(self.cx, &callee);
                    gp.iter().map(|p| t.gen.get(p).cloned()).collect()
                };
                for (l, g) in lean.iter().zip(gs.iter()) {
                    if l.as_deref() == Some("T") && !matches!(g, Type::Infer(_)) {
                        let v = self.ty(g)?;
                        s += &format!(" (T := {v})");
                    }
                }
            }
        }
        let mut turbo: Vec<String> = vec![];
        if let Some(PathArguments::AngleBracketed(a)) = generics {
            for g in &a.args {
                match g {
                    GenericArgument::Const(e) => turbo.push(self.ex(e, ls)?),
                    GenericArgument::Type(t) => {
                        if let Some(i) = last_ident(t) {
                            if TyCx::new(self.cx, &self.f).consts.contains(&i) {
                                turbo.push(i);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        let own = TyCx::new(self.cx, &self.f).consts;
        for (i, c) in cc.iter().enumerate() {
            if own.contains(c) && turbo.len() != cc.len() {
                s += &format!(" {c}");
            } else if turbo.len() == cc.len() {
                s += &format!(" {}", turbo[i]);
            } else {
                return unsup(format!("const generic {c} of {n}"));
            }
        }
        let mut lvs: Vec<Expr> = vec![];
        for (j, a) in args.iter().enumerate() {
            if ctys.get(j).map_or(false, |t| t.as_deref() == Ok("Net")) && self.cx.cfg["drop_net"].as_bool().unwrap_or(false) {
                continue;
            }
            // a slice made into an array of known length
            let mut arr = None;
            if let Expr::MethodCall(m) = strip(a) {
                if let (true, Expr::MethodCall(m2)) = (m.method == "unwrap" || m.method == "expect", &*m.receiver) {
                    if m2.method == "try_into" {
                        if let Some(FnArg::Typed(x)) = callee.sig.inputs.get(j) {
                            let mut t = &*x.ty;
                            while let Type::Reference(r) = t {
                                t = &r.elem;
                            }
                            if let Type::Array(t) = t {
                                arr = Some(((*m2.receiver).clone(), t.len.clone()));
                            }
                        }
                    }
                }
            }
            let a: &Expr = match &arr {
                Some((x, _)) => x,
                None => a,
            };
            let v = if let Expr::Closure(_) = a {
                return unsup("closure argument");
            } else {
                self.ex(a, ls)?
            };
            if let Some((_, n)) = &arr {
                let n = self.ex(n, ls)?;
                ls.push(L::If(format!("!({v}.length == {n})"), vec![L::Throw(PANIC)], vec![]));
            }
            s += &format!(" {}", atom(&v));
            if ent.info.muts.contains(&j) {
                lvs.push(a.clone());
            }
        }
        let pure = self.cx.pure_fns.contains(n);
        let call = format!("({s})");
        if lvs.is_empty() {
            if pure {
                return Ok(call);
            }
            let t = self.tmp();
            ls.push(L::Bind(t.clone(), None, call));
            return Ok(t);
        }
        let r = self.tmp();
        if pure {
            ls.push(L::Let(r.clone(), None, call));
        } else {
            ls.push(L::Bind(r.clone(), None, call));
        }
        let total = lvs.len() + if ent.info.unit { 0 } else { 1 };
        let off = if ent.info.unit { 0 } else { 1 };
        for (j, lv) in lvs.iter().enumerate() {
            let v = if total == 1 { r.clone() } else { format!("{r}{}", proj(j + off, total)) };
            self.assign(strip(lv), v, ls)?;
        }
        Ok(if ent.info.unit {
            "()".into()
        } else if total == 1 {
            r
        } else {
            format!("{r}.1")
        })
    }

    /// Calls given by the configuration: {"lean": .., "monadic": bool, "muts": [..], "drop": [..]}
    fn extern_call(&mut self, spec: &serde_json::Value, args: &[&Expr], ls: &mut Vec<L>) -> Res<String> {
        let mut s = spec["lean"].as_str().unwrap().to_string();
        let list = |k: &str| -> Vec<usize> { spec[k].as_array().map_or(vec![], |v| v.iter().map(|x| x.as_u64().unwrap() as usize).collect()) };
        let (muts, drop) = (list("muts"), list("drop"));
        let mut lvs = vec![];
        let templ = s.contains('$');
        let mut vals = vec![];
        for (j, a) in args.iter().enumerate() {
            if drop.contains(&j) {
                vals.push(String::new());
                continue;
            }
            let v = self.ex(a, ls)?;
            vals.push(atom(&v));
            if muts.contains(&j) {
                lvs.push((*a).clone());
            }
        }
        if templ {
            for (j, v) in vals.iter().enumerate() {
                s = s.replace(&format!("${j}"), v);
            }
        } else {
            for v in &vals {
                if !v.is_empty() {
                    s += &format!(" {v}");
                }
            }
        }
        let call = format!("({s})");
        let mon = spec["monadic"].as_bool().unwrap_or(false);
        let unit = spec["unit"].as_bool().unwrap_or(false);
        if lvs.is_empty() && !mon {
            return Ok(call);
        }
        let r = self.tmp();
        ls.push(if mon { L::Bind(r.clone(), None, call) } else { L::Let(r.clone(), None, call) });
        if lvs.is_empty() {
            return Ok(r);
        }
        let total = lvs.len() + if unit { 0 } else { 1 };
        let off = if unit { 0 } else { 1 };
        for (j, lv) in lvs.iter().enumerate() {
            let v = if total == 1 { r.clone() } else { format!("{r}{}", proj(j + off, total)) };
            self.assign(strip(lv), v, ls)?;
        }
        Ok(if unit {
            spec["value"].as_str().unwrap_or("()").into()
        } else if total == 1 {
            r
        } else {
            format!("{r}.1")
        })
    }

    fn call(&mut self, c: &ExprCall, ls: &mut Vec<L>) -> Res<String> {
        let Expr::Path(p) = &*c.func else { return unsup(format!("call {}", ts(&c.func))) };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = segs.last().unwrap().clone();
        let args: Vec<&Expr> = c.args.iter().collect();
        if segs.len() == 1 && name == self.f.name && is_recursive(self.cx, &self.e.lean) {
            let spec = serde_json::json!({"lean": "rec__", "monadic": true, "muts": self.e.info.muts, "unit": self.e.info.unit});
            return self.extern_call(&spec, &args, ls);
        }
        // configured
        let mut keys = vec![segs.join("::"), if segs.len() >= 2 { segs[segs.len() - 2..].join("::") } else { "-".into() }];
        if segs.len() >= 2 {
            let t = &segs[segs.len() - 2];
            if let Some(a) = self.cx.k.aliases.get(&self.f.file).and_then(|m| m.get(t)) {
                keys.push(format!("{}::{}", last_ident(&a.ty).unwrap_or_default(), name));
            }
        }
        for k in &keys {
            if let Some(x) = self.cx.cfg["externs"].get(k).cloned() {
                return self.extern_call(&x, &args, ls);
            }
        }
        if let (Some(q), true) = (&p.qself, true) {
            let t = self.ty(&q.ty)?;
            return self.assoc_call(&t, &name, &args, p, ls);
        }
        if segs.len() == 1 {
            match name.as_str() {
                "Some" => {
                    let v = self.ex(args[0], ls)?;
                    return Ok(format!("(some {})", atom(&v)));
                }
                "Ok" => return self.ex(args[0], ls),
                "Err" => {
                    ls.push(L::Throw(ERR));
                    return Ok("default".into());
                }
                "max" | "min" => {
                    let a = self.ex(args[0], ls)?;
                    let b = self.ex(args[1], ls)?;
                    return Ok(format!("({name} {} {})", atom(&a), atom(&b)));
                }
                "drop" => return Ok("()".into()),
                "join" => return self.join(&args, ls),
                _ => {}
            }
            if let Some(Var::Lean(_)) = self.var(&name) {
                return unsup(format!("call of closure {name}"));
            }
        }
        let two = if segs.len() >= 2 { segs[segs.len() - 2].as_str() } else { "" };
        match (two, name.as_str()) {
            ("Vec", "new") | ("Vec", "with_capacity") | ("VecDeque", "new") | ("VecDeque", "with_capacity") => return Ok("[]".into()),
            ("cmp", "max") | ("cmp", "min") | ("usize", "max") | ("usize", "min") => {
                let a = self.ex(args[0], ls)?;
                let b = self.ex(args[1], ls)?;
                return Ok(format!("({name} {} {})", atom(&a), atom(&b)));
            }
            ("eyre", "Ok") => return self.ex(args[0], ls),
            ("mem", "take") => {
                let v = self.ex(args[0], ls)?;
                let t = self.tmp();
                ls.push(L::Let(t.clone(), None, v));
                self.assign(strip(args[0]), "default".into(), ls)?;
                return Ok(t);
            }
            ("mem", "replace") => {
                let v = self.ex(args[0], ls)?;
                let t = self.tmp();
                ls.push(L::Let(t.clone(), None, v));
                let w = self.ex(args[1], ls)?;
                self.assign(strip(args[0]), w, ls)?;
                return Ok(t);
            }
            ("mem", "swap") => {
                let a = self.ex(args[0], ls)?;
                let b = self.ex(args[1], ls)?;
                let (t, u) = (self.tmp(), self.tmp());
                ls.push(L::Let(t.clone(), None, a));
                ls.push(L::Let(u.clone(), None, b));
                self.assign(strip(args[0]), u, ls)?;
                self.assign(strip(args[1]), t, ls)?;
                return Ok("()".into());
            }
            ("rayon", "join") | ("mpc_net", "join" | "join3" | "join4" | "join5" | "join6" | "join7" | "join8") => return self.join(&args, ls),
            ("rayon", "current_num_threads") => return Ok("numThreads".into()),
            ("iter", "repeat_n") => {
                let a = self.ex(args[0], ls)?;
                let b = self.ex(args[1], ls)?;
                return Ok(format!("(List.replicate {} {})", atom(&b), atom(&a)));
            }
            ("iter", "once") => {
                let a = self.ex(args[0], ls)?;
                return Ok(format!("[{a}]"));
            }
            ("array", "from_fn") => {
                return unsup("array::from_fn");
            }
            _ => {}
        }
        if segs.len() >= 2 {
            if let Some(t) = self.prefix_ty(&p.path) {
                if let Ok(x) = self.assoc_call(&t, &name, &args, p, ls) {
                    return Ok(x);
                }
            }
            // enum variant with payload
            let en = two;
            if self.cx.k.enums.iter().any(|x| x.1.ident == en && x.1.variants.iter().any(|v| v.ident == name)) {
                let v: Res<Vec<String>> = args.iter().map(|a| self.ex(a, ls)).collect();
                return Ok(format!("({en}.{name} {})", v?.iter().map(|x| atom(x)).collect::<Vec<_>>().join(" ")));
            }
        }
        if let Some(n) = self.resolve(&p.path)? {
            let g = p.path.segments.last().unwrap().arguments.clone();
            let g2 = if p.path.segments.len() >= 2 { p.path.segments[p.path.segments.len() - 2].arguments.clone() } else { PathArguments::None };
            let g = if matches!(g, PathArguments::None) { g2 } else { g };
            return self.do_call(&n, &args, Some(&g), ls);
        }
        unsup(format!("call {}", ts(&c.func)))
    }

    /// a macro_rules! of the same file with one arm of plain expression arguments, expanded
    fn expand(&mut self, m: &Macro) -> Res<Option<Expr>> {
        use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
        let n = m.path.segments.last().unwrap().ident.to_string();
        let own = self.cx.k.macros.get(&(self.f.file.clone(), n.clone())).cloned();
        // a macro of another file, if its name is unique
        let own = own.or_else(|| {
            let c: Vec<_> = self.cx.k.macros.iter().filter(|(k, _)| k.1 == n).collect();
            if c.len() == 1 { Some(c[0].1.clone()) } else { None }
        });
        let Some(def) = own else { return Ok(None) };
        let tt: Vec<TokenTree> = def.into_iter().collect();
        let (Some(TokenTree::Group(pat)), Some(TokenTree::Group(body))) = (tt.first(), tt.get(3)) else { return unsup(format!("macro_rules {n}")) };
        if tt.len() > 5 || (tt.len() == 5 && tt[4].to_string() != ";") {
            return unsup(format!("macro_rules {n} with several arms"));
        }
        let mut names = vec![];
        let pt: Vec<String> = pat.stream().into_iter().map(|t| t.to_string()).collect();
        for c in pt.split(|t| t == ",") {
            match c {
                [d, x, col, k] if d == "$" && col == ":" && k == "expr" => names.push(x.clone()),
                [] => {}
                _ => return unsup(format!("macro_rules {n} with pattern {}", pat)),
            }
        }
        let args = macro_args(m)?;
        if args.len() != names.len() {
            return unsup(format!("arguments of {n}!"));
        }
        let map: HashMap<String, TokenStream> = names.into_iter().zip(args.iter().map(|a| quote::ToTokens::to_token_stream(a))).collect();
        fn subst(s: TokenStream, map: &HashMap<String, TokenStream>) -> TokenStream {
            let mut out = TokenStream::new();
            let v: Vec<TokenTree> = s.into_iter().collect();
            let mut i = 0;
            while i < v.len() {
                match &v[i] {
                    TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < v.len() && map.contains_key(&v[i + 1].to_string()) => {
                        out.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, map[&v[i + 1].to_string()].clone()))]);
                        i += 2;
                        continue;
                    }
                    TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), map)))]),
                    t => out.extend([t.clone()]),
                }
                i += 1;
            }
            out
        }
        let b = subst(body.stream(), &map);
        let e = match syn::parse2::<Expr>(b.clone()) {
            Ok(e) => e,
            Err(_) => syn::parse2::<Expr>(TokenStream::from(TokenTree::Group(Group::new(Delimiter::Brace, b)))).map_err(|e| format!("unsupported: macro {n}!: {e}"))?,
        };
        Ok(Some(e))
    }

    fn join(&mut self, args: &[&Expr], ls: &mut Vec<L>) -> Res<String> {
        let mut v = vec![];
        for a in args {
            let Expr::Closure(c) = strip(a) else { return unsup("join of non-closures") };
            self.cx.drops.insert("concurrent join run in order".into());
            let b = self.closure_inline(c, ls)?;
            v.push(b);
        }
        Ok(format!("({})", v.join(", ")))
    }
    /// body of a parameterless closure in place
    fn closure_inline(&mut self, c: &ExprClosure, ls: &mut Vec<L>) -> Res<String> {
        self.ex(&c.body, ls)
    }

    fn assoc_call(&mut self, t: &str, name: &str, args: &[&Expr], _p: &ExprPath, ls: &mut Vec<L>) -> Res<String> {
        let is_fg = matches!(t, "F" | "G" | "G1" | "G2");
        let cfgd = self.cx.cfg["generics"].as_object().is_some_and(|m| m.values().any(|v| v.as_str() == Some(t)));
        if !is_fg && !cfgd {
            return unsup(format!("{t}::{name}"));
        }
        Ok(match (name, args.len()) {
            ("from", 1) => {
                let v = self.ex(args[0], ls)?;
                if t == "F" || cfgd {
                    format!("(rfrom {} : {t})", atom(&v))
                } else {
                    v
                }
            }
            ("zero", 0) | ("default", 0) => format!("(0 : {t})"),
            ("one", 0) => format!("(1 : {t})"),
            ("generator", 0) => format!("(generator : {t})"),
            ("rand", 1) => {
                let r = self.ex(args[0], ls)?;
                let u = self.tmp();
                ls.push(L::Let(u.clone(), None, format!("(Rng.draw{} {} : {t} × Rng)", if t == "F" { "F" } else { "G" }, atom(&r))));
                self.assign(strip(args[0]), format!("{u}.2"), ls)?;
                format!("{u}.1")
            }
            _ => return unsup(format!("{t}::{name}")),
        })
    }

    /// Translates a closure to (parameters, body).
    fn closure(&mut self, e: &Expr) -> Res<(Vec<String>, Blk)> {
        let Expr::Closure(c) = e else { return unsup(format!("function value {}", ts(e))) };
        self.scopes.push(HashMap::new());
        let mut ps = vec![];
        for p in &c.inputs {
            let ann = if let Pat::Type(t) = p { self.ty(&t.ty).ok() } else { None };
            let s = self.pat(p)?;
            ps.push(match ann {
                Some(a) => format!("({s} : {a})"),
                None => s,
            });
        }
        let (sm, su, sr) = (std::mem::take(&mut self.ret_mut), self.unit, self.is_result);
        self.unit = false;
        self.is_result = true; // Ok(..) inside closures
        let r = match &*c.body {
            Expr::Block(b) => self.block_val(&b.block),
            x => {
                let mut ls = vec![];
                self.tail(x, true, &mut ls).map(|tail| Blk { ls, tail })
            }
        };
        self.ret_mut = sm;
        self.unit = su;
        self.is_result = sr;
        self.scopes.pop();
        let b = r?;
        let mut v = vec![];
        collect_assigned(&b, &mut v);
        if !v.is_empty() {
            return unsup(format!("closure assigns {}", v.join(",")));
        }
        Ok((ps, b))
    }
    fn block_val(&mut self, b: &Block) -> Res<Blk> {
        self.block(b, true)
    }

    /// `(fun .. => ..)`, monadic?
    fn lam(&mut self, e: &Expr) -> Res<(String, bool)> {
        if let Expr::Path(p) = e {
            let n = p.path.segments.last().unwrap().ident.to_string();
            let two = path_str(&p.path);
            match n.as_str() {
                "clone" | "to_owned" | "from" | "into" | "into_group" | "into_affine" => return Ok(("(fun x => x)".into(), false)),
                "zero" => {
                    if let Some(t) = self.prefix_ty(&p.path) {
                        return Ok((format!("(0 : {t})"), false));
                    }
                }
                "new" if two == "Vec::new" => return Ok(("(fun _ => [])".into(), false)),
                _ => {}
            }
            if let Some(x) = self.cx.cfg["externs"].get(&two).cloned() {
                return Ok((x["lean"].as_str().unwrap().into(), x["monadic"].as_bool().unwrap_or(false)));
            }
            if let Some(m) = self.resolve(&p.path)? {
                self.cx.emit(&m);
                self.note(&m)?;
                let pure = self.cx.pure_fns.contains(&m);
                let tv: String = self.cx.entries[&m].info.tyvars.iter().map(|v| format!(" ({v} := {v})")).collect();
                return Ok((format!("(fun x => {}{} x)", self.qual(&m), tv), !pure));
            }
            return unsup(format!("function value {two}"));
        }
        let (p, b) = self.closure(e)?;
        let m = blk_monadic(&b);
        let ps = if p.is_empty() { String::from("(_ : Unit)") } else { p.join(" ") };
        Ok((format!("(fun {ps} =>{}\n{}    )", if m { " do" } else { "" }, blk(&b, 4, m)), m))
    }

    fn is_iter_chain(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                matches!(
                    n.as_str(),
                    "iter" | "into_iter" | "par_iter" | "into_par_iter" | "chunks" | "chunks_exact" | "par_chunks" | "windows" | "zip" | "zip_eq" | "enumerate" | "rev" | "skip" | "take" | "map" | "filter" | "step_by" | "cloned" | "copied" | "chain" | "with_min_len" | "flat_map" | "flatten"
                )
            }
            Expr::Paren(p) => self.is_iter_chain(&p.expr),
            Expr::Range(_) => true,
            Expr::Macro(m) => m.mac.path.segments.last().unwrap().ident == "izip",
            _ => false,
        }
    }

    fn method(&mut self, m: &ExprMethodCall, ls: &mut Vec<L>) -> Res<String> {
        let name = m.method.to_string();
        let key = format!(".{name}");
        if let Some(x) = self.cx.cfg["externs"].get(&key).cloned() {
            let mut a: Vec<&Expr> = vec![&m.receiver];
            a.extend(m.args.iter());
            return self.extern_call(&x, &a, ls);
        }
        if let Some(x) = self.cx.cfg["methods"].get(&name).and_then(|x| x.as_str()).map(|s| s.to_string()) {
            let mut a: Vec<&Expr> = vec![&m.receiver];
            a.extend(m.args.iter());
            let g = m.turbofish.as_ref().map(|t| PathArguments::AngleBracketed(t.clone()));
            return self.do_call(&x, &a, g.as_ref(), ls);
        }
        let nargs = m.args.len();
        macro_rules! recv {
            () => {
                self.ex(&m.receiver, ls)?
            };
        }
        macro_rules! arg {
            ($i:expr) => {
                atom(&self.ex(&m.args[$i], ls)?)
            };
        }
        Ok(match (name.as_str(), nargs) {
            ("collect", 0) if m.turbofish.as_ref().is_some_and(|t| matches!(t.args.first(), Some(GenericArgument::Type(t)) if last_ident(t).as_deref() == Some("BTreeMap"))) => format!("(BMap.ofList {})", atom(&recv!())),
            ("filter_map", 1) => {
                let a = recv!();
                let (f, mon) = self.lam(&m.args[0])?;
                if mon {
                    return unsup("fallible filter_map");
                }
                format!("({a}.filterMap {f})")
            }
            ("collect", 0) if m.turbofish.as_ref().is_some_and(|t| matches!(t.args.first(), Some(GenericArgument::Type(Type::Tuple(_))))) => format!("(List.unzip {})", atom(&recv!())),
            ("unzip", 0) => format!("(List.unzip {})", atom(&recv!())),
            ("iter", 0) | ("into_iter", 0) | ("par_iter", 0) | ("into_par_iter", 0) | ("cloned", 0) | ("copied", 0) | ("collect", 0) | ("collect_vec", 0)
            | ("to_vec", 0) | ("to_owned", 0) | ("clone", 0) | ("as_slice", 0) | ("as_ref", 0) | ("into", 0) | ("into_group", 0) | ("into_affine", 0)
            | ("into_boxed_slice", 0) | ("into_vec", 0) | ("borrow", 0) | ("deref", 0) | ("iter_mut", 0) | ("as_mut", 0) | ("as_mut_slice", 0) | ("by_ref", 0) | ("into_bigint", 0) | ("peekable", 0) => recv!(),
            ("with_context", 1) | ("context", 1) if self.option_call(&m.receiver) => {
                let a = recv!();
                let t = self.tmp();
                ls.push(L::Bind(t.clone(), None, format!("(okOr {})", atom(&a))));
                t
            }
            ("with_min_len", 1) | ("with_max_len", 1) | ("with_context", 1) | ("context", 1) | ("wrap_err", 1) | ("map_err", 1) | ("wrap_err_with", 1) => {
                self.cx.drops.insert(format!(".{name}(..)"));
                recv!()
            }
            ("reserve", 1) | ("shrink_to_fit", 0) => "()".into(),
            ("len", 0) => format!("{}.length", recv!()),
            ("is_empty", 0) => format!("{}.isEmpty", recv!()),
            ("rev", 0) => format!("({}.reverse)", recv!()),
            ("zip", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("(List.zip {} {b})", atom(&a))
            }
            ("zip_eq", 1) => {
                let a = recv!();
                let b = arg!(0);
                let t = self.tmp();
                ls.push(L::Bind(t.clone(), None, format!("(zipEq {} {b})", atom(&a))));
                t
            }
            ("chain", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("({a} ++ {b})")
            }
            ("enumerate", 0) => format!("(renum {})", atom(&recv!())),
            ("skip", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("({a}.drop {b})")
            }
            ("take", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("({a}.take {b})")
            }
            ("take", 0) => {
                let a = recv!();
                let t = self.tmp();
                ls.push(L::Let(t.clone(), None, a));
                self.assign(&m.receiver, "none".into(), ls)?;
                t
            }
            ("step_by", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("(stepBy {b} {})", atom(&a))
            }
            ("chunks", 1) | ("par_chunks", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("(toChunks {b} {})", atom(&a))
            }
            ("chunks_exact", 1) | ("par_chunks_exact", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("(toChunksExact {b} {})", atom(&a))
            }
            ("windows", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("(toWindows {b} {})", atom(&a))
            }
            ("sum", 0) => format!("({}.sum)", recv!()),
            ("product", 0) => format!("({}.prod)", recv!()),
            ("concat", 0) | ("flatten", 0) => format!("({}.flatten)", recv!()),
            ("first", 0) => format!("({}.head?)", recv!()),
            ("last", 0) => format!("({}.getLast?)", recv!()),
            ("last_mut", 0) => format!("({}.getLast?)", recv!()),
            ("get", 1) => {
                let a = recv!();
                if let Expr::Range(r) = &m.args[0] {
                    let (lo, hi) = self.range(r, &a, ls)?;
                    format!("(slice? {} {} {})", atom(&a), atom(&lo), atom(&hi))
                } else {
                    let b = arg!(0);
                    format!("({a}[{b}]?)")
                }
            }
            ("contains", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("({a}.contains {b})")
            }
            ("unwrap", 0) | ("expect", 1) => {
                // a Result-returning call has been unwrapped already
                let a = recv!();
                if self.result_call(&m.receiver) {
                    self.cx.drops.insert("unwrap of a Result: a failure is reported as the callee's".into());
                    return Ok(a);
                }
                let t = self.tmp();
                ls.push(L::Bind(t.clone(), None, format!("(unwrap {})", atom(&a))));
                t
            }
            ("ok_or", 1) | ("ok_or_else", 1) => {
                let a = recv!();
                let t = self.tmp();
                ls.push(L::Bind(t.clone(), None, format!("(okOr {})", atom(&a))));
                t
            }
            ("ok", 0) if self.option_call(&m.receiver) => recv!(),
            ("unwrap_or", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("({a}.getD {b})")
            }
            ("unwrap_or_default", 0) => {
                let a = recv!();
                format!("({a}.getD default)")
            }
            ("unwrap_or_else", 1) => {
                let a = recv!();
                let (f, mon) = self.lam(&m.args[0])?;
                if mon {
                    return unsup("unwrap_or_else");
                }
                if f.starts_with("(0") {
                    format!("({a}.getD {f})")
                } else {
                    format!("({a}.getD ({f} ()))")
                }
            }
            ("cmp", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("(compare {a} {b})")
            }
            ("is_some_and", 1) | ("is_none_or", 1) => {
                let a = recv!();
                let (f, mon) = self.lam(&m.args[0])?;
                if mon {
                    return unsup(name);
                }
                format!("({a}.{} {f})", if name == "is_some_and" { "any" } else { "all" })
            }
            ("is_err", 0) | ("is_ok", 0) => {
                // the outcome of a call, as a value: `isErr` of the module's world
                let mut pre = vec![];
                let v = self.ex(&m.receiver, &mut pre)?;
                match pre.pop() {
                    Some(L::Bind(t, None, call)) if t == v => {
                        ls.append(&mut pre);
                        let t = self.tmp();
                        ls.push(L::Bind(t.clone(), None, format!("(isErr {call})")));
                        if name == "is_err" { t } else { format!("(!{t})") }
                    }
                    _ => return unsup(format!("method .{name}()")),
                }
            }
            ("is_some", 0) => format!("({}.isSome)", recv!()),
            ("is_none", 0) => format!("({}.isNone)", recv!()),
            ("is_zero", 0) => format!("({} == 0)", recv!()),
            ("is_one", 0) => format!("({} == 1)", recv!()),
            ("inverse", 0) => format!("(inv? {})", atom(&recv!())),
            ("square", 0) => {
                let a = recv!();
                format!("({a} * {a})")
            }
            ("double", 0) => {
                let a = recv!();
                format!("({a} + {a})")
            }
            ("neg", 0) => format!("(-{})", recv!()),
            ("add", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("({a} + {b})")
            }
            ("mul", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("({a} * {b})")
            }
            ("sub", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("(psub {} {b})", atom(&a))
            }
            ("pow", 1) => {
                let a = recv!();
                let b = match &m.args[0] {
                    Expr::Array(x) if x.elems.len() == 1 => atom(&self.ex(&x.elems[0], ls)?),
                    Expr::Reference(r) => match &*r.expr {
                        Expr::Array(x) if x.elems.len() == 1 => atom(&self.ex(&x.elems[0], ls)?),
                        _ => return unsup("pow"),
                    },
                    x => atom(&self.ex(x, ls)?),
                };
                format!("({a} ^ {b})")
            }
            ("add_assign", 1) | ("mul_assign", 1) | ("sub_assign", 1) => {
                let b = arg!(0);
                let a = recv!();
                let v = match name.as_str() {
                    "add_assign" => format!("({a} + {b})"),
                    "mul_assign" => format!("({a} * {b})"),
                    _ => format!("(psub {} {b})", atom(&a)),
                };
                self.assign(strip(&m.receiver), v, ls)?;
                "()".into()
            }
            ("neg_in_place", 0) | ("square_in_place", 0) | ("double_in_place", 0) => {
                let a = recv!();
                let v = match name.as_str() {
                    "neg_in_place" => format!("(-{a})"),
                    "square_in_place" => format!("({a} * {a})"),
                    _ => format!("({a} + {a})"),
                };
                self.assign(strip(&m.receiver), v, ls)?;
                "()".into()
            }
            ("div_ceil", 1) => {
                let a = recv!();
                let b = arg!(0);
                let t = self.tmp();
                ls.push(L::Bind(t.clone(), None, format!("(divCeil {} {b})", atom(&a))));
                t
            }
            ("next_power_of_two", 0) => format!("(nextPow2 {})", atom(&recv!())),
            ("is_power_of_two", 0) => format!("(isPow2 {})", atom(&recv!())),
            ("trailing_zeros", 0) => format!("(trailingZeros {})", atom(&recv!())),
            ("ilog2", 0) => format!("(Nat.log2 {})", atom(&recv!())),
            ("max", 1) | ("min", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("({name} {} {b})", atom(&a))
            }
            ("push", 1) | ("push_back", 1) => {
                let v = self.ex(&m.args[0], ls)?;
                let a = recv!();
                self.assign(strip(&m.receiver), format!("({a} ++ [{v}])"), ls)?;
                "()".into()
            }
            ("extend", 1) | ("extend_from_slice", 1) => {
                let v = arg!(0);
                let a = recv!();
                self.assign(strip(&m.receiver), format!("({a} ++ {v})"), ls)?;
                "()".into()
            }
            ("append", 1) => {
                let v = arg!(0);
                let a = recv!();
                self.assign(strip(&m.receiver), format!("({a} ++ {v})"), ls)?;
                self.assign(strip(&m.args[0]), "[]".into(), ls)?;
                "()".into()
            }
            ("pop", 0) | ("pop_back", 0) => {
                let a = recv!();
                let t = self.tmp();
                ls.push(L::Let(t.clone(), None, format!("({a}.getLast?)")));
                self.assign(strip(&m.receiver), format!("({a}.dropLast)"), ls)?;
                t
            }
            ("next", 0) if matches!(&*m.receiver, Expr::MethodCall(x) if x.method != "iter_mut" && x.method != "by_ref") => format!("({}.head?)", recv!()),
            ("pop_front", 0) | ("next", 0) => {
                let a = recv!();
                let t = self.tmp();
                ls.push(L::Let(t.clone(), None, format!("({a}.head?)")));
                self.assign(strip(&m.receiver), format!("({a}.tail)"), ls)?;
                t
            }
            ("insert", 2) => {
                let i = arg!(0);
                let v = arg!(1);
                let a = recv!();
                let t = self.tmp();
                ls.push(L::Bind(t.clone(), None, format!("(rinsert {} {i} {v})", atom(&a))));
                self.assign(strip(&m.receiver), t, ls)?;
                "()".into()
            }
            ("truncate", 1) => {
                let i = arg!(0);
                let a = recv!();
                self.assign(strip(&m.receiver), format!("({a}.take {i})"), ls)?;
                "()".into()
            }
            ("clear", 0) => {
                self.assign(strip(&m.receiver), "[]".into(), ls)?;
                "()".into()
            }
            ("resize", 2) => {
                let n = arg!(0);
                let v = arg!(1);
                let a = recv!();
                self.assign(strip(&m.receiver), format!("(resize {} {n} {v})", atom(&a)), ls)?;
                "()".into()
            }
            ("rotate_right" | "rotate_left", 1) => {
                let n = arg!(0);
                let a = recv!();
                let t = self.tmp();
                ls.push(L::Bind(t.clone(), None, format!("({} {} {n})", if name == "rotate_right" { "rotateRight" } else { "rotateLeft" }, atom(&a))));
                self.assign(strip(&m.receiver), t, ls)?;
                "()".into()
            }
            ("to_string", 0) if self.cx.cfg["strings"] == true && matches!(strip(&m.receiver), Expr::Lit(_)) => recv!(),
            ("reverse", 0) => {
                let a = recv!();
                self.assign(strip(&m.receiver), format!("({a}.reverse)"), ls)?;
                "()".into()
            }
            ("swap", 2) => {
                let i = arg!(0);
                let j = arg!(1);
                let a = recv!();
                let t = self.tmp();
                ls.push(L::Bind(t.clone(), None, format!("(rswap {} {i} {j})", atom(&a))));
                self.assign(strip(&m.receiver), t, ls)?;
                "()".into()
            }
            ("copy_from_slice", 1) | ("clone_from_slice", 1) => {
                let v = arg!(0);
                let a = recv!();
                let t = self.tmp();
                ls.push(L::Bind(t.clone(), None, format!("(copyFrom {} {v})", atom(&a))));
                self.assign(strip(&m.receiver), t, ls)?;
                "()".into()
            }
            ("split_off", 1) => {
                let n = arg!(0);
                let a = recv!();
                let t = self.tmp();
                ls.push(L::Bind(t.clone(), None, format!("(splitAt {} {n})", atom(&a))));
                self.assign(strip(&m.receiver), format!("{t}.1"), ls)?;
                format!("{t}.2")
            }
            ("split_at", 1) => {
                let n = arg!(0);
                let a = recv!();
                let t = self.tmp();
                ls.push(L::Bind(t.clone(), None, format!("(splitAt {} {n})", atom(&a))));
                t
            }
            ("drain", 1) => {
                let a = recv!();
                if let Expr::Range(r) = &m.args[0] {
                    let (lo, hi) = self.range(r, &a, ls)?;
                    let t = self.tmp();
                    ls.push(L::Bind(t.clone(), None, format!("(drain {} {} {})", atom(&a), atom(&lo), atom(&hi))));
                    self.assign(strip(&m.receiver), format!("{t}.2"), ls)?;
                    format!("{t}.1")
                } else {
                    return unsup("drain");
                }
            }
            ("map", 1) => {
                let a = recv!();
                if self.result_call(&m.receiver) {
                    let (f, mon) = self.lam(&m.args[0])?;
                    if mon {
                        let t = self.tmp();
                        ls.push(L::Bind(t.clone(), None, format!("({f} {})", atom(&a))));
                        return Ok(t);
                    }
                    return Ok(format!("({f} {})", atom(&a)));
                }
                match self.lam(&m.args[0]) {
                    Ok((f, mon)) => {
                        if mon {
                            let t = self.tmp();
                            ls.push(L::Bind(t.clone(), None, format!("({a}.mapM {f})")));
                            t
                        } else {
                            format!("({a}.map {f})")
                        }
                    }
                    Err(x) if x.contains("closure assigns") => {
                        // a mapping closure with state: as a collecting loop
                        let Expr::Closure(c) = &m.args[0] else { return Err(x) };
                        self.map_with_state(&a, c, ls)?
                    }
                    Err(x) => return Err(x),
                }
            }
            ("flat_map", 1) => {
                let a = recv!();
                let (f, mon) = self.lam(&m.args[0])?;
                if mon {
                    return unsup("flat_map");
                }
                format!("({a}.flatMap {f})")
            }
            ("filter", 1) | ("any", 1) | ("all", 1) | ("take_while", 1) | ("skip_while", 1) => {
                let a = recv!();
                let (f, mon) = self.lam(&m.args[0])?;
                if mon {
                    let t = self.tmp();
                    match name.as_str() {
                        "any" => ls.push(L::Bind(t.clone(), None, format!("({a}.anyM {f})"))),
                        "all" => ls.push(L::Bind(t.clone(), None, format!("({a}.allM {f})"))),
                        _ => return unsup(format!("fallible {name}")),
                    }
                    return Ok(t);
                }
                let n = match name.as_str() {
                    "take_while" => "takeWhile",
                    "skip_while" => "dropWhile",
                    x => x,
                };
                format!("({a}.{n} {f})")
            }
            ("fold", 2) | ("rfold", 2) => {
                let a = recv!();
                let i = arg!(0);
                let (f, mon) = self.lam(&m.args[1])?;
                let a = if name == "rfold" { format!("({a}.reverse)") } else { a };
                if mon {
                    let t = self.tmp();
                    ls.push(L::Bind(t.clone(), None, format!("(foldlM% {f} {i} {})", atom(&a))));
                    t
                } else {
                    format!("(foldl% {f} {i} {})", atom(&a))
                }
            }
            ("reduce", 2) => {
                let a = recv!();
                let (i, _) = self.lam(&m.args[0])?;
                let i = if i.starts_with("(fun _ => []") { "[]".into() } else if i.starts_with("(fun") { format!("({i} ())") } else { i };
                // a nullary function value is emitted as `(fun x => f x)`: apply to nothing
                let i = if let Expr::Path(p) = &m.args[0] {
                    if i.starts_with("((fun x =>") {
                        let n = self.resolve(&p.path)?.unwrap();
                        self.qual(&n)
                    } else {
                        i
                    }
                } else {
                    i
                };
                let (f, mon) = self.lam(&m.args[1])?;
                self.cx.drops.insert("parallel reduce run from left to right".into());
                if mon {
                    let t = self.tmp();
                    ls.push(L::Bind(t.clone(), None, format!("(foldlM% {f} {i} {})", atom(&a))));
                    t
                } else {
                    format!("(foldl% {f} {} {})", i, atom(&a))
                }
            }
            ("then_some", 1) => {
                let a = recv!();
                let b = arg!(0);
                format!("(if {a} then some {b} else none)")
            }
            ("and_then", 1) if !self.result_call(&m.receiver) => {
                let a = recv!();
                let (f, mon) = self.lam(&m.args[0])?;
                if mon {
                    return unsup("and_then");
                }
                format!("({a}.bind {f})")
            }
            ("id", 0) => {
                let a = recv!();
                format!("{a}.id_")
            }
            _ => {
                if let Some(n) = self.resolve_method(&name)? {
                    let mut a: Vec<&Expr> = vec![&m.receiver];
                    a.extend(m.args.iter());
                    let g = m.turbofish.as_ref().map(|t| PathArguments::AngleBracketed(t.clone()));
                    return self.do_call(&n, &a, g.as_ref(), ls);
                }
                return unsup(format!("method .{name}()"));
            }
        })
    }

    /// `src.map(|p| body)` where the body assigns outer variables
    fn map_with_state(&mut self, src: &str, c: &ExprClosure, ls: &mut Vec<L>) -> Res<String> {
        self.scopes.push(HashMap::new());
        let p = self.pat(&c.inputs[0])?;
        let mut b = vec![];
        let (sm, su, sr) = (std::mem::take(&mut self.ret_mut), self.unit, self.is_result);
        self.unit = false;
        self.is_result = true;
        let t = match &*c.body {
            Expr::Block(x) => {
                let mut y = self.block(&x.block, true)?;
                b.append(&mut y.ls);
                Ok(y.tail)
            }
            x => self.tail(x, true, &mut b),
        };
        self.ret_mut = sm;
        self.unit = su;
        self.is_result = sr;
        self.scopes.pop();
        let T::Val(v) = t? else { return unsup("closure with state and branches") };
        let acc = self.tmp();
        if has_ret(&b) {
            return unsup("return in a closure with state");
        }
        b.push(L::Set(acc.clone(), format!("({acc} ++ [{v}])")));
        ls.push(L::Let(acc.clone(), None, "[]".into()));
        ls.push(L::For(p, src.into(), b));
        Ok(acc)
    }

    /// whether the expression is a call of an extracted function returning a Result
    /// an external call that the configuration gives as an `Option` of its success value
    fn option_call(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.option_call(&p.expr),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => self.cx.cfg["externs"].get(path_str(&p.path)).map_or(false, |x| x["option"].as_bool().unwrap_or(false)),
                _ => false,
            },
            Expr::MethodCall(m) => self.cx.cfg["externs"].get(format!(".{}", m.method)).map_or(false, |x| x["option"].as_bool().unwrap_or(false)),
            _ => false,
        }
    }

    fn result_call(&mut self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.result_call(&p.expr),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Ok(Some(n)) = self.resolve(&p.path) {
                        return self.cx.entries[&n].info.is_result;
                    }
                }
                false
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if matches!(n.as_str(), "map_err" | "ok_or" | "ok_or_else" | "context" | "wrap_err") {
                    return true;
                }
                if let Some(x) = self.cx.cfg["externs"].get(format!(".{n}")) {
                    return x["monadic"].as_bool().unwrap_or(false);
                }
                if let Some(x) = self.cx.cfg["methods"].get(&n).and_then(|x| x.as_str()) {
                    return self.cx.entries.get(x).map_or(false, |e| e.info.is_result);
                }
                let c: Vec<&Func> = self.cx.k.funcs.iter().filter(|f| f.name == n && f.self_ty.is_some()).collect();
                !c.is_empty() && c.iter().all(|f| matches!(&f.sig.output, ReturnType::Type(_, t) if is_result(t))) && !matches!(n.as_str(), "map" | "inverse" | "get" | "first" | "last" | "pop" | "next")
            }
            _ => false,
        }
    }
}

fn collect_assigned(b: &Blk, v: &mut Vec<String>) {
    let mut w = vec![];
    assigned(&b.ls, &mut w);
    let declared: Vec<String> = b
        .ls
        .iter()
        .filter_map(|l| match l {
            L::Let(p, _, _) | L::Bind(p, _, _) => Some(p.clone()),
            _ => None,
        })
        .collect();
    for x in w {
        if !v.contains(&x) {
            v.push(x);
        }
    }
    let mut inner = vec![];
    match &b.tail {
        T::If(_, a, c) => {
            collect_assigned(a, &mut inner);
            collect_assigned(c, &mut inner);
        }
        T::Match(_, arms) => arms.iter().for_each(|a| collect_assigned(&a.1, &mut inner)),
        _ => {}
    }
    for x in inner {
        if !declared.iter().any(|d| word_in(d, &x)) && !v.contains(&x) {
            v.push(x);
        }
    }
}
fn tail_has_ret(b: &Blk) -> bool {
    has_ret(&b.ls)
        || match &b.tail {
            T::If(_, a, c) => tail_has_ret(a) || tail_has_ret(c),
            T::Match(_, arms) => arms.iter().any(|a| tail_has_ret(&a.1)),
            _ => false,
        }
}
fn word_in(s: &str, w: &str) -> bool {
    s.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '\'')).any(|x| x == w)
}
fn mentions(ls: &[L], w: &str) -> bool {
    word_in(&format!("{ls:?}"), w)
}
/// projection j of an n-tuple (right nested)
fn proj(j: usize, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..j {
        s += ".2";
    }
    if j + 1 < n {
        s += ".1";
    }
    s
}
fn atom(s: &str) -> String {
    let simple = s.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.' || c == '\'');
    if simple || (s.starts_with('(') && balanced(s)) || (s.starts_with('[') && balanced(s)) || (s.starts_with('{') && balanced(s)) {
        s.to_string()
    } else {
        format!("({s})")
    }
}
fn balanced(s: &str) -> bool {
    let mut d = 0i32;
    let n = s.chars().count();
    for (i, c) in s.chars().enumerate() {
        match c {
            '(' | '[' | '{' => d += 1,
            ')' | ']' | '}' => {
                d -= 1;
                if d == 0 && i + 1 < n {
                    return false;
                }
            }
            _ => {}
        }
    }
    d == 0
}
fn natish(f: &Func, s: &str) -> bool {
    // integers are recognised by shape: literals, lengths, casts of integer parameters
    if s.chars().all(|c| c.is_ascii_digit()) || s.ends_with(".length") || s.ends_with(": ℕ)") {
        return true;
    }
    // a parameter of integer type
    for a in &f.sig.inputs {
        if let FnArg::Typed(t) = a {
            if let (Pat::Ident(p), Some(ty)) = (&*t.pat, last_ident(&t.ty)) {
                if lean_id(&p.ident.to_string()) == s && matches!(ty.as_str(), "usize" | "u64" | "u32" | "u8" | "u128" | "u16") {
                    return true;
                }
            }
        }
    }
    f.sig.generics.params.iter().chain(f.impl_gen.iter().flat_map(|g| g.params.iter())).any(|p| matches!(p, GenericParam::Const(c) if c.ident == s))
}
fn pat_vars(p: &Pat) -> Vec<String> {
    match p {
        Pat::Ident(i) => vec![i.ident.to_string()],
        Pat::Tuple(t) => t.elems.iter().flat_map(pat_vars).collect(),
        Pat::TupleStruct(t) => t.elems.iter().flat_map(pat_vars).collect(),
        Pat::Reference(r) => pat_vars(&r.pat),
        Pat::Paren(r) => pat_vars(&r.pat),
        Pat::Type(r) => pat_vars(&r.pat),
        _ => vec![],
    }
}
fn is_assign_op(o: &BinOp) -> bool {
    matches!(
        o,
        BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitXorAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)
    )
}
fn assign_base(o: &BinOp) -> BinOp {
    match o {
        BinOp::AddAssign(_) => BinOp::Add(Default::default()),
        BinOp::SubAssign(_) => BinOp::Sub(Default::default()),
        BinOp::MulAssign(_) => BinOp::Mul(Default::default()),
        BinOp::DivAssign(_) => BinOp::Div(Default::default()),
        BinOp::RemAssign(_) => BinOp::Rem(Default::default()),
        BinOp::BitAndAssign(_) => BinOp::BitAnd(Default::default()),
        BinOp::BitOrAssign(_) => BinOp::BitOr(Default::default()),
        BinOp::BitXorAssign(_) => BinOp::BitXor(Default::default()),
        BinOp::ShlAssign(_) => BinOp::Shl(Default::default()),
        BinOp::ShrAssign(_) => BinOp::Shr(Default::default()),
        x => *x,
    }
}
pub fn macro_args(m: &Macro) -> Res<Vec<Expr>> {
    use syn::punctuated::Punctuated;
    m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
        .map(|p| p.into_iter().collect())
        .map_err(|e| format!("unsupported: macro arguments {}: {e}", ts(m)))
}
struct VecRepeat(Expr, Expr);
impl syn::parse::Parse for VecRepeat {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let a: Expr = i.parse()?;
        i.parse::<Token![;]>()?;
        let b: Expr = i.parse()?;
        Ok(VecRepeat(a, b))
    }
}

/// `x @ pat` as the last arm of a match is just `x` (matches are exhaustive) when `pat` binds nothing itself.
fn last_pat(p: &Pat, last: bool) -> Pat {
    fn binds(p: &Pat) -> bool {
        match p {
            Pat::Ident(i) => i.subpat.is_some() || i.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase()),
            Pat::Tuple(t) => t.elems.iter().any(binds),
            Pat::TupleStruct(t) => t.elems.iter().any(binds),
            Pat::Or(o) => o.cases.iter().any(binds),
            Pat::Paren(r) => binds(&r.pat),
            Pat::Reference(r) => binds(&r.pat),
            Pat::Wild(_) | Pat::Path(_) | Pat::Lit(_) | Pat::Rest(_) => false,
            _ => true,
        }
    }
    match p {
        Pat::Ident(i) if last => match &i.subpat {
            Some((_, s)) if !binds(s) => Pat::Ident(PatIdent { subpat: None, ..i.clone() }),
            _ => p.clone(),
        },
        _ => p.clone(),
    }
}
