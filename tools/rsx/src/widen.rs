//! `rsx widen SRC DST ...`: copies a Rust file with every non-trait item, inherent method and field made `pub`.
//! Only visibilities change; nothing else of the text does.
use proc_macro2::LineColumn;
use std::fs;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::Visibility;

#[derive(Default)]
struct W {
    /// (start, end, replacement)
    edits: Vec<(LineColumn, LineColumn, &'static str)>,
}

impl W {
    fn vis(&mut self, v: &Visibility, at: LineColumn) {
        match v {
            Visibility::Public(_) => {}
            Visibility::Restricted(r) => {
                let s = r.span();
                self.edits.push((s.start(), s.end(), "pub"));
            }
            Visibility::Inherited => self.edits.push((at, at, "pub ")),
        }
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && quote::quote!(#a).to_string().contains("test"))
}

impl<'a> Visit<'a> for W {
    fn visit_item_mod(&mut self, i: &'a syn::ItemMod) {
        if is_test(&i.attrs) {
            return;
        }
        self.vis(&i.vis, i.mod_token.span().start());
        visit::visit_item_mod(self, i);
    }
    fn visit_item_fn(&mut self, i: &'a syn::ItemFn) {
        if is_test(&i.attrs) {
            return;
        }
        let s = &i.sig;
        let at = s.constness.map(|t| t.span())
            .or(s.asyncness.map(|t| t.span()))
            .or(s.unsafety.map(|t| t.span()))
            .or(s.abi.as_ref().map(|t| t.span()))
            .unwrap_or(s.fn_token.span())
            .start();
        self.vis(&i.vis, at);
        // nested items inside bodies stay as they are
    }
    fn visit_item_struct(&mut self, i: &'a syn::ItemStruct) {
        self.vis(&i.vis, i.struct_token.span().start());
        for f in &i.fields {
            let at = f.ident.as_ref().map(|x| x.span()).unwrap_or(f.ty.span()).start();
            self.vis(&f.vis, at);
        }
    }
    fn visit_item_enum(&mut self, i: &'a syn::ItemEnum) {
        self.vis(&i.vis, i.enum_token.span().start());
    }
    fn visit_item_type(&mut self, i: &'a syn::ItemType) {
        self.vis(&i.vis, i.type_token.span().start());
    }
    fn visit_item_const(&mut self, i: &'a syn::ItemConst) {
        if i.ident != "_" {
            self.vis(&i.vis, i.const_token.span().start());
        }
    }
    fn visit_item_static(&mut self, i: &'a syn::ItemStatic) {
        self.vis(&i.vis, i.static_token.span().start());
    }
    fn visit_item_trait(&mut self, i: &'a syn::ItemTrait) {
        let at = i.unsafety.map(|t| t.span()).unwrap_or(i.trait_token.span()).start();
        self.vis(&i.vis, at);
    }
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        if i.trait_.is_some() || is_test(&i.attrs) {
            return;
        }
        for it in &i.items {
            match it {
                syn::ImplItem::Fn(f) => {
                    let s = &f.sig;
                    let at = s.constness.map(|t| t.span())
                        .or(s.asyncness.map(|t| t.span()))
                        .or(s.unsafety.map(|t| t.span()))
                        .unwrap_or(s.fn_token.span())
                        .start();
                    self.vis(&f.vis, at);
                }
                syn::ImplItem::Const(c) => self.vis(&c.vis, c.const_token.span().start()),
                _ => {}
            }
        }
    }
}

pub fn widen(text: &str) -> Option<String> {
    let file = syn::parse_file(text).ok()?;
    let mut w = W::default();
    w.visit_file(&file);
    let mut starts = vec![0usize];
    for (k, b) in text.bytes().enumerate() {
        if b == b'\n' {
            starts.push(k + 1);
        }
    }
    // columns count characters
    let off = |p: LineColumn| {
        let ls = starts[p.line - 1];
        text[ls..].char_indices().nth(p.column).map(|(i, _)| ls + i).unwrap_or(text.len())
    };
    let mut edits: Vec<(usize, usize, &str)> = w.edits.iter().map(|&(a, b, r)| (off(a), off(b), r)).collect();
    edits.sort();
    let mut out = String::with_capacity(text.len() + 1024);
    let mut at = 0;
    for (a, b, r) in edits {
        out.push_str(&text[at..a]);
        out.push_str(r);
        at = b;
    }
    out.push_str(&text[at..]);
    Some(out)
}

/// pairs of SRC DST on stdin, one per line separated by a tab
pub fn main(_: &[String]) {
    use std::io::BufRead;
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let (src, dst) = line.split_once('\t').unwrap();
        let text = fs::read_to_string(src).unwrap();
        let new = widen(&text).unwrap_or(text);
        if fs::read_to_string(dst).ok().as_deref() != Some(new.as_str()) {
            fs::write(dst, new).unwrap();
        }
    }
}
