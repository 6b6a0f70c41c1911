//! Source-to-source transformation used by every solver-based check.
//!
//! Reads the *current* Rust source of a crate and writes a copy in which
//!  * every item and field is public (so that harnesses can reach private functions),
//!  * with `--sym`, the type `f64` is replaced by the symbolic scalar `::symf::S`,
//!    float literals by `::symf::lit(..)`, and numeric casts by `::symf::cast`,
//!  * with `--hook fn=path`, the named free function first consults
//!    `crate::__hooks::fn(..)`.
//! Everything else (control flow, data structures, arithmetic order) is left alone.
use proc_macro2::{Delimiter, Group, Ident, Punct, Spacing, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};

struct X {
    sym: bool,
    hooks: Vec<String>,
    hooked: Vec<String>,
    in_const: bool,
}

fn is_test_cfg(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = a.meta.to_token_stream().to_string().replace(' ', "");
        s == "cfg(test)" || s == "cfg(any(test,feature=\"arbitrary\"))"
    })
}

fn item_attrs(i: &syn::Item) -> &[syn::Attribute] {
    use syn::Item::*;
    match i {
        Const(x) => &x.attrs,
        Enum(x) => &x.attrs,
        Fn(x) => &x.attrs,
        Impl(x) => &x.attrs,
        Mod(x) => &x.attrs,
        Static(x) => &x.attrs,
        Struct(x) => &x.attrs,
        Trait(x) => &x.attrs,
        Type(x) => &x.attrs,
        Use(x) => &x.attrs,
        _ => &[],
    }
}

fn pubv() -> syn::Visibility {
    syn::Visibility::Public(Default::default())
}

// true if a const-fn body has arithmetic/method calls that are not const for `S`.
struct Arith(bool);
impl<'a> syn::visit::Visit<'a> for Arith {
    fn visit_expr_binary(&mut self, _: &'a syn::ExprBinary) {
        self.0 = true;
    }
    fn visit_expr_unary(&mut self, _: &'a syn::ExprUnary) {
        self.0 = true;
    }
    fn visit_expr_method_call(&mut self, _: &'a syn::ExprMethodCall) {
        self.0 = true;
    }
    fn visit_expr_cast(&mut self, _: &'a syn::ExprCast) {
        self.0 = true;
    }
}

impl X {
    fn numeric(t: &syn::Type) -> bool {
        if let syn::Type::Path(p) = t {
            if let Some(i) = p.path.get_ident() {
                return ["f64", "f32", "usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"]
                    .contains(&i.to_string().as_str());
            }
        }
        false
    }
}

impl VisitMut for X {
    fn visit_file_mut(&mut self, f: &mut syn::File) {
        f.items.retain(|i| !is_test_cfg(item_attrs(i)));
        f.attrs.retain(|a| {
            let s = a.meta.to_token_stream().to_string();
            !(s.contains("deny") || s.contains("warn") || s.contains("forbid") || s.contains("missing_docs"))
        });
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut syn::ItemMod) {
        if let Some((_, items)) = &mut m.content {
            items.retain(|i| !is_test_cfg(item_attrs(i)));
        }
        m.vis = pubv();
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, im: &mut syn::ItemImpl) {
        let is_trait = im.trait_.is_some();
        im.items.retain(|i| match i {
            syn::ImplItem::Fn(f) => !is_test_cfg(&f.attrs),
            _ => true,
        });
        if !is_trait {
            for i in &mut im.items {
                match i {
                    syn::ImplItem::Fn(f) => f.vis = pubv(),
                    syn::ImplItem::Const(f) => f.vis = pubv(),
                    _ => {}
                }
            }
        }
        visit_mut::visit_item_impl_mut(self, im);
    }
    fn visit_item_fn_mut(&mut self, f: &mut syn::ItemFn) {
        f.vis = pubv();
        self.fix_sig(&mut f.sig, &f.block);
        visit_mut::visit_item_fn_mut(self, f);
        let name = f.sig.ident.to_string();
        if self.hooks.contains(&name) {
            let args: Vec<Ident> = f
                .sig
                .inputs
                .iter()
                .filter_map(|a| match a {
                    syn::FnArg::Typed(t) => match &*t.pat {
                        syn::Pat::Ident(i) => Some(i.ident.clone()),
                        _ => None,
                    },
                    _ => None,
                })
                .collect();
            let n = Ident::new(&name, Span::call_site());
            let st: syn::Stmt = syn::parse_quote! {
                if let Some(__r) = crate::__hooks::#n(#(&#args),*) { return __r; }
            };
            f.block.stmts.insert(0, st);
            self.hooked.push(name);
        }
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut syn::ImplItemFn) {
        // expensive debug checks can be switched off (sampled native runs do)
        let slow = f.attrs.iter().any(|a| {
            let t = a.to_token_stream().to_string();
            t.contains("slow-asserts") && !t.contains("not")
        });
        if slow && matches!(f.sig.output, syn::ReturnType::Default) {
            f.block.stmts.insert(0, syn::parse_quote! { if std::env::var_os("VP_NO_SLOW").is_some() { return; } });
        }
        self.fix_sig(&mut f.sig, &f.block);
        visit_mut::visit_impl_item_fn_mut(self, f);
    }
    fn visit_item_struct_mut(&mut self, s: &mut syn::ItemStruct) {
        s.vis = pubv();
        for f in s.fields.iter_mut() {
            f.vis = pubv();
        }
        visit_mut::visit_item_struct_mut(self, s);
    }
    fn visit_item_enum_mut(&mut self, s: &mut syn::ItemEnum) {
        s.vis = pubv();
        visit_mut::visit_item_enum_mut(self, s);
    }
    fn visit_item_trait_mut(&mut self, s: &mut syn::ItemTrait) {
        s.vis = pubv();
        visit_mut::visit_item_trait_mut(self, s);
    }
    fn visit_item_type_mut(&mut self, s: &mut syn::ItemType) {
        s.vis = pubv();
        visit_mut::visit_item_type_mut(self, s);
    }
    fn visit_item_use_mut(&mut self, s: &mut syn::ItemUse) {
        if let syn::Visibility::Restricted(_) = s.vis {
            s.vis = pubv();
        }
        visit_mut::visit_item_use_mut(self, s);
    }
    fn visit_item_static_mut(&mut self, s: &mut syn::ItemStatic) {
        s.vis = pubv();
        visit_mut::visit_item_static_mut(self, s);
    }
    fn visit_item_const_mut(&mut self, s: &mut syn::ItemConst) {
        if s.ident != "_" {
            s.vis = pubv();
        }
        self.const_expr(&s.ty, &mut s.expr);
        visit_mut::visit_item_const_mut(self, s);
    }
    fn visit_impl_item_const_mut(&mut self, s: &mut syn::ImplItemConst) {
        self.const_expr(&s.ty, &mut s.expr);
        visit_mut::visit_impl_item_const_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        if !self.sym {
            return;
        }
        if let syn::Expr::Cast(c) = e {
            if X::numeric(&c.ty) && !self.in_const {
                let inner = &c.expr;
                let ty = &c.ty;
                // integer literals: pin a type so that inference succeeds
                *e = syn::parse_quote! { ::symf::cast::<_, #ty>(#inner) };
            }
        }
    }
}

impl X {
    fn fix_sig(&mut self, sig: &mut syn::Signature, b: &syn::Block) {
        if self.sym && sig.constness.is_some() {
            use syn::visit::Visit;
            let mut a = Arith(false);
            a.visit_block(b);
            if a.0 {
                sig.constness = None;
            }
        }
    }
    fn const_expr(&mut self, ty: &syn::Type, e: &mut syn::Expr) {
        if !self.sym {
            return;
        }
        let t = ty.to_token_stream().to_string();
        if t == "f64" && !matches!(e, syn::Expr::Lit(_)) {
            // keep the original (float) constant expression
            let orig = e.to_token_stream();
            let s = orig.to_string();
            *e = syn::Expr::Verbatim(quote! { __symf_raw!(#orig) });
            let _ = s;
        }
    }
}

fn is_float_lit(s: &str) -> Option<String> {
    let b = s.as_bytes();
    if b.is_empty() || !b[0].is_ascii_digit() || s.starts_with("0x") || s.starts_with("0b") || s.starts_with("0o") {
        return None;
    }
    if let Some(x) = s.strip_suffix("f64").or_else(|| s.strip_suffix("_f64")) {
        return Some(x.trim_end_matches('_').to_string());
    }
    if s.ends_with("f32") {
        return None;
    }
    if s.ends_with("usize") || s.ends_with("isize") {
        return None;
    }
    let has_suffix_int = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "i128"].iter().any(|x| s.ends_with(x));
    if has_suffix_int {
        return None;
    }
    if s.contains('.') || s.contains('e') || s.contains('E') {
        return Some(s.to_string());
    }
    None
}

fn id(s: &str) -> TokenTree {
    TokenTree::Ident(Ident::new(s, Span::call_site()))
}

/// Token-level pass: `f64` -> `::symf::S`, float literals -> `::symf::lit(..)`.
fn toks(ts: TokenStream, raw: bool) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Ident(x) if x == "__symf_raw" => {
                // __symf_raw!( EXPR ) -> ::symf::lit(EXPR) with EXPR untouched
                if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                    let inner = g.stream();
                    out.extend(quote! { ::symf::lit(#inner) });
                    i += 3;
                    continue;
                }
            }
            // casts inside macro bodies, which syn does not parse: `<postfix expr> as f64`
            TokenTree::Ident(x)
                if x == "as" && !raw && matches!(v.get(i + 1), Some(TokenTree::Ident(y)) if y == "f64") =>
            {
                let mut k = out.len();
                let mut want_operand = true;
                while k > 0 {
                    let is_dot = matches!(&out[k - 1], TokenTree::Punct(p) if p.as_char() == '.');
                    match &out[k - 1] {
                        TokenTree::Group(g) if g.delimiter() != Delimiter::Brace => {
                            // call/index/paren: may be preceded by an identifier
                            k -= 1;
                            want_operand = matches!(out.get(k.wrapping_sub(1)), Some(TokenTree::Ident(_)));
                            if !want_operand && !matches!(out.get(k.wrapping_sub(1)), Some(TokenTree::Punct(p)) if p.as_char()=='.') {
                                break;
                            }
                        }
                        TokenTree::Ident(_) | TokenTree::Literal(_) if want_operand => {
                            k -= 1;
                            want_operand = false;
                        }
                        _ if is_dot && !want_operand => {
                            k -= 1;
                            want_operand = true;
                        }
                        _ => break,
                    }
                }
                let inner: TokenStream = out.drain(k..).collect();
                out.extend(quote! { ::symf::cast::<_, ::symf::S>(#inner) });
                i += 2;
                continue;
            }
            TokenTree::Ident(x) if x == "f64" && !raw => {
                // `std::f64::consts` / `core::f64::consts`
                let n = out.len();
                let prev_std = n >= 3
                    && matches!(&out[n - 1], TokenTree::Punct(p) if p.as_char() == ':')
                    && matches!(&out[n - 2], TokenTree::Punct(p) if p.as_char() == ':')
                    && matches!(&out[n - 3], TokenTree::Ident(s) if s == "std" || s == "core");
                if prev_std {
                    out.truncate(n - 3);
                    // drop a leading `::` if any
                    while matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char()==':') {
                        out.pop();
                    }
                    out.extend(quote! { ::symf });
                } else {
                    out.extend(quote! { ::symf::S });
                }
                i += 1;
                continue;
            }
            TokenTree::Literal(l) if !raw => {
                if let Some(f) = is_float_lit(&l.to_string()) {
                    // tuple index like `.0` is lexed as `. 0`; `x.0.1` may appear as `.` `0.1`
                    let prev_dot = matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char()=='.')
                        && !matches!(out.get(out.len().wrapping_sub(2)), Some(TokenTree::Punct(p)) if p.as_char()=='.');
                    if !prev_dot {
                        // fold a unary minus into the literal (keeps const contexts const)
                        let n = out.len();
                        let mut neg = false;
                        if matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char()=='-') {
                            let unary = match out.get(n.wrapping_sub(2)) {
                                None => true,
                                Some(TokenTree::Punct(p)) => !matches!(p.as_char(), '>' if false) && p.as_char() != '\'' ,
                                Some(TokenTree::Ident(s)) => s == "return" || s == "else" || s == "in",
                                Some(TokenTree::Group(g)) => g.delimiter() == Delimiter::Brace && false,
                                _ => false,
                            };
                            // `- 1.0.method()` binds tighter on the method: do not fold then
                            let next_dot = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char()=='.');
                            if unary && !next_dot {
                                neg = true;
                                out.pop();
                            }
                        }
                        let mut s = f.replace('_', "");
                        if s.ends_with('.') {
                            s.push('0');
                        }
                        if !s.contains('.') && !s.contains('e') && !s.contains('E') {
                            s.push_str(".0");
                        }
                        let lit: proc_macro2::Literal = format!("{s}f64").parse().unwrap();
                        if neg {
                            out.extend(quote! { ::symf::lit(-#lit) });
                        } else {
                            out.extend(quote! { ::symf::lit(#lit) });
                        }
                        i += 1;
                        continue;
                    }
                }
                out.push(v[i].clone());
                i += 1;
                continue;
            }
            TokenTree::Group(g) => {
                // leave attributes untouched
                let is_attr = matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char()=='#')
                    || (matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char()=='!')
                        && matches!(out.get(out.len().wrapping_sub(2)), Some(TokenTree::Punct(p)) if p.as_char()=='#'));
                let inner = if is_attr { g.stream() } else { toks(g.stream(), raw) };
                let mut ng = Group::new(g.delimiter(), inner);
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
                i += 1;
                continue;
            }
            _ => {}
        }
        out.push(v[i].clone());
        i += 1;
    }
    let _ = (id("x"), Punct::new(':', Spacing::Alone));
    out.into_iter().collect()
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut sym = false;
    let mut hooks = vec![];
    let mut skip = vec![];
    let mut pos = vec![];
    while let Some(a) = args.next() {
        match a.as_str() {
            "--sym" => sym = true,
            "--hook" => hooks.push(args.next().unwrap()),
            "--skip" => skip.push(args.next().unwrap()),
            _ => pos.push(a),
        }
    }
    let src = PathBuf::from(&pos[0]);
    let dst = PathBuf::from(&pos[1]);
    let mut files = vec![];
    walk(&src, &mut files);
    let mut hooked = vec![];
    for f in files {
        let rel = f.strip_prefix(&src).unwrap().to_path_buf();
        if skip.iter().any(|s| rel.to_string_lossy() == *s) {
            continue;
        }
        let text = std::fs::read_to_string(&f).unwrap();
        let mut file = match syn::parse_file(&text) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("xform: cannot parse {}: {e}", f.display());
                std::process::exit(3);
            }
        };
        let mut x = X { sym, hooks: hooks.clone(), hooked: vec![], in_const: false };
        x.visit_file_mut(&mut file);
        hooked.extend(x.hooked.clone());
        let mut ts = file.to_token_stream();
        if sym {
            ts = toks(ts, false);
        }
        let mut s = ts.to_string();
        if rel.to_string_lossy() == "lib.rs" {
            let mut pre = String::from("#![allow(warnings)]\n");
            if !hooks.is_empty() {
                pre.push_str("#[path = \"__hooks.rs\"] pub mod __hooks;\n");
            }
            // inner attributes/docs must come first: put our items at the end instead
            s = format!("#![allow(warnings)]\n{s}\n");
            if !hooks.is_empty() {
                s.push_str("#[path = \"__hooks.rs\"] pub mod __hooks;\n");
            }
            let _ = pre;
        }
        let out = dst.join(&rel);
        std::fs::create_dir_all(out.parent().unwrap()).unwrap();
        // only rewrite when changed: keeps cargo's fingerprints fresh
        if std::fs::read_to_string(&out).ok().as_deref() != Some(&s) {
            std::fs::write(&out, s).unwrap();
        }
    }
    for h in &hooks {
        println!("hook {h} {}", if hooked.contains(h) { "installed" } else { "MISSING" });
    }
}
