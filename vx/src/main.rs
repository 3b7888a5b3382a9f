//! vx: mechanical extraction of functions from /repo into a Verus file.
//!
//! `vx TEMPLATE.rs REPO_ROOT OUT.rs SIDECAR.json [--canary]`
//!
//! The template is a Verus source file. A block
//!
//! ```text
//! //@extract FILE :: SELECTOR            (SELECTOR: fn f | impl T :: f | impl Trait for T :: f | trait T :: f)
//! //@ret NAME                            (optional: name of the result in the contract)
//! //@spec                                (requires / ensures / decreases)
//! //@top | //@tail | //@last              (ghost text at the start of the body / before the tail expression / at the end)
//! //@loop N | //@loop N pre|init|top|end|after (loop contract / ghost text around loop N, in source order)
//! //@closure N                           (typed closure header with its contract, in source order)
//! //@subst A ==> B                       (textual rewrite; every one is reported in the evidence)
//! //@rename iter=viter ...               (std iterator / collection methods -> methods of the prelude with the assumed contract)
//! //@havoc NAME [TYPE]                   (initialiser of `let NAME` replaced by an arbitrary value of that type)
//! //@drop PREFIX                         (expression statements that start with PREFIX are left out; reported)
//! //@fcast                               (`x as usize` -> vto_usize(x), truncation of a real if x is one)
//! //@floats                              (f32 -> F, float literals -> vfl(n, d), `x as f32` -> vfc(x); F is real arithmetic)
//! //@end
//! ```
//!
//! is replaced by the text of that function, taken byte for byte from REPO_ROOT/FILE, with these
//! edits only: attributes and visibility dropped; the contract inserted; `for PAT in EXPR BODY`
//! written as the `while`/`loop` + `next()` it abbreviates; `while let` as `loop`+`match`; logging
//! macros dropped; `mut self` as `self` + `let mut vself = self`; panicking macros replaced by a call whose precondition is `false`; closures given
//! their contract; the listed substitutions.
//! `//@struct FILE :: NAME` copies a struct or enum definition (attributes dropped, fields public).

use proc_macro2::Span;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::fs;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn toks<T: quote::ToTokens>(t: &T) -> String {
    norm(&t.to_token_stream().to_string())
}

struct Found {
    sig: syn::Signature,
    block: syn::Block,
}

fn last_seg(p: &syn::Path) -> String {
    // last path segment including generic arguments
    p.segments.last().map(|s| toks(s)).unwrap_or_default()
}
fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => toks(t),
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && toks(a).contains("test"))
}

fn find(items: &[syn::Item], sel: &str, out: &mut Vec<Found>) {
    let parts: Vec<&str> = sel.split("::").map(|x| x.trim()).collect();
    for it in items {
        match it {
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    find(its, sel, out)
                }
            }
            syn::Item::Fn(f) if parts.len() == 1 && !is_test(&f.attrs) => {
                if parts[0] == format!("fn {}", f.sig.ident) {
                    out.push(Found { sig: f.sig.clone(), block: (*f.block).clone() })
                }
            }
            syn::Item::Impl(im) if parts.len() == 2 && parts[0].starts_with("impl ") => {
                let head = norm(&parts[0][5..]);
                let me = match &im.trait_ {
                    Some((_, p, _)) => format!("{} for {}", last_seg(p), ty_name(&im.self_ty)),
                    None => ty_name(&im.self_ty),
                };
                if norm(&head) == norm(&me) {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if f.sig.ident == parts[1] && !is_test(&f.attrs) {
                                out.push(Found { sig: f.sig.clone(), block: f.block.clone() })
                            }
                        }
                    }
                }
            }
            syn::Item::Trait(t) if parts.len() == 2 && parts[0] == format!("trait {}", t.ident) => {
                for ii in &t.items {
                    if let syn::TraitItem::Fn(f) = ii {
                        if f.sig.ident == parts[1] {
                            if let Some(b) = &f.default {
                                out.push(Found { sig: f.sig.clone(), block: b.clone() })
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

#[derive(Default)]
struct Directive {
    file: String,
    sel: String,
    ret: Option<String>,
    nospec: bool,
    sections: BTreeMap<String, String>,
    subst: Vec<(String, String)>,
    rename: Vec<(String, String)>,
    floats: bool,
    fcast: bool,
    havoc: Vec<(String, String)>,
    drop: Vec<String>,
}

struct Edit {
    start: usize,
    end: usize,
    text: String,
    prio: i32,
}

const LOGS: &[&str] = &["debug", "info", "warn", "error", "trace", "println", "eprintln", "print", "eprint"];
const PANICS: &[&str] = &["panic", "unreachable", "unimplemented", "todo"];

struct V<'a> {
    d: &'a Directive,
    src: &'a str,
    edits: Vec<Edit>,
    nloops: usize,
    nclosures: usize,
    params: Vec<Option<Vec<String>>>,
    heads: HashMap<usize, String>,
    loops: Vec<String>,
    calls: Vec<String>,
    depth: usize,
    dropped: Vec<String>,
    mutself: bool,
}

impl<'a> V<'a> {
    fn br(&self, s: Span) -> (usize, usize) {
        let r = s.byte_range();
        (r.start, r.end)
    }
    fn sec(&self, k: &str) -> String {
        self.d.sections.get(k).cloned().unwrap_or_default()
    }
    fn ed(&mut self, start: usize, end: usize, text: String, prio: i32) {
        self.edits.push(Edit { start, end, text, prio })
    }
    fn txt(&self, s: Span) -> &'a str {
        let (a, b) = self.br(s);
        &self.src[a..b]
    }
    /// ghost text may follow the body's last expression: `;` unless it is block-like
    fn semi(b: &syn::Block, end: String) -> String {
        match b.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) if !end.trim().is_empty()
                && !matches!(e, syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Block(_)) => format!("; {}", end),
            _ => end,
        }
    }
    fn mac(&mut self, m: &syn::Macro, span: Span, stmt: bool) -> bool {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let (a, b) = self.br(span);
        if LOGS.contains(&name.as_str()) {
            self.ed(a, b, if stmt { "".into() } else { "()".into() }, 0);
            return true;
        }
        if PANICS.contains(&name.as_str()) {
            self.ed(a, b, "vpanic()".into(), 0);
            return true;
        }
        if name == "assert" || name == "assert_eq" || name == "assert_ne" || name.starts_with("debug_assert") {
            // arguments up to the message
            let open_end = self.br(m.delimiter.span().open()).1;
            let close = self.br(m.delimiter.span().close()).0;
            let mut at = vec![];
            for t in m.tokens.clone() {
                if let proc_macro2::TokenTree::Punct(p) = &t {
                    if p.as_char() == ',' { at.push(self.br(p.span())); }
                }
            }
            let first = self.src[open_end..at.get(0).map_or(close, |c| c.0)].to_string();
            if name.ends_with("assert") {
                self.ed(a, b, format!("vassert({})", first), 0);
            } else {
                let second = self.src[at[0].1..at.get(1).map_or(close, |c| c.0)].to_string();
                self.ed(a, b, format!("vassert(({}) {} ({}))", first, if name.ends_with("_eq") { "==" } else { "!=" }, second), 0);
            }
            return true;
        }
        self.calls.push(format!("{}!", name));
        false
    }
}

impl<'a, 'ast> Visit<'ast> for V<'a> {
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        // statement macro: drop including the semicolon for logs, keep ';' for panics
        let name = m.mac.path.segments.last().unwrap().ident.to_string();
        if LOGS.contains(&name.as_str()) {
            let (a, _) = self.br(m.mac.span());
            let end = match &m.semi_token {
                Some(s) => self.br(s.span()).1,
                None => self.br(m.mac.span()).1,
            };
            self.ed(a, end, "".into(), 0);
        } else {
            self.mac(&m.mac, m.mac.span(), true);
        }
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        self.mac(&m.mac, m.span(), false);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let k = self.nloops;
        self.nloops += 1;
        self.loops.push(format!("{}for", ">".repeat(self.depth)));
        let spec = self.sec(&format!("loop {}", k));
        let pre = self.sec(&format!("loop {} pre", k));
        let top = self.sec(&format!("loop {} top", k));
        let end = Self::semi(&l.body, self.sec(&format!("loop {} end", k)));
        let after = self.sec(&format!("loop {} after", k));
        let init = self.sec(&format!("loop {} init", k));
        let (ls, le) = self.br(l.span());
        let (ps, pe) = self.br(l.pat.span());
        let (es, ee) = self.br(l.expr.span());
        let (bs, be) = self.br(l.body.span());
        let pat = self.src[ps..pe].to_string();
        // `for PAT in EXPR {` -> prefix
        let mut inner: &syn::Expr = &l.expr;
        while let syn::Expr::Paren(p) = inner {
            inner = &p.expr;
        }
        let is_range = matches!(inner, syn::Expr::Range(r) if r.start.is_some() && r.end.is_some()
            && matches!(r.limits, syn::RangeLimits::HalfOpen(_)));
        if is_range {
            if let syn::Expr::Range(r) = inner {
                let st = r.start.as_ref().unwrap();
                let en = r.end.as_ref().unwrap();
                let (ss, se) = self.br(st.span());
                let (ns, ne) = self.br(en.span());
                self.ed(ls, ss, format!("{{ {} let mut vit_{}: usize = ", pre, k), 0);
                self.ed(se, ns, format!("; let vend_{}: usize = ", k), 0);
                self.ed(ne, bs + 1, format!("; {init} while vit_{k} < vend_{k}\n{spec}\n{{ let {pat} = vit_{k}; vit_{k} = vit_{k} + 1; {top} "), 0);
                self.visit_expr(st);
                self.visit_expr(en);
            }
            self.ed(be - 1, be, format!(" {} }} {} }}", end, after), 1);
        } else if let Some(rc) = iter_mut_of(inner) {
            // visits each place of the collection once, in order, mutably
            let rt = self.txt(rc.span()).to_string();
            let (_, re) = self.br(rc.span());
            self.ed(ls, es, format!("{{ {} let mut vit_{}: usize = 0; let vend_{}: usize = ", pre, k, k), 0);
            self.ed(re, bs + 1, format!(".len(); {init} while vit_{k} < vend_{k}\n{spec}\n{{ let {pat} = vec_mut(&mut {rt}, vit_{k}); vit_{k} = vit_{k} + 1; {top} "), 0);
            self.visit_expr(rc);
            self.ed(be - 1, be, format!(" {} }} {} }}", end, after), 1);
        } else if let Some((rc, ax)) = axis_iter_mut_of(inner) {
            // visits each row or column of the array once, in order, mutably
            let rt = self.txt(rc.span()).to_string();
            let at = self.txt(ax.span()).to_string();
            let (_, re) = self.br(rc.span());
            self.ed(ls, es, format!("{{ {} let mut vit_{}: usize = 0; let vend_{}: usize = ", pre, k, k), 0);
            self.ed(re, bs + 1, format!(".vaxis_len({at}); {init} while vit_{k} < vend_{k}\n{spec}\n{{ let {pat} = axis_mut(&mut {rt}, {at}, vit_{k}); vit_{k} = vit_{k} + 1; {top} "), 0);
            self.visit_expr(rc);
            self.ed(be - 1, be, format!(" {} }} {} }}", end, after), 1);
        } else if let Some((rc, pi, pe2)) = iter_mut_enum_of(inner, &l.pat) {
            // the same with the index
            let rt = self.txt(rc.span()).to_string();
            let (_, re) = self.br(rc.span());
            let (pi, pv) = (self.txt(pi.span()).to_string(), self.txt(pe2.span()).to_string());
            self.ed(ls, es, format!("{{ {} let mut vit_{}: usize = 0; let vend_{}: usize = ", pre, k, k), 0);
            self.ed(re, bs + 1, format!(".len(); {init} while vit_{k} < vend_{k}\n{spec}\n{{ let {pi} = vit_{k}; let {pv} = vec_mut(&mut {rt}, vit_{k}); vit_{k} = vit_{k} + 1; {top} "), 0);
            self.visit_expr(rc);
            self.ed(be - 1, be, format!(" {} }} {} }}", end, after), 1);
        } else {
            self.ed(ls, es, format!("{{ {} let mut vit_{} = vinto(", pre, k), 0);
            self.ed(ee, bs + 1, format!("); {init} loop\n{spec}\n{{ match vit_{k}.next() {{ None => {{ break; }} Some({pat}) => {{ {top} "), 0);
            self.visit_expr(&l.expr);
            self.ed(be - 1, be, format!(" {} }} }} }} {} }}", end, after), 1);
        }
        let _ = le;
        self.depth += 1;
        self.visit_block(&l.body);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let k = self.nloops;
        self.nloops += 1;
        self.loops.push(format!("{}while", ">".repeat(self.depth)));
        let spec = self.sec(&format!("loop {}", k));
        let pre = self.sec(&format!("loop {} pre", k));
        let top = self.sec(&format!("loop {} top", k));
        let end = Self::semi(&l.body, self.sec(&format!("loop {} end", k)));
        let after = self.sec(&format!("loop {} after", k));
        let (ls, _) = self.br(l.span());
        let (bs, be) = self.br(l.body.span());
        if let syn::Expr::Let(el) = &*l.cond {
            let pat = self.txt(el.pat.span()).to_string();
            let (es, _) = self.br(el.expr.span());
            let (_, ee) = self.br(el.expr.span());
            self.ed(ls, es, format!("{{ {} loop\n{spec}\n{{ match ", pre), 0);
            self.ed(ee, bs + 1, format!(" {{ {} => {{ {} ", pat, top), 0);
            self.visit_expr(&el.expr);
            self.ed(be - 1, be, format!(" {} }} _ => {{ break; }} }} }} {} }}", end, after), 1);
        } else {
            self.ed(ls, ls, format!("{{ {} ", pre), 0);
            self.ed(bs, bs + 1, format!("\n{}\n{{ {} ", spec, top), 0);
            self.visit_expr(&l.cond);
            self.ed(be - 1, be, format!(" {} }} {} }}", end, after), 1);
        }
        self.depth += 1;
        self.visit_block(&l.body);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let k = self.nloops;
        self.nloops += 1;
        self.loops.push(format!("{}loop", ">".repeat(self.depth)));
        let spec = self.sec(&format!("loop {}", k));
        let top = self.sec(&format!("loop {} top", k));
        let (bs, _) = self.br(l.body.span());
        self.ed(bs, bs + 1, format!("\n{}\n{{ {} ", spec, top), 0);
        self.depth += 1;
        self.visit_block(&l.body);
        self.depth -= 1;
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let k = self.nclosures;
        self.nclosures += 1;
        self.params.push(c.inputs.iter().map(pat_ident).collect());
        if let Some(h) = self.heads.get(&k).cloned() {
            let (cs, _) = self.br(c.span());
            let (bs, be) = self.br(c.body.span());
            let mv = if c.capture.is_some() { "move " } else { "" };
            self.ed(cs, bs, format!("{}{} {{ ", mv, h), 0);
            self.ed(be, be, " }".to_string(), 2);
        }
        visit::visit_expr_closure(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        self.calls.push(m.method.to_string());
        if let Some((_, q)) = self.d.rename.iter().find(|(p, _)| m.method == p).cloned() {
            let (a, b) = self.br(m.method.span());
            self.ed(a, b, q, 0);
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, m: &'ast syn::ExprCall) {
        self.calls.push(toks(&m.func));
        visit::visit_expr_call(self, m);
    }
    fn visit_stmt(&mut self, st: &'ast syn::Stmt) {
        if let syn::Stmt::Local(l) = st {
            let name = match &l.pat {
                syn::Pat::Ident(i) => i.ident.to_string(),
                syn::Pat::Type(t) => match &*t.pat { syn::Pat::Ident(i) => i.ident.to_string(), _ => String::new() },
                _ => String::new(),
            };
            if let Some((n, ty)) = self.d.havoc.iter().find(|(n, _)| *n == name).cloned() {
                let (a, b) = self.br(st.span());
                let m = if toks(&l.pat).starts_with("mut") { "mut " } else { "" };
                self.dropped.push(format!("let {} = <arbitrary>", n));
                self.ed(a, b, format!("let {}{}: {} = vany();", m, n, ty), 0);
                return;
            }
        }
        if let syn::Stmt::Expr(e, _) = st {
            let t = toks(e);
            if let Some(p) = self.d.drop.iter().find(|p| t.starts_with(p.as_str())).cloned() {
                let (a, b) = self.br(st.span());
                self.dropped.push(format!("dropped statement {}", p));
                self.ed(a, b, "".into(), 0);
                return;
            }
        }
        if let syn::Stmt::Expr(e, Some(_)) = st {
            if toks(e).starts_with("ConsoleLogger::new(") {
                let (a, b) = self.br(st.span());
                self.ed(a, b, "".into(), 0);
                return;
            }
        }
        visit::visit_stmt(self, st);
    }
    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        if self.d.floats && toks(&c.ty) == "f32" {
            let (a, _) = self.br(c.span());
            let (_, e) = self.br(c.expr.span());
            let (_, b) = self.br(c.span());
            self.ed(a, a, "vfc(".into(), -2);
            self.ed(e, b, ")".into(), 3);
            self.visit_expr(&c.expr);
            return;
        }
        if self.d.fcast && (toks(&c.ty) == "usize" || toks(&c.ty) == "isize") {
            let (a, _) = self.br(c.span());
            let (_, e) = self.br(c.expr.span());
            let (_, b) = self.br(c.span());
            self.ed(a, a, format!("vto_{}(", toks(&c.ty)), -2);
            self.ed(e, b, ")".into(), 3);
            self.visit_expr(&c.expr);
            return;
        }
        visit::visit_expr_cast(self, c);
    }
    fn visit_type_path(&mut self, t: &'ast syn::TypePath) {
        if self.d.floats && t.path.is_ident("f32") {
            let (a, b) = self.br(t.span());
            self.ed(a, b, "F".into(), 0);
        }
        visit::visit_type_path(self, t);
    }
    fn visit_lit_float(&mut self, l: &'ast syn::LitFloat) {
        if self.d.floats {
            let (a, b) = self.br(l.span());
            let digits = l.base10_digits().to_string();
            let (ip, fp) = match digits.split_once('.') { Some((x, y)) => (x.to_string(), y.to_string()), None => (digits.clone(), String::new()) };
            let fp = fp.trim_end_matches('0').to_string();
            let num: u64 = format!("{}{}", ip, fp).parse().unwrap_or(0);
            let den = 10u64.pow(fp.len() as u32);
            self.ed(a, b, format!("vfl({}, {})", num, den), 0);
        }
    }
    fn visit_lit_int(&mut self, l: &'ast syn::LitInt) {
        if self.d.floats && (l.suffix() == "f32" || l.suffix() == "f64") {
            let (a, b) = self.br(l.span());
            self.ed(a, b, format!("vfl({}, 1)", l.base10_digits()), 0);
        }
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if self.mutself && p.path.is_ident("self") {
            let (a, b) = self.br(p.span());
            self.ed(a, b, "vself".into(), 0);
        }
        visit::visit_expr_path(self, p);
    }
}

fn apply(src: &str, base: usize, end: usize, mut edits: Vec<Edit>) -> String {
    edits.sort_by_key(|e| (e.start, e.prio, e.end));
    let mut out = String::new();
    let mut pos = base;
    for e in edits {
        if e.start < pos {
            // nested edit inside an already replaced region (dropped macro): skip
            if e.end <= pos && e.start != e.end {
                continue;
            }
            if e.start < pos && e.start == e.end {
                continue;
            }
        }
        out.push_str(&src[pos..e.start]);
        out.push_str(&e.text);
        pos = e.end;
    }
    out.push_str(&src[pos..end]);
    out
}

fn pat_ident(p: &syn::Pat) -> Option<String> {
    match p {
        syn::Pat::Ident(i) => Some(i.ident.to_string()),
        syn::Pat::Type(t) => pat_ident(&t.pat),
        _ => None,
    }
}
fn head_params(h: &str) -> Option<Vec<String>> {
    let c: syn::ExprClosure = syn::parse_str(&format!("{} {{}}", &h[..=h[1..].find('|')? + 1])).ok()?;
    c.inputs.iter().map(pat_ident).collect()
}
fn word(s: &str, a: &str, b: &str) -> String {
    let (mut r, mut w) = (String::new(), String::new());
    for c in s.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' { w.push(c); continue; }
        r.push_str(if w == a { b } else { &w });
        w.clear();
        if c != '\0' { r.push(c); }
    }
    r
}
/// which closure gets which header: the one at its index; when that one has other parameter names, the nearest one with the same names, or the one at its
/// index with the header's parameters renamed
fn heads(d: &Directive, params: &[Option<Vec<String>>]) -> HashMap<usize, String> {
    let mut want: Vec<(usize, String)> = d.sections.iter().filter_map(|(k, h)| Some((k.strip_prefix("closure ")?.trim().parse().ok()?, h.clone()))).collect();
    want.sort();
    let mut out: HashMap<usize, String> = HashMap::new();
    let mut later = vec![];
    for (k, h) in want {
        let hp = head_params(h.trim());
        match params.get(k) {
            Some(p) if hp.is_none() || p.is_none() || *p == hp => { out.insert(k, h); }
            _ => later.push((k, h, hp)),
        }
    }
    for (k, h, hp) in later {
        let near = (0..params.len()).filter(|i| hp.is_some() && params[*i] == hp && !out.contains_key(i)).min_by_key(|i| if *i > k { *i - k } else { k - *i });
        if let Some(i) = near { out.insert(i, h); continue; }
        if k < params.len() && !out.contains_key(&k) {
            let mut h = h;
            if let (Some(a), Some(b)) = (&hp, &params[k]) { if a.len() == b.len() { for (x, y) in a.iter().zip(b) { h = word(&h, x, y); } } }
            out.insert(k, h);
        }
    }
    out
}

fn emit(d: &Directive, repo: &str, canary: bool, side: &mut Vec<Value>) -> Result<String, String> {
    let path = format!("{}/{}", repo, d.file);
    let src = fs::read_to_string(&path).map_err(|e| format!("{}: {}", path, e))?;
    let ast = syn::parse_file(&src).map_err(|e| format!("{}: {}", path, e))?;
    let mut found = vec![];
    find(&ast.items, &d.sel, &mut found);
    if found.len() != 1 {
        return Err(format!("{} :: {}: {} matches", d.file, d.sel, found.len()));
    }
    let f = &found[0];
    let mut pre = V { d, src: &src, edits: vec![], nloops: 0, nclosures: 0, params: vec![], heads: HashMap::new(), loops: vec![], calls: vec![], depth: 0, dropped: vec![], mutself: false };
    pre.visit_block(&f.block);
    let heads = heads(d, &pre.params);
    let mut v = V { d, src: &src, edits: vec![], nloops: 0, nclosures: 0, params: vec![], heads, loops: vec![], calls: vec![], depth: 0, dropped: vec![], mutself: false };
    // `mut self` by value: `self` + `let mut vself = self;`, `self` written `vself` in the body
    v.visit_signature(&f.sig);
    if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first() {
        if r.reference.is_none() && r.mutability.is_some() {
            let (a, b) = v.br(r.span());
            v.ed(a, b, "self".into(), 0);
            v.mutself = true;
        }
    }
    v.visit_block(&f.block);
    let (fs_, _) = v.br(f.sig.span());
    let (bs, be) = v.br(f.block.span());
    // signature
    if let (Some(r), syn::ReturnType::Type(_, t)) = (&d.ret, &f.sig.output) {
        let (ts, te) = v.br(t.span());
        v.ed(ts, ts, format!("({}: ", r), 0);
        v.ed(te, te, ")".into(), 0);
    }
    let spec = d.sections.get("spec").cloned().unwrap_or_default();
    if canary && !d.nospec {
        // reachability: this assertion must be refused
        let unit = matches!(f.sig.output, syn::ReturnType::Default) || toks(&f.sig.output).contains("Self::Result");
        match f.block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) if !unit => {
                let (ts, _) = v.br(e.span());
                v.ed(ts, ts, " proof { assert(false); } ".into(), -5)
            }
            _ => v.ed(be - 1, be - 1, " ; proof { assert(false); } ".into(), 5),
        }
    }
    let top = d.sections.get("top").cloned().unwrap_or_default();
    let ms = if v.mutself { "let mut vself = self;" } else { "" };
    v.ed(bs, bs + 1, format!("\n{}\n{{ {} {} ", spec, ms, top), 0);
    if let Some(t) = d.sections.get("last") {
        // at the end of the body of a function that returns ()
        v.ed(be - 1, be - 1, format!(" {} ", t), 0);
    }
    if let Some(t) = d.sections.get("tail") {
        // before the tail expression, or at the end of the body
        let unit = matches!(f.sig.output, syn::ReturnType::Default);
        match f.block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) if unit => {
                let blk = matches!(e, syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Block(_));
                v.ed(be - 1, be - 1, format!("{} {} ", if blk { "" } else { ";" }, t), 0)
            }
            Some(syn::Stmt::Expr(e, None)) => {
                let (ts, _) = v.br(e.span());
                v.ed(ts, ts, format!("{} ", t), -6)
            }
            _ => v.ed(be - 1, be - 1, format!(" {} ", t), 0),
        }
    }
    let edits = std::mem::take(&mut v.edits);
    let mut calls = v.calls.clone();
    calls.sort();
    calls.dedup();
    let text = apply(&src, fs_, be, edits);
    let mut text = format!("pub {}", text);
    let mut used = vec![];
    for (a, b) in &d.subst {
        let (t2, n) = subst_ws(&text, a, b);
        text = t2;
        used.push(json!({"from": a, "to": b, "hits": n}));
    }
    side.push(json!({
        "file": d.file, "selector": d.sel, "name": f.sig.ident.to_string(),
        "src_lines": [f.sig.span().start().line, f.block.span().end().line],
        "loops": v.loops, "closures": v.nclosures, "calls": calls,
        "params": f.sig.inputs.len(), "dropped": v.dropped, "subst": used,
        "src_bytes": be - fs_,
    }));
    Ok(text)
}

fn emit_struct(file: &str, name: &str, repo: &str) -> Result<String, String> {
    let path = format!("{}/{}", repo, file);
    let src = fs::read_to_string(&path).map_err(|e| e.to_string())?;
    let ast = syn::parse_file(&src).map_err(|e| e.to_string())?;
    fn go(items: &[syn::Item], name: &str, src: &str) -> Option<String> {
        for it in items {
            match it {
                syn::Item::Struct(s) if s.ident == name => {
                    let mut o = format!("pub struct {}", s.ident);
                    let g = s.generics.span().byte_range();
                    if g.end > g.start { o.push_str(&src[g]); }
                    match &s.fields {
                        syn::Fields::Named(n) => {
                            o.push_str(" {\n");
                            for f in &n.named {
                                o.push_str(&format!("    pub {}: {},\n", f.ident.as_ref().unwrap(), &src[f.ty.span().byte_range()]));
                            }
                            o.push_str("}\n");
                        }
                        syn::Fields::Unnamed(n) => {
                            o.push('(');
                            for f in &n.unnamed {
                                o.push_str(&format!("pub {}, ", &src[f.ty.span().byte_range()]));
                            }
                            o.push_str(");\n");
                        }
                        syn::Fields::Unit => o.push_str(";\n"),
                    }
                    return Some(o);
                }
                _ => {}
            }
        }
        None
    }
    go(&ast.items, name, &src).ok_or(format!("{} :: struct {} not found", file, name))
}

/// replace `a` by `b`, ignoring whitespace when matching
fn iter_mut_enum_of<'a>(e: &'a syn::Expr, p: &'a syn::Pat) -> Option<(&'a syn::Expr, &'a syn::Pat, &'a syn::Pat)> {
    let rc = match e { syn::Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => iter_mut_of(&m.receiver)?, _ => return None };
    match p { syn::Pat::Tuple(t) if t.elems.len() == 2 => Some((rc, &t.elems[0], &t.elems[1])), _ => None }
}
fn axis_iter_mut_of(e: &syn::Expr) -> Option<(&syn::Expr, &syn::Expr)> {
    match e { syn::Expr::MethodCall(m) if m.method == "axis_iter_mut" && m.args.len() == 1 => Some((&m.receiver, &m.args[0])), _ => None }
}
fn iter_mut_of(e: &syn::Expr) -> Option<&syn::Expr> {
    match e { syn::Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => Some(&m.receiver), _ => None }
}
fn subst_ws(text: &str, a: &str, b: &str) -> (String, usize) {
    let pat: Vec<char> = a.chars().filter(|c| !c.is_whitespace()).collect();
    let cs: Vec<(usize, char)> = text.char_indices().filter(|(_, c)| !c.is_whitespace()).collect();
    if pat.is_empty() { return (text.to_string(), 0); }
    let idc = |c: char| c.is_alphanumeric() || c == '_';
    let (mut out, mut last, mut i, mut n) = (String::new(), 0usize, 0usize, 0usize);
    while i + pat.len() <= cs.len() {
        let hit = (0..pat.len()).all(|k| cs[i + k].1 == pat[k])
            // do not match inside an identifier
            && !(idc(pat[0]) && i > 0 && cs[i - 1].0 + cs[i - 1].1.len_utf8() == cs[i].0 && idc(cs[i - 1].1))
            && !(idc(pat[pat.len() - 1]) && i + pat.len() < cs.len() && cs[i + pat.len() - 1].0 + cs[i + pat.len() - 1].1.len_utf8() == cs[i + pat.len()].0 && idc(cs[i + pat.len()].1));
        if hit {
            out.push_str(&text[last..cs[i].0]);
            out.push_str(b);
            last = cs[i + pat.len() - 1].0 + cs[i + pat.len() - 1].1.len_utf8();
            i += pat.len();
            n += 1;
        } else { i += 1; }
    }
    out.push_str(&text[last..]);
    (out, n)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (tpl, repo, out, sidecar) = (&a[1], &a[2], &a[3], &a[4]);
    let canary = a.iter().any(|x| x == "--canary");
    let t = fs::read_to_string(tpl).unwrap();
    let base = std::path::Path::new(tpl).parent().unwrap().to_path_buf();
    let mut lines: Vec<String> = vec![];
    for l in t.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            let s = fs::read_to_string(base.join(f.trim())).unwrap();
            lines.extend(s.lines().map(|x| x.to_string()));
        } else {
            lines.push(l.to_string());
        }
    }
    let mut o = String::new();
    let mut side = vec![];
    let mut errs = vec![];
    let mut map = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim().to_string();
        if let Some(r) = l.strip_prefix("//@struct ") {
            let (f, n) = r.split_once("::").unwrap();
            match emit_struct(f.trim(), n.trim(), repo) {
                Ok(s) => o.push_str(&s),
                Err(e) => errs.push(e),
            }
            i += 1;
        } else if let Some(r) = l.strip_prefix("//@extract ") {
            let (f, s) = r.split_once("::").unwrap();
            let mut d = Directive { file: f.trim().into(), sel: s.trim().into(), ..Default::default() };
            i += 1;
            let mut cur: Option<String> = None;
            loop {
                let m = lines[i].trim().to_string();
                if m == "//@end" {
                    i += 1;
                    break;
                } else if let Some(x) = m.strip_prefix("//@ret ") {
                    d.ret = Some(x.trim().into());
                    cur = None;
                } else if let Some(x) = m.strip_prefix("//@havoc ") {
                    let (p, q) = x.trim().split_once(' ').unwrap_or((x.trim(), "_"));
                    d.havoc.push((p.into(), q.trim().into()));
                } else if let Some(x) = m.strip_prefix("//@drop ") {
                    d.drop.push(norm(x));
                } else if m == "//@fcast" {
                    d.fcast = true;
                } else if m == "//@floats" {
                    d.floats = true;
                } else if let Some(x) = m.strip_prefix("//@rename ") {
                    for w in x.split_whitespace() {
                        let (p, q) = w.split_once('=').unwrap();
                        d.rename.push((p.into(), q.into()));
                    }
                } else if m == "//@nocanary" {
                    d.nospec = true;
                } else if let Some(x) = m.strip_prefix("//@subst ") {
                    let (p, q) = x.split_once("==>").unwrap();
                    d.subst.push((p.trim().to_string(), q.trim().into()));
                    cur = None;
                } else if let Some(x) = m.strip_prefix("//@") {
                    d.sections.insert(x.trim().into(), String::new());
                    cur = Some(x.trim().into());
                } else if let Some(c) = &cur {
                    let e = d.sections.get_mut(c).unwrap();
                    e.push_str(&lines[i]);
                    e.push('\n');
                }
                i += 1;
            }
            let start = o.matches('\n').count() + 1;
            match emit(&d, repo, canary, &mut side) {
                Ok(s) => {
                    o.push_str(&s);
                    o.push('\n');
                    let end = o.matches('\n').count();
                    map.push(json!({"selector": d.sel, "file": d.file, "out_lines": [start, end], "canary": !d.nospec}));
                }
                Err(e) => errs.push(e),
            }
        } else {
            o.push_str(&lines[i]);
            o.push('\n');
            i += 1;
        }
    }
    fs::write(out, o).unwrap();
    fs::write(sidecar, serde_json::to_string_pretty(&json!({"functions": side, "errors": errs, "map": map})).unwrap()).unwrap();
    if !errs.is_empty() {
        for e in errs {
            eprintln!("vx: {}", e);
        }
        std::process::exit(3);
    }
}
