//! vx: mechanical extractor.
//! usage: vx <repo> <unit.vu> <out.rs> <report.json> [--external f1,f2] [--probe]
//! Reads a unit template, pulls the named items/functions out of <repo>'s current source, applies the
//! fixed rewrites, splices the contracts of the template in, writes a Verus file and a report
//! (line ranges of every function, rewrites applied, anchors lost).
use proc_macro2::{Span, TokenStream};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::spanned::Spanned;
use syn::visit::Visit;

mod edits;
use edits::Edits;

const FNARG: usize = usize::MAX;
const MAYBE: usize = usize::MAX - 1;

#[derive(Default, Debug, Clone)]
struct FnSpec {
    file: String,
    path: String,
    name: Option<String>,
    sig: String,
    ret: Option<String>,
    attr: String,
    mutself: bool,
    fmt: bool,
    generics: Option<String>,
    params: Option<String>,
    loops: BTreeMap<usize, (Option<String>, String)>,
    loopstart: BTreeMap<usize, String>,
    loopend: BTreeMap<usize, String>,
    afterloop: BTreeMap<usize, String>,
    closures: BTreeMap<usize, ClosureSpec>,
    start: String,
    end: String,
    anchors: Vec<(bool, usize, String, String)>, // before?, kth, tokens, text
    replaces: Vec<(usize, String, String)>,      // kth(0=all), tokens, text
    chains: Vec<(String, String)>, // let-statement prefix, name stem
    extra: Vec<(String, String)>,  // callee, ghost argument added
    methods: Vec<(String, String)>,  // method of a library type, the specified function of the same meaning
    guards: Vec<(usize, String, String, String)>, // kth(0=all), lock function, guarded state, further ghost state
    ghost: String, // ghost parameters appended
    vecput: bool,
    intrait: bool,
    select: bool,
    asyncs: BTreeMap<usize, String>,
    optional: bool,
}
#[derive(Default, Debug, Clone)]
struct ClosureSpec {
    ty: Vec<String>,
    text: String,
}

fn norm(s: &str) -> Result<String, String> {
    let ts: TokenStream = s.parse().map_err(|e| format!("tokens {s:?}: {e}"))?;
    Ok(ts.to_string())
}
/// the text of tokens without the spacing between punctuation characters
fn flat(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
fn nt<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

struct Source {
    text: String,
    file: syn::File,
}

fn br(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

enum Found<'a> {
    Impl(&'a syn::ItemImpl, &'a syn::ImplItemFn),
    Free(&'a syn::ItemFn),
}

fn type_last(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => nt(t),
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && nt(a).contains("test"))
}

fn walk_items<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for it in items {
        match it {
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, c)) = &m.content {
                    walk_items(c, out)
                }
            }
            x => out.push(x),
        }
    }
}

fn find_fn<'a>(f: &'a syn::File, path: &str) -> Result<Found<'a>, String> {
    let mut items = vec![];
    walk_items(&f.items, &mut items);
    let mut found = vec![];
    if let Some((ty, m)) = path.rsplit_once("::") {
        let (tr, ty) = match ty.split_once(" for ") {
            Some((a, b)) => (Some(a.trim().to_string()), b.trim().to_string()),
            None => (None, ty.to_string()),
        };
        for it in items {
            if let syn::Item::Impl(i) = it {
                if is_test(&i.attrs) || type_last(&i.self_ty) != ty {
                    continue;
                }
                if let Some(t) = &tr {
                    let got = i.trait_.as_ref().map(|x| x.1.segments.last().unwrap().ident.to_string());
                    if got.as_deref() != Some(t.as_str()) {
                        continue;
                    }
                }
                for x in &i.items {
                    if let syn::ImplItem::Fn(ff) = x {
                        if ff.sig.ident == m {
                            found.push(Found::Impl(i, ff));
                        }
                    }
                }
            }
        }
    } else {
        for it in items {
            if let syn::Item::Fn(ff) = it {
                if !is_test(&ff.attrs) && ff.sig.ident == path {
                    found.push(Found::Free(ff));
                }
            }
        }
    }
    match found.len() {
        1 => Ok(found.pop().unwrap()),
        0 => Err(format!("function {path} not found")),
        n => Err(format!("function {path} found {n} times")),
    }
}

fn strip_await(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Await(a) => strip_await(&a.base),
        x => x,
    }
}
/// std::io and std::path types in a signature -> the unit's own
fn std_types(t: &str, rewrites: &mut std::collections::BTreeSet<String>) -> String {
    let x = t.replace("std::io::", "io::").replace("std::path::", "");
    if x != t {
        rewrites.insert("std::fs, std::io and std::path paths -> the unit's file-system shims".into());
    }
    x
}
/// collects loops, closures, statements, macros, awaits of one body, in source order
#[derive(Default)]
struct Coll<'a> {
    loops: Vec<&'a syn::Expr>,
    closures: Vec<&'a syn::ExprClosure>,
    stmts: Vec<&'a syn::Stmt>,
    exprs: Vec<&'a syn::Expr>,
    awaits: Vec<&'a syn::ExprAwait>,
    stmt_macros: Vec<&'a syn::StmtMacro>,
    expr_macros: Vec<&'a syn::ExprMacro>,
    uses: Vec<(usize, usize)>,
    arms: Vec<&'a syn::Arm>,
    asyncs: Vec<&'a syn::ExprAsync>,
    blocks: Vec<&'a syn::Block>,
    skip_async: bool,
}
impl<'a> Visit<'a> for Coll<'a> {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        match e {
            syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Loop(_) => self.loops.push(e),
            syn::Expr::Closure(c) => self.closures.push(c),
            syn::Expr::Await(a) => self.awaits.push(a),
            syn::Expr::Macro(m) => self.expr_macros.push(m),
            syn::Expr::Async(a) => {
                self.asyncs.push(a);
                if self.skip_async { self.exprs.push(e); return; }
            }
            _ => {}
        }
        self.exprs.push(e);
        syn::visit::visit_expr(self, e);
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        match s {
            syn::Stmt::Macro(m) => self.stmt_macros.push(m),
            syn::Stmt::Item(i) => {
                if let syn::Item::Use(_) = i {
                    self.uses.push(br(i.span()));
                    return;
                }
            }
            _ => {}
        }
        self.stmts.push(s);
        syn::visit::visit_stmt(self, s);
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        self.blocks.push(b);
        syn::visit::visit_block(self, b);
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        self.arms.push(a);
        syn::visit::visit_arm(self, a);
    }
}

const LOGM: &[&str] = &["error", "info", "debug", "warn", "trace"];

fn last_ident(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn gen_fn(src: &Source, sp: &FnSpec, external: bool, probe: bool, rewrites: &mut BTreeSet<String>) -> Result<String, String> {
    let (base, ablock) = match sp.path.split_once("@async") {
        Some((a, k)) => (a.to_string(), Some(k.parse::<usize>().map_err(|e| e.to_string())?)),
        None => (sp.path.clone(), None),
    };
    if sp.select {
        let found = find_fn(&src.file, &base)?;
        let b = match &found { Found::Impl(_, f) => &f.block, Found::Free(f) => &*f.block };
        let text = unselect(&src.text, b)?;
        let file = syn::parse_file(&text).map_err(|e| format!("select! rewrite: {e}"))?;
        rewrites.insert("tokio::select! { P = F => B, .. } -> a choice made by the environment between the branches (match vx_pick())".into());
        let mut sp2 = sp.clone();
        sp2.select = false;
        return gen_fn(&Source { text, file }, &sp2, external, probe, rewrites);
    }
    let found = find_fn(&src.file, &base)?;
    let (sig, block, fspan) = match &found {
        Found::Impl(_, f) => (&f.sig, &f.block, f.sig.span()),
        Found::Free(f) => (&f.sig, &*f.block, f.sig.span()),
    };
    let _ = fspan;
    let (asig, ab);
    let (sig, block) = match ablock {
        None => (sig, block),
        Some(k) => {
            let mut groups = vec![];
            async_blocks(block.to_token_stream(), &mut groups);
            let g = groups.get(k).ok_or(format!("async block #{k} of {base} not found"))?;
            ab = syn::parse2::<syn::Block>(TokenStream::from(proc_macro2::TokenTree::Group(g.clone()))).map_err(|e| e.to_string())?;
            asig = syn::parse_str::<syn::Signature>(&format!("fn {}_async{k}()", sig.ident)).unwrap();
            rewrites.insert(format!("{base}: async block #{k} read as a function of its captured variables"));
            (&asig, &ab)
        }
    };
    let t = &src.text;
    // ---- signature, rebuilt from the real one
    let mut s = String::new();
    for l in sp.attr.lines() {
        if probe && l.contains("rlimit") { continue; }
        s.push_str(l);
        s.push('\n');
    }
    let inherent = match &found { Found::Impl(i, _) => i.trait_.is_none(), _ => true };
    let _ = inherent;
    if !sp.intrait { s.push_str("pub "); }
    if let Some(c) = &sig.constness {
        s.push_str(&nt(c));
        s.push(' ');
    }
    if sig.asyncness.is_some() {
        rewrites.insert("async fn -> fn, .await removed".into());
    }
    s.push_str("fn ");
    s.push_str(sp.name.as_deref().unwrap_or(&sig.ident.to_string()));
    if let Some(g) = &sp.generics {
        s.push_str(g);
    } else {
        let (a, b) = br(sig.generics.span());
        if !sig.generics.params.is_empty() {
            s.push_str(&t[a..b]);
        }
    }
    s.push('(');
    if let Some(p) = &sp.params {
        rewrites.insert(format!("{}: parameter list written as ({})", sp.path, p));
        s.push_str(p);
    } else {
        let mut first = true;
        for inp in &sig.inputs {
            if !first {
                s.push_str(", ");
            }
            first = false;
            match inp {
                syn::FnArg::Receiver(r) if sp.mutself && r.reference.is_some() => {
                    rewrites.insert("&self -> &mut self where the receiver is a lock/concurrent map handle".into());
                    s.push_str("&mut self");
                }
                x => {
                    let (a, b) = br(x.span());
                    s.push_str(&std_types(&t[a..b], rewrites));
                }
            }
        }
    }
    if !sp.ghost.is_empty() {
        if !s.trim_end().ends_with('(') { s.push_str(", "); }
        s.push_str(sp.ghost.trim());
        rewrites.insert("ghost parameters appended".into());
    }
    s.push(')');
    match &sig.output {
        syn::ReturnType::Default => {}
        syn::ReturnType::Type(_, ty) => {
            let (a, b) = br(ty.span());
            match &sp.ret {
                Some(r) => s.push_str(&format!(" -> ({}: {})", r, std_types(&t[a..b], rewrites))),
                None => s.push_str(&format!(" -> {}", std_types(&t[a..b], rewrites))),
            }
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        let (a, b) = br(w.span());
        s.push_str(&format!("\n    {}", &t[a..b]));
    }
    s.push('\n');
    if !sp.sig.trim().is_empty() {
        s.push_str(&sp.sig);
        if !s.ends_with('\n') {
            s.push('\n');
        }
    }
    if external {
        s.push_str("{ unimplemented!() }\n");
        return Ok(assoc(format!("#[verifier::external_body]\n{s}"), &found));
    }
    // ---- body
    let (bs, be) = br(block.span());
    let mut ed = Edits::default();
    let mut c = Coll::default();
    c.skip_async = !sp.asyncs.is_empty();
    c.visit_block(block);
    for (k, text) in &sp.asyncs {
        let a = c.asyncs.get(*k).ok_or(format!("async block #{k} not found"))?;
        let (x, y) = br(a.span());
        ed.replace(x, y, text.trim().to_string());
        rewrites.insert(format!("{}: async block #{k} read as `{}`", sp.path, text.trim()));
    }
    // ghost arguments of specified callees
    for (name, arg) in &sp.extra {
        for e in &c.exprs {
            let (args, end) = match e {
                syn::Expr::MethodCall(m) if m.method == name => (&m.args, br(m.span()).1),
                syn::Expr::Call(f) => {
                    let x = nt(&f.func).replace(' ', "");
                    if x == *name || x.ends_with(&format!("::{name}")) { (&f.args, br(f.span()).1) } else { continue }
                }
                _ => continue,
            };
            let comma = if args.is_empty() || args.trailing_punct() { "" } else { ", " };
            ed.insert(end - 1, format!("{comma}{arg}"));
            rewrites.insert("ghost argument added to calls of specified functions".into());
        }
    }
    for e in &c.exprs {
        if let syn::Expr::Path(p) = e {
            let x = nt(&p.path).replace(' ', "");
            for (from, to) in [("std::fs::", "fs::"), ("tokio::fs::", "fs::"), ("std::path::", ""), ("std::io::", "io::")] {
                if x.starts_with(from) {
                    let (a, b) = br(p.path.span());
                    ed.replace(a, b, format!("{to}{}", &x[from.len()..]));
                    rewrites.insert("std::fs, std::io and std::path paths -> the unit's file-system shims".into());
                }
            }
        }
    }
    for e in &c.exprs {
        if let syn::Expr::MethodCall(m) = e {
            // V.extend_from_slice(X) on a Vec<u8>
            if sp.vecput && m.method == "extend_from_slice" {
                if let syn::Expr::Path(_) = &*m.receiver {
                    let (a, _) = br(m.span());
                    let (ra, rb) = br(m.receiver.span());
                    let (_, mb) = br(m.method.span());
                    let r = t[ra..rb].to_string();
                    // up to and including the opening parenthesis
                    let open = mb + t[mb..].find('(').unwrap() + 1;
                    ed.replace(a, open, format!("vec_put(&mut {r}, "));
                    rewrites.insert("V.extend_from_slice(X) on Vec<u8> -> vec_put(&mut V, X)".into());
                }
            }
            if m.method == "to_be_bytes" || m.method == "to_le_bytes" {
                let (a, b) = br(m.method.span());
                ed.replace(a, b, if m.method == "to_be_bytes" { "vx_be".into() } else { "vx_le".into() });
                rewrites.insert("x.to_be_bytes() / to_le_bytes() -> specified function of the same meaning".into());
            }
            for (old, new) in &sp.methods {
                if m.method == old {
                    let (a, b) = br(m.method.span());
                    ed.replace(a, b, new.clone());
                    rewrites.insert(format!("x.{old}(..) -> specified function {new} of the same meaning"));
                }
            }
            if m.method == "extend" && m.args.len() == 1 {
                let (a, b) = br(m.method.span());
                ed.replace(a, b, "vx_extend".into());
                rewrites.insert("x.extend(y) -> specified function vx_extend of the same meaning".into());
            }
            if m.method == "sort_by" && m.args.len() == 1 {
                let (a, b) = br(m.method.span());
                ed.replace(a, b, "vx_sort_by".into());
                rewrites.insert("v.sort_by(f) -> specified function vx_sort_by of the same meaning".into());
            }
            if (m.method == "max" || m.method == "min") && m.args.len() == 1 {
                let (a, b) = br(m.method.span());
                ed.replace(a, b, format!("vx_{}", m.method));
                rewrites.insert("x.max(y) / x.min(y) -> specified function vx_max / vx_min of the same meaning".into());
            }
            // (A..=B).contains(&x)
            if m.method == "contains" && m.args.len() == 1 {
                if let syn::Expr::Paren(p) = &*m.receiver {
                    if let syn::Expr::Range(r) = &*p.expr {
                        if let (Some(x), Some(y), syn::RangeLimits::Closed(_)) = (&r.start, &r.end, &r.limits) {
                            let (a, b) = br(m.span());
                            ed.replace(a, b, format!("vx_within({}, {}, {})", nt(x), nt(y), nt(&m.args[0])));
                            rewrites.insert("(A..=B).contains(&x) -> vx_within(A, B, &x)".into());
                        }
                    }
                }
            }
        }
    }

    if !sp.start.trim().is_empty() {
        ed.insert(bs + 1, format!("\n{}\n", sp.start));
    }
    if !sp.end.trim().is_empty() {
        // before the tail expression if any, else at the end
        let unit = matches!(sig.output, syn::ReturnType::Default);
        match block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) if !unit && !matches!(e, syn::Expr::While(_) | syn::Expr::ForLoop(_)) => {
                let (a, b) = br(e.span());
                if sp.end.contains("vx_r") {
                    // the tail value is named so that the proof text can speak about it
                    ed.insert(a, "\nlet vx_r = ".into());
                    ed.insert(b, format!(";\n{}\nvx_r\n", sp.end));
                } else {
                    ed.insert(a, format!("\n{}\n", sp.end));
                }
            }
            _ => ed.insert(be - 1, format!("\n{}\n", sp.end)),
        };
    }
    // lock guards: acquire at the binding, release at drop(guard) or at the end of its block
    for (kth, callee, inner, extra) in &sp.guards {
        let want = callee.replace(' ', "");
        let mut n = 0;
        let mut done = 0;
        for b in &c.blocks {
            for st in &b.stmts {
                let syn::Stmt::Local(l) = st else { continue };
                let Some(init) = &l.init else { continue };
                let syn::Expr::Call(call) = &*init.expr else { continue };
                if nt(&call.func).replace(' ', "") != want { continue; }
                n += 1;
                if *kth != 0 && *kth != n { continue; }
                done += 1;
                let syn::Pat::Ident(id) = &l.pat else { return Err("lock guard bound to a pattern".into()) };
                let name = id.ident.to_string();
                let (x, y) = br(st.span());
                let (ax, ay) = br(call.args.span());
                let (extra, acq, more) = match extra.split_once('@') {
                    Some((e, f)) => { let (f, a) = f.split_once(',').unwrap_or((f, "")); (e.trim(), f.trim(), format!(", {}", a.trim())) }
                    None => (extra.as_str(), "vx_acquire", String::new()),
                };
                ed.replace(x, y, format!("{acq}({}, {inner}, {extra}{more}); let {name} = &mut *{inner};", &t[ax..ay]));
                let rel = format!("vx_release({inner}, {extra});");
                let mut dropped = false;
                for s2 in &b.stmts {
                    if nt(s2).replace(' ', "") == format!("drop({name});") {
                        let (x, y) = br(s2.span());
                        ed.replace(x, y, rel.clone());
                        dropped = true;
                    }
                }
                if !dropped {
                    match b.stmts.last() {
                        Some(syn::Stmt::Expr(e, None)) => {
                            let (x, y) = br(e.span());
                            ed.insert(x, "\nlet vx_kept = ".into());
                            ed.insert(y, format!(";\n{rel}\nvx_kept\n"));
                        }
                        _ => { let (_, y) = br(b.span()); ed.insert(y - 1, format!("\n{rel}\n")); }
                    }
                }
            }
        }
        if done == 0 { return Err(format!("lock acquisition {callee} not found")); }
        rewrites.insert(format!("let g = {callee}(m) -> vx_acquire(m, ..); released at drop(g) or at the end of g's block (lock invariant checked at every release, arbitrary again at every acquisition)"));
    }
    for a in &c.awaits {
        let (_, be0) = br(a.base.span());
        let (_, e) = br(a.span());
        ed.replace(be0, e, String::new());
        rewrites.insert("async fn -> fn, .await removed".into());
    }
    for u in &c.uses {
        ed.replace(u.0, u.1, String::new());
        rewrites.insert("function-local `use` removed".into());
    }
    let mut handled: BTreeSet<(usize, usize)> = BTreeSet::new();
    // explicit replacements first
    for (kth, toks, text) in &sp.replaces {
        let want = flat(&norm(toks)?);
        let mut ranges: Vec<(usize, usize)> = vec![];
        let fnarg = *kth == FNARG;
        for st in &c.stmts {
            if !fnarg && flat(&nt(*st)) == want {
                ranges.push(br(st.span()));
            }
        }
        for e in &c.exprs {
            if fnarg {
                if let syn::Expr::MethodCall(mc) = e {
                    for a in &mc.args {
                        if flat(&nt(a)) == want { ranges.push(br(a.span())); }
                    }
                }
            } else if flat(&nt(*e)) == want {
                let r = br(e.span());
                if !ranges.contains(&r) {
                    ranges.push(r);
                }
            }
        }
        ranges.sort();
        let mut m = vec![];
        for r in ranges {
            if m.last().map_or(true, |p: &(usize, usize)| r.0 >= p.1) {
                m.push(r);
            }
        }
        if m.is_empty() {
            if *kth >= MAYBE { continue; }
            return Err(format!("rewrite anchor `{toks}` not found"));
        }
        let m: Vec<_> = if *kth == 0 || *kth >= MAYBE {
            m
        } else {
            m.get(*kth - 1).map(|x| vec![*x]).ok_or(format!("rewrite anchor #{kth} `{toks}` not found"))?
        };
        for r in m {
            ed.replace(r.0, r.1, text.trim_end().to_string());
            handled.insert(r);
        }
        rewrites.insert(format!("{}: `{}` read as `{}`", sp.path, toks.trim(), text.trim()));
    }
    for m in &c.stmt_macros {
        let id = last_ident(&m.mac.path);
        let (a, b) = br(m.span());
        if LOGM.contains(&id.as_str()) {
            ed.replace(a, b, "();".into());
            rewrites.insert("logging macros dropped".into());
        } else if !handled.contains(&(a, b)) && id != "assert" {
            if id == "format" { ed.replace(a, b, "vfmt()".into()); }
            else if id != "vec" && id != "matches" { return Err(format!("macro {id}! not supported")); }
        }
    }
    for m in &c.expr_macros {
        let id = last_ident(&m.mac.path);
        let (a, b) = br(m.span());
        if handled.contains(&(a, b)) {
            continue;
        }
        if LOGM.contains(&id.as_str()) {
            ed.replace(a, b, "()".into());
            rewrites.insert("logging macros dropped".into());
        } else if id == "format" && sp.fmt && fmt_text(&m.mac).is_some() {
            ed.replace(a, b, fmt_text(&m.mac).unwrap());
            rewrites.insert("format!(\"..{}..\", args) read as concatenation of the literal parts and the displayed arguments (fmt_lit, fmt_arg)".into());
        } else if id == "format" {
            ed.replace(a, b, "vfmt()".into());
            rewrites.insert("format!(..) texts abstracted to an unspecified string (vfmt)".into());
        } else if id == "vec" {
            let toks = m.mac.tokens.to_string();
            if toks.is_empty() {
                ed.replace(a, b, "Vec::new()".into());
                rewrites.insert("vec![] -> Vec::new()".into());
            } else if let Some(n) = toks.strip_prefix("0u8 ;") {
                // keep original expression text
                let inner = &t[a..b];
                let n2 = inner.split_once(';').map(|x| x.1.trim_end_matches(']').trim()).unwrap_or(n).to_string();
                ed.replace(a, b, format!("vec_zeroed({})", n2));
                rewrites.insert("vec![0u8; n] -> vec_zeroed(n)".into());
            } else {
                // keep
            }
        } else if id == "matches" || id == "unreachable" || id == "panic" {
        } else {
            return Err(format!("macro {id}! not supported"));
        }
    }
    for e in &c.exprs {
        if let syn::Expr::Path(p) = e {
            let x = nt(p).replace(' ', "");
            if sp.vecput && x == "Vec::from" {
                let (a, b) = br(p.span());
                ed.replace(a, b, "vec_from".into());
                rewrites.insert("Vec::from(array) -> vec_from(array)".into());
            }
            for ty in ["u16", "u32", "u64"] {
                for end in ["be", "le"] {
                    if x == format!("{ty}::from_{end}_bytes") {
                        let (a, b) = br(p.span());
                        ed.replace(a, b, format!("{ty}_from_{end}_bytes"));
                        rewrites.insert("uN::from_be_bytes / from_le_bytes -> specified function of the same meaning".into());
                    }
                }
            }
        }
    }
    // the verifier loses track of `*self` at returns inside a match with guards: remind it (an assertion it must prove)
    let mutself = sig.inputs.iter().any(|i| matches!(i, syn::FnArg::Receiver(r) if r.reference.is_some() && r.mutability.is_some()));
    if mutself {
        for e in &c.exprs {
            if let syn::Expr::Match(m) = e {
                if m.arms.iter().any(|a| a.guard.is_some()) {
                    for a in &m.arms {
                        if let syn::Expr::Return(r) = &*a.body {
                            let (x, y) = br(r.span());
                            ed.insert(x, "{ proof { assert(has_resolved(self)); } ".into());
                            ed.insert(y, " }".into());
                        }
                    }
                }
            }
        }
    }
    // X == "lit"
    for e in &c.exprs {
        if let syn::Expr::Binary(b) = e {
            let lit = |x: &syn::Expr| matches!(x, syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)));
            let ne = matches!(b.op, syn::BinOp::Ne(_));
            if (ne || matches!(b.op, syn::BinOp::Eq(_))) && (lit(&b.left) || lit(&b.right)) {
                let (x, y) = br(b.span());
                let (o, p) = br(b.op.span());
                ed.insert(x, format!("{}text_eq(&(", if ne { "!" } else { "" }));
                ed.replace(o, p, "), &(".into());
                ed.insert_last(y, "))".into());
                rewrites.insert("X == \"lit\" -> text_eq(&X, &\"lit\") (equality of the characters)".into());
            }
        }
    }
    // match X { "a" | "b" => A, .., _ => Z }
    for e in &c.exprs {
        if let syn::Expr::Match(m) = e {
            fn lits(p: &syn::Pat, out: &mut Vec<String>) -> bool {
                match p {
                    syn::Pat::Lit(l) => if let syn::Lit::Str(s) = &l.lit { out.push(format!("{:?}", s.value())); true } else { false },
                    syn::Pat::Or(o) => o.cases.iter().all(|q| lits(q, out)),
                    _ => false,
                }
            }
            let n = m.arms.len();
            let ok = n >= 2 && matches!(m.arms[n - 1].pat, syn::Pat::Wild(_)) && m.arms.iter().all(|a| a.guard.is_none())
                && m.arms[..n - 1].iter().all(|a| lits(&a.pat, &mut vec![]));
            if ok {
                let (_, ee) = br(m.expr.span());
                for (i, a) in m.arms.iter().enumerate() {
                    let (ps, _) = br(a.pat.span());
                    let (_, fe) = br(a.fat_arrow_token.span());
                    let mut v = vec![];
                    lits(&a.pat, &mut v);
                    let cond = v.iter().map(|l| format!("text_eq(&vx_m, &{l})")).collect::<Vec<_>>().join(" || ");
                    let head = if i + 1 == n { "{".to_string() } else { format!("if {cond} {{") };
                    if i == 0 { ed.replace(ee, ps, format!(" {{ vx_m => {head}")); ed.replace(ps, fe, " ".into()); } else { ed.replace(ps, fe, format!(" else {head}")); }
                    let (_, be) = br(a.body.span());
                    let (_, ae) = br(a.span());
                    if ae > be { ed.replace(be, ae, " }".into()); } else { ed.insert(be, " }".into()); }
                }
                rewrites.insert("match X { \"lit\" => A, .., _ => Z } -> comparisons of the characters in the same order (text_eq)".into());
            }
        }
    }
    // "lit".into()
    for e in &c.exprs {
        if let syn::Expr::MethodCall(mc) = e {
            if mc.method == "into" {
                if let syn::Expr::Lit(l) = &*mc.receiver {
                    if let syn::Lit::Str(_) = l.lit {
                        let (a, b) = br(mc.method.span());
                        ed.replace(a, b, "to_string".into());
                        rewrites.insert("\"lit\".into() -> \"lit\".to_string()".into());
                    }
                }
            }
        }
    }
    // loops
    let lookup_loop = |n: usize| -> Result<&syn::Expr, String> { c.loops.get(n).copied().ok_or(format!("loop #{n} not found")) };
    if let Some(maxl) = sp.loops.keys().max() {
        if c.loops.len() != maxl + 1 {
            return Err(format!("expected {} loops, found {}", maxl + 1, c.loops.len()));
        }
    } else if !c.loops.is_empty() {
        return Err(format!("expected no loops, found {}", c.loops.len()));
    }
    for (n, (head, text)) in &sp.loops {
        let l = lookup_loop(*n)?;
        let (hs, body) = match l {
            syn::Expr::While(w) => (format!("while {}", nt(&w.cond)), &w.body),
            syn::Expr::Loop(w) => ("loop".to_string(), &w.body),
            syn::Expr::ForLoop(w) => (format!("for {} in {}", nt(&w.pat), nt(&w.expr)), &w.body),
            _ => unreachable!(),
        };
        let mut loop_text = text.clone();
        if let Some(h) = head {
            // header text: `for x in expr ~> iter` gives a ghost iterator name to the loop
            let (h, ghost) = match h.split_once("~>") {
                Some((a, b)) => (a.trim().to_string(), Some(b.trim().to_string())),
                None => (h.clone(), None),
            };
            let kind = |x: &str| x.split_whitespace().next().unwrap_or("").to_string();
            if norm(&h)? != norm(&hs)? && kind(&h) != kind(&hs) {
                return Err(format!("loop #{n} header is `{hs}`, expected `{h}`"));
            }
            if let (Some(g), syn::Expr::ForLoop(w)) = (ghost, l) {
                let (fs, _) = br(w.span());
                let (es, ee) = br(w.expr.span());
                match &*w.expr {
                    syn::Expr::Reference(r) if matches!(strip_await(&r.expr), syn::Expr::Call(_) | syn::Expr::MethodCall(_)) => {
                        let (is, _) = br(r.expr.span());
                        ed.replace(fs, is, format!("let {g}_src = "));
                        ed.insert(ee, format!("; let mut {g} = vx_into_seq(&{g}_src"));
                    }
                    _ => ed.replace(fs, es, format!("let mut {g} = vx_into_seq(")),
                }
                ed.insert(ee, format!("); let ghost {g}_all = {g}@; while {g}.has_next()"));
                let (pt, lets) = pat_text(t, &w.pat);
                let (ba, _) = br(body.span());
                ed.insert(ba + 1, format!(" let {pt} = {g}.next_item(); {lets}\n"));
                let body_text = text.trim();
                let auto = format!("invariant {g}@.len() <= {g}_all.len(), {g}@ == {g}_all.skip({g}_all.len() - {g}@.len()),");
                let mut x = String::new();
                let mut done = false;
                for l in body_text.lines() {
                    let lt = l.trim();
                    if !done && (lt == "invariant" || lt.starts_with("invariant ")) {
                        x.push_str(&format!("\n {auto}\n {}\n", &lt["invariant".len()..]));
                        done = true;
                    } else {
                        x.push_str(l);
                        x.push('\n');
                    }
                }
                if let Some(rest) = body_text.strip_prefix("invariant_except_break ") {
                    x = format!("\n {} {rest}\n", auto.replacen("invariant ", "invariant_except_break ", 1));
                } else if !done { x = format!("\n {auto}\n {body_text}\n"); }
                if !x.contains("decreases") { x.push_str(&format!(" decreases {g}@.len()\n")); }
                loop_text = x;
                rewrites.insert("for PAT in EXPR -> iteration over the sequence of EXPR's items (while has_next, next_item)".into());
            }
        }
        let (a, b) = br(body.span());
        ed.insert(a, format!("\n{}\n", loop_text));
        if let Some(x) = sp.loopstart.get(n) {
            ed.insert(a + 1, format!("\n{}\n", x));
        }
        if let Some(x) = sp.loopend.get(n) {
            ed.insert(b - 1, format!("\n{}\n", x));
        }
        if let Some(x) = sp.afterloop.get(n) {
            let (_, e) = br(l.span());
            ed.insert(e, format!("\n{}\n", x));
        }
    }
    // closures
    for (n, cs) in &sp.closures {
        let cl = c.closures.get(*n).ok_or(format!("closure #{n} not found"))?;
        let (a, _) = br(cl.span());
        let (ba, bb) = br(cl.body.span());
        let mut hdr = String::from("|");
        let mut lets = String::new();
        if cs.ty.len() != cl.inputs.len() {
            return Err(format!("closure #{n} has {} parameters", cl.inputs.len()));
        }
        let mut text = cs.text.clone();
        for (i, (pat, ty)) in cl.inputs.iter().zip(&cs.ty).enumerate() {
            let pat = match pat { syn::Pat::Type(pt) => &*pt.pat, p => p };
            let (pa, pb) = br(pat.span());
            let pt = &t[pa..pb];
            if i > 0 {
                hdr.push_str(", ");
            }
            match pat {
                syn::Pat::Ident(pi) if pi.by_ref.is_none() && pi.subpat.is_none() => {
                    hdr.push_str(&format!("{}: {}", pt, ty));
                    text = text.replace(&format!("vx_p{}", i), &pi.ident.to_string());
                }
                _ => {
                    hdr.push_str(&format!("vx_p{}: {}", i, ty));
                    if !matches!(pat, syn::Pat::Wild(_)) {
                        let (pt2, l2) = pat_text(t, pat);
                        lets.push_str(&format!("let {} = vx_p{}; {} ", pt2, i, l2));
                    }
                }
            }
        }
        hdr.push_str("| ");
        hdr.push_str(text.trim());
        hdr.push_str(" { ");
        hdr.push_str(&lets);
        ed.replace(a, ba, hdr);
        ed.insert_last(bb, " }".into());
        rewrites.insert("closure parameters typed, patterns moved into a let, body braced".into());
    }
    // let x = loop { .. break v .. }
    for st in &c.stmts {
        if let syn::Stmt::Local(l) = st {
            if let (syn::Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                if let syn::Expr::Loop(lp) = &*init.expr {
                    let mut c2 = Coll::default();
                    c2.visit_block(&lp.body);
                    let (a, _) = br(l.span());
                    let (b, _) = br(lp.span());
                    ed.replace(a, b, format!("let {}; ", id.ident));
                    for e in &c2.exprs {
                        if let syn::Expr::Break(k) = e {
                            if let Some(v) = &k.expr {
                                let (ka, kb) = br(k.span());
                                let (va, vb) = br(v.span());
                                ed.replace(ka, va, format!("{{ {} = ", id.ident));
                                ed.insert_last(vb, "; break; }".into());
                                let _ = kb;
                            }
                        }
                    }
                    rewrites.insert("let x = loop { .. break v .. } -> let x; loop { .. x = v; break .. }".into());
                }
            }
        }
    }
    // method chains of a `let`, one step per statement
    for (toks, stem) in &sp.chains {
        let sq = |x: &str| -> String { x.chars().filter(|c| !c.is_whitespace()).collect() };
        let want = sq(toks);
        let st = c.stmts.iter().find(|s| sq(&nt(**s)).starts_with(&want)).ok_or(format!("statement anchor `{toks}` not found"))?;
        let syn::Stmt::Local(l) = st else { return Err(format!("`{toks}` is not a let")) };
        let Some(init) = &l.init else { return Err(format!("`{toks}` has no value")) };
        let mut ends = vec![];
        let mut e: &syn::Expr = &init.expr;
        while let syn::Expr::MethodCall(m) = e {
            ends.push(br(m.span()).1);
            e = &m.receiver;
        }
        ends.reverse();
        if ends.len() < 2 {
            return Err(format!("`{toks}` is not a method chain"));
        }
        let (ss, _) = br(st.span());
        let (bs0, _) = br(e.span());
        let head = t[ss..bs0].to_string();
        ed.replace(ss, bs0, format!("let {stem}0 = "));
        for i in 0..ends.len() - 1 {
            if i + 2 == ends.len() {
                ed.insert_last(ends[i], format!(";\n{head}{stem}{i}"));
            } else {
                ed.insert_last(ends[i], format!(";\nlet {stem}{} = {stem}{i}", i + 1));
            }
        }
        rewrites.insert("iterator chains of a let written one step per statement".into());
    }
    // statement anchors
    for (before, kth, toks, text) in &sp.anchors {
        let sq = |x: &str| -> String { x.chars().filter(|c| !c.is_whitespace()).collect() };
        let want = sq(toks);
        let m: Vec<_> = c.stmts.iter().filter(|s| sq(&nt(**s)).starts_with(&want)).collect();
        let st = m.get(*kth).ok_or(format!("statement anchor `{toks}` not found"))?;
        let (a, b) = br(st.span());
        if *before {
            ed.insert(a, format!("\n{}\n", text));
        } else {
            ed.insert(b, format!("\n{}\n", text));
        }
    }
    if probe {
        s.push_str(&format!("{{\n{}\n proof {{ assert(false); }}\n vx_stop() }}\n", sp.start));
    } else {
        s.push_str(&ed.apply(t, bs, be)?);
    }
    s.push('\n');
    Ok(assoc(s, &found))
}

/// `Self::Assoc` of a trait impl -> the type it is bound to
fn assoc(mut s: String, found: &Found) -> String {
    if let Found::Impl(i, _) = found {
        for it in &i.items {
            if let syn::ImplItem::Type(t) = it {
                s = s.replace(&format!("Self::{}", t.ident), &nt(&t.ty));
            }
        }
    }
    s
}

/// the bodies of `async {..}` / `async move {..}` in source order, also inside macro arguments
fn async_blocks(ts: TokenStream, out: &mut Vec<proc_macro2::Group>) {
    use proc_macro2::{Delimiter, TokenTree};
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..v.len() {
        if let TokenTree::Group(g) = &v[i] {
            let id = |k: usize| match v.get(k) { Some(TokenTree::Ident(x)) => x.to_string(), _ => String::new() };
            let a = i >= 1 && id(i - 1) == "async" || i >= 2 && id(i - 1) == "move" && id(i - 2) == "async";
            if a && g.delimiter() == Delimiter::Brace { out.push(g.clone()); }
            async_blocks(g.stream(), out);
        }
    }
}

struct Branch { pat: syn::Pat, fut: syn::Expr, cond: Option<syn::Expr>, body: syn::Expr }
struct Select { branches: Vec<Branch> }
impl syn::parse::Parse for Select {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let mut branches = vec![];
        while !i.is_empty() {
            if i.peek(syn::Ident) && i.peek2(syn::Token![;]) { let _: syn::Ident = i.parse()?; let _: syn::Token![;] = i.parse()?; continue; }
            let pat = syn::Pat::parse_multi(i)?;
            i.parse::<syn::Token![=]>()?;
            let fut: syn::Expr = i.parse()?;
            let cond = if i.peek(syn::Token![,]) { i.parse::<syn::Token![,]>()?; i.parse::<syn::Token![if]>()?; Some(i.parse::<syn::Expr>()?) } else { None };
            i.parse::<syn::Token![=>]>()?;
            let body: syn::Expr = if i.peek(syn::token::Brace) { let b: syn::Block = i.parse()?; syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b }) } else { i.parse()? };
            if i.peek(syn::Token![,]) { i.parse::<syn::Token![,]>()?; }
            branches.push(Branch { pat, fut, cond, body });
        }
        Ok(Select { branches })
    }
}
/// the file text with every select! of one body written as a match on an unspecified choice
fn unselect(text: &str, b: &syn::Block) -> Result<String, String> {
    let mut c = Coll::default();
    c.visit_block(b);
    let mut ed: Vec<(usize, usize, String)> = vec![];
    let mut todo: Vec<(&syn::Macro, (usize, usize))> = c.stmt_macros.iter().map(|m| (&m.mac, br(m.span()))).collect();
    todo.extend(c.expr_macros.iter().map(|m| (&m.mac, br(m.span()))));
    for (m, (x, y)) in todo {
        if last_ident(&m.path) != "select" { continue; }
        let s: Select = syn::parse2(m.tokens.clone()).map_err(|e| format!("select!: {e}"))?;
        let sl = |sp: Span| { let (a, b) = br(sp); text[a..b].to_string() };
        let mut o = "match vx_pick() {\n".to_string();
        let n = s.branches.len();
        for (k, br_) in s.branches.iter().enumerate() {
            let irref = matches!(br_.pat, syn::Pat::Ident(_) | syn::Pat::Wild(_));
            let fut = match &br_.fut { syn::Expr::Reference(r) => format!("vx_await({})", sl(r.span())), e => sl(e.span()) };
            let arm = format!("match {} {{ {} => {}{} }}", fut, sl(br_.pat.span()), sl(br_.body.span()), if irref { "" } else { ", _ => {}" });
            let arm = match &br_.cond { Some(cx) => format!("if {} {{ {} }}", sl(cx.span()), arm), None => arm };
            o.push_str(&if k + 1 == n { format!("_ => {{ {arm} }}\n") } else { format!("{k} => {{ {arm} }}\n") });
        }
        o.push('}');
        ed.push((x, y, o));
    }
    if ed.is_empty() { return Err("no select! found".into()); }
    ed.sort();
    let mut out = String::new();
    let mut at = 0;
    for (x, y, o) in ed { out.push_str(&text[at..x]); out.push_str(&o); at = y; }
    out.push_str(&text[at..]);
    Ok(out)
}

/// pattern with `&x` sub-patterns replaced by a reference binding plus a deref
fn pat_text(t: &str, p: &syn::Pat) -> (String, String) {
    match p {
        syn::Pat::Reference(r) => {
            let (a, b) = br(r.pat.span());
            let n = format!("vxr_{}", t[a..b].replace(|c: char| !c.is_alphanumeric() && c != '_', ""));
            (n.clone(), format!("let {} = *{};", &t[a..b], n))
        }
        syn::Pat::Tuple(tp) => {
            let mut l = String::new();
            let mut o = vec![];
            for e in &tp.elems {
                let (x, y) = pat_text(t, e);
                o.push(x);
                l.push_str(&y);
            }
            (format!("({})", o.join(", ")), l)
        }
        _ => {
            let (a, b) = br(p.span());
            (t[a..b].to_string(), String::new())
        }
    }
}

/// struct / enum / const with attributes stripped and everything made pub
fn gen_item(src: &Source, name: &str, attr: &str, omit: &[String]) -> Result<String, String> {
    let mut items = vec![];
    walk_items(&src.file.items, &mut items);
    for it in items {
        match it {
            syn::Item::Struct(x) if x.ident == name => {
                let mut y = x.clone();
                y.attrs.clear();
                y.vis = syn::parse_quote!(pub);
                for f in y.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = syn::parse_quote!(pub);
                }
                if let syn::Fields::Named(n) = &mut y.fields {
                    let keep: Vec<syn::Field> = n.named.iter().filter(|f| !omit.contains(&f.ident.as_ref().unwrap().to_string())).cloned().collect();
                    n.named = keep.into_iter().collect();
                }
                return Ok(format!("{}\n{}\n", attr, nt(&y)));
            }
            syn::Item::Enum(x) if x.ident == name => {
                let mut y = x.clone();
                y.attrs.clear();
                y.vis = syn::parse_quote!(pub);
                for v in y.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                return Ok(format!("{}\n{}\n", attr, nt(&y)));
            }
            syn::Item::Const(x) if x.ident == name => {
                let mut y = x.clone();
                y.attrs.clear();
                y.vis = syn::parse_quote!(pub);
                return Ok(format!("{}\n", nt(&y)));
            }
            syn::Item::Type(x) if x.ident == name => {
                let mut y = x.clone();
                y.attrs.clear();
                y.vis = syn::parse_quote!(pub);
                return Ok(format!("{}\n", nt(&y)));
            }
            _ => {}
        }
    }
    Err(format!("item {name} not found"))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = &args[1];
    let unit = &args[2];
    let out = &args[3];
    let report = &args[4];
    let mut external: BTreeSet<String> = BTreeSet::new();
    let mut probe = false;
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--external" => {
                i += 1;
                external.extend(args[i].split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()));
            }
            "--probe" => probe = true,
            x => panic!("arg {x}"),
        }
        i += 1;
    }
    let unit_dir = std::path::Path::new(unit).parent().unwrap().to_path_buf();
    // includes
    fn load(p: &std::path::Path, dir: &std::path::Path, out: &mut Vec<String>, seen: &mut BTreeSet<std::path::PathBuf>) {
        if !seen.insert(p.to_path_buf()) { return; } // each file once
        let t = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p:?}: {e}"));
        for l in t.lines() {
            if let Some(f) = l.trim().strip_prefix("//@include ") {
                load(&dir.join(f.trim()), dir, out, seen);
            } else {
                out.push(l.to_string());
            }
        }
    }
    let mut lines = vec![];
    load(std::path::Path::new(unit), &unit_dir, &mut lines, &mut BTreeSet::new());

    let mut sources: HashMap<String, Result<Source, String>> = HashMap::new();
    let mut o = String::new();
    let mut fns = vec![];
    let mut lost = vec![];
    let mut items_lost = vec![];
    let mut rewrites = BTreeSet::new();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].clone();
        let tr = l.trim();
        if let Some(rest) = tr.strip_prefix("//@item ") {
            let mut p = rest.split_whitespace();
            let file = p.next().unwrap().to_string();
            let name = p.next().unwrap().to_string();
            let mut omit = vec![];
            let mut attr = String::new();
            for x in p {
                if let Some(v) = x.strip_prefix("omit=") {
                    omit = v.split(',').map(|s| s.to_string()).collect();
                    rewrites.insert(format!("struct {name}: field(s) {v} dropped"));
                } else if let Some(v) = x.strip_prefix("attr=") {
                    attr = v.replace('~', " ");
                }
            }
            let r = get(&mut sources, repo, &file);
            let r = r.and_then(|_| gen_item(sources_get(&sources, &file), &name, &attr, &omit));
            match r {
                Ok(t) => o.push_str(&t),
                Err(e) => items_lost.push(serde_json::json!({"item": name, "why": e})),
            }
            i += 1;
            continue;
        }
        if let Some(rest) = tr.strip_prefix("//@fn ") {
            let mut sp = FnSpec::default();
            let (file, path) = rest.trim().split_once(' ').expect("//@fn FILE PATH");
            sp.file = file.to_string();
            sp.path = path.trim().to_string();
            i += 1;
            let mut cur: Box<dyn FnMut(&mut FnSpec, &str)> = Box::new(|s, l| {
                s.sig.push_str(l);
                s.sig.push('\n');
            });
            while i < lines.len() && lines[i].trim() != "//@endfn" {
                let l = lines[i].clone();
                let t = l.trim();
                if let Some(d) = t.strip_prefix("//@") {
                    let d = d.trim();
                    let (k, v) = match d.split_once(char::is_whitespace) {
                        Some((a, b)) => (a.to_string(), b.trim().to_string()),
                        None => (d.to_string(), String::new()),
                    };
                    match k.as_str() {
                        "ret" => sp.ret = Some(v),
                        "as" => sp.name = Some(v),
                        "attr" => { sp.attr.push_str(&v); sp.attr.push('\n'); }
                        "mutself" => sp.mutself = true,
                        "fmt" => sp.fmt = true,
                        "vecput" => sp.vecput = true,
                        "trait" => sp.intrait = true,
                        "select" => sp.select = true,
                        "ghost" => sp.ghost = v,
                        "guard" => {
                            let (kth, v) = if let Some(r) = v.strip_prefix('#') { let (a, b) = r.split_once(' ').unwrap(); (a.parse::<usize>().unwrap(), b.to_string()) } else { (0, v.clone()) };
                            let (a, b) = v.split_once("=>>").expect("//@guard LOCK =>> STATE, EXTRA");
                            let (i, e) = b.split_once(',').unwrap_or((b, ""));
                            sp.guards.push((kth, a.trim().to_string(), i.trim().to_string(), e.trim().to_string()));
                        }
                        "extra" => { let (a, b) = v.split_once("=>>").expect("//@extra CALLEE =>> ARG"); sp.extra.push((a.trim().to_string(), b.trim().to_string())); }
                        "async" => { let (a, b) = v.split_once("=>>").expect("//@async K =>> TEXT"); sp.asyncs.insert(a.trim().parse().unwrap(), b.trim().to_string()); }
                        "method" => { let (a, b) = v.split_once("=>>").expect("//@method NAME =>> NAME"); sp.methods.push((a.trim().to_string(), b.trim().to_string())); }
                        "params" => sp.params = Some(v),
                        "generics" => sp.generics = Some(v),
                        "optional" => sp.optional = true,
                        "chain" => { let (a, b) = v.split_once("=>>").expect("//@chain PREFIX =>> STEM"); sp.chains.push((a.trim().to_string(), b.trim().to_string())); }
                        "sig" => { sp.sig.push_str(&v); sp.sig.push('\n'); cur = Box::new(|s, l| { s.sig.push_str(l); s.sig.push('\n'); }); }
                        "loop" => {
                            let (n, h) = match v.split_once(char::is_whitespace) { Some((a, b)) => (a.to_string(), Some(b.trim().to_string())), None => (v.clone(), None) };
                            let n: usize = n.parse().unwrap();
                            sp.loops.insert(n, (h, String::new()));
                            cur = Box::new(move |s, l| { let e = s.loops.get_mut(&n).unwrap(); e.1.push_str(l); e.1.push('\n'); });
                        }
                        "loopstart" | "loopend" | "afterloop" => {
                            let n: usize = v.parse().unwrap();
                            let k = k.clone();
                            cur = Box::new(move |s, l| {
                                let m = match k.as_str() { "loopstart" => &mut s.loopstart, "loopend" => &mut s.loopend, _ => &mut s.afterloop };
                                let e = m.entry(n).or_default();
                                e.push_str(l);
                                e.push('\n');
                            });
                        }
                        "closure" => {
                            let (n, ty) = match v.split_once(char::is_whitespace) { Some((a, b)) => (a.to_string(), b.trim().to_string()), None => (v.clone(), String::new()) };
                            let n: usize = n.parse().unwrap();
                            let tys = if ty.is_empty() { vec![] } else { ty.split(";;").map(|x| x.trim().to_string()).collect() };
                            sp.closures.insert(n, ClosureSpec { ty: tys, text: String::new() });
                            cur = Box::new(move |s, l| { let e = s.closures.get_mut(&n).unwrap(); e.text.push_str(l); e.text.push('\n'); });
                        }
                        "start" => { sp.start.push_str(&v); sp.start.push('\n'); cur = Box::new(|s, l| { s.start.push_str(l); s.start.push('\n'); }); }
                        "end" => { sp.end.push_str(&v); sp.end.push('\n'); cur = Box::new(|s, l| { s.end.push_str(l); s.end.push('\n'); }); }
                        "before" | "after" => {
                            let (kth, toks) = if let Some(r) = v.strip_prefix('#') { let (a, b) = r.split_once(' ').unwrap(); (a.parse::<usize>().unwrap(), b.to_string()) } else { (0, v.clone()) };
                            sp.anchors.push((k == "before", kth, toks, String::new()));
                            let n = sp.anchors.len() - 1;
                            cur = Box::new(move |s, l| { s.anchors[n].3.push_str(l); s.anchors[n].3.push('\n'); });
                        }
                        // an item function named as a method argument, and a rewrite that need not apply
                        "fnarg" | "maybe" => {
                            let (a, b) = v.split_once("=>>").unwrap();
                            sp.replaces.push((if k == "fnarg" { FNARG } else { MAYBE }, a.trim().to_string(), b.trim().to_string()));
                        }
                        "replace" => {
                            let (kth, v) = if let Some(r) = v.strip_prefix('#') { let (a, b) = r.split_once(' ').unwrap(); (a.parse::<usize>().unwrap(), b.to_string()) } else { (0, v.clone()) };
                            if let Some((a, b)) = v.split_once("=>>") {
                                sp.replaces.push((kth, a.trim().to_string(), b.trim().to_string()));
                            } else {
                                sp.replaces.push((kth, v.clone(), String::new()));
                                let n = sp.replaces.len() - 1;
                                cur = Box::new(move |s, l| { s.replaces[n].2.push_str(l); s.replaces[n].2.push('\n'); });
                            }
                        }
                        x => panic!("unknown directive //@{x}"),
                    }
                } else {
                    cur(&mut sp, &l);
                }
                i += 1;
            }
            i += 1;
            drop(cur);
            let r = get(&mut sources, repo, &sp.file);
            let key = format!("{}#{}", sp.file, sp.path);
            let r = match r {
                Ok(()) => {
                    let s = sources_get(&sources, &sp.file);
                    if external.contains(&key) {
                        gen_fn(s, &sp, true, false, &mut rewrites).map(|t| (t, true))
                    } else {
                        match gen_fn(s, &sp, false, probe, &mut rewrites) {
                            Ok(t) => Ok((t, false)),
                            Err(e) => {
                                lost.push(serde_json::json!({"fn": key, "why": e}));
                                gen_fn(s, &sp, true, false, &mut rewrites).map(|t| (t, true))
                            }
                        }
                    }
                }
                Err(e) => Err(e),
            };
            match r {
                Ok((t, ext)) => {
                    let a = o.matches('\n').count() + 1;
                    o.push_str(&t);
                    let b = o.matches('\n').count() + 1;
                    fns.push(serde_json::json!({"fn": key, "from": a, "to": b, "external": ext}));
                }
                Err(e) => {
                    lost.push(serde_json::json!({"fn": key, "why": e, "gone": true}));
                }
            }
            continue;
        }
        o.push_str(&l);
        o.push('\n');
        i += 1;
    }
    std::fs::write(out, &o).unwrap();
    let rep = serde_json::json!({"functions": fns, "lost": lost, "items_lost": items_lost, "rewrites": rewrites});
    std::fs::write(report, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}

fn get(sources: &mut HashMap<String, Result<Source, String>>, repo: &str, f: &str) -> Result<(), String> {
    if !sources.contains_key(f) {
        let p = format!("{repo}/{f}");
        let r = std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}")).and_then(|text| {
            let file = syn::parse_file(&text).map_err(|e| format!("{p}: {e}"))?;
            Ok(Source { text, file })
        });
        sources.insert(f.to_string(), r);
    }
    sources[f].as_ref().map(|_| ()).map_err(|e| e.clone())
}

fn sources_get<'a>(m: &'a HashMap<String, Result<Source, String>>, f: &str) -> &'a Source {
    m[f].as_ref().unwrap_or_else(|e| panic!("{e}"))
}

/// format!("a{}b{x}", y) as fmt_lit(fmt_arg(..)); None for anything but plain `{}` and `{name}`
fn fmt_text(m: &syn::Macro) -> Option<String> {
    let args = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).ok()?;
    let mut it = args.iter();
    let lit = match it.next()? { syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(), _ => return None };
    let mut out = "fmt_new()".to_string();
    let mut cur = String::new();
    let mut ch = lit.chars().peekable();
    let put = |out: &mut String, cur: &mut String| if !cur.is_empty() { *out = format!("fmt_lit({}, {:?})", out, cur); cur.clear(); };
    while let Some(x) = ch.next() {
        match x {
            '{' if ch.peek() == Some(&'{') => { ch.next(); cur.push('{'); }
            '}' if ch.peek() == Some(&'}') => { ch.next(); cur.push('}'); }
            '{' => {
                let mut name = String::new();
                loop { match ch.next()? { '}' => break, c => name.push(c) } }
                let e = if name.is_empty() { let e = it.next()?; quote::quote!(#e).to_string() } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') { name } else { return None };
                put(&mut out, &mut cur);
                out = format!("fmt_arg({}, &({}))", out, e);
            }
            '}' => return None,
            c => cur.push(c),
        }
    }
    put(&mut out, &mut cur);
    if it.next().is_some() { return None; }
    Some(out)
}
