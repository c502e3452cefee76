use crate::config::Section;
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct FnInfo {
    pub module: String,
    pub contract: bool,
    pub external: bool,
    pub tags: Vec<String>,
    pub loops: usize,
    pub src_hash: String,
    pub src: String,
    pub calls: Vec<String>,
    /// number of closures and the kinds of the loops, in order
    pub shape: String,
}

pub struct Ctx {
    pub sections: BTreeMap<(String, String), Section>,
    pub renames: BTreeMap<String, String>,
    pub paths: Vec<(Vec<String>, String)>,
    pub callpaths: BTreeMap<String, String>,
    used: BTreeSet<(String, String)>,
    pub lost: Vec<String>,
    pub functions: BTreeMap<String, FnInfo>,
    pub uncontracted: Vec<String>,
    pub edit_log: BTreeMap<String, usize>,
    pub dropped: Vec<String>,
    /// what the canaries stand at
    pub canaries: Vec<String>,
    modules: BTreeSet<String>,
    /// module -> text after specialisation
    special: BTreeMap<String, String>,
}

#[derive(Debug, Clone)]
struct Edit {
    at: Range<usize>,
    text: String,
    /// order among insertions at the same place
    seq: usize,
}

pub fn norm(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn hash(s: &str) -> String {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    // white space and comments do not count
    let t: String = match s.parse::<TokenStream>() {
        Ok(t) => t.to_string(),
        Err(_) => s.to_string(),
    };
    t.hash(&mut h);
    format!("{:016x}", h.finish())
}

impl Ctx {
    pub fn new(secs: Vec<Section>) -> Self {
        let mut c = Ctx {
            sections: BTreeMap::new(),
            renames: BTreeMap::new(),
            paths: vec![],
            callpaths: BTreeMap::new(),
            used: BTreeSet::new(),
            lost: vec![],
            functions: BTreeMap::new(),
            uncontracted: vec![],
            edit_log: BTreeMap::new(),
            dropped: vec![],
            canaries: vec![],
            modules: BTreeSet::new(),
            special: BTreeMap::new(),
        };
        for s in secs {
            match s.kind.as_str() {
                "rename" => {
                    let (a, b) = s.key.split_once(' ').unwrap();
                    c.renames.insert(a.trim().into(), b.trim().into());
                }
                "path" => {
                    let (a, b) = s.key.split_once(' ').unwrap();
                    c.paths
                        .push((a.trim().split("::").map(|x| x.to_string()).collect(), b.trim().into()));
                }
                "callpath" => {
                    let (a, b) = s.key.split_once(' ').unwrap();
                    c.callpaths.insert(a.trim().into(), b.trim().into());
                }
                _ => {
                    let k = (s.kind.clone(), s.key.clone());
                    if s.kind == "module" && c.sections.contains_key(&k) {
                        let all = c.sections.get_mut(&k).unwrap();
                        for (n, t) in s.subs {
                            all.subs.entry(n).or_default().push_str(&t);
                        }
                        continue;
                    }
                    if c.sections.contains_key(&k) {
                        panic!("{}:{}: duplicate section {:?}", s.file, s.line, k);
                    }
                    c.sections.insert(k, s);
                }
            }
        }
        c
    }

    pub fn lost(&mut self, s: String) {
        self.lost.push(s);
    }

    fn log(&mut self, what: &str) {
        *self.edit_log.entry(what.to_string()).or_default() += 1;
    }

    fn section(&mut self, kind: &str, key: &str) -> Option<Section> {
        let k = (kind.to_string(), key.to_string());
        let s = self.sections.get(&k).cloned();
        if s.is_some() {
            self.used.insert(k);
        }
        s
    }

    /// Pre-pass: specialise higher-order functions.
    pub fn collect(&mut self, module: &str, text: &str, file: &syn::File) {
        self.modules.insert(module.to_string());
        let _ = (text, file);
    }

    pub fn finish(&mut self) {
        let mut l = vec![];
        for (k, s) in &self.sections {
            let m = k.1.split("::").next().unwrap_or("").to_string();
            if k.0 != "specialize" && !self.modules.contains(&m) {
                continue; // a module that is not part of this run
            }
            if k.0 == "specialize" && !s.key.is_empty() {
                let m2 = s.subs.get("site").map(|x| x.trim().split("::").next().unwrap().to_string());
                if !m2.map_or(false, |m| self.modules.contains(&m)) {
                    continue;
                }
            }
            if !self.used.contains(k) && !s.subs.contains_key("optional") {
                l.push(format!("{} {} not found in the source", k.0, k.1));
            }
        }
        self.lost.extend(l);
    }

    pub fn module(&mut self, name: &str, text: &str, file: &syn::File) -> String {
        // Specialisation first: it yields plain Rust text.
        let (text, file) = match self.specialize(name, text, file) {
            Some(t) => match syn::parse_file(&t) {
                Ok(f) => (t, f),
                Err(e) => {
                    self.lost(format!("module {name}: specialised text does not parse: {e}"));
                    (text.to_string(), file.clone())
                }
            },
            None => (text.to_string(), file.clone()),
        };
        let mut v = Rw {
            ctx: self,
            text: &text,
            module: name.to_string(),
            edits: vec![],
            seq: 0,
            self_key: vec![],
            adapters: Default::default(),
            trait_impl: false,
            mut_self: false,
            clone_impl: false,
            assoc: BTreeMap::new(),
            fns: vec![],
        };
        // inner attributes
        for a in &file.attrs {
            v.delete(a.span(), "inner attribute");
        }
        for i in &file.items {
            v.visit_item(i);
        }
        let edits = std::mem::take(&mut v.edits);
        let body = apply(&text, edits);
        let mut out = String::from("use vstd::prelude::*;\nuse crate::prelude::*;\nverus! {\n");
        out.push_str(&body);
        if let Some(s) = self.section("module", name) {
            if let Some(t) = s.subs.get("items") {
                out.push_str(t);
            }
        }
        out.push_str("\n} // verus!\n");
        out
    }

    fn specialize(&mut self, module: &str, text: &str, file: &syn::File) -> Option<String> {
        let secs: Vec<Section> = self
            .sections
            .values()
            .filter(|s| {
                s.kind == "specialize"
                    && s.subs
                        .get("site")
                        .map_or(false, |x| x.trim().split("::").next() == Some(module))
            })
            .cloned()
            .collect();
        if secs.is_empty() {
            return None;
        }
        let mut text = text.to_string();
        let mut file = file.clone();
        for s in secs {
            // key: "<callee module>::<callee fn> <name>"
            let k = ("specialize".to_string(), s.key.clone());
            self.used.insert(k);
            let callee_key = s.key.split_whitespace().next().unwrap().to_string();
            let callee_name = callee_key.rsplit("::").next().unwrap().to_string();
            let site = s.subs["site"].trim().to_string();
            let ordinal: usize = s.subs.get("ordinal").map_or(0, |x| x.trim().parse().unwrap());
            let argpos: usize = s.subs["arg"].trim().parse().unwrap();
            let header = s.subs["header"].trim_end().to_string();
            let call = s.subs["call"].trim().to_string();
            let Some((callee_text, callee)) = self.find_fn_text(&callee_key, module, &text, &file) else {
                self.lost(format!("specialize {callee_key}: no such function"));
                continue;
            };
            let mut f = FindCall {
                name: callee_name.clone(),
                site_fn: site.rsplit("::").next().unwrap().to_string(),
                in_fn: vec![],
                found: vec![],
            };
            f.visit_file(&file);
            if f.found.len() <= ordinal {
                self.lost(format!("specialize {callee_key}: no call in {site}"));
                continue;
            }
            let c = f.found[ordinal].clone();
            let args: Vec<&syn::Expr> = c.args.iter().collect();
            if args.len() <= argpos {
                self.lost(format!("specialize {callee_key}: unexpected call in {site}"));
                continue;
            }
            let Some(syn::FnArg::Typed(pt)) = callee.sig.inputs.iter().nth(argpos) else {
                self.lost(format!("specialize {callee_key}: unexpected parameters"));
                continue;
            };
            let syn::Pat::Ident(pid) = &*pt.pat else {
                self.lost(format!("specialize {callee_key}: unexpected parameters"));
                continue;
            };
            let param = pid.ident.to_string();
            // body of the callee with `param(X)` replaced
            let mut fc = FindCall {
                name: param.clone(),
                site_fn: String::new(),
                in_fn: vec![],
                found: vec![],
            };
            fc.visit_block(&callee.block);
            let mut edits = vec![];
            let mut bad = None;
            for pc in &fc.found {
                let r = pc.span().byte_range();
                let new = match args[argpos] {
                    syn::Expr::Path(p) => format!(
                        "{}({})",
                        &text[p.span().byte_range()],
                        pc.args.iter().map(|a| callee_text[a.span().byte_range()].to_string()).collect::<Vec<_>>().join(", ")
                    ),
                    syn::Expr::Closure(cl) => {
                        let mut esc = Escapes(false);
                        esc.visit_expr(&cl.body);
                        if esc.0 {
                            bad = Some("closure with return or ?");
                        }
                        let mut body = text[cl.body.span().byte_range()].to_string();
                        for (p, a) in cl.inputs.iter().zip(pc.args.iter()) {
                            let pi = match p {
                                syn::Pat::Ident(i) => i.ident.to_string(),
                                _ => {
                                    bad = Some("closure parameter pattern");
                                    continue;
                                }
                            };
                            if !matches!(a, syn::Expr::Path(_)) {
                                bad = Some("closure argument is not a variable");
                            }
                            body = subst_ident(&body, &pi, &callee_text[a.span().byte_range()]);
                        }
                        format!("({body})")
                    }
                    _ => {
                        bad = Some("function argument");
                        continue;
                    }
                };
                edits.push(Edit { at: r, text: new, seq: 0 });
            }
            // any other use of the parameter defeats the specialisation
            let uses = count_ident(&callee_text[callee.block.span().byte_range()], &param);
            if uses != fc.found.len() {
                bad = Some("the function parameter is used otherwise than by calling it");
            }
            if let Some(b) = bad {
                self.lost(format!("specialize {callee_key} at {site}: {b}"));
                continue;
            }
            let br = callee.block.span().byte_range();
            let new_text = apply(&callee_text, edits.clone());
            let delta = new_text.len() as isize - callee_text.len() as isize;
            let body = &new_text[br.start..(br.end as isize + delta) as usize];
            // names of the callee's other parameters are used in the header
            let mut header = header;
            for (i, a) in callee.sig.inputs.iter().enumerate() {
                if let syn::FnArg::Typed(t) = a {
                    if let syn::Pat::Ident(p) = &*t.pat {
                        header = header.replace(&format!("$c{i}"), &p.ident.to_string());
                    }
                }
            }
            let other_args: Vec<String> = args
                .iter()
                .enumerate()
                .filter(|(i, _)| *i != argpos)
                .map(|(_, a)| text[a.span().byte_range()].to_string())
                .collect();
            let call_text = call.replace("$args", &other_args.join(", "));
            let mut t2 = text.clone();
            t2.replace_range(c.span().byte_range(), &call_text);
            // parameters of the site function
            if let Some(names) = site_params(&file, site.rsplit("::").next().unwrap()) {
                for (i, n) in names.iter().enumerate() {
                    t2 = t2.replace(&format!("$s{}", i + 1), n);
                    header = header.replace(&format!("$s{}", i + 1), n);
                }
            }
            // captured locals of the site: the closure's free names are used as they are
            let wrapped = match s.subs.get("impl") {
                Some(im) => format!("\n{} {{\n{} {}\n}}\n", im.trim(), header, body),
                None => format!("\n{} {}\n", header, body),
            };
            t2.push_str(&wrapped);
            self.log("higher-order function specialised to its argument");
            match syn::parse_file(&t2) {
                Ok(f) => {
                    text = t2;
                    file = f;
                }
                Err(e) => self.lost(format!("specialize {callee_key} at {site}: {e}")),
            }
        }
        Some(text)
    }

    fn find_fn_text(
        &mut self,
        key: &str,
        module: &str,
        text: &str,
        file: &syn::File,
    ) -> Option<(String, syn::ItemFn)> {
        let (m, f) = key.rsplit_once("::")?;
        if m == module {
            return find_fn(file, f).map(|i| (text.to_string(), i));
        }
        let t = self.special.get(m)?.clone();
        let fl = syn::parse_file(&t).ok()?;
        find_fn(&fl, f).map(|i| (t, i))
    }

    pub fn remember(&mut self, module: &str, text: &str) {
        self.special.insert(module.to_string(), text.to_string());
    }
}

fn find_fn(file: &syn::File, name: &str) -> Option<syn::ItemFn> {
    file.items.iter().find_map(|i| match i {
        syn::Item::Fn(f) if f.sig.ident == name => Some(f.clone()),
        _ => None,
    })
}

fn site_params(file: &syn::File, name: &str) -> Option<Vec<String>> {
    struct F<'a>(&'a str, Option<Vec<String>>);
    impl<'a, 'b> Visit<'b> for F<'a> {
        fn visit_signature(&mut self, s: &'b syn::Signature) {
            if s.ident == self.0 {
                self.1 = Some(param_names(s));
            }
        }
    }
    let mut f = F(name, None);
    f.visit_file(file);
    f.1
}

fn param_names(s: &syn::Signature) -> Vec<String> {
    s.inputs
        .iter()
        .filter_map(|a| match a {
            syn::FnArg::Typed(t) => Some(match &*t.pat {
                syn::Pat::Ident(p) => p.ident.to_string(),
                _ => "_".into(),
            }),
            _ => None,
        })
        .collect()
}

struct Escapes(bool);
impl<'a> Visit<'a> for Escapes {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
}

struct FindCall {
    name: String,
    site_fn: String,
    in_fn: Vec<String>,
    found: Vec<syn::ExprCall>,
}
impl<'a> Visit<'a> for FindCall {
    fn visit_item_fn(&mut self, i: &'a syn::ItemFn) {
        self.in_fn.push(i.sig.ident.to_string());
        visit::visit_item_fn(self, i);
        self.in_fn.pop();
    }
    fn visit_impl_item_fn(&mut self, i: &'a syn::ImplItemFn) {
        self.in_fn.push(i.sig.ident.to_string());
        visit::visit_impl_item_fn(self, i);
        self.in_fn.pop();
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if p.path.segments.last().map_or(false, |s| s.ident == self.name)
                && (self.site_fn.is_empty() || self.in_fn.last() == Some(&self.site_fn))
            {
                self.found.push(c.clone());
            }
        }
        visit::visit_expr_call(self, c);
    }
}

fn subst_ident(body: &str, from: &str, to: &str) -> String {
    let Ok(ts) = body.parse::<TokenStream>() else {
        return body.to_string();
    };
    let mut edits = vec![];
    fn go(ts: TokenStream, from: &str, to: &str, edits: &mut Vec<Edit>) {
        for t in ts {
            match t {
                TokenTree::Ident(i) if i == from => edits.push(Edit {
                    at: i.span().byte_range(),
                    text: to.to_string(),
                    seq: 0,
                }),
                TokenTree::Group(g) => go(g.stream(), from, to, edits),
                _ => {}
            }
        }
    }
    go(ts, from, to, &mut edits);
    apply(body, edits)
}

fn count_ident(body: &str, name: &str) -> usize {
    fn go(ts: TokenStream, name: &str) -> usize {
        ts.into_iter()
            .map(|t| match t {
                TokenTree::Ident(i) => (i == name) as usize,
                TokenTree::Group(g) => go(g.stream(), name),
                _ => 0,
            })
            .sum()
    }
    body.parse::<TokenStream>().map_or(0, |t| go(t, name))
}

fn apply(text: &str, mut edits: Vec<Edit>) -> String {
    edits.sort_by(|a, b| {
        (a.at.start, a.at.end, a.seq).cmp(&(b.at.start, b.at.end, b.seq))
    });
    // Edits inside a replaced range are dropped.
    let replaced: Vec<Range<usize>> = edits
        .iter()
        .filter(|e| e.at.end > e.at.start)
        .map(|e| e.at.clone())
        .collect();
    let mut out = String::new();
    let mut pos = 0;
    for e in edits {
        let inside = replaced.iter().any(|r| {
            (r.start < e.at.start && (e.at.end < r.end || (e.at.end == r.end && e.at.start < e.at.end)) && e.at != *r)
                || (r.start <= e.at.start && e.at.end < r.end && e.at != *r && e.at.end > e.at.start)
        });
        if inside || e.at.start < pos {
            continue;
        }
        out.push_str(&text[pos..e.at.start]);
        out.push_str(&e.text);
        pos = e.at.end;
    }
    out.push_str(&text[pos..]);
    out
}

/// Expand the file's own single-arm macro_rules whose parameters are plain fragments.
pub fn expand_local_macros(text: &str) -> Result<String, String> {
    let file = syn::parse_file(text).map_err(|e| e.to_string())?;
    struct M {
        params: Vec<String>,
        body: String,
    }
    let mut macros: BTreeMap<String, M> = BTreeMap::new();
    let mut edits = vec![];
    for i in &file.items {
        let syn::Item::Macro(m) = i else { continue };
        if m.mac.path.is_ident("macro_rules") {
            let name = m.ident.as_ref().unwrap().to_string();
            let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
            // ( params ) => { body } [;]
            let (Some(TokenTree::Group(p)), Some(TokenTree::Group(b))) = (toks.first(), toks.get(3)) else {
                return Err(format!("macro {name} has an unexpected shape"));
            };
            if toks.len() > 5 {
                return Err(format!("macro {name} has more than one arm"));
            }
            let mut params = vec![];
            let pt: Vec<TokenTree> = p.stream().into_iter().collect();
            let mut k = 0;
            while k < pt.len() {
                if let TokenTree::Punct(x) = &pt[k] {
                    if x.as_char() == '$' {
                        if let Some(TokenTree::Ident(id)) = pt.get(k + 1) {
                            params.push(id.to_string());
                            k += 4;
                            continue;
                        }
                        return Err(format!("macro {name} has repetitions"));
                    }
                }
                k += 1;
            }
            let br = b.span().byte_range();
            macros.insert(
                name,
                M {
                    params,
                    body: text[br.start + 1..br.end - 1].to_string(),
                },
            );
            edits.push(Edit { at: i.span().byte_range(), text: String::new(), seq: 0 });
        } else if let Some(def) = m.mac.path.get_ident().and_then(|n| macros.get(&n.to_string())) {
            // split arguments at top-level commas
            let mut args: Vec<String> = vec![];
            let mut cur: Option<Range<usize>> = None;
            let mut depth = 0i32;
            for t in m.mac.tokens.clone() {
                if let TokenTree::Punct(p) = &t {
                    match p.as_char() {
                        '<' => depth += 1,
                        '>' => depth -= 1,
                        ',' if depth == 0 => {
                            args.push(text[cur.take().unwrap()].to_string());
                            continue;
                        }
                        _ => {}
                    }
                }
                let r = t.span().byte_range();
                cur = Some(match cur {
                    None => r,
                    Some(c) => c.start..r.end,
                });
            }
            if let Some(c) = cur {
                args.push(text[c].to_string());
            }
            if args.len() != def.params.len() {
                return Err("macro call with an unexpected number of arguments".into());
            }
            let mut b = def.body.clone();
            for (p, a) in def.params.iter().zip(&args) {
                b = b.replace(&format!("${p}"), a);
            }
            edits.push(Edit { at: i.span().byte_range(), text: b, seq: 0 });
        }
    }
    if edits.is_empty() {
        return Ok(text.to_string());
    }
    Ok(apply(text, edits))
}

struct FnState {
    key: String,
    sec: Option<Section>,
    params: Vec<String>,
    loops: usize,
    closures: usize,
    kinds: Vec<&'static str>,
    /// the methods that the closures are arguments of
    adapted: Vec<String>,
    loop_vars: Vec<String>,
    loop_exprs: Vec<String>,
    muts: Vec<String>,
    lets: Vec<String>,
    calls: BTreeSet<String>,
    /// text insertions that need placeholders resolved after the body has been visited
    pending: Vec<(usize, String)>,
}

struct Rw<'c, 't> {
    ctx: &'c mut Ctx,
    text: &'t str,
    module: String,
    edits: Vec<Edit>,
    seq: usize,
    self_key: Vec<String>,
    adapters: std::collections::BTreeMap<usize, String>,
    trait_impl: bool,
    mut_self: bool,
    /// inside a hand-written impl of Clone
    clone_impl: bool,
    assoc: BTreeMap<String, String>,
    fns: Vec<FnState>,
}

impl<'c, 't> Rw<'c, 't> {
    fn src(&self, s: Span) -> &'t str {
        &self.text[s.byte_range()]
    }
    fn replace(&mut self, s: Span, t: impl Into<String>, what: &str) {
        self.replace_range(s.byte_range(), t, what)
    }
    fn replace_range(&mut self, at: Range<usize>, t: impl Into<String>, what: &str) {
        self.seq += 1;
        self.edits.push(Edit { at, text: t.into(), seq: self.seq });
        self.ctx.log(what);
    }
    fn delete(&mut self, s: Span, what: &str) {
        self.replace(s, "", what);
    }
    fn insert(&mut self, at: usize, t: impl Into<String>) {
        self.seq += 1;
        self.edits.push(Edit { at: at..at, text: t.into(), seq: self.seq });
    }

    fn key(&self, name: &str) -> String {
        let mut s = self.module.clone();
        for k in &self.self_key {
            s.push_str("::");
            s.push_str(k);
        }
        s.push_str("::");
        s.push_str(name);
        s
    }

    /// cfg handling: true when the item must be dropped
    fn cfg_out(&mut self, attrs: &[syn::Attribute]) -> bool {
        for a in attrs {
            if a.path().is_ident("cfg") {
                let t = norm(&a.meta);
                if t == "cfg(test)" || t == "cfg(feature=\"thread_safe\")" {
                    return true;
                }
                if t == "cfg(not(feature=\"thread_safe\"))" || t == "cfg(feature=\"macros\")" {
                    continue;
                }
                self.ctx.lost(format!("unknown {t} in {}", self.module));
            }
        }
        false
    }

    fn attrs(&mut self, attrs: &[syn::Attribute]) {
        for a in attrs {
            if a.path().is_ident("derive") || norm(&a.meta) == "repr(u8)" {
                continue;
            }
            self.delete(a.span(), "attribute or doc comment dropped");
        }
    }

    fn vis(&mut self, v: &syn::Visibility, at: usize) {
        match v {
            syn::Visibility::Inherited => self.insert(at, "pub "),
            syn::Visibility::Public(_) => {}
            syn::Visibility::Restricted(r) => self.replace(r.span(), "pub", "visibility widened"),
        }
    }

    fn derives(&mut self, key: &str, attrs: &[syn::Attribute], generics: &syn::Generics) {
        let sec = self.ctx.section("item", key);
        let mut names = vec![];
        let mut spans = vec![];
        for a in attrs {
            if a.path().is_ident("derive") {
                if let Ok(l) = a.parse_args_with(
                    syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated,
                ) {
                    for p in l {
                        names.push(norm(p));
                    }
                }
                spans.push(a.span());
            }
        }
        let keep: Vec<String> = match sec.as_ref().and_then(|s| s.subs.get("derive")) {
            Some(t) => t.split(|c: char| c == ',' || c.is_whitespace()).filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
            None => {
                let copy = names.iter().any(|n| n == "Copy");
                names
                    .iter()
                    .filter(|n| *n == "Debug" || *n == "Copy" || (*n == "Clone" && copy))
                    .cloned()
                    .collect()
            }
        };
        let _ = generics;
        let new = if keep.is_empty() { String::new() } else { format!("#[derive({})]", keep.join(", ")) };
        for (i, s) in spans.iter().enumerate() {
            self.replace(*s, if i == 0 { new.clone() } else { String::new() }, "derive reduced");
        }
    }

    /// `#[derive(Clone)]` spelled out as rustc expands it, where the specification asks for it.
    fn derived_clone(&mut self, key: &str, attrs: &[syn::Attribute], name: &str, end: usize, variants: Vec<(String, &syn::Fields)>) {
        let k = format!("{}::<Clone for {}>::clone", key.rsplit_once("::").map_or("", |x| x.0), name);
        let derived = attrs.iter().any(|a| {
            a.path().is_ident("derive")
                && a.parse_args_with(syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated)
                    .map_or(false, |l| l.iter().any(|p| p.segments.last().map_or(false, |s| s.ident == "Clone")))
        });
        if !derived {
            return;
        }
        let Some(sec) = self.ctx.section("fn", &k) else { return };
        let pro = sec.subs.get("prologue").cloned().unwrap_or_default();
        // Types that contain each other: functions that call each other, instead of instances of a trait.
        let knot: Vec<String> = sec.subs.get("recursive").map_or(vec![], |t| t.split_whitespace().map(|x| x.to_string()).collect());
        let known = |t: &str| knot.iter().find(|k| *k == t.rsplit("::").next().unwrap()).cloned();
        let copy = |i: usize, ty: &syn::Type| {
            let t = norm(ty);
            if let Some(k) = known(&t) {
                return format!("x_clone_{k}(x_{i})");
            }
            if let Some(k) = t.strip_prefix("Vec<").and_then(|t| t.strip_suffix(">")).and_then(known) {
                return format!(
                    "{{\n                let mut x_v: Vec<{k}> = Vec::new();\n                let mut x_n: usize = 0;\n                while x_n < x_{i}.len()\n                    invariant x_n <= x_{i}.len(), svs(x_v@) == svs(x_{i}@).take(x_n as int),\n                    decreases x_{i}.len() - x_n\n                {{\n                    let ghost x_w = x_v@;\n                    x_v.push(x_clone_{k}(&x_{i}[x_n]));\n                    proof {{ assert(x_v@.drop_last() =~= x_w); }}\n                    proof {{ x_copied(x_{i}@, x_v@, x_n as int); }}\n                    x_n += 1;\n                }}\n                proof {{ x_copied_all(x_{i}@, x_v@); }}\n                x_v }}"
                );
            }
            format!("x_{i}.x_clone()")
        };
        let mut arms = String::new();
        for (path, fields) in variants {
            let (open, close) = match fields {
                syn::Fields::Unit => ("", ""),
                syn::Fields::Named(_) => (" { ", " }"),
                syn::Fields::Unnamed(_) => ("(", ")"),
            };
            let (mut pat, mut val) = (vec![], vec![]);
            for (i, f) in fields.iter().enumerate() {
                let name = f.ident.as_ref().map_or(String::new(), |x| format!("{x}: "));
                pat.push(format!("{name}x_{i}"));
                val.push(format!("{name}{}", copy(i, &f.ty)));
            }
            arms += &format!("            {path}{open}{}{close} => {path}{open}{}{close},\n", pat.join(", "), val.join(", "));
        }
        let pro = pro.trim();
        let text = if knot.is_empty() {
            format!("\nimpl crate::prelude::XClone for {name} {{\n    /*@fn {k}*/ fn x_clone(&self) -> (r: Self) {{\n        {pro}\n        match self {{\n{arms}        }}\n    }} /*@end*/\n}}\n")
        } else {
            format!("\nimpl crate::prelude::XClone for {name} {{ fn x_clone(&self) -> (r: Self) {{ x_clone_{name}(self) }} }}\n/*@fn {k}*/ #[verifier::loop_isolation(false)]\npub fn x_clone_{name}(x: &{name}) -> (r: {name})\n    ensures r.sv() == x.sv(),\n    decreases *x,\n{{\n        {pro}\n        match x {{\n{arms}        }}\n}} /*@end*/\n")
        };
        self.insert(end, text);
        self.ctx.log("derived Clone spelled out");
        self.ctx.functions.insert(
            k,
            FnInfo {
                module: self.module.clone(),
                contract: true,
                external: false,
                tags: tags(&Some(sec)),
                loops: 0,
                src_hash: hash(&arms),
                src: arms,
                calls: vec![],
                shape: "closures [], loops []".into(),
            },
        );
    }

    /// `#[derive(PartialEq)]` of an enum spelled out, where the specification asks for it.
    fn derived_eq(&mut self, key: &str, attrs: &[syn::Attribute], name: &str, generics: &syn::Generics, end: usize, variants: Vec<(String, &syn::Fields)>) {
        let k = format!("{}::<PartialEq for {}>::eq", key.rsplit_once("::").map_or("", |x| x.0), name);
        let derived = attrs.iter().any(|a| {
            a.path().is_ident("derive")
                && a.parse_args_with(syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated)
                    .map_or(false, |l| l.iter().any(|p| p.segments.last().map_or(false, |s| s.ident == "PartialEq")))
        });
        if !derived {
            return;
        }
        let Some(sec) = self.ctx.section("fn", &k) else { return };
        let pro = sec.subs.get("prologue").cloned().unwrap_or_default();
        let mut arms = String::new();
        for (path, fields) in &variants {
            let (open, close) = match fields {
                syn::Fields::Unit => ("", ""),
                syn::Fields::Named(_) => (" { ", " }"),
                syn::Fields::Unnamed(_) => ("(", ")"),
            };
            let pat = |v: &str| {
                fields.iter().enumerate().map(|(i, f)| format!("{}{v}_{i}", f.ident.as_ref().map_or(String::new(), |x| format!("{x}: ")))).collect::<Vec<_>>().join(", ")
            };
            let eqs: Vec<String> = (0..fields.len()).map(|i| format!("*x_{i} == *y_{i}")).collect();
            let eqs = if eqs.is_empty() { "true".to_string() } else { eqs.join(" && ") };
            arms += &format!("            ({path}{open}{}{close}, {path}{open}{}{close}) => {eqs},\n", pat("x"), pat("y"));
        }
        if variants.len() > 1 {
            arms += "            _ => false,\n";
        }
        let g: Vec<String> = generics.params.iter().map(|p| norm(p)).collect();
        let g = if g.is_empty() { String::new() } else { format!("<{}>", g.join(", ")) };
        let pro = pro.trim();
        self.insert(end, format!("\nimpl{g} PartialEq for {name}{g} {{\n    /*@fn {k}*/ fn eq(&self, o: &Self) -> (r: bool) {{\n        {pro}\n        match (self, o) {{\n{arms}        }}\n    }} /*@end*/\n}}\n"));
        self.ctx.log("derived PartialEq spelled out");
        self.ctx.functions.insert(
            k,
            FnInfo {
                module: self.module.clone(),
                contract: true,
                external: false,
                tags: tags(&Some(sec)),
                loops: 0,
                src_hash: hash(&arms),
                src: arms,
                calls: vec![],
                shape: "closures [], loops []".into(),
            },
        );
    }

    fn resolve(&self, f: &FnState, t: &str) -> String {
        let mut t = t.to_string();
        for (i, v) in f.loop_exprs.iter().enumerate().rev() {
            t = t.replace(&format!("$over{i}"), v);
        }
        for (i, v) in f.loop_vars.iter().enumerate().rev() {
            t = t.replace(&format!("$loop{i}"), v);
        }
        for (i, v) in f.muts.iter().enumerate().rev() {
            t = t.replace(&format!("$mut{i}"), v);
        }
        for (i, v) in f.lets.iter().enumerate().rev() {
            t = t.replace(&format!("$let{i}"), v);
        }
        for (i, v) in f.params.iter().enumerate().rev() {
            t = t.replace(&format!("${}", i + 1), v);
        }
        t
    }

    /// Contracts and body of one function. Returns true if the function is dropped.
    fn function(
        &mut self,
        whole: Span,
        attrs: &[syn::Attribute],
        vis: Option<&syn::Visibility>,
        sig: &syn::Signature,
        block: Option<&syn::Block>,
        semi: Option<Span>,
    ) {
        if self.cfg_out(attrs) {
            self.delete(whole, "test item dropped");
            return;
        }
        let key = self.key(&sig.ident.to_string());
        let sec = self.ctx.section("fn", &key);
        if let Some(s) = &sec {
            if s.subs.contains_key("drop") {
                self.ctx.dropped.push(format!("{key}: {}", s.subs["drop"].trim()));
                self.delete(whole, "function dropped");
                return;
            }
        }
        self.attrs(attrs);
        for a in attrs {
            if a.path().is_ident("derive") {
                self.delete(a.span(), "attribute");
            }
        }
        if self.clone_impl && sig.ident == "clone" {
            self.replace(sig.ident.span(), "x_clone", "method of the standard library redirected to the prelude");
        }
        let start = match vis {
            Some(syn::Visibility::Inherited) | None => sig.span().byte_range().start,
            Some(v) => v.span().byte_range().start,
        };
        let left_out = std::env::var("EXTRACT_EXTERNAL").unwrap_or_default();
        let external = sec.as_ref().map_or(false, |s| {
            s.subs.contains_key("external") || left_out.split(',').any(|k| k == key)
        });
        // Marks, to find the function again from a line of the verifier's output.
        self.insert(start, format!("/*@fn {key}*/ "));
        if let Some(s) = &sec {
            if let Some(a) = s.subs.get("attr") {
                self.insert(start, format!("{}\n", a.trim()));
            }
            if external {
                self.insert(start, "#[verifier::external_body]\n");
            }
            if let Some(body) = s.subs.get("before") {
                self.insert(start, body.clone());
            }
        }
        if let Some(v) = vis {
            if !self.trait_impl {
                self.vis(v, start);
            }
        }
        if sec.is_none() {
            self.ctx.uncontracted.push(key.clone());
        }
        self.insert(whole.byte_range().end, " /*@end*/");
        // names for the return value
        if let (Some(s), syn::ReturnType::Type(_, ty)) = (&sec, &sig.output) {
            let r = ty.span().byte_range();
            if let Some(o) = s.subs.get("output") {
                self.replace_range(r.clone(), o.trim(), "opaque return type replaced by the type it hides");
            }
            self.insert(r.start, "(r: ");
            self.insert(r.end, ")");
        }
        let mut st = FnState {
            key: key.clone(),
            sec: sec.clone(),
            params: param_names(sig),
            loops: 0,
            closures: 0,
            kinds: vec![],
            adapted: vec![],
            loop_vars: vec![],
            loop_exprs: vec![],
            muts: vec![],
            lets: vec![],
            calls: BTreeSet::new(),
            pending: vec![],
        };
        let spec_at = match (block, semi) {
            (Some(b), _) => b.span().byte_range().start,
            (None, Some(s)) => s.byte_range().start,
            _ => unreachable!(),
        };
        if let Some(s) = &sec {
            if let Some(t) = s.subs.get("spec") {
                st.pending.push((spec_at, format!("\n{}", t)));
            }
        }
        self.visit_signature_types(sig);
        let mut loops = 0;
        if let Some(b) = block {
            if external {
                self.replace(b.span(), "{ unimplemented!() }", "body of a trusted function dropped");
                self.flush(&st);
            } else {
                if let Some(t) = sec.as_ref().and_then(|s| s.subs.get("prologue")) {
                    st.pending.push((spec_at + 1, format!("\n{}", t)));
                }
                let was = self.mut_self;
                self.mut_self = false;
                if let Some(syn::FnArg::Receiver(rc)) = sig.inputs.first() {
                    if let (Some(m), None) = (&rc.mutability, &rc.reference) {
                        // `mut self` is a local variable that starts as self
                        self.replace(m.span(), "", "mut self turned into a variable");
                        self.insert(spec_at + 1, "let mut x_self = self;\n");
                        self.mut_self = true;
                    }
                }
                self.fns.push(st);
                self.visit_block(b);
                let st = self.fns.pop().unwrap();
                self.mut_self = was;
                loops = st.loops;
                if let Some(s) = &st.sec {
                    let want = s.subs.keys().filter(|k| k.starts_with("loop ")).count();
                    if want != st.loops {
                        self.ctx.lost(format!("fn {key}: {} loops, contracts for {want}", st.loops));
                    }
                    let wantc = s.subs.keys().filter(|k| k.starts_with("closure ")).count();
                    if wantc > st.closures {
                        self.ctx.lost(format!("fn {key}: {} closures, contracts for {wantc}", st.closures));
                    }
                }
                self.flush(&st);
                let shape = format!("closures [{}], loops [{}]", st.adapted.join(" "), st.kinds.join(" "));
                let calls = st.calls.into_iter().collect();
                self.ctx.functions.insert(
                    key.clone(),
                    FnInfo {
                        module: self.module.clone(),
                        contract: sec.is_some(),
                        external,
                        tags: tags(&sec),
                        loops,
                        src_hash: hash(self.src(whole)),
                        src: self.src(whole).to_string(),
                        calls,
                        shape,
                    },
                );
                return;
            }
        } else {
            self.flush(&st);
        }
        self.ctx.functions.insert(
            key.clone(),
            FnInfo {
                module: self.module.clone(),
                contract: sec.is_some(),
                external,
                tags: tags(&sec),
                loops,
                src_hash: hash(self.src(whole)),
                src: self.src(whole).to_string(),
                calls: vec![],
                shape: String::new(),
            },
        );
    }

    fn flush(&mut self, st: &FnState) {
        for (at, t) in &st.pending {
            let t = self.resolve(st, t);
            if t.contains("$mut") || t.contains("$let") || t.contains("$loop") || t.contains("$over") || has_dollar_digit(&t) {
                self.ctx.lost(format!("fn {}: a name that the contract refers to is gone", st.key));
            }
            self.insert(*at, t);
        }
    }

    fn visit_signature_types(&mut self, sig: &syn::Signature) {
        for i in &sig.inputs {
            if let syn::FnArg::Typed(t) = i {
                self.visit_type(&t.ty);
            }
        }
        if let syn::ReturnType::Type(_, t) = &sig.output {
            self.visit_type(t);
        }
        self.visit_generics(&sig.generics);
    }

    fn self_name(&self, ty: &syn::Type, generics: &syn::Generics) -> String {
        let mut s = norm(ty);
        for p in &generics.params {
            if let syn::GenericParam::Type(t) = p {
                let a = format!("<{}>", t.ident);
                s = s.replace(&a, "");
            }
            if let syn::GenericParam::Lifetime(t) = p {
                let a = format!("<{}>", t.lifetime);
                s = s.replace(&a, "");
            }
        }
        s
    }

    /// The text of a constant in a pattern, its paths redirected.
    fn redirected(&self, p: &syn::Pat) -> String {
        let whole = p.span().byte_range();
        let mut t = self.src(p.span()).to_string();
        let mut ps: Vec<&syn::Path> = vec![];
        if let syn::Pat::Path(e) = p {
            match &e.qself {
                Some(q) => {
                    if let syn::Type::Path(tp) = &*q.ty {
                        ps.push(&tp.path);
                    }
                }
                None => ps.push(&e.path),
            }
        }
        for path in ps {
            let segs: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
            for (from, to) in &self.ctx.paths {
                if segs.len() > 1 && segs.len() >= from.len() && segs[..from.len()] == from[..] && to != "-" {
                    let a = path.segments[0].ident.span().byte_range().start;
                    let a = path.leading_colon.map_or(a, |c| c.span().byte_range().start);
                    let b = path.segments[from.len() - 1].ident.span().byte_range().end;
                    t.replace_range(a - whole.start..b - whole.start, to);
                    break;
                }
            }
        }
        t
    }

    fn try_path(&mut self, path: &syn::Path) -> bool {
        let segs: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
        for (from, to) in self.ctx.paths.clone() {
            // a name alone is a variable, not the module
            if segs.len() >= from.len() && segs[..from.len()] == from[..] && segs.len() > 1 {
                let a = path.segments[0].ident.span().byte_range().start;
                let a = path.leading_colon.map_or(a, |c| c.span().byte_range().start);
                let b = path.segments[from.len() - 1].ident.span().byte_range().end;
                self.replace_range(a..b, to, "path redirected to the prelude");
                return true;
            }
        }
        false
    }
}

fn has_dollar_digit(t: &str) -> bool {
    t.as_bytes().windows(2).any(|w| w[0] == b'$' && w[1].is_ascii_digit())
}

fn tags(s: &Option<Section>) -> Vec<String> {
    s.as_ref()
        .and_then(|s| s.subs.get("tags"))
        .map(|t| t.split_whitespace().map(|x| x.to_string()).collect())
        .unwrap_or_default()
}

impl<'a, 'c, 't> Visit<'a> for Rw<'c, 't> {
    fn visit_item(&mut self, i: &'a syn::Item) {
        let (attrs, name): (&[syn::Attribute], String) = match i {
            syn::Item::Struct(x) => (&x.attrs, x.ident.to_string()),
            syn::Item::Enum(x) => (&x.attrs, x.ident.to_string()),
            syn::Item::Impl(x) => (&x.attrs, String::new()),
            syn::Item::Mod(x) => (&x.attrs, x.ident.to_string()),
            syn::Item::Trait(x) => (&x.attrs, x.ident.to_string()),
            syn::Item::Type(x) => (&x.attrs, x.ident.to_string()),
            syn::Item::Use(x) => (&x.attrs, String::new()),
            syn::Item::Const(x) => (&x.attrs, x.ident.to_string()),
            syn::Item::Static(x) => (&x.attrs, x.ident.to_string()),
            syn::Item::Macro(x) => (&x.attrs, norm(&x.mac.path)),
            syn::Item::Fn(_) => {
                visit::visit_item(self, i);
                return;
            }
            _ => (&[], String::new()),
        };
        if self.cfg_out(attrs) {
            self.delete(i.span(), "configured-out item dropped");
            return;
        }
        if let syn::Item::ExternCrate(_) = i {
            self.delete(i.span(), "import dropped");
            return;
        }
        if !name.is_empty() {
            let key = self.key(&name);
            if let Some(s) = self.ctx.section("item", &key) {
                if let Some(want) = s.subs.get("expect") {
                    let squeeze = |t: &str| t.chars().filter(|c| !c.is_whitespace()).collect::<String>();
                    if squeeze(want) != squeeze(self.src(i.span())) {
                        self.ctx.lost(format!("{key} is not the text that its contract is about"));
                    }
                }
                if let Some(r) = s.subs.get("drop") {
                    self.ctx.dropped.push(format!("{key}: {}", r.trim()));
                    self.delete(i.span(), "item dropped");
                    return;
                }
                if let Some(r) = s.subs.get("before") {
                    let at = i.span().byte_range().start;
                    self.insert(at, r.clone());
                }
                if let Some(r) = s.subs.get("after") {
                    let at = i.span().byte_range().end;
                    self.insert(at, format!("\n{r}"));
                }
            }
        }
        visit::visit_item(self, i);
    }
    fn visit_item_fn(&mut self, i: &'a syn::ItemFn) {
        self.function(i.span(), &i.attrs, Some(&i.vis), &i.sig, Some(&i.block), None);
    }
    fn visit_impl_item_fn(&mut self, i: &'a syn::ImplItemFn) {
        self.function(i.span(), &i.attrs, Some(&i.vis), &i.sig, Some(&i.block), None);
    }
    fn visit_trait_item_fn(&mut self, i: &'a syn::TraitItemFn) {
        let was = std::mem::replace(&mut self.trait_impl, true);
        self.function(
            i.span(),
            &i.attrs,
            None,
            &i.sig,
            i.default.as_ref(),
            i.semi_token.map(|s| s.span),
        );
        self.trait_impl = was;
    }
    fn visit_item_mod(&mut self, i: &'a syn::ItemMod) {
        self.attrs(&i.attrs);
        let at = i.vis.span().byte_range().start;
        let at = if matches!(i.vis, syn::Visibility::Inherited) { i.mod_token.span.byte_range().start } else { at };
        self.vis(&i.vis, at);
        if let Some((b, items)) = &i.content {
            let mut extra = String::from("\nuse vstd::prelude::*; use crate::prelude::*;\n");
            self.self_key.push(i.ident.to_string());
            let key = format!("{}::{}", self.module, self.self_key.join("::"));
            if let Some(s) = self.ctx.section("module", &key) {
                if let Some(t) = s.subs.get("items") {
                    extra.push_str(t);
                }
            }
            self.insert(b.span.open().byte_range().end, extra);
            for it in items {
                self.visit_item(it);
            }
            self.self_key.pop();
        }
    }
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        self.attrs(&i.attrs);
        let ty = self.self_name(&i.self_ty, &i.generics);
        let k = match &i.trait_ {
            Some((_, p, _)) => format!("<{} for {}>", norm(p), ty),
            None => ty.clone(),
        };
        self.self_key.push(k);
        let key = format!("{}::{}", self.module, self.self_key.join("::"));
        let was = self.trait_impl;
        self.trait_impl = i.trait_.is_some();
        let sec = self.ctx.section("impl", &key);
        if let Some(s) = &sec {
            if let Some(r) = s.subs.get("drop") {
                self.ctx.dropped.push(format!("{key}: {}", r.trim()));
                self.delete(i.span(), "impl dropped");
                self.self_key.pop();
                self.trait_impl = was;
                return;
            }
            if let Some(h) = s.subs.get("header") {
                // the header (generics, trait) is replaced: from `impl` to the brace
                let a = i.impl_token.span.byte_range().start;
                let b = i.brace_token.span.open().byte_range().start;
                self.replace_range(a..b, format!("{} ", h.trim()), "impl header replaced");
                self.trait_impl = !h.contains("inherent") && h.contains(" for ");
            }
            if let Some(t) = s.subs.get("items") {
                self.insert(i.brace_token.span.open().byte_range().end, format!("\n{t}"));
            }
            if let Some(t) = s.subs.get("after") {
                self.insert(i.span().byte_range().end, format!("\n{t}"));
            }
        }
        if sec.as_ref().map_or(true, |s| !s.subs.contains_key("header")) {
            self.visit_generics(&i.generics);
            if let Some((_, p, _)) = &i.trait_ {
                if p.segments.last().map_or(false, |s| s.ident == "Clone") {
                    self.replace(p.span(), "crate::prelude::XClone", "path redirected to the prelude");
                    self.clone_impl = true;
                } else {
                    self.visit_path(p);
                }
            }
            self.visit_type(&i.self_ty);
        }
        for it in &i.items {
            match it {
                syn::ImplItem::Type(t) if sec.as_ref().map_or(false, |s| s.subs.contains_key("header")) => {
                    let mut ty = self.src(t.ty.span()).to_string();
                    for (from, to) in &self.ctx.paths {
                        ty = ty.replace(&format!("{}::", from.join("::")), &format!("{to}::"));
                    }
                    self.assoc.insert(t.ident.to_string(), ty);
                    self.delete(it.span(), "associated type dropped");
                }
                syn::ImplItem::Const(c) => {
                    self.attrs(&c.attrs);
                    let at = if matches!(c.vis, syn::Visibility::Inherited) { c.const_token.span.byte_range().start } else { c.vis.span().byte_range().start };
                    if !self.trait_impl {
                        self.vis(&c.vis, at);
                    }
                    self.visit_expr(&c.expr);
                }
                _ => self.visit_impl_item(it),
            }
        }
        self.trait_impl = was;
        self.clone_impl = false;
        self.assoc.clear();
        self.self_key.pop();
    }
    fn visit_item_trait(&mut self, i: &'a syn::ItemTrait) {
        self.attrs(&i.attrs);
        let at = if matches!(i.vis, syn::Visibility::Inherited) { i.trait_token.span.byte_range().start } else { i.vis.span().byte_range().start };
        self.vis(&i.vis, at);
        self.self_key.push(i.ident.to_string());
        let key = format!("{}::{}", self.module, self.self_key.join("::"));
        if let Some(s) = self.ctx.section("trait", &key) {
            if let Some(t) = s.subs.get("items") {
                self.insert(i.brace_token.span.open().byte_range().end, format!("\n{t}"));
            }
        }
        for it in &i.items {
            self.visit_trait_item(it);
        }
        self.self_key.pop();
    }
    fn visit_item_struct(&mut self, i: &'a syn::ItemStruct) {
        self.attrs(&i.attrs);
        let key = self.key(&i.ident.to_string());
        self.derives(&key, &i.attrs, &i.generics);
        let at = if matches!(i.vis, syn::Visibility::Inherited) { i.struct_token.span.byte_range().start } else { i.vis.span().byte_range().start };
        self.vis(&i.vis, at);
        self.visit_generics(&i.generics);
        self.derived_clone(&key, &i.attrs, &i.ident.to_string(), i.span().byte_range().end, vec![(i.ident.to_string(), &i.fields)]);
        self.derived_eq(&key, &i.attrs, &i.ident.to_string(), &i.generics, i.span().byte_range().end, vec![(i.ident.to_string(), &i.fields)]);
        for f in &i.fields {
            self.attrs(&f.attrs);
            let at = if matches!(f.vis, syn::Visibility::Inherited) {
                f.ident.as_ref().map_or(f.ty.span().byte_range().start, |x| x.span().byte_range().start)
            } else {
                f.vis.span().byte_range().start
            };
            self.vis(&f.vis, at);
            self.visit_type(&f.ty);
        }
    }
    fn visit_item_enum(&mut self, i: &'a syn::ItemEnum) {
        self.attrs(&i.attrs);
        let key = self.key(&i.ident.to_string());
        self.derives(&key, &i.attrs, &i.generics);
        let at = if matches!(i.vis, syn::Visibility::Inherited) { i.enum_token.span.byte_range().start } else { i.vis.span().byte_range().start };
        self.vis(&i.vis, at);
        let l = i.variants.iter().map(|v| (format!("{}::{}", i.ident, v.ident), &v.fields)).collect();
        self.derived_clone(&key, &i.attrs, &i.ident.to_string(), i.span().byte_range().end, l);
        let l = i.variants.iter().map(|v| (format!("{}::{}", i.ident, v.ident), &v.fields)).collect();
        self.derived_eq(&key, &i.attrs, &i.ident.to_string(), &i.generics, i.span().byte_range().end, l);
        let drop_disc = self
            .ctx
            .section("item", &key)
            .map_or(false, |s| s.subs.contains_key("drop-discriminants"));
        for v in &i.variants {
            self.attrs(&v.attrs);
            for f in &v.fields {
                self.attrs(&f.attrs);
                self.visit_type(&f.ty);
            }
            if drop_disc {
                if let Some((eq, e)) = &v.discriminant {
                    let r = eq.span().byte_range().start..e.span().byte_range().end;
                    self.replace_range(r, "", "discriminant dropped");
                }
            }
        }
    }
    fn visit_item_const(&mut self, i: &'a syn::ItemConst) {
        self.attrs(&i.attrs);
        let at = if matches!(i.vis, syn::Visibility::Inherited) { i.const_token.span.byte_range().start } else { i.vis.span().byte_range().start };
        self.vis(&i.vis, at);
        visit::visit_expr(self, &i.expr);
    }
    fn visit_item_type(&mut self, i: &'a syn::ItemType) {
        self.attrs(&i.attrs);
        self.visit_type(&i.ty);
    }
    fn visit_item_use(&mut self, i: &'a syn::ItemUse) {
        self.attrs(&i.attrs);
        // root path of the use tree
        let mut segs: Vec<syn::Ident> = vec![];
        let mut t = &i.tree;
        loop {
            match t {
                syn::UseTree::Path(p) => {
                    segs.push(p.ident.clone());
                    t = &p.tree;
                }
                syn::UseTree::Name(n) => {
                    segs.push(n.ident.clone());
                    break;
                }
                _ => break,
            }
        }
        let names: Vec<String> = segs.iter().map(|s| s.to_string()).collect();
        for (from, to) in self.ctx.paths.clone() {
            if names.len() >= from.len() && names[..from.len()] == from[..] {
                let a = i.leading_colon.map_or(segs[0].span().byte_range().start, |c| c.span().byte_range().start);
                let b = segs[from.len() - 1].span().byte_range().end;
                if to == "-" {
                    self.delete(i.span(), "import dropped");
                } else {
                    self.replace_range(a..b, to, "import redirected to the prelude");
                }
                return;
            }
        }
    }
    fn visit_attribute(&mut self, a: &'a syn::Attribute) {
        self.delete(a.span(), "attribute or doc comment dropped");
    }
    fn visit_path(&mut self, p: &'a syn::Path) {
        if p.segments.len() == 2 && p.segments[0].ident == "Self" {
            if let Some(t) = self.assoc.get(&p.segments[1].ident.to_string()).cloned() {
                self.replace(p.span(), t, "associated type replaced by its definition");
                return;
            }
        }
        self.try_path(p);
        visit::visit_path(self, p);
    }
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        let ranged = |e: &syn::Expr| matches!(e, syn::Expr::Index(i) if matches!(&*i.index, syn::Expr::Range(_)));
        let neg = match b.op {
            syn::BinOp::Eq(_) => Some(""),
            syn::BinOp::Ne(_) => Some("!"),
            _ => None,
        };
        if let Some(neg) = neg {
            if ranged(&b.left) || ranged(&b.right) {
                let why = "comparison of slices redirected to the prelude";
                let whole = b.span().byte_range();
                let (l, r) = (b.left.span().byte_range(), b.right.span().byte_range());
                self.replace_range(whole.start..l.start, &format!("({neg}x_slice_eq(&("), why);
                self.visit_expr(&b.left);
                self.replace_range(l.end..r.start, "), &(", why);
                self.visit_expr(&b.right);
                self.replace_range(r.end..whole.end, ")))", why);
                return;
            }
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        let m = c.method.to_string();
        if let Some(n) = self.ctx.renames.get(&m).cloned() {
            self.replace(c.method.span(), n, "method of the standard library redirected to the prelude");
        }
        if let Some(f) = self.fns.last_mut() {
            f.calls.insert(m.clone());
        }
        for a in &c.args {
            if let syn::Expr::Closure(k) = a {
                self.adapters.insert(k.span().byte_range().start, m.clone());
            }
        }
        // an iterator that is consumed by adapters, not by a for loop
        if let syn::Expr::MethodCall(r) = &*c.receiver {
            let n = r.method.to_string();
            if r.args.is_empty() && (n == "iter" || n == "into_iter") && m != "enumerate" {
                self.replace(r.method.span(), format!("x_{n}"), "method of the standard library redirected to the prelude");
            }
            if let (syn::Expr::MethodCall(q), "enumerate") = (&*r.receiver, n.as_str()) {
                let n = q.method.to_string();
                if q.args.is_empty() && (n == "iter" || n == "into_iter") {
                    self.replace(q.method.span(), format!("x_{n}"), "method of the standard library redirected to the prelude");
                }
            }
        }
        for a in &c.args {
            if let syn::Expr::Path(p) = a {
                let last = p.path.segments.last().unwrap().ident.to_string();
                if p.path.segments.len() > 1 && last.starts_with(|c: char| c.is_uppercase()) && c.method.to_string().starts_with("map") {
                    let t = self.src(p.span()).to_string();
                    let ty = t.rsplit_once("::").map_or("_".to_string(), |x| x.0.trim().to_string());
                    self.replace(p.span(), format!("|x_e| -> (x_r: {ty}) ensures x_r == {t}(x_e) {{ {t}(x_e) }}"), "constructor used as a function turned into a closure");
                }
            }
        }
        visit::visit_expr_method_call(self, c);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let n = norm(p);
            if let Some(f) = self.fns.last_mut() {
                f.calls.insert(n.clone());
            }
            if n.ends_with("__export::must_use") {
                // what format! expands to
                struct F(Option<TokenStream>);
                impl<'b> Visit<'b> for F {
                    fn visit_macro(&mut self, m: &'b syn::Macro) {
                        if m.path.segments.last().map_or(false, |s| s.ident == "format_args") {
                            self.0 = Some(m.tokens.clone());
                        }
                    }
                }
                let mut f = F(None);
                for a in &c.args {
                    f.visit_expr(a);
                }
                if let Some(t) = f.0 {
                    self.format_text(c.span(), t);
                    return;
                }
            }
            if n == "Vec::with_capacity" {
                // an allocation as large as something that exists is always fine
                let lenarg = matches!(c.args.first(), Some(syn::Expr::MethodCall(m)) if m.method == "len" && m.args.is_empty());
                let to = if lenarg { "x_with_capacity_len" } else { "x_with_capacity" };
                self.replace(p.span(), to, "allocation redirected to a bounded one");
                for a in &c.args {
                    self.visit_expr(a);
                }
                return;
            }
            if let Some(to) = self.ctx.callpaths.get(&n).cloned() {
                self.replace(p.span(), to, "function of the standard library redirected to the prelude");
                for a in &c.args {
                    self.visit_expr(a);
                }
                return;
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_cast(&mut self, c: &'a syn::ExprCast) {
        // `as` wraps around in Rust; Verus wants that said
        if ["u8", "i8", "u16", "i16", "u32", "i32"].contains(&norm(&c.ty).as_str()) {
            let r = c.span().byte_range();
            self.insert(r.start, "(#[verifier::truncate] (");
            visit::visit_expr_cast(self, c);
            self.insert(r.end, "))");
            self.ctx.log("cast marked as wrapping");
            return;
        }
        visit::visit_expr_cast(self, c);
    }
    fn visit_expr_lit(&mut self, l: &'a syn::ExprLit) {
        if let syn::Lit::ByteStr(b) = &l.lit {
            let v: Vec<String> = b.value().iter().map(|x| format!("{x}u8")).collect();
            self.replace(l.span(), format!("(&[{}])", v.join(", ")), "byte string literal spelled as an array");
        }
    }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        let n = norm(p);
        if self.mut_self && n == "self" {
            self.replace(p.span(), "x_self", "mut self turned into a variable");
            return;
        }
        if let Some(to) = self.ctx.callpaths.get(&format!("&{n}")).cloned() {
            self.replace(p.span(), to, "function of the standard library redirected to the prelude");
            return;
        }
        visit::visit_expr_path(self, p);
    }
    fn visit_expr_unsafe(&mut self, u: &'a syn::ExprUnsafe) {
        if let [syn::Stmt::Expr(syn::Expr::Call(c), None)] = &u.block.stmts[..] {
            if norm(&c.func).ends_with("slice::from_raw_parts") && c.args.len() == 2 {
                if let syn::Expr::Cast(k) = &c.args[0] {
                    if let (syn::Expr::MethodCall(m), "*constu8") = (&*k.expr, norm(&k.ty).as_str()) {
                        if m.method == "as_ptr" && m.args.is_empty() {
                            let recv = self.src(m.receiver.span()).to_string();
                            let r = u.span().byte_range();
                            let n = c.args[1].span().byte_range();
                            self.replace_range(r.start..n.start, format!("{recv}.x_raw_parts("), "unsafe slice view redirected to a bounds-checked contract");
                            self.replace_range(n.end..r.end, ")", "unsafe slice view redirected to a bounds-checked contract");
                            self.visit_expr(&c.args[1]);
                            return;
                        }
                    }
                }
            }
        }
        self.ctx.lost(format!("unsafe code of an unknown form in {}", self.module));
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let name = norm(&m.path);
        let last = name.rsplit("::").next().unwrap().to_string();
        let inner = m.tokens.clone();
        let delim = match &m.delimiter {
            syn::MacroDelimiter::Paren(d) => d.span,
            syn::MacroDelimiter::Brace(d) => d.span,
            syn::MacroDelimiter::Bracket(d) => d.span,
        };
        if name.starts_with("log::") || ["println", "eprintln", "print", "eprint"].contains(&last.as_str()) {
            self.replace(m.span(), "()", "logging dropped");
            return;
        }
        match last.as_str() {
            "unreachable" | "todo" | "unimplemented" | "panic" => {
                self.replace(m.span(), "x_unreachable()", "panic turned into an obligation");
            }
            "vec" => {
                struct Rep(syn::Expr, syn::Token![;], syn::Expr);
                impl syn::parse::Parse for Rep {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        Ok(Rep(i.parse()?, i.parse()?, i.parse()?))
                    }
                }
                if let Ok(Rep(a, semi, b)) = syn::parse2::<Rep>(inner.clone()) {
                    let s = m.span().byte_range().start;
                    self.replace_range(s..delim.open().byte_range().end, "x_vec_elem(", "allocation redirected to a bounded one");
                    self.replace(semi.span(), ",", "allocation redirected to a bounded one");
                    self.replace(delim.close(), ")", "allocation redirected to a bounded one");
                    self.visit_expr(&a);
                    self.visit_expr(&b);
                } else {
                    self.args(inner);
                }
            }
            "assert" | "debug_assert" => {
                if let Ok(l) = parse_args(inner) {
                    if let Some(first) = l.first() {
                        let t = self.src(first.span()).to_string();
                        self.replace(m.span(), format!("x_assert({t})"), "assertion turned into an obligation");
                    }
                }
            }
            "assert_eq" | "debug_assert_eq" => {
                if let Ok(l) = parse_args(inner) {
                    if l.len() >= 2 {
                        let t = self.src(l[0].span()).to_string();
                        let u = self.src(l[1].span()).to_string();
                        self.replace(m.span(), format!("x_assert(({t}) == ({u}))"), "assertion turned into an obligation");
                    }
                }
            }
            "format" => self.format_text(m.span(), inner),
            "write" => {
                if let Some(t) = self.write_macro(inner.clone()) {
                    self.replace(m.span(), t, "write! expanded");
                } else {
                    self.ctx.lost(format!("write! of an unknown form in {}", self.module));
                }
            }
            "matches" => {}
            "stringify" => {
                let s = self.src(delim.open()).len();
                let r = m.span().byte_range();
                let a = delim.open().byte_range().start + s;
                let b = delim.close().byte_range().start;
                let lit = format!("{:?}", &self.text[a..b]);
                self.replace_range(r, lit, "stringify! expanded");
            }
            _ => {
                self.ctx.lost(format!("unknown macro {last}! in {}", self.module));
            }
        }
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        if a.guard.is_none() {
            // `&x` becomes a dereference
            struct R<'b>(Vec<(&'b syn::PatReference, &'b syn::PatIdent)>);
            impl<'b> Visit<'b> for R<'b> {
                fn visit_pat_reference(&mut self, p: &'b syn::PatReference) {
                    if let syn::Pat::Ident(i) = &*p.pat {
                        self.0.push((p, i));
                    }
                }
            }
            let mut r = R(vec![]);
            r.visit_pat(&a.pat);
            if !r.0.is_empty() {
                let mut lets = String::new();
                for (p, i) in r.0 {
                    self.replace(p.span(), format!("x_{}", i.ident), "reference pattern turned into a dereference");
                    lets.push_str(&format!("let {} = *x_{}; ", i.ident, i.ident));
                }
                let b = a.body.span().byte_range();
                self.insert(b.start, format!("{{ {lets}"));
                self.visit_expr(&a.body);
                self.insert(b.end, " }");
                return;
            }
            // constants inside a tuple become a guard
            if let syn::Pat::Tuple(t) = &a.pat {
                let is_const = |p: &syn::Pat| matches!(p, syn::Pat::Path(_));
                if t.elems.iter().any(is_const) {
                    let mut guard = vec![];
                    for (k, p) in t.elems.iter().enumerate() {
                        if is_const(p) {
                            guard.push(format!("x_m{k} == {}", self.redirected(p)));
                            self.replace(p.span(), format!("x_m{k}"), "constant pattern turned into a guard");
                        }
                    }
                    self.insert(a.pat.span().byte_range().end, format!(" if {}", guard.join(" && ")));
                    self.visit_expr(&a.body);
                    return;
                }
            }
        }
        visit::visit_arm(self, a);
    }
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        let var = match &*l.pat {
            syn::Pat::Ident(p) => p.ident.to_string(),
            _ => "_".to_string(),
        };
        let over = match &*l.expr {
            syn::Expr::Reference(r) => self.src(r.expr.span()).to_string(),
            syn::Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "into_iter") => self.src(m.receiver.span()).to_string(),
            e => self.src(e.span()).to_string(),
        };
        self.one_loop("for", var, over, Some(l.expr.span().byte_range().start), &l.body);
        if continues(&l.body.stmts) {
            let end = l.body.span().byte_range().end - 1;
            let mut at = vec![];
            if cont_ok(&l.body.stmts, &mut at) {
                self.cont_tail(&l.body.stmts, end);
            }
        }
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        // Canaries: assertions that nothing can prove, at the start and before the end of every
        // block. One that is discharged shows assumptions that contradict each other (or dead code).
        if std::env::var("EXTRACT_CANARY").is_ok() && self.fns.last().is_some() {
            let mut at: Vec<usize> = vec![];
            if let Some(s) = b.stmts.first() {
                at.push(s.span().byte_range().start);
            }
            if b.stmts.len() > 1 {
                at.push(b.stmts[b.stmts.len() - 1].span().byte_range().start);
            }
            for a in at {
                let n = self.ctx.canaries.len();
                let line = self.text[..a].matches('\n').count() + 1;
                self.ctx.canaries.push(format!("{} line {line}", self.fns.last().unwrap().key));
                // a list of numbers: only those
                let which = std::env::var("EXTRACT_CANARY").unwrap_or_default();
                if !which.contains(',') || which.split(',').any(|x| x == n.to_string()) {
                    self.insert(a, format!("assert(crate::canary::c({n}int)); "));
                }
            }
        }
        visit::visit_block(self, b);
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        self.one_loop("while", "_".into(), "_".into(), None, &l.body);
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        // `loop { if c { break; } .. }` is `while !c { .. }`
        if let (None, Some(syn::Stmt::Expr(syn::Expr::If(i), _))) = (&l.label, l.body.stmts.first()) {
            let alone = match &i.then_branch.stmts[..] {
                [syn::Stmt::Expr(syn::Expr::Break(b), _)] => b.label.is_none() && b.expr.is_none(),
                _ => false,
            };
            if alone && i.else_branch.is_none() && !matches!(&*i.cond, syn::Expr::Let(_)) && !breaks(&l.body.stmts[1..]) {
                let what = "loop with its exit at the start turned into while";
                let c = i.cond.span().byte_range();
                let then = i.then_branch.span().byte_range();
                self.replace_range(l.loop_token.span().byte_range().start..c.start, "while !(", what);
                self.replace_range(c.end..then.start, ") ", what);
                self.replace_range(then.start + 1..then.end, "", what);
                self.one_loop_at("while", "_".into(), "_".into(), None, then.start, l.body.span().byte_range().end);
                self.visit_expr(&i.cond);
                for s in &l.body.stmts[1..] {
                    self.visit_stmt(s);
                }
                return;
            }
        }
        self.one_loop("loop", "_".into(), "_".into(), None, &l.body);
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        if let Some(f) = self.fns.last_mut() {
            let n = f.closures;
            f.closures += 1;
            f.adapted.push(self.adapters.get(&c.span().byte_range().start).cloned().unwrap_or("-".into()));
            let sec = f.sec.clone();
            let head = sec.as_ref().and_then(|s| s.subs.get(&format!("closure {n}")).cloned());
            if let Some(mut h) = head {
                // patterns `&x` and `&&x` become a dereference
                let mut lets = String::new();
                for (k, p) in c.inputs.iter().enumerate() {
                    let mut depth = 0;
                    let mut q = p;
                    loop {
                        match q {
                            syn::Pat::Reference(r) => {
                                depth += 1;
                                q = &r.pat;
                            }
                            syn::Pat::Type(t) => q = &t.pat,
                            _ => break,
                        }
                    }
                    if let syn::Pat::Tuple(_) = q {
                        // a pattern becomes a variable that is taken apart
                        h = h.replace(&format!("$p{k}"), &format!("x_p{k}"));
                        lets.push_str(&format!("let {} = {}x_p{k}; ", self.src(q.span()), "*".repeat(depth)));
                        continue;
                    }
                    let name = match q {
                        syn::Pat::Ident(i) => i.ident.to_string(),
                        _ => "_x_p".to_string(),
                    };
                    h = h.replace(&format!("$p{k}"), &if depth > 0 { format!("x_p{k}") } else { name.clone() });
                    if depth > 0 {
                        lets.push_str(&format!("let {name} = {}x_p{k}; ", "*".repeat(depth)));
                    }
                }
                let a = c.or1_token.span().byte_range().start;
                let b = c.body.span().byte_range();
                let proof = sec.as_ref().and_then(|s| s.subs.get(&format!("closurebody {n}")).cloned()).unwrap_or_default();
                let proof = subst_p(&proof, c);
                let st = self.fns.last().unwrap();
                let h = self.resolve(st, &h);
                let proof = self.resolve(st, &proof);
                if has_dollar_digit(&h) || has_dollar_digit(&proof) {
                    let key = self.fns.last().unwrap().key.clone();
                    self.ctx.lost(format!("fn {key}: a name that the contract refers to is gone"));
                }
                self.replace_range(a..b.start, format!("{} {{ {lets}{proof}", h.trim()), "closure annotated with its contract");
                self.visit_expr(&c.body);
                self.insert(b.end, " }");
                return;
            }
        }
        visit::visit_expr_closure(self, c);
    }
    fn visit_local(&mut self, l: &'a syn::Local) {
        let mut p = &l.pat;
        if let syn::Pat::Type(t) = p {
            p = &t.pat;
        }
        if let syn::Pat::Ident(i) = p {
            if let Some(f) = self.fns.last_mut() {
                f.lets.push(i.ident.to_string());
                if i.mutability.is_some() {
                    f.muts.push(i.ident.to_string());
                }
            }
        }
        visit::visit_local(self, l);
    }
}

/// `$pN` in a closure's proof text is its Nth parameter.
fn subst_p(t: &str, c: &syn::ExprClosure) -> String {
    let mut t = t.to_string();
    for (k, p) in c.inputs.iter().enumerate() {
        let mut q = p;
        let mut depth = 0;
        loop {
            match q {
                syn::Pat::Reference(r) => { depth += 1; q = &r.pat }
                syn::Pat::Type(x) => q = &x.pat,
                _ => break,
            }
        }
        let name = match q {
            syn::Pat::Ident(i) if depth == 0 => i.ident.to_string(),
            _ if depth > 0 => format!("x_p{k}"),
            _ => "_x_p".to_string(),
        };
        t = t.replace(&format!("$p{k}"), &name);
    }
    t
}

/// Does a list of statements contain a `break` or `continue` of the loop around it?
fn breaks(stmts: &[syn::Stmt]) -> bool {
    struct C(bool);
    impl<'a> Visit<'a> for C {
        fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        fn visit_item(&mut self, _: &'a syn::Item) {}
    }
    let mut c = C(false);
    for s in stmts {
        c.visit_stmt(s);
    }
    c.0
}
/// Does a list of statements contain a `continue` of the loop around it?
fn continues(stmts: &[syn::Stmt]) -> bool {
    struct C(bool);
    impl<'a> Visit<'a> for C {
        fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
        fn visit_item(&mut self, _: &'a syn::Item) {}
    }
    let mut c = C(false);
    for s in stmts {
        c.visit_stmt(s);
    }
    c.0
}
fn is_continue(s: &syn::Stmt) -> bool {
    matches!(s, syn::Stmt::Expr(syn::Expr::Continue(c), _) if c.label.is_none())
}
fn ends_with_continue(stmts: &[syn::Stmt]) -> bool {
    stmts.last().is_some_and(is_continue) && !continues(&stmts[..stmts.len() - 1])
}
/// Can every `continue` be replaced by nesting what follows it?
fn cont_ok(stmts: &[syn::Stmt], _at: &mut Vec<usize>) -> bool {
    for (i, s) in stmts.iter().enumerate() {
        if is_continue(s) {
            return i + 1 == stmts.len();
        }
        if !continues(std::slice::from_ref(s)) {
            continue;
        }
        let last = i + 1 == stmts.len();
        match s {
            syn::Stmt::Expr(syn::Expr::If(x), _) => {
                let ok = match &x.else_branch {
                    None if last => cont_ok(&x.then_branch.stmts, _at),
                    None => ends_with_continue(&x.then_branch.stmts),
                    Some((_, e)) => match &**e {
                        syn::Expr::Block(b) if last => cont_ok(&x.then_branch.stmts, _at) && cont_ok(&b.block.stmts, _at),
                        syn::Expr::Block(b) => ends_with_continue(&x.then_branch.stmts) && !continues(&b.block.stmts),
                        _ => false,
                    },
                };
                if !ok {
                    return false;
                }
            }
            syn::Stmt::Local(l) => {
                let ok = match &l.init {
                    Some(syn::LocalInit { diverge: Some((_, d)), expr, .. }) => match &**d {
                        syn::Expr::Block(b) => {
                            ends_with_continue(&b.block.stmts) && !continues(&[syn::Stmt::Expr((**expr).clone(), None)])
                        }
                        _ => false,
                    },
                    _ => false,
                };
                if !ok {
                    return false;
                }
            }
            _ => return false,
        }
    }
    true
}

fn parse_args(t: TokenStream) -> syn::Result<Vec<syn::Expr>> {
    use syn::parse::Parser;
    let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
    Ok(p.parse2(t)?.into_iter().collect())
}

impl<'c, 't> Rw<'c, 't> {
    /// `continue` is replaced by putting what follows into an else branch.
    fn cont_tail(&mut self, stmts: &[syn::Stmt], end: usize) {
        for (i, s) in stmts.iter().enumerate() {
            if is_continue(s) {
                self.delete(s.span(), "continue replaced by nesting what follows");
                return;
            }
            if !continues(std::slice::from_ref(s)) {
                continue;
            }
            let last = i + 1 == stmts.len();
            match s {
                syn::Stmt::Expr(syn::Expr::If(x), _) => {
                    self.cont_tail(&x.then_branch.stmts, x.then_branch.span().byte_range().end - 1);
                    match &x.else_branch {
                        None if last => {}
                        None => {
                            self.insert(x.span().byte_range().end, " else {");
                            self.insert(end, "}");
                        }
                        Some((_, e)) => {
                            if let syn::Expr::Block(b) = &**e {
                                let close = b.block.span().byte_range().end;
                                if last {
                                    self.cont_tail(&b.block.stmts, close - 1);
                                } else {
                                    self.replace_range(close - 1..close, "", "continue replaced by nesting what follows");
                                    self.insert(end, "}");
                                }
                            }
                        }
                    }
                }
                syn::Stmt::Local(l) => {
                    let init = l.init.as_ref().unwrap();
                    let (els, d) = init.diverge.as_ref().unwrap();
                    if let syn::Expr::Block(b) = &**d {
                        let st = &b.block.stmts;
                        let body = if st.len() > 1 {
                            self.text[st[0].span().byte_range().start..st[st.len() - 2].span().byte_range().end].to_string()
                        } else {
                            String::new()
                        };
                        self.insert(l.let_token.span().byte_range().start, "if ");
                        self.replace_range(els.span().byte_range().start..s.span().byte_range().end, "{", "continue replaced by nesting what follows");
                        self.insert(end, format!("}} else {{ {body} }}"));
                    }
                }
                _ => {}
            }
        }
    }
    fn args(&mut self, t: TokenStream) {
        if let Ok(l) = parse_args(t) {
            for e in &l {
                if let syn::Expr::Assign(a) = e {
                    self.visit_expr(&a.right);
                } else {
                    self.visit_expr(e);
                }
            }
        }
    }
    /// write!(f, "a{}b", x) as a sequence of calls that print the literal pieces and the arguments
    fn write_macro(&mut self, t: TokenStream) -> Option<String> {
        let l = parse_args(t).ok()?;
        let f = self.src(l.first()?.span()).to_string();
        let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(fmt), .. }) = l.get(1)? else { return None };
        let fmt = fmt.value();
        let mut named: BTreeMap<String, String> = BTreeMap::new();
        let mut pos = vec![];
        for a in &l[2..] {
            if let syn::Expr::Assign(x) = a {
                named.insert(norm(&x.left), self.src(x.right.span()).to_string());
            } else {
                pos.push(self.src(a.span()).to_string());
            }
        }
        let mut parts: Vec<String> = vec![];
        let mut lit = String::new();
        let mut it = fmt.chars().peekable();
        let mut k = 0;
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => { it.next(); lit.push('{') }
                '}' if it.peek() == Some(&'}') => { it.next(); lit.push('}') }
                '{' => {
                    let mut name = String::new();
                    loop {
                        match it.next()? {
                            '}' => break,
                            c => name.push(c),
                        }
                    }
                    if !lit.is_empty() {
                        parts.push(format!("{f}.x_put({lit:?})"));
                        lit.clear();
                    }
                    let e = if name.is_empty() {
                        k += 1;
                        pos.get(k - 1)?.clone()
                    } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') {
                        match name.parse::<usize>() {
                            Ok(i) => pos.get(i)?.clone(),
                            Err(_) => named.get(&name).cloned().unwrap_or(name),
                        }
                    } else {
                        return None;
                    };
                    parts.push(format!("{f}.x_disp(&{e})"));
                }
                c => lit.push(c),
            }
        }
        if !lit.is_empty() {
            parts.push(format!("{f}.x_put({lit:?})"));
        }
        let last = parts.pop()?;
        if parts.is_empty() {
            return Some(last);
        }
        Some(format!("{{ {} {last} }}", parts.iter().map(|p| format!("{p}?;")).collect::<Vec<_>>().join(" ")))
    }
    /// error texts: only the arguments' own evaluation is kept
    fn format_text(&mut self, span: Span, inner: TokenStream) {
        match parse_args(inner) {
            Ok(l) if !l.is_empty() && l[1..].iter().all(|e| !matches!(e, syn::Expr::Assign(_))) => {
                let whole = span.byte_range();
                if l.len() == 1 {
                    self.replace(span, "x_format()", "formatted text dropped");
                } else {
                    let mut pos = whole.start;
                    let mut sep = "({ let _ = &(";
                    for e in &l[1..] {
                        let r = e.span().byte_range();
                        self.replace_range(pos..r.start, sep, "formatted text dropped");
                        self.visit_own(e);
                        pos = r.end;
                        sep = "); let _ = &(";
                    }
                    self.replace_range(pos..whole.end, "); x_format() })", "formatted text dropped");
                }
            }
            _ => self.ctx.lost(format!("format! of an unknown form in {}", self.module)),
        }
    }
    /// `visit_expr` for an expression that lives shorter than the file.
    fn visit_own(&mut self, e: &syn::Expr) {
        self.visit_expr(e);
    }
    fn one_loop(&mut self, kind: &'static str, var: String, over: String, iter_at: Option<usize>, body: &syn::Block) {
        let r = body.span().byte_range();
        self.one_loop_at(kind, var, over, iter_at, r.start, r.end)
    }
    fn one_loop_at(&mut self, kind: &'static str, var: String, over: String, iter_at: Option<usize>, at: usize, end: usize) {
        let Some(f) = self.fns.last_mut() else { return };
        let n = f.loops;
        f.loops += 1;
        f.kinds.push(kind);
        f.loop_vars.push(var);
        f.loop_exprs.push(over);
        if let Some(s) = &f.sec {
            if let Some(t) = s.subs.get(&format!("loop {n}")) {
                let t = t.clone();
                f.pending.push((at, format!("\n{t}")));
                if let Some(i) = iter_at {
                    if t.contains(&format!("it{n}")) {
                        f.pending.push((i, format!("it{n}: ")));
                    }
                }
            }
            if let Some(t) = s.subs.get(&format!("loopbody {n}")) {
                f.pending.push((at + 1, format!("\n{}", t.clone())));
            }
            if let Some(t) = s.subs.get(&format!("loopend {n}")) {
                f.pending.push((end - 1, format!("\n{}\n", t.clone())));
            }
        }
    }
}
