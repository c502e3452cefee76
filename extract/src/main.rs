//! Mechanical extraction of /repo's source into a crate that Verus can check.
//!
//! The text of every function body is taken from the source file; the only changes are
//! edits at syntax-tree positions, all of them listed in `edit_log` of the report:
//! attributes and derives dropped, logging statements dropped, paths and method names of the
//! standard library redirected to the contracts of the prelude, contracts and invariants
//! inserted, and higher-order functions specialised to the function they are given.
mod config;
mod rewrite;

use config::Section;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: extract SRC_DIR SPEC_DIR OUT_DIR modules...");
        std::process::exit(2);
    }
    let src = PathBuf::from(&args[1]);
    let spec = PathBuf::from(&args[2]);
    let out = PathBuf::from(&args[3]);
    fs::create_dir_all(&out).unwrap();

    let mut sections: Vec<Section> = vec![];
    let mut names: Vec<PathBuf> = fs::read_dir(&spec)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "spec"))
        .collect();
    names.sort();
    for p in names {
        sections.extend(config::parse(
            p.file_name().unwrap().to_str().unwrap(),
            &fs::read_to_string(&p).unwrap(),
        ));
    }
    let mut ctx = rewrite::Ctx::new(sections);

    // module=file pairs; a bare name means SRC_DIR/name.rs
    let mut main_rs = String::from(
        "#![feature(allocator_api, sized_hierarchy)]\n#![allow(unused_imports, dead_code, non_snake_case, unused_variables, unused_mut, non_camel_case_types, deprecated, unused_parens, unused_braces, private_interfaces, unreachable_code)]\n",
    );
    // Prelude modules are copied.
    let mut preludes: Vec<PathBuf> = fs::read_dir(spec.join("prelude"))
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "rs"))
        .collect();
    preludes.sort();
    for p in preludes {
        let stem = p.file_stem().unwrap().to_str().unwrap().to_string();
        fs::copy(&p, out.join(format!("{stem}.rs"))).unwrap();
        main_rs.push_str(&format!("#[macro_use]\npub mod {stem};\n"));
    }

    // Pass 1: read everything, so that higher-order functions can be specialised across modules.
    let mut files = vec![];
    for m in &args[4..] {
        let (name, path) = match m.split_once('=') {
            Some((a, b)) => (a.to_string(), PathBuf::from(b)),
            None => (m.clone(), src.join(format!("{m}.rs"))),
        };
        let text = match fs::read_to_string(&path) {
            Ok(t) => t,
            Err(e) => {
                ctx.lost(format!("module {name}: cannot read {}: {e}", path.display()));
                continue;
            }
        };
        let text = match rewrite::expand_local_macros(&text) {
            Ok(t) => t,
            Err(e) => {
                ctx.lost(format!("module {name}: {e}"));
                continue;
            }
        };
        match syn::parse_file(&text) {
            Ok(f) => files.push((name, text, f)),
            Err(e) => ctx.lost(format!("module {name}: does not parse: {e}")),
        }
    }
    for (name, text, f) in &files {
        ctx.collect(name, text, f);
        ctx.remember(name, text);
    }
    for (name, text, f) in &files {
        let body = ctx.module(name, text, f);
        fs::write(out.join(format!("{name}.rs")), body).unwrap();
        main_rs.push_str(&format!("pub mod {name};\n"));
    }
    if std::env::var("EXTRACT_CANARY").is_ok() {
        main_rs.push_str("pub mod canary;\n");
        fs::write(out.join("canary.rs"), "use vstd::prelude::*;\nverus! { pub uninterp spec fn c(n: int) -> bool; }\n").unwrap();
        fs::write(out.join("canaries.txt"), ctx.canaries.join("\n")).unwrap();
    }
    main_rs.push_str("fn main() {}\n");
    fs::write(out.join("main.rs"), main_rs).unwrap();

    ctx.finish();
    let functions: BTreeMap<String, serde_json::Value> = ctx
        .functions
        .iter()
        .map(|(k, v)| (k.clone(), serde_json::json!({
            "module": v.module, "contract": v.contract, "external": v.external, "tags": v.tags,
            "loops": v.loops, "src_hash": v.src_hash, "src": v.src, "calls": v.calls, "shape": v.shape,
        })))
        .collect();
    let lost: BTreeSet<String> = ctx.lost.iter().cloned().collect();
    let report = serde_json::json!({
        "functions": functions,
        "lost_anchors": lost,
        "uncontracted": ctx.uncontracted,
        "edit_log": ctx.edit_log,
        "dropped": ctx.dropped,
    });
    fs::write(out.join("report.json"), serde_json::to_string_pretty(&report).unwrap()).unwrap();
}
