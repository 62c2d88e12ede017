//! vx: mechanical extraction of the real code for Verus.
//!
//! Reads the Rust sources named in a config, rewrites them with a fixed list of
//! semantics-preserving desugarings (see /verif/DESIGN.md), and writes one plain-Rust
//! skeleton per module, with `__vx_*` place holders at the points where contracts are
//! woven in, plus a JSON description of every function.
mod desugar;
mod items;
mod logos;

use std::{collections::BTreeMap, fs};

use serde_json::{json, Value};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cfg: Value = serde_json::from_str(&fs::read_to_string(&args[1]).unwrap()).unwrap();
    let out = &args[2];
    fs::create_dir_all(out).unwrap();

    let mut files = Vec::new();
    let mut failed = Vec::new();
    for m in cfg["modules"].as_array().unwrap() {
        let path = m["path"].as_str().unwrap();
        let name = m["name"].as_str().unwrap();
        let text = match fs::read_to_string(path) {
            Ok(t) => t,
            Err(e) => {
                failed.push(json!({"module": name, "error": e.to_string()}));
                continue;
            }
        };
        match syn::parse_file(&text) {
            Ok(f) => files.push((name.to_owned(), path.to_owned(), f, m.clone())),
            Err(e) => failed.push(json!({"module": name, "error": e.to_string()})),
        }
    }

    let mut consts = items::Consts::default();
    for (_, _, f, _) in &files {
        consts.collect(&f.items);
    }

    let mut meta = Vec::new();
    let mut dropped = Vec::new();
    for (name, path, f, m) in files {
        let mut cx = items::Cx {
            module: name.clone(),
            path,
            consts: &consts,
            cfg: &cfg,
            mcfg: m,
            fns: Vec::new(),
            dropped: Vec::new(),
            prost: false,
            extra: String::new(),
        };
        cx.prost = cx.mcfg["kind"] == "prost";
        let items = cx.module_items(f.items, &name);
        let file = syn::File {
            shebang: None,
            attrs: vec![],
            items,
        };
        let text = prettyplease::unparse(&file);
        fs::write(format!("{out}/{}.rs", name.replace("::", "__")), text).unwrap();
        if !cx.extra.is_empty() {
            fs::write(format!("{out}/{}.extra", name.replace("::", "__")), &cx.extra).unwrap();
        }
        meta.extend(cx.fns);
        dropped.extend(cx.dropped);
    }
    let by: BTreeMap<String, Value> = meta
        .into_iter()
        .map(|v: Value| (v["path"].as_str().unwrap().to_owned(), v))
        .collect();
    fs::write(
        format!("{out}/meta.json"),
        serde_json::to_string_pretty(&json!({"fns": by, "failed": failed, "dropped": dropped}))
            .unwrap(),
    )
    .unwrap();
}
