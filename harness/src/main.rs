//! `check <ID>` and `replay <file>`
mod cfg;
mod core;
mod graph;
mod model;
mod p_cli;
mod p_dup;
mod p_e2e;
mod p_fault;
mod md;
mod p_files;
mod p_graph;
mod p_rename;
mod p_size;
mod p_jobs;
mod p_hist;
mod p_json;
mod p_parse;
mod p_paths;
mod p_report;
mod p_stage;
mod proj;
mod p_md;
mod p_mono;
mod p_rs;
mod rs;
mod strat;

use crate::core::*;
use std::path::PathBuf;

macro_rules! with_prop {
    ($id:expr, $p:ident => $e:expr) => {
        match $id {
            "C01" => { let $p = &p_graph::GraphProp(p_graph::What::Coverage); $e }
            "C02" => { let $p = &p_graph::GraphProp(p_graph::What::Uncovered); $e }
            "C03" => { let $p = &p_graph::GraphProp(p_graph::What::Derived); $e }
            "C04" => { let $p = &p_graph::GraphProp(p_graph::What::Dangling); $e }
            "C05" => { let $p = &p_graph::GraphProp(p_graph::What::Titles); $e }
            "C06" => { let $p = &p_dup::Dup; $e }
            "C07" => { let $p = &p_md::WellFormed; $e }
            "C08" => { let $p = &p_md::Malformed; $e }
            "C09" => { let $p = &p_md::Whitespace; $e }
            "C10" => { let $p = &p_mono::MonoProp; $e }
            "C11" => { let $p = &p_rs::RustMarks; $e }
            "C12" => { let $p = &p_json::JsonProp; $e }
            "C13" => { let $p = &p_fault::Failing; $e }
            "C14" => { let $p = &p_fault::Crash; $e }
            "C15" => { let $p = &p_fault::Lossy; $e }
            "C16" => { let $p = &p_jobs::Status; $e }
            "C17" => { let $p = &p_jobs::BadConfig; $e }
            "C22" => { let $p = &p_jobs::Writing; $e }
            "C18" => { let $p = &p_report::Reports; $e }
            "C19" => { let $p = &p_report::Matrix; $e }
            "C20" => { let $p = &p_parse::Tags; $e }
            "C21" => { let $p = &p_paths::Again; $e }
            "C23" => { let $p = &p_paths::Paths; $e }
            "C25" => { let $p = &p_e2e::Mixed; $e }
            "C26" => { let $p = &p_cli::CommandLine; $e }
            "C27" => { let $p = &p_stage::Stages; $e }
            "C28" => { let $p = &p_hist::History; $e }
            "C29" => { let $p = &p_files::Files; $e }
            "C30" => { let $p = &p_rename::Rename; $e }
            "C31" => { let $p = &p_size::Sizes; $e }
            "C24" => { let $p = &p_parse::ParseJob; $e }
            id => {
                eprintln!("unknown property {id}");
                3
            }
        }
    };
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let var = |k: &str| std::env::var(k).ok();
    let ctx = Ctx {
        tier: if var("VERIF_TIER").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
        seed: var("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        bin: PathBuf::from(var("REQTRACE_BIN").expect("REQTRACE_BIN")),
        verif: PathBuf::from(var("VERIF_DIR").expect("VERIF_DIR")),
        scratch: PathBuf::from(var("VERIF_SCRATCH").expect("VERIF_SCRATCH")),
        cases_override: var("VERIF_CASES").and_then(|s| s.parse().ok()),
    };
    let code = match args.iter().map(String::as_str).collect::<Vec<_>>()[..] {
        ["check", id] => with_prop!(id, p => run_check(p, &ctx)),
        ["replay", file] => {
            let doc: serde_json::Value = std::fs::read(file)
                .map_err(|e| e.to_string())
                .and_then(|d| serde_json::from_slice(&d).map_err(|e| e.to_string()))
                .unwrap_or_else(|e| {
                    eprintln!("{file}: {e}");
                    std::process::exit(3)
                });
            let id = doc["property"].as_str().unwrap_or_default().to_owned();
            with_prop!(id.as_str(), p => replay(p, &ctx, &doc))
        }
        _ => {
            eprintln!("usage: harness check <ID> | replay <FILE>");
            3
        }
    };
    std::process::exit(code);
}
