//! JSON-lines driver around the real Spade compiler crates in /repo.
//!
//! One request per line on stdin, one response per line on stdout (the real stdout is
//! duplicated away first, because some of the crates `println!`).
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

use serde_json::{Value, json};
use spade::{CompilationGoal, ModuleNamespace, Opt, namespaced_file::namespaced_file};
use spade_codespan_reporting::term::termcolor::Buffer;
use spade_diagnostics::DiagHandler;
use spade_diagnostics::emitter::CodespanEmitter;

mod sim;

fn compile(req: &Value, tmp: &Path) -> Value {
    let files: Vec<(String, String)> = match req.get("files") {
        Some(f) => f
            .as_array()
            .unwrap()
            .iter()
            .map(|p| {
                (
                    p[0].as_str().unwrap().to_string(),
                    p[1].as_str().unwrap().to_string(),
                )
            })
            .collect(),
        None => vec![(
            "t.spade".to_string(),
            req["src"].as_str().unwrap().to_string(),
        )],
    };
    let sources = files
        .into_iter()
        .map(|(spec, content)| {
            let nf = namespaced_file(&spec).unwrap();
            (
                ModuleNamespace::new(nf.namespace, nf.base_namespace, nf.file.as_path()).unwrap(),
                nf.file.to_string_lossy().to_string(),
                content,
            )
        })
        .collect::<Vec<_>>();

    let want = |k: &str| req.get(k).and_then(|v| v.as_bool()).unwrap_or(false);
    let out = tmp.join("out.sv");
    let cpp = tmp.join("out.hpp");
    let mir = tmp.join("out.mir");
    let items = tmp.join("items.ron");
    for f in [&out, &cpp, &mir, &items] {
        let _ = std::fs::remove_file(f);
    }
    let state: Option<PathBuf> = req
        .get("state")
        .and_then(|v| v.as_bool())
        .and_then(|v| v.then(|| tmp.join("state.bin")));
    let opt_passes = req
        .get("opt")
        .and_then(|v| v.as_array())
        .map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect())
        .unwrap_or_default();

    let mut buffer = Buffer::no_color();
    let result = spade::compile(
        sources,
        CompilationGoal::Codegen,
        req.get("stdlib").and_then(|v| v.as_bool()).unwrap_or(true),
        Opt {
            error_buffer: &mut buffer,
            outfile: Some(out.clone()),
            mir_output: want("mir").then(|| mir.clone()),
            verilator_wrapper_output: want("cpp").then(|| cpp.clone()),
            state_dump_file: state,
            item_list_file: want("items").then(|| items.clone()),
            print_parse_traceback: None,
            opt_passes,
        },
        DiagHandler::new(Box::new(CodespanEmitter)),
    );
    let ok = result.is_ok();
    let read = |p: &PathBuf| std::fs::read_to_string(p).ok();
    json!({
        "ok": ok,
        "diag": String::from_utf8_lossy(buffer.as_slice()),
        "verilog": if ok { read(&out) } else { None },
        "mir": read(&mir), "cpp": read(&cpp), "items": read(&items),
    })
}

fn handle(req: &Value, tmp: &Path) -> Value {
    match req["cmd"].as_str().unwrap_or("") {
        "compile" => compile(req, tmp),
        "sim" => sim::run(req, &tmp.join("state.bin")),
        "ping" => json!({"ok": true}),
        other => json!({"ok": false, "error": format!("unknown command {other}")}),
    }
}

fn main() {
    // Keep the protocol stream apart from anything the crates print.
    let mut proto: std::fs::File = unsafe {
        use std::os::fd::FromRawFd;
        unsafe extern "C" {
            fn dup(fd: i32) -> i32;
            fn dup2(a: i32, b: i32) -> i32;
        }
        let p = dup(1);
        dup2(2, 1);
        std::fs::File::from_raw_fd(p)
    };
    let tmp = PathBuf::from(std::env::args().nth(1).expect("scratch directory argument"));
    std::fs::create_dir_all(&tmp).unwrap();

    let last_panic = Arc::new(Mutex::new(String::new()));
    {
        let lp = last_panic.clone();
        std::panic::set_hook(Box::new(move |info| {
            *lp.lock().unwrap() = format!("{info}");
        }));
    }

    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        if line.trim().is_empty() {
            continue;
        }
        let req: Value = serde_json::from_str(&line).expect("request is JSON");
        let tmp2 = tmp.clone();
        let lp = last_panic.clone();
        let resp = std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn(move || {
                match catch_unwind(AssertUnwindSafe(|| handle(&req, &tmp2))) {
                    Ok(v) => v,
                    Err(_) => json!({"ok": false, "panic": lp.lock().unwrap().clone()}),
                }
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| json!({"ok": false, "panic": "thread died"}));
        let mut s = serde_json::to_string(&resp).unwrap();
        s.push('\n');
        proto.write_all(s.as_bytes()).unwrap();
        proto.flush().unwrap();
    }
}
