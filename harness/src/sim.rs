//! Access to the simulation-ext crate (what cocotb / verilator test benches use).
use serde_json::{Value, json};
use spade_simulation_ext::field_ref::FieldRef;
use spade_simulation_ext::{BitString, Spade};
use std::panic::{AssertUnwindSafe, catch_unwind};

fn range(r: &Option<spade_simulation_ext::range::UptoRange>, size: &Value) -> Value {
    match (r, size.as_u64()) {
        (None, _) => Value::Null,
        (Some(r), Some(s)) => {
            json!({"from": r.from, "to": r.to, "is_full": r.is_full(), "downto": r.as_downto(s)})
        }
        (Some(r), None) => json!({"from": r.from, "to": r.to, "is_full": r.is_full()}),
    }
}

fn field(s: &mut Spade, op: &Value) -> Result<FieldRef, String> {
    let path = op["path"]
        .as_array()
        .unwrap()
        .iter()
        .map(|v| v.as_str().unwrap().to_string())
        .collect::<Vec<_>>();
    match op.get("arg").and_then(|v| v.as_str()) {
        None => s
            .output_field(path)
            .map_err(|e| format!("{e:?}"))?
            .ok_or("no output".to_string()),
        Some(a) => {
            let mut f = s.arg_as_field(a).map_err(|e| format!("{e:?}"))?;
            for p in path {
                f = s.field_of_field(&mut f, &p).map_err(|e| format!("{e:?}"))?;
            }
            Ok(f)
        }
    }
}

fn one(s: &mut Spade, op: &Value) -> Result<Value, String> {
    let bits = || BitString(op["bits"].as_str().unwrap().to_string());
    let expr = || op["expr"].as_str().unwrap();
    match op["op"].as_str().unwrap() {
        "arg" => {
            let (name, v) = s
                .arg_value(op["arg"].as_str().unwrap(), expr())
                .map_err(|e| format!("{e:?}"))?;
            Ok(json!({"name": name, "bits": v.0}))
        }
        "arg_u32" => {
            let (name, v) = s
                .port_value_raw(op["arg"].as_str().unwrap(), expr())
                .map_err(|e| format!("{e:?}"))?;
            Ok(json!({"name": name, "bits": v.as_string(), "chunks": v.as_u32_chunks()}))
        }
        "field" => {
            let f = field(s, op)?;
            let dir = |r: Result<spade_simulation_ext::range::UptoRange, _>| r.ok();
            Ok(json!({"fwd": range(&f.fwd_range(), &op["fsize"]), "back": range(&f.back_range(), &op["bsize"]),
                      "write": range(&dir(f.write_dir_range()), &op["fsize"]),
                      "read": range(&dir(f.read_dir_range()), &op["bsize"]),
                      "fwd_port": f.source.fwd_mangled(), "back_port": f.source.back_mangled()}))
        }
        "field_bits" => {
            let f = field(s, op)?;
            let b = s
                .compile_field_value(&f, expr())
                .map_err(|e| format!("{e:?}"))?;
            Ok(json!({"bits": b.0}))
        }
        "value" => {
            let f = field(s, op)?;
            let v = s
                .field_value(f, &bits())
                .map_err(|e| format!("{e:?}"))?;
            Ok(json!({"value": v}))
        }
        "compare" => {
            let f = field(s, op)?;
            let c = s
                .compare_field(f, expr(), &bits())
                .map_err(|e| format!("{e:?}"))?;
            Ok(json!({"matches": c.matches(), "expected": c.expected_bits.0, "got": c.got_bits.0,
                      "got_spade": c.got_spade}))
        }
        o => Err(format!("unknown op {o}")),
    }
}

pub fn run(req: &Value, state: &std::path::Path) -> Value {
    let state = state.to_str().unwrap().to_string();
    let mut s = match Spade::new(
        req["uut"].as_str().unwrap().to_string(),
        state.clone(),
    ) {
        Ok(s) => s,
        Err(e) => return json!({"ok": false, "error": format!("{e:?}")}),
    };
    let mut out = vec![];
    for op in req["ops"].as_array().unwrap() {
        let r = catch_unwind(AssertUnwindSafe(|| one(&mut s, op)));
        match r {
            Ok(Ok(v)) => out.push(json!({"ok": true, "r": v})),
            r => {
                out.push(match r {
                    Ok(Err(e)) => json!({"ok": false, "error": e}),
                    _ => json!({"ok": false, "panic": true}),
                });
                // the state may be half taken: start afresh
                match Spade::new(
                    req["uut"].as_str().unwrap().to_string(),
                    state.clone(),
                ) {
                    Ok(n) => s = n,
                    Err(_) => break,
                }
            }
        }
    }
    json!({"ok": true, "results": out})
}
