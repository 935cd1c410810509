//! Conformance harness: runs scenarios (ndjson on stdin) through the public API of
//! beancount-parser-lima and prints, per scenario, a projection of everything observable.
//! It contains no oracle: what is expected is computed by the TLA+ specification.
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

use beancount_parser_lima::*;
use serde_json::{json, Map, Value};

mod names;
mod project;
mod reports;
mod synth;

use project::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let scratch = PathBuf::from(args.get(1).expect("scratch dir"));
    if std::env::var_os("CONFORM_TRACE").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    // a generous but bounded stack, the same for every scenario
    let handle = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || serve(&scratch))
        .unwrap();
    handle.join().unwrap();
}

fn serve(scratch: &Path) {
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let scn: Value = serde_json::from_str(&line).expect("scenario json");
        let id = scn["id"].clone();
        let res = catch_unwind(AssertUnwindSafe(|| run(scratch, &scn)));
        let out = match res {
            Ok(v) => json!({"id": id, "res": v}),
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                json!({"id": id, "panic": msg})
            }
        };
        let mut w = stdout.lock();
        writeln!(w, "{}", out).unwrap();
        w.flush().unwrap();
    }
}

fn run(scratch: &Path, scn: &Value) -> Value {
    match scn["op"].as_str().unwrap_or("parse") {
        "parse" => run_parse(scratch, scn),
        "resolve" => run_resolve(scratch, scn),
        "synth" => synth::run(scratch, scn),
        "names" => names::run(scn),
        op => panic!("unknown op {}", op),
    }
}

/// materialise the scenario's files under a fresh scratch directory, which is the cwd afterwards
pub fn materialise(scratch: &Path, scn: &Value) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    let dir = scratch.join("w");
    std::env::set_current_dir(scratch).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let dir = dir.canonicalize().unwrap();
    if let Some(files) = scn["files"].as_array() {
        for f in files {
            let rel: PathBuf = if let Some(h) = f["pathhex"].as_str() {
                PathBuf::from(std::ffi::OsStr::from_bytes(&unhex(h)))
            } else {
                PathBuf::from(f["path"].as_str().unwrap())
            };
            assert!(rel.is_relative() && !rel.to_string_lossy().contains(".."));
            let p = dir.join(&rel);
            if f["dir"].as_bool() == Some(true) {
                std::fs::create_dir_all(&p).unwrap();
                continue;
            }
            if let Some(parent) = p.parent() {
                std::fs::create_dir_all(parent).unwrap();
            }
            if let Some(target) = f["symlink"].as_str() {
                std::os::unix::fs::symlink(target.replace("@ROOT@", dir.to_str().unwrap()), &p).unwrap();
            } else if let Some(h) = f["hex"].as_str() {
                std::fs::write(&p, unhex(h)).unwrap();
            } else {
                // includes may refer to absolute paths under the scratch directory
                let text = f["text"].as_str().unwrap();
                std::fs::write(&p, text.replace("@ROOT@", dir.to_str().unwrap())).unwrap();
            }
        }
    }
    std::env::set_current_dir(&dir).unwrap();
    dir
}

fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2)
        .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

pub fn load(dir: &Path, scn: &Value) -> Result<BeancountSources, String> {
    if let Some(text) = scn["inline"].as_str() {
        let text = text.replace("@ROOT@", dir.to_str().unwrap());
        Ok(if scn["owned"].as_bool() == Some(true) {
            BeancountSources::from(text)
        } else {
            BeancountSources::from(text.as_str())
        })
    } else {
        let root = scn["root"].as_str().unwrap();
        let path = match scn["mode"].as_str().unwrap_or("abs") {
            "abs" => dir.join(root),
            "rel" => PathBuf::from(root),
            "dot" => Path::new(".").join(root),
            m => panic!("unknown mode {}", m),
        };
        if scn["owned"].as_bool() == Some(true) {
            BeancountSources::try_from(path).map_err(|e| e.to_string())
        } else {
            BeancountSources::try_from(path.as_path()).map_err(|e| e.to_string())
        }
    }
}

fn strip_root(dir: &Path, s: &str) -> String {
    s.replace(dir.to_str().unwrap(), "@ROOT@")
}

fn run_parse(scratch: &Path, scn: &Value) -> Value {
    let dir = materialise(scratch, scn);
    let sources = match load(&dir, scn) {
        Ok(s) => s,
        Err(e) => return json!({"load_error": strip_root(&dir, &e)}),
    };
    let parser = BeancountParser::new(&sources);
    let mut out = Map::new();
    let mut spans = SpanLog::default();
    let parsed = project_parse(&parser, &sources, &mut spans, scn);
    out.insert("parse".into(), parsed.clone());

    // determinism: again on the same parser, on fresh sources, on other threads, with the files gone
    // and the working directory changed (the content was read before), and on two threads at once
    let reps = scn["reps"].as_u64().unwrap_or(0);
    if reps > 0 {
        let base = parsed.to_string();
        let mut diffs: Vec<Value> = Vec::new();
        for i in 0..reps {
            let other = if i % 5 == 0 {
                let mut sl = SpanLog::default();
                project_parse(&parser, &sources, &mut sl, scn)
            } else if i % 5 == 3 {
                let gone = scratch.join("gone");
                std::env::set_current_dir(scratch).unwrap();
                let _ = std::fs::remove_dir_all(&gone);
                std::fs::rename(&dir, &gone).unwrap();
                let copy = sources.clone();
                let p2 = BeancountParser::new(&copy);
                let mut sl = SpanLog::default();
                let r = catch_unwind(AssertUnwindSafe(|| project_parse(&p2, &copy, &mut sl, scn)));
                std::fs::rename(&gone, &dir).unwrap();
                std::env::set_current_dir(&dir).unwrap();
                r.unwrap_or_else(|e| std::panic::resume_unwind(e))
            } else if i % 5 == 4 {
                let both = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..2)
                        .map(|_| {
                            std::thread::Builder::new()
                                .stack_size(8 << 20)
                                .spawn_scoped(sc, || {
                                    let mut sl = SpanLog::default();
                                    project_parse(&parser, &sources, &mut sl, scn)
                                })
                                .unwrap()
                        })
                        .collect();
                    hs.into_iter()
                        .map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e)))
                        .collect::<Vec<_>>()
                });
                both.into_iter().find(|v| v.to_string() != base).unwrap_or(parsed.clone())
            } else if i % 5 == 1 {
                let s2 = load(&dir, scn).unwrap();
                let p2 = BeancountParser::new(&s2);
                let mut sl = SpanLog::default();
                project_parse(&p2, &s2, &mut sl, scn)
            } else {
                std::thread::scope(|sc| {
                    let h = std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(sc, || {
                            let s2 = load(&dir, scn).unwrap();
                            let p2 = BeancountParser::new(&s2);
                            let mut sl = SpanLog::default();
                            project_parse(&p2, &s2, &mut sl, scn)
                        })
                        .unwrap();
                    match h.join() {
                        Ok(v) => v,
                        Err(e) => std::panic::resume_unwind(e),
                    }
                })
            };
            if other.to_string() != base {
                diffs.push(other);
                break;
            }
        }
        out.insert("rep_diffs".into(), Value::Array(diffs));
    }

    let mut resolved = Map::new();
    for (key, span) in spans.0.iter() {
        let r = sources.resolve_span(span);
        resolved.insert(
            key.clone(),
            json!([r.file_name.map(|f| strip_root(&dir, f)), r.start_line, r.end_line, r.content]),
        );
    }
    out.insert("spans".into(), Value::Object(resolved));

    if scn["redisplay"].as_bool() == Some(true) {
        if let Ok(success) = parser.parse() {
            out.insert("redisplay".into(), redisplay(&success));
        }
    }
    let mut v = Value::Object(out);
    strip_value(&dir, &mut v);
    v
}

fn strip_value(dir: &Path, v: &mut Value) {
    match v {
        Value::String(s) => {
            if s.contains(dir.to_str().unwrap()) {
                *s = strip_root(dir, s)
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| strip_value(dir, x)),
        Value::Object(o) => o.values_mut().for_each(|x| strip_value(dir, x)),
        _ => {}
    }
}

/// print every directive, and parse all that was printed as one inline ledger
fn redisplay(success: &ParseSuccess) -> Value {
    let mut text = String::new();
    let types = [
        (AccountType::Assets, "name_assets"),
        (AccountType::Liabilities, "name_liabilities"),
        (AccountType::Equity, "name_equity"),
        (AccountType::Income, "name_income"),
        (AccountType::Expenses, "name_expenses"),
    ];
    let renamed = types
        .iter()
        .any(|(t, _)| success.options.account_type_name(*t).as_ref() != t.as_ref());
    if renamed {
        for (i, (_, o)) in types.iter().enumerate() {
            text.push_str(&format!("option \"{}\" \"Tmp{}\"\n", o, i));
        }
        for (t, o) in types.iter() {
            text.push_str(&format!("option \"{}\" \"{}\"\n", o, success.options.account_type_name(*t)));
        }
    }
    for p in success.plugins.iter() {
        text.push_str(&format!("{}", p));
    }
    let prelude = text.clone();
    let mut each = Vec::new();
    for d in success.directives.iter() {
        let t = d.to_string();
        text.push_str(&t);
        text.push('\n');
        each.push(json!(t));
    }
    let sources = BeancountSources::from(text.as_str());
    let parser = BeancountParser::new(&sources);
    let mut sl = SpanLog::default();
    let again = project_parse(&parser, &sources, &mut sl, &json!({}));
    json!({"text": text, "prelude": prelude, "each": each, "parse": again})
}

fn run_resolve(scratch: &Path, scn: &Value) -> Value {
    let dir = materialise(scratch, scn);
    let sources = load(&dir, scn).unwrap();
    let mut out = Vec::new();
    for q in scn["queries"].as_array().unwrap() {
        let q: Vec<usize> = q.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let span = Span { source: q[0], start: q[1], end: q[2] };
        let r = catch_unwind(AssertUnwindSafe(|| {
            let r = sources.resolve_span(&span);
            let e = spanned(Flag::Asterisk, span).error("probe");
            let txt = sources.error_source_text(&e);
            json!({"file": r.file_name.map(|f| strip_root(&dir, f)), "l1": r.start_line, "l2": r.end_line,
                   "content": r.content, "txt": txt})
        }));
        out.push(r.unwrap_or_else(|_| json!({"panic": true})));
    }
    json!({"answers": out})
}

pub type Spans = BTreeMap<String, Span>;
