//! histories of synthetic span creation
use crate::{load, materialise};
use beancount_parser_lima::*;
use serde_json::{json, Value};
use std::path::Path;

pub fn run(scratch: &Path, scn: &Value) -> Value {
    let dir = materialise(scratch, scn);
    let sources = load(&dir, scn).unwrap();
    let mut synth = SyntheticSources::new(&sources);
    let mut made: Vec<Span> = Vec::new();
    let mut out = Vec::new();
    for step in scn["steps"].as_array().unwrap() {
        let s = &step["f"];
        match step["a"].as_str().unwrap() {
            "create" => {
                let span = synth.create_synthetic_span(step["n"].as_str().unwrap(), s.as_str().unwrap());
                made.push(span);
                out.push(json!({"sp": [span.source, span.start, span.end]}));
            }
            "resolve" => {
                let span = made[step["i"].as_u64().unwrap() as usize];
                out.push(answer(&dir, &synth, span));
            }
            "sub" => {
                // part of a synthetic span, by byte offsets relative to it
                let mut span = made[step["i"].as_u64().unwrap() as usize];
                let base = span.start;
                span.start = base + step["s"].as_u64().unwrap() as usize;
                span.end = base + step["e"].as_u64().unwrap() as usize;
                out.push(answer(&dir, &synth, span));
            }
            "real" => {
                let q: Vec<usize> = step["q"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                let span = Span { source: q[0], start: q[1], end: q[2] };
                let r = sources.resolve_span(&span);
                let mut a = answer(&dir, &synth, span);
                a["base"] = json!([r.file_name.map(|f| f.replace(dir.to_str().unwrap(), "@ROOT@")), r.start_line, r.end_line, r.content]);
                out.push(a);
            }
            "clone" => {
                synth = synth.clone();
                out.push(json!({}));
            }
            "report" => {
                let span = made[step["i"].as_u64().unwrap() as usize];
                let e = spanned(Flag::Asterisk, span).error("synthetic-reason");
                let txt = synth.error_source_text(&e).to_string();
                let mut w = Vec::new();
                synth
                    .write_errors_or_warnings(&mut w, vec![e.with_annotation("synthetic-annotation")])
                    .unwrap();
                out.push(json!({"rep": String::from_utf8_lossy(&w), "txt": txt}));
            }
            a => panic!("unknown step {}", a),
        }
    }
    json!({"steps": out})
}

fn answer(dir: &Path, synth: &SyntheticSources, span: Span) -> Value {
    let r = synth.resolve_span(&span);
    let e = spanned(Flag::Asterisk, span).error("probe");
    let txt = synth.error_source_text(&e).to_string();
    json!({"file": r.file_name.map(|f| f.replace(dir.to_str().unwrap(), "@ROOT@")), "l1": r.start_line, "l2": r.end_line,
           "content": r.content, "txt": txt})
}
