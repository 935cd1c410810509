//! identifier constructors
use beancount_parser_lima::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn one(kind: &str, s: &str) -> Value {
    let longer = format!("{s}X");
    // 1/0 accepted or not; the accepted value must read back as the text in every way it can be read
    macro_rules! t {
        ($e:expr) => {
            t!($e, "")
        };
        ($e:expr, $prefix:expr) => {
            match $e {
                Ok(x) if x != s || x == longer.as_str() || (s.len() > 1 && s.is_char_boundary(1) && x == &s[1..]) => json!("compared with text"),
                _ => t!($e, $prefix, 0),
            }
        };
        ($e:expr, $prefix:expr, $eq:expr) => {
            match $e {
                Ok(x) => {
                    let r: &str = x.as_ref();
                    let f: &str = (&x).into();
                    let v: &str = x.into();
                    let d = x.to_string();
                    if r != s {
                        json!({"changed": r})
                    } else if f != s || v != s {
                        json!({"into": [f, v]})
                    } else if d != format!("{}{}", $prefix, s) {
                        json!({"printed": d})
                    } else if !(x == x) || x != x.clone() {
                        json!("not equal to itself")
                    } else {
                        json!(1)
                    }
                }
                Err(e) => {
                    let _ = e.to_string();
                    json!(0)
                }
            }
        };
    }
    match kind {
        "currency" => t!(Currency::try_from(s)),
        "tag" => t!(Tag::try_from(s), "#"),
        "link" => t!(Link::try_from(s), "^"),
        "key" => t!(Key::try_from(s)),
        "acctype" => t!(AccountTypeName::try_from(s)),
        "accname" => t!(AccountName::try_from(s)),
        "subaccount" => t!(Subaccount::try_from(s), "", 0),
        "flag" => {
            let mut cs = s.chars();
            match (cs.next(), cs.next()) {
                (Some(c), None) => match FlagLetter::try_from(c) {
                    Ok(f) => if f.char() == c { json!(1) } else { json!({"changed": f.char().to_string()}) },
                    Err(e) => { let _ = e.to_string(); json!(0) }
                },
                _ => json!(-1),
            }
        }
        _ => panic!("kind"),
    }
}

pub fn run(scn: &Value) -> Value {
    let kinds: Vec<&str> = scn["kinds"].as_array().unwrap().iter().map(|k| k.as_str().unwrap()).collect();
    let mut out = Vec::new();
    for s in scn["strings"].as_array().unwrap() {
        let s = s.as_str().unwrap();
        let mut row = Vec::new();
        for k in kinds.iter() {
            row.push(catch_unwind(AssertUnwindSafe(|| one(k, s))).unwrap_or(json!("panic")));
        }
        out.push(Value::Array(row));
    }
    json!({"rows": out})
}
