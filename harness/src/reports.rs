//! errors and warnings made by an application on parsed elements, as scenario-given programs
use crate::project::{report, SpanLog};
use beancount_parser_lima::*;
use serde_json::{json, Value};

#[derive(Clone, Copy)]
enum El<'r, 'a> {
    Dir(&'r Spanned<Directive<'a>>),
    Post(&'r Spanned<Posting<'a>>),
    Flag(&'r Spanned<Flag>),
    Acc(&'r Spanned<Account<'a>>),
    Cur(&'r Spanned<Currency<'a>>),
    Num(&'r Spanned<ExprValue>),
    Cost(&'r Spanned<CostSpec<'a>>),
    Tag(&'r Spanned<Tag<'a>>),
    Link(&'r Spanned<Link<'a>>),
    Key(&'r Spanned<Key<'a>>),
    Booking(&'r Spanned<Booking>),
}

macro_rules! each {
    ($el:expr, $x:ident => $body:expr) => {
        match $el {
            El::Dir($x) => $body,
            El::Post($x) => $body,
            El::Flag($x) => $body,
            El::Acc($x) => $body,
            El::Cur($x) => $body,
            El::Num($x) => $body,
            El::Cost($x) => $body,
            El::Tag($x) => $body,
            El::Link($x) => $body,
            El::Key($x) => $body,
            El::Booking($x) => $body,
        }
    };
}

type Named<'r, 'a> = (String, El<'r, 'a>);

fn meta<'r, 'a>(at: &str, m: &'r Metadata<'a>, out: &mut Vec<Named<'r, 'a>>) {
    let mut v: Vec<Named> = Vec::new();
    for t in m.tags() {
        v.push((format!("{}/tags/{}", at, t.item().as_ref()), El::Tag(t)));
    }
    for t in m.links() {
        v.push((format!("{}/links/{}", at, t.item().as_ref()), El::Link(t)));
    }
    for (k, _) in m.key_values() {
        v.push((format!("{}/meta/{}", at, k.item().as_ref()), El::Key(k)));
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    out.append(&mut v);
}

fn elements<'r, 'a>(directives: &'r [Spanned<Directive<'a>>]) -> Vec<Named<'r, 'a>> {
    let mut out: Vec<Named> = Vec::new();
    for (i, d) in directives.iter().enumerate() {
        let at = format!("dirs/{}", i);
        out.push((at.clone(), El::Dir(d)));
        meta(&at, d.metadata(), &mut out);
        macro_rules! e {
            ($n:expr, $e:expr) => {
                out.push((format!("{}/{}", at, $n), $e))
            };
        }
        match d.variant() {
            DirectiveVariant::Transaction(t) => {
                e!("flag", El::Flag(t.flag()));
                for (j, p) in t.postings().enumerate() {
                    let at = format!("{}/postings/{}", at, j);
                    out.push((at.clone(), El::Post(p)));
                    if let Some(x) = p.flag() {
                        out.push((format!("{}/flag", at), El::Flag(x)));
                    }
                    out.push((format!("{}/acc", at), El::Acc(p.account())));
                    if let Some(x) = p.amount() {
                        out.push((format!("{}/amt", at), El::Num(x)));
                    }
                    if let Some(x) = p.currency() {
                        out.push((format!("{}/cur", at), El::Cur(x)));
                    }
                    if let Some(x) = p.cost_spec() {
                        out.push((format!("{}/cost", at), El::Cost(x)));
                    }
                    meta(&at, p.metadata(), &mut out);
                }
            }
            DirectiveVariant::Price(x) => {
                e!("cur", El::Cur(x.currency()));
            }
            DirectiveVariant::Balance(x) => e!("acc", El::Acc(x.account())),
            DirectiveVariant::Open(x) => {
                e!("acc", El::Acc(x.account()));
                let mut cs: Vec<_> = x.currencies().collect();
                cs.sort_by_key(|c| c.item().as_ref().to_string());
                for c in cs {
                    e!(format!("curs/{}", c.item().as_ref()), El::Cur(c));
                }
                if let Some(b) = x.booking() {
                    e!("booking", El::Booking(b));
                }
            }
            DirectiveVariant::Close(x) => e!("acc", El::Acc(x.account())),
            DirectiveVariant::Commodity(x) => e!("cur", El::Cur(x.currency())),
            DirectiveVariant::Pad(x) => {
                e!("acc", El::Acc(x.account()));
                e!("source", El::Acc(x.source()));
            }
            DirectiveVariant::Document(x) => e!("acc", El::Acc(x.account())),
            DirectiveVariant::Note(x) => e!("acc", El::Acc(x.account())),
            _ => {}
        }
    }
    out
}

pub fn run(
    sources: &BeancountSources,
    directives: &[Spanned<Directive>],
    _plugins: &[Plugin],
    log: &mut SpanLog,
    programs: &Value,
) -> Value {
    let els = elements(directives);
    if els.is_empty() {
        return json!({"elements": [], "reports": []});
    }
    let mut out = Vec::new();
    for p in programs.as_array().into_iter().flatten() {
        let pick = |v: &Value| v.as_u64().unwrap() as usize % els.len();
        let on = pick(&p["on"]);
        let reason = p["reason"].as_str().unwrap();
        let r = if p["kind"] == "warning" {
            build(each!(els[on].1, x => x.warning(reason)), p, &els, sources, log)
        } else {
            build(each!(els[on].1, x => x.error(reason)), p, &els, sources, log)
        };
        out.push(r);
    }
    let list: Vec<Value> = els
        .iter()
        .map(|(n, e)| {
            let (t, s) = each!(e, x => (x.element_type().to_string(), *x.span()));
            json!([n, t, log.log(&s)])
        })
        .collect();
    json!({"elements": list, "reports": out})
}

fn build<K>(e: ErrorOrWarning<K>, p: &Value, els: &[Named], sources: &BeancountSources, log: &mut SpanLog) -> Value
where
    K: ErrorOrWarningKind + Clone,
{
    let mut e = e;
    macro_rules! all {
        ($i:expr, $m:ident, $($v:ident),*) => {
            match els[$i].1 {
                $(El::$v(_) => {
                    let xs: Vec<_> = els.iter().filter_map(|(_, x)| if let El::$v(y) = x { Some(*y) } else { None }).collect();
                    e.$m(xs)
                })*
            }
        };
    }
    for s in p["steps"].as_array().into_iter().flatten() {
        let i = s[1].as_u64().unwrap() as usize % els.len();
        e = match s[0].as_str().unwrap() {
            "rel" => each!(els[i].1, x => e.related_to(x)),
            "ctx" => each!(els[i].1, x => e.in_context(x)),
            "relall" => all!(i, related_to_all, Dir, Post, Flag, Acc, Cur, Num, Cost, Tag, Link, Key, Booking),
            "ctxall" => all!(i, in_contexts, Dir, Post, Flag, Acc, Cur, Num, Cost, Tag, Link, Key, Booking),
            x => panic!("unknown step {}", x),
        };
    }
    let mut v = report(sources, &e, log, false);
    let mut w = Vec::new();
    match p["note"].as_str() {
        Some(n) => {
            let a = e.with_annotation(n);
            v["note"] = json!(a.annotation());
            sources.write_errors_or_warnings(&mut w, vec![a]).unwrap();
        }
        None if p["how"] == "report" => sources.write_report::<_, K, _>(&mut w, &e).unwrap(),
        None => sources.write_errors_or_warnings(&mut w, vec![e]).unwrap(),
    }
    v["rep"] = json!(String::from_utf8_lossy(&w));
    v
}
