//! projection of the parser's results to JSON
use beancount_parser_lima::*;
use rust_decimal::Decimal;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use time::Date;

/// every span seen, so that all of them can be resolved afterwards
#[derive(Default)]
pub struct SpanLog(pub BTreeMap<String, Span>);

impl SpanLog {
    pub fn log(&mut self, s: &Span) -> Value {
        self.0.insert(format!("{},{},{}", s.source, s.start, s.end), *s);
        json!([s.source, s.start, s.end])
    }
}

pub fn date_v(d: &Date) -> Value {
    json!(d.year() * 10000 + (d.month() as i32) * 100 + d.day() as i32)
}

fn dec(d: &Decimal) -> Value {
    json!({"m": d.mantissa().to_string(), "s": d.scale()})
}

fn expr(e: &Expr) -> Value {
    match e {
        Expr::Value(d) => dec(d),
        Expr::Add(a, b) => json!(["+", expr(a), expr(b)]),
        Expr::Sub(a, b) => json!(["-", expr(a), expr(b)]),
        Expr::Mul(a, b) => json!(["*", expr(a), expr(b)]),
        Expr::Div(a, b) => json!(["/", expr(a), expr(b)]),
        Expr::Neg(a) => json!(["neg", expr(a)]),
        Expr::Paren(a) => json!(["()", expr(a)]),
    }
}

fn num(v: &ExprValue) -> Value {
    json!({"v": dec(&v.value()), "x": expr(v.expr())})
}

fn at(t: AccountType) -> &'static str {
    match t {
        AccountType::Assets => "Assets",
        AccountType::Liabilities => "Liabilities",
        AccountType::Equity => "Equity",
        AccountType::Income => "Income",
        AccountType::Expenses => "Expenses",
    }
}

fn booking(b: &Booking) -> String {
    format!("{}", b)
}

fn flag(f: &Flag) -> String {
    match f {
        Flag::Asterisk => "*".into(),
        Flag::Exclamation => "!".into(),
        Flag::Ampersand => "&".into(),
        Flag::Hash => "#".into(),
        Flag::Question => "?".into(),
        Flag::Percent => "%".into(),
        Flag::Letter(l) => l.char().to_string(),
    }
}

struct P<'l>(&'l mut SpanLog);

impl P<'_> {
    fn sp(&mut self, s: &Span) -> Value {
        self.0.log(s)
    }
    fn leaf<T>(&mut self, s: &Spanned<T>, v: Value) -> Value {
        let sp = self.sp(s.span());
        json!({"v": v, "sp": sp})
    }
    fn opt<T>(&mut self, s: Option<&Spanned<T>>, f: impl Fn(&T) -> Value) -> Value {
        match s {
            Some(s) => {
                let v = f(s.item());
                self.leaf(s, v)
            }
            None => Value::Null,
        }
    }
    fn acc(&mut self, a: &Spanned<Account>) -> Value {
        let sp = self.sp(a.span());
        let s: &str = a.item().into();
        json!({"v": s, "at": at(a.account_type()), "sp": sp})
    }
    fn cur(&mut self, c: &Spanned<Currency>) -> Value {
        let s: &str = c.item().into();
        self.leaf(c, json!(s))
    }
    fn str(&mut self, s: &Spanned<&str>) -> Value {
        let v = json!(*s.item());
        self.leaf(s, v)
    }
    fn amount(&mut self, a: &Amount) -> Value {
        let n = self.opt(Some(a.number()), num);
        let c = self.cur(a.currency());
        json!({"n": n, "c": c})
    }
    fn meta_value(&mut self, m: &MetaValue) -> Value {
        match m {
            MetaValue::Amount(a) => {
                let a = self.amount(a);
                json!({"t": "amt", "v": a})
            }
            MetaValue::Simple(s) => match s {
                SimpleValue::String(x) => json!({"t": "str", "v": x}),
                SimpleValue::Currency(x) => json!({"t": "cur", "v": x.as_ref()}),
                SimpleValue::Account(x) => json!({"t": "acc", "v": x.as_ref(), "at": at(x.account_type())}),
                SimpleValue::Tag(x) => json!({"t": "tag", "v": x.as_ref()}),
                SimpleValue::Link(x) => json!({"t": "link", "v": x.as_ref()}),
                SimpleValue::Date(x) => json!({"t": "date", "v": date_v(x)}),
                SimpleValue::Bool(x) => json!({"t": "bool", "v": x}),
                SimpleValue::Null => json!({"t": "null"}),
                SimpleValue::Expr(x) => json!({"t": "num", "v": num(x)}),
            },
        }
    }
    /// tags, links, key/values (sorted), and whether lookups agree with the listing
    fn metadata(&mut self, m: &Metadata, o: &mut Map<String, Value>) {
        let mut tags: Vec<(String, Value)> = m
            .tags()
            .map(|t| (t.as_ref().item().as_ref().to_string(), json!(t.item().as_ref())))
            .zip(m.tags())
            .map(|((k, v), t)| (k, json!({"v": v, "sp": self.sp(t.span())})))
            .collect();
        tags.sort_by(|a, b| a.0.cmp(&b.0));
        let mut links: Vec<(String, Value)> = m
            .links()
            .map(|t| {
                let s: &str = t.item().as_ref();
                (s.to_string(), json!({"v": s, "sp": self.sp(t.span())}))
            })
            .collect();
        links.sort_by(|a, b| a.0.cmp(&b.0));
        let mut lookup_ok = m.is_empty() == (m.tags().len() == 0 && m.links().len() == 0 && m.key_values().len() == 0);
        let mut kvs: Vec<(String, Value)> = Vec::new();
        for (k, v) in m.key_values() {
            let ks: &str = k.item().as_ref();
            match m.key_value(*k.item()) {
                Some(found) if found.item() == v.item() && found.span() == v.span() => {}
                _ => lookup_ok = false,
            }
            let ksp = self.sp(k.span());
            let vsp = self.sp(v.span());
            let mv = self.meta_value(v.item());
            kvs.push((ks.to_string(), json!({"k": {"v": ks, "sp": ksp}, "val": {"v": mv, "sp": vsp}})));
        }
        let mut probes = vec!["zz-absent-key".to_string(), "aa".to_string()];
        for (k, _) in kvs.iter().take(8) {
            // keys which nearly equal a written one
            probes.push(format!("{}a", k));
            probes.push(k[..k.len() - 1].to_string());
            probes.push(k.replace('-', "_"));
            probes.push(k.replace('_', "-"));
            probes.push(format!("{}{}", &k[..1], k[1..].to_uppercase()));
            probes.push(format!("{}{}", &k[..1], k[1..].to_lowercase()));
        }
        for probe in probes.iter() {
            if let Ok(key) = Key::try_from(probe.as_str()) {
                if m.key_value(key).is_some() != kvs.iter().any(|(k, _)| k == probe) {
                    lookup_ok = false;
                }
            }
        }
        kvs.sort_by(|a, b| a.0.cmp(&b.0));
        o.insert("tags".into(), tags.into_iter().map(|x| x.1).collect());
        o.insert("links".into(), links.into_iter().map(|x| x.1).collect());
        o.insert("meta".into(), kvs.into_iter().map(|x| x.1).collect());
        o.insert("lookup_ok".into(), json!(lookup_ok));
    }
    fn price_spec(&mut self, p: &Spanned<PriceSpec>) -> Value {
        let sp = self.sp(p.span());
        fn sc(s: &ScopedExprValue) -> (Value, &'static str) {
            match s {
                ScopedExprValue::PerUnit(e) => (num(e), "unit"),
                ScopedExprValue::Total(e) => (num(e), "total"),
            }
        }
        match p.item() {
            PriceSpec::Unspecified => json!({"sp": sp, "n": null, "c": null, "scope": null}),
            PriceSpec::BareCurrency(c) => json!({"sp": sp, "n": null, "c": c.as_ref(), "scope": null}),
            PriceSpec::BareAmount(s) => {
                let (n, k) = sc(s);
                json!({"sp": sp, "n": n, "c": null, "scope": k})
            }
            PriceSpec::CurrencyAmount(s, c) => {
                let (n, k) = sc(s);
                json!({"sp": sp, "n": n, "c": c.as_ref(), "scope": k})
            }
        }
    }
    fn cost(&mut self, c: &Spanned<CostSpec>) -> Value {
        let sp = self.sp(c.span());
        let per = self.opt(c.per_unit(), num);
        let total = self.opt(c.total(), num);
        let cur = self.opt(c.currency(), |c| json!(c.as_ref()));
        let date = self.opt(c.date(), date_v);
        let label = self.opt(c.label(), |s| json!(s));
        json!({"sp": sp, "per": per, "total": total, "cur": cur, "date": date, "label": label, "merge": c.merge()})
    }
    fn posting(&mut self, p: &Spanned<Posting>) -> Value {
        let mut o = Map::new();
        o.insert("sp".into(), self.sp(p.span()));
        o.insert("flag".into(), self.opt(p.flag(), |f| json!(flag(f))));
        o.insert("acc".into(), self.acc(p.account()));
        o.insert("amt".into(), self.opt(p.amount(), num));
        o.insert("cur".into(), self.opt(p.currency(), |c| json!(c.as_ref())));
        o.insert("cost".into(), match p.cost_spec() {
            Some(c) => self.cost(c),
            None => Value::Null,
        });
        o.insert("price".into(), match p.price_annotation() {
            Some(c) => self.price_spec(c),
            None => Value::Null,
        });
        self.metadata(p.metadata(), &mut o);
        Value::Object(o)
    }
    fn directive(&mut self, d: &Spanned<Directive>) -> Value {
        let mut o = Map::new();
        o.insert("sp".into(), self.sp(d.span()));
        let date = self.opt(Some(d.date()), date_v);
        o.insert("date".into(), date);
        o.insert("et".into(), json!(d.item().element_type()));
        self.metadata(d.metadata(), &mut o);
        let k = match d.variant() {
            DirectiveVariant::Transaction(t) => {
                o.insert("flag".into(), self.opt(Some(t.flag()), |f| json!(flag(f))));
                o.insert("payee".into(), self.opt(t.payee(), |s| json!(s)));
                o.insert("narr".into(), self.opt(t.narration(), |s| json!(s)));
                let ps: Vec<Value> = t.postings().map(|p| self.posting(p)).collect();
                o.insert("postings".into(), Value::Array(ps));
                "transaction"
            }
            DirectiveVariant::Price(p) => {
                o.insert("cur".into(), self.cur(p.currency()));
                let sp = self.sp(p.amount().span());
                let a = self.amount(p.amount().item());
                o.insert("amt".into(), json!({"v": a, "sp": sp}));
                "price"
            }
            DirectiveVariant::Balance(b) => {
                o.insert("acc".into(), self.acc(b.account()));
                let sp = self.sp(b.atol().span());
                let asp = self.sp(b.atol().amount().span());
                let a = self.amount(b.atol().amount().item());
                let tol = self.opt(b.atol().tolerance(), dec);
                o.insert("atol".into(), json!({"sp": sp, "amt": {"v": a, "sp": asp}, "tol": tol}));
                "balance"
            }
            DirectiveVariant::Open(x) => {
                o.insert("acc".into(), self.acc(x.account()));
                let mut curs: Vec<(String, Value)> = x
                    .currencies()
                    .map(|c| (c.item().as_ref().to_string(), self.cur(c)))
                    .collect();
                curs.sort_by(|a, b| a.0.cmp(&b.0));
                o.insert("curs".into(), curs.into_iter().map(|x| x.1).collect());
                o.insert("booking".into(), self.opt(x.booking(), |b| json!(booking(b))));
                "open"
            }
            DirectiveVariant::Close(x) => {
                o.insert("acc".into(), self.acc(x.account()));
                "close"
            }
            DirectiveVariant::Commodity(x) => {
                o.insert("cur".into(), self.cur(x.currency()));
                "commodity"
            }
            DirectiveVariant::Pad(x) => {
                o.insert("acc".into(), self.acc(x.account()));
                o.insert("source".into(), self.acc(x.source()));
                "pad"
            }
            DirectiveVariant::Document(x) => {
                o.insert("acc".into(), self.acc(x.account()));
                o.insert("path".into(), self.str(x.path()));
                "document"
            }
            DirectiveVariant::Note(x) => {
                o.insert("acc".into(), self.acc(x.account()));
                o.insert("comment".into(), self.str(x.comment()));
                "note"
            }
            DirectiveVariant::Event(x) => {
                o.insert("type".into(), self.str(x.event_type()));
                o.insert("desc".into(), self.str(x.description()));
                "event"
            }
            DirectiveVariant::Query(x) => {
                o.insert("name".into(), self.str(x.name()));
                o.insert("content".into(), self.str(x.content()));
                "query"
            }
            DirectiveVariant::Custom(x) => {
                o.insert("type".into(), self.str(x.type_()));
                let vs: Vec<Value> = x
                    .values()
                    .map(|v| {
                        let sp = self.sp(v.span());
                        let mv = self.meta_value(v.item());
                        json!({"v": mv, "sp": sp})
                    })
                    .collect();
                o.insert("values".into(), Value::Array(vs));
                "custom"
            }
        };
        o.insert("k".into(), json!(k));
        Value::Object(o)
    }
    fn options(&mut self, x: &Options) -> Value {
        let mut o = Map::new();
        macro_rules! s {
            ($n:ident, $f:expr) => {
                o.insert(stringify!($n).into(), self.opt(x.$n(), $f));
            };
        }
        s!(title, |s| json!(s));
        s!(account_previous_balances, |s| json!(s.as_ref()));
        s!(account_previous_earnings, |s| json!(s.as_ref()));
        s!(account_previous_conversions, |s| json!(s.as_ref()));
        s!(account_current_earnings, |s| json!(s.as_ref()));
        s!(account_current_conversions, |s| json!(s.as_ref()));
        s!(account_unrealized_gains, |s| json!(s.as_ref()));
        s!(account_rounding, |s| json!(s.as_ref()));
        s!(conversion_currency, |s| json!(s.as_ref()));
        s!(inferred_tolerance_multiplier, dec);
        s!(infer_tolerance_from_cost, |b| json!(b));
        s!(render_commas, |b| json!(b));
        s!(booking_method, |b| json!(booking(b)));
        s!(plugin_processing_mode, |b| json!(format!("{}", b)));
        s!(long_string_maxlines, |n| json!(n));
        let mut docs: Vec<String> = x.documents().map(|p| p.to_string_lossy().to_string()).collect();
        docs.sort();
        o.insert("documents".into(), json!(docs));
        let mut ocs: Vec<String> = x.operating_currency().map(|c| c.as_ref().to_string()).collect();
        ocs.sort();
        o.insert("operating_currency".into(), json!(ocs));
        let mut tols: Vec<(String, Value)> = x
            .inferred_tolerance_defaults()
            .map(|(c, d)| (c.map(|c| c.as_ref().to_string()).unwrap_or("*".to_string()), dec(&d)))
            .collect();
        tols.sort_by(|a, b| a.0.cmp(&b.0));
        // point lookups, for each listed currency and for one which is not
        let fallback = x.inferred_tolerance_default_fallback();
        let mut ok = true;
        for (c, d) in tols.iter() {
            if c == "*" {
                ok &= fallback.as_ref().map(dec).as_ref() == Some(d);
            } else {
                ok &= x.inferred_tolerance_default(&Currency::try_from(c.as_str()).unwrap()).as_ref().map(dec).as_ref() == Some(d);
            }
        }
        ok &= tols.iter().any(|(c, _)| c == "*") == fallback.is_some();
        let near: Vec<String> = tols.iter().flat_map(|(c, _)| [format!("{}A", c), format!("A{}", c), c[..c.len() - 1].to_string()]).collect();
        for c in near.iter().map(|c| c.as_str()).chain(["ZZABSENT"]) {
            if let Ok(currency) = Currency::try_from(c) {
                if !tols.iter().any(|(t, _)| t == c) {
                    ok &= x.inferred_tolerance_default(&currency) == fallback;
                }
            }
        }
        o.insert("inferred_tolerance_default".into(), json!(tols.iter().map(|(c, d)| json!([c, d])).collect::<Vec<_>>()));
        o.insert("tolerance_lookup_ok".into(), json!(ok));
        let names: Vec<String> = [
            AccountType::Assets,
            AccountType::Liabilities,
            AccountType::Equity,
            AccountType::Income,
            AccountType::Expenses,
        ]
        .iter()
        .map(|t| x.account_type_name(*t).as_ref().to_string())
        .collect();
        o.insert("account_type_names".into(), json!(names));
        Value::Object(o)
    }
    fn plugin(&mut self, p: &Plugin) -> Value {
        let m = self.str(p.module_name());
        let c = self.opt(p.config(), |s| json!(s));
        json!({"module": m, "config": c})
    }
}

pub fn report<K>(sources: &BeancountSources, e: &ErrorOrWarning<K>, log: &mut SpanLog, write: bool) -> Value
where
    K: ErrorOrWarningKind + Clone,
{
    let ctx: Vec<Value> = e.contexts().map(|(l, s)| json!([l, log.log(&s)])).collect();
    let rel: Vec<Value> = e.related().map(|(l, s)| json!([l, log.log(&s)])).collect();
    let mut o = Map::new();
    o.insert("m".into(), json!(e.message()));
    o.insert("r".into(), json!(e.reason()));
    o.insert("sp".into(), log.log(&e.span()));
    o.insert("ctx".into(), Value::Array(ctx));
    o.insert("rel".into(), Value::Array(rel));
    o.insert("txt".into(), json!(sources.error_source_text(e)));
    if write {
        let mut w = Vec::new();
        sources.write_errors_or_warnings(&mut w, vec![e.clone()]).unwrap();
        o.insert("rep".into(), json!(String::from_utf8_lossy(&w)));
    }
    Value::Object(o)
}

pub fn project_parse(parser: &BeancountParser, sources: &BeancountSources, log: &mut SpanLog, scn: &Value) -> Value {
    let write = scn["reports"].as_bool() == Some(true);
    let app = scn["app"].as_bool() == Some(true);
    let terse = scn["terse"].as_bool() == Some(true);
    match parser.parse() {
        Ok(ParseSuccess { directives, options, plugins, warnings }) => {
            if terse {
                return json!({"ok": true, "n": directives.len(), "nw": warnings.len()});
            }
            let mut p = P(log);
            let dirs: Vec<Value> = directives.iter().map(|d| p.directive(d)).collect();
            let opts = p.options(&options);
            let plugs: Vec<Value> = plugins.iter().map(|x| p.plugin(x)).collect();
            let ws: Vec<Value> = warnings.iter().map(|e| report(sources, e, log, write)).collect();
            let mut o = json!({"ok": true, "dirs": dirs, "opts": opts, "plugins": plugs, "warnings": Value::Array(ws)});
            if scn["eq"].as_bool() == Some(true) {
                o["eq"] = equalities(&directives, &plugins);
            }
            if app {
                o["app"] = crate::reports::run(sources, &directives, &plugins, log, &scn["programs"]);
            }
            o
        }
        Err(ParseError { errors, warnings }) => {
            if terse {
                // still exercise the reporting machinery
                let n = errors.len();
                let nw = warnings.len();
                let mut w = Vec::new();
                for e in errors.iter() {
                    let _ = sources.error_source_text(e);
                    let _ = sources.resolve_span(&e.span());
                    let _ = e.to_string();
                }
                sources.write_errors_or_warnings(&mut w, errors).unwrap();
                sources.write_errors_or_warnings(&mut w, warnings).unwrap();
                return json!({"ok": false, "n": n, "nw": nw});
            }
            let es: Vec<Value> = errors.iter().map(|e| report(sources, e, log, write)).collect();
            let ws: Vec<Value> = warnings.iter().map(|e| report(sources, e, log, write)).collect();
            json!({"ok": false, "errors": Value::Array(es), "warnings": Value::Array(ws)})
        }
    }
}

/// which of the returned elements compare equal, and how many distinct ones a hash set sees
fn equalities(directives: &[Spanned<Directive>], plugins: &[Plugin]) -> Value {
    use std::collections::HashSet;
    fn matrix<T: PartialEq + Clone>(xs: &[T]) -> Value {
        let rows: Vec<Value> = xs
            .iter()
            .map(|a| json!(xs.iter().map(|b| if a.clone() == *b && a == b && !(a != b) { 1 } else { 0 }).collect::<Vec<_>>()))
            .collect();
        Value::Array(rows)
    }
    let mut postings = Vec::new();
    let mut tags = HashSet::new();
    let mut links = HashSet::new();
    let mut keys = HashSet::new();
    let mut currencies = HashSet::new();
    for d in directives.iter() {
        tags.extend(d.metadata().tags().cloned());
        links.extend(d.metadata().links().cloned());
        keys.extend(d.metadata().key_values().map(|(k, _)| k.clone()));
        match d.variant() {
            DirectiveVariant::Transaction(t) => {
                for p in t.postings() {
                    tags.extend(p.metadata().tags().cloned());
                    links.extend(p.metadata().links().cloned());
                    keys.extend(p.metadata().key_values().map(|(k, _)| k.clone()));
                    currencies.extend(p.currency().cloned());
                    postings.push(p.clone());
                }
            }
            DirectiveVariant::Open(o) => currencies.extend(o.currencies().cloned()),
            DirectiveVariant::Commodity(c) => currencies.extend([c.currency().clone()]),
            _ => {}
        }
    }
    let items: Vec<Directive> = directives.iter().map(|d| d.item().clone()).collect();
    json!({"dirs": matrix(directives), "items": matrix(&items), "postings": matrix(&postings), "plugins": matrix(plugins),
           "tags": tags.len(), "links": links.len(), "keys": keys.len(), "currencies": currencies.len()})
}
