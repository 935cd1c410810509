"""Printing and reports: what the real code prints is read by the specification."""
import json, random
import compare, gen, tlc
from gen import Gen
from tlc import ToolError


class Meaning(compare.Compare):
    """comparison of values only, by position"""

    def span(self, where, exp, got):
        pass

    def is_pushed(self, x):
        return False

    def meaning(self, exp, got):
        if not got["ok"]:
            self.diff("print", "parsing what was printed", "success", [[e["m"], e["r"], e.get("txt")] for e in got["errors"][:3]])
            return self.diffs
        if len(exp["dirs"]) != len(got["dirs"]):
            self.diff("print", "number of directives", len(exp["dirs"]), len(got["dirs"]))
            return self.diffs
        for i, (d, g) in enumerate(zip(exp["dirs"], got["dirs"])):
            self.directive("dirs[%d]" % i, d, g)
        self.value("plugins", "plugins", exp["plugins"], got["plugins"])
        return self.diffs


def printed(ctx, label, scns):
    """scenarios -> the real code's printed form -> what the specification and the real parser make of that"""
    scns = [dict(s, redisplay=True) for s in scns]
    base = ctx.shards.base(0)
    exps = ctx.decide(scns)
    res = ctx.run(scns)
    again = []
    for s, e, r in zip(scns, exps, res):
        ctx.traces += 1
        if "res" not in r:
            ctx.violation(label, s, ["no result: %s" % json.dumps(r)[:400]], r)
            continue
        if e["moot"] or e["ok"] != "yes" or not r["res"].get("parse", {}).get("ok"):
            ctx.note(label + ": nothing to print", 1)
            continue
        again.append((s, e, r["res"]))
    texts = [{"inline": r["redisplay"]["text"]} for _, _, r in again]
    for (s, e, r), t, f in zip(again, texts, ctx.decide(texts)):
        ctx.note(label, 1)
        d = r["redisplay"]
        m = Meaning(base, s, e, r)
        ds = [repr(x) for x in m.meaning(e, d["parse"])]
        ctx.compared += m.checked
        # the specification's reading of what was printed
        if not f["moot"] and f["ok"] != "any":
            if f["ok"] != "yes":
                ds.append("what was printed is not valid: errors %s, blocks %s" % (f["errors"][:2], [b for bl in f["blocks"] for b in bl if not b["ok"]][:2]))
            elif len(f["dirs"]) != len(e["dirs"]):
                ds.append("%d directives printed as %d" % (len(e["dirs"]), len(f["dirs"])))
            else:
                m2 = Meaning(base, s, f, r)
                ds += ["printed: " + repr(x) for x in m2.meaning(f, d["parse"])]
                ctx.compared += m2.checked
        if ds:
            ctx.violation(label, dict(s, printed=d["text"]), ds, None, None)
        else:
            ctx.sample(label, {"scenario": str(s)[:600], "printed": d["text"][:600]})


def menu(slots, n, seed):
    r = random.Random(seed)
    return [{"inline": "".join(r.choice(a) for a in slots)} for _ in range(n)]


def c21(ctx):
    import checks
    S = []
    n = ctx.scale
    for k in gen.KINDS:
        S += checks.ledgers(ctx, "k" + k, n(28), size=(1, 3), kinds=[k], meta=0.3, uni=0.3)
    S += checks.ledgers(ctx, "mixed", n(120), size=(1, 6), pragmas=0.15, options=0.0)
    printed(ctx, "ledgers", S)
    amt = ["", " 1", " USD", " 1 USD", " -1.50 USD", " 2*3.0 USD", " 1,000.10", " 0.00 X", " -0 USD"]
    cost = [""] * 4 + [" {}", " {{}}", " {1}", " {USD}", " {1 USD}", " {1 # 2 USD}", " {# 2 USD}", " {1 #}", " {1 # USD}", " {#}", " {# USD}", " {{1 USD}}", ' {"l"}', " {2020-02-02}", " {*}", ' {1 USD, 2020-02-02, "l", *}', ' {"l", 1 # 2 USD}', " {*, 2020-02-02}", ' {"a\\"b", USD}', " {1 # 2}", " {# 2}", " {{3}}", " {{USD}}"]
    parts = [["", "1 USD", "# 2 EUR", "GBP"], ["", "2020-02-02"], ["", '"l"'], ["", "*"]]
    cost += [" {%s}" % ", ".join(x for x in (a, b, c, d) if x) for a in parts[0] for b in parts[1] for c in parts[2] for d in parts[3]]
    price = ["", "", " @", " @@", " @ 1", " @@ 1", " @ USD", " @@ USD", " @ 1.50 USD", " @@ 1,000 USD", " @ -1/4 EUR", " @@ 10/3 EUR"]
    tail = ["\n", "\n    kk: 1\n", '\n    kk: "x\\"y"\n    mm: 2020-01-01\n', "\n    #t\n", "\n    ^l\n    kk:\n", " ; c\n"]
    fl = ["", "! ", "* ", "# ", "% ", "& ", "? ", "P "]
    post = [["  "], fl, ["Assets:A", "Income:B:C-1", "Equity:\u00c9"], amt, cost, price, tail]
    head = [["2020-01-01 "], ["*", "!", "txn", "P", "#", "&", "?", "%"], ["", ' "n"', ' "p" "n"', ' "" "n"', ' "p" ""', ' ""', ' "" ""', ' "a\\"b" "c\\\\d"', ' "\u00e9\nx"'], ["", " #a", " ^l", " #b #a ^k ^l"], ["\n", "\n  kk: 1 USD\n", "\n  #c\n  ^m\n", "\n  mm: TRUE\n  kk:\n"]]
    printed(ctx, "postings", menu(head + post + post, n(700), ctx.rng("postings")))
    val = ["", ' "s"', ' "a\\"b\\\\c\\nd"', " USD", " Assets:A", " Equity:B:\u65e5", " #t", " ^l", " 2020-02-02", " TRUE", " FALSE", " NULL", " 1.50", " 1 USD", " -(2+3)", " 1/3 GBP", " 2.0*3 EUR", ' ""', ' "\u00e9"', ' ";#"', " -1", " +1", " 0.10"]
    kinds = ["open Assets:A", "open Assets:A USD", "open Assets:A USD,EUR", 'open Assets:A USD "FIFO"', 'open Assets:A "NONE"', "close Assets:A", "commodity USD", "balance Assets:A 1 USD", "balance Assets:A 1.50 ~ 0.01 USD", "balance Assets:A -1/3 USD", "pad Assets:A Equity:B", 'document Assets:A "p/q.pdf"', 'note Assets:A "n \\" q"', 'event "e" "v"', 'query "q" "SELECT \\"x\\""', "price USD 1.10 EUR", "price USD 22/7 EUR", 'custom "c"', 'custom "c" 1 USD "x" TRUE 2020-01-01 Assets:A', '* "x"', 'open Assets:A EUR,USD,GBP "STRICT_WITH_SIZE"', 'custom "c" #t ^l NULL -1', 'note Assets:A ""', 'document Assets:A "" ']
    printed(ctx, "metadata", menu([["2020-01-01 ", "0001-12-31 ", "9999-02-28 "], kinds, ["", " #a", " ^l #b", " #z #a #m ^q ^b"], ["\n"], [""] + ["  kk:" + v + "\n" for v in val], ["", "  #c\n", "  ^d\n  #e\n"], ["", "  mm: 1\n", "  aa-b_C1: \"x\"\n"]], n(500), ctx.rng("metadata")) +
            [{"inline": "2020-01-01 open Assets:A\n  kk:%s\n2020-01-02 *\n  Assets:A 1 USD\n    kk:%s\n2020-01-03 custom \"x\"%s%s\n" % (a, b, c, d)} for a, b, c, d in zip(*[random.Random(ctx.rng("v%d" % i)).choices(val, k=n(150)) for i in range(4)])])
    # strings
    out = []
    for s in checks.seeds(ctx, "strings", n(250)):
        g = Gen(s)
        st = lambda: '"%s"' % "".join(g.pick("a", "b", " ", "\\\\", '\\"', "\\n", "\n", "\u00e9", "\u65e5", "\t", "'", ";", "#", "{", "}", "\u00a0", "\U0001F600", "\\t", "\\x7e", "\\u{e9}", "\\r", "%", "\u2028", "\\60", "|", "\\u{7f}", "\\u{0}", "\\u{85}", "\r\n", "\n; c\n", "\n\n") for _ in range(g.n(0, 12)))
        f = g.pick("2020-01-01 query %s %s\n", "2020-01-01 * %s %s\n", "2020-01-01 open Assets:A\n  kk: %s\n  mm: %s\n", "plugin %s %s\n", '2020-01-01 custom %s %s\n', "2020-01-01 event %s %s\n", "2020-01-01 note Assets:A %s\n  kk: %s\n", '2020-01-01 * "x"\n  Assets:A 1 USD {%s}\n    kk: %s\n', "2020-01-01 document Assets:A %s\n  kk: %s\n", "pushmeta kk: %s\n2020-01-01 close Assets:A\npopmeta kk:\n  ; %s\n")
        out.append({"inline": f % (st(), st())})
    printed(ctx, "strings", out)
    # many elements, pushed tags and metadata, renamed account types, several files
    out = []
    for s in checks.seeds(ctx, "many", n(60)):
        g = Gen(s, meta=0.6, expr=0.2)
        ls = g.entry()[:1]
        for k in range(g.n(3, 25)):
            x = g.r.random()
            ls.append((True, ["k%d" % k, ":"] + g.metaval() if x < 0.6 else ["#t%d" % k] if x < 0.8 else ["^l%d" % k]))
        t = g.render(ls)
        if g.p(0.5):
            t = "pushtag #p\npushmeta pp: %s\n" % g.join(g.metaval()) + t + "poptag #p\npopmeta pp:\n"
        out.append({"inline": t})
    for s in checks.seeds(ctx, "types", n(60)):
        ty = random.Random(s).choice([["Aktiva", "Passiva", "Eigen", "Ertrag", "Aufwand"], ["Liabilities", "Assets", "Equity", "Income", "Expenses"], ["A\u00e9-1", "B2", "C", "D-", "E"]])
        g = Gen(s, types=ty)
        pre = "".join('option "name_%s" "Tmp%d"\n' % (o, i) for i, o in enumerate(["assets", "liabilities", "equity", "income", "expenses"]))
        pre += "".join('option "name_%s" "%s"\n' % (o, t) for t, o in zip(ty, ["assets", "liabilities", "equity", "income", "expenses"]))
        out.append({"inline": pre + g.render(g.ledger(g.n(1, 4)))})
    out += checks.forest(ctx, "files", n(40), entries=(1, 3), missing=0.0, plugins=0.3, links=0.1)
    out += checks.forest(ctx, "pushfiles", n(30), entries=(1, 2), missing=0.0, wellbalanced=0.6)
    printed(ctx, "many", out)


# --------------------------------------------------------------------------- reports

import os, re
SGR = re.compile("\x1b\\[([0-9;]*)m")


def cells(line):
    """characters of a coloured line with their colours"""
    out, col, i = [], "", 0
    while i < len(line):
        m = SGR.match(line, i)
        if m:
            col = "" if m.group(1) in ("0", "") else m.group(1)
            i = m.end()
        else:
            out.append((line[i], col))
            i += 1
    return out


class Rep:
    """a written report, taken apart"""

    def __init__(self, rep):
        self.raw = rep
        self.plain = SGR.sub("", rep)
        self.lines = self.plain.split("\n")
        self.sections = []          # (place, {line number: [(char, colour)]}, text)
        cur = None
        for raw, ln in zip(rep.split("\n"), self.lines):
            m = re.match(r"\s*[╭├]─\[ (.*) \]$", ln)
            if m:
                cur = (m.group(1), {}, [])
                self.sections.append(cur)
                continue
            if cur is not None:
                m = re.match(r"\s*(\d+) │ ?", ln)
                if m:
                    cs = cells(raw)
                    cur[1].setdefault(int(m.group(1)), cs[m.end():])
                cur[2].append(ln)


def judge_report(name_of, pos, x, kind, labels):
    """x: a recorded report; labels: (text, span) in order.  What is wrong with it?"""
    bad = []
    rep = Rep(x["rep"])
    head = "Error: " if kind == "error" else "Warning: "
    if not rep.plain.startswith(head + x["m"]):
        bad.append("report starts %r, not with %r" % (rep.plain[:80], head + x["m"]))
    f, (line, col, content, l2) = name_of(x["sp"]), pos(x["sp"])
    want = "%s:%d:%d" % (f, line, col)
    if not rep.sections or rep.sections[0][0] != want:
        bad.append("report is placed at %r, not %r" % (rep.sections[0][0] if rep.sections else None, want))
    if content.strip() and x["txt"] != content:
        bad.append("source text %r, not %r" % (x["txt"], content))
    flat = rep.plain
    if x["r"] and x["r"].split("\n")[0] not in flat:
        bad.append("reason %r not shown" % x["r"])
    for text, sp in labels:
        if text not in flat:
            bad.append("label %r not shown" % text)
        lf, (ll, lc, _, _) = name_of(sp), pos(sp)
        secs = [s for s in rep.sections if s[0].rsplit(":", 2)[0] == lf]
        if not any(ll in s[1] for s in secs):
            bad.append("line %d of %s of %r not shown" % (ll, lf, text))
    if not labels and "@ROOT@" not in content and rep.sections and line in rep.sections[0][1] and content and "\n" not in content and "\t" not in content and len(content) < 120:
        colour = "31" if kind == "error" else "33"
        shown = "".join(c for c, k in rep.sections[0][1][line] if k == colour)
        # the report shows every kind of space as a space
        if shown.rstrip() != "".join(" " if c.isspace() else c for c in content).rstrip():
            bad.append("highlighted %r, not %r" % (shown, content))
    if x.get("note"):
        if not rep.plain.endswith("\n" + x["note"] + "\n"):
            bad.append("annotation %r missing at the end: %r" % (x["note"], rep.plain[-60:]))
    elif "note-" in rep.plain:
        bad.append("annotation of another report")
    return bad


def dig(parse, path):
    """the projected element for an element path"""
    ps = path.split("/")
    x = parse
    i = 0
    while i < len(ps):
        k = ps[i]
        if isinstance(x, list):
            if k.isdigit() and ps[i - 1] in ("dirs", "postings"):
                x = x[int(k)]
            else:
                # the rest is a name, which may contain slashes
                name = "/".join(ps[i:])
                for y in x:
                    y = y.get("k", y) if isinstance(y.get("k"), dict) else y
                    if y["v"] == name:
                        return y
                raise KeyError(path)
        else:
            x = x[k]
        i += 1
    return x


ET = {"flag": "flag", "acc": "account", "source": "account", "cur": "currency", "curs": "currency", "amt": "amount", "cost": "cost specification", "tags": "tag", "links": "link", "meta": "key", "booking": "booking", "postings": "posting"}


def kind_of(path, parse):
    ps = path.split("/")
    if len(ps) == 2:
        return parse["dirs"][int(ps[1])]["k"]
    if len(ps) == 4 and ps[2] == "postings":
        return "posting"
    k = 4 if ps[2] == "postings" else 2
    return ET[ps[k]]


def c24(ctx):
    import checks
    n = ctx.scale
    r = random.Random(ctx.rng("programs"))
    # programs by the model: exhaustive for few steps, listed longer ones
    progs = [{"on": r.randint(1, 40), "steps": [[r.choice(["rel", "rel", "relall", "ctx", "ctx", "ctxall"]), r.randint(1, 40)] for _ in range(r.randint(0, 7))]} for _ in range(n(500))]
    inp = os.path.join(ctx.shards.top, "reports.json")
    with open(inp, "w") as f:
        json.dump({"refs": 4, "max": 2 if ctx.quick() else 3, "programs": progs}, f)
    out, st = tlc.run("Reports", cfgtext="SPECIFICATION Spec\nINVARIANT Emit\nINVARIANT LawOrders\nCHECK_DEADLOCK FALSE\n", env={"REPORTS": inp})
    ctx.stats(st)
    progs = sorted(out.values(), key=lambda x: json.dumps(x))
    r.shuffle(progs)
    uni = dict(uni=0.5, noise=0.15)
    scns = [dict(s, app=True, reports=True) for s in
            checks.ledgers(ctx, "ledgers", n(150), size=(1, 4), pragmas=0.1, meta=0.4, **uni) +
            checks.forest(ctx, "files", n(80), entries=(1, 3), missing=0.0, pragmas=0.1, uni=0.5)]
    out2 = []
    for s in checks.seeds(ctx, "long", n(60)):
        g = Gen(s)
        t = "".join(g.pick("; \u00e9\n", "\n", "2020-01-01 open Assets:A\n", 'option "long_string_maxlines" "%d"\n' % g.n(1, 4)) for _ in range(g.n(0, 6)))
        out2.append({"inline": t + g.pick('2020-01-01 * "\u00e9" "%s"\n', '2020-01-01 note Assets:\u00c9 "%s"\n', 'plugin "\u00e9" "%s"\n') % ("\u00e9\n" * g.n(1, 70)) + g.pick("", "2020-01-01 open Assets:B\n"), "reports": True, "app": True})
    scns += out2
    bad = checks.ledgers(ctx, "bad", n(150), size=(1, 5), bad=0.3, pragmas=0.1, **uni)
    bad += [{"inline": (lambda g: g.render(g.ledger(g.n(2, 6), pragmas=0.2, options=0.1)))(Gen(s, bad=0.03, uni=0.5))} for s in checks.seeds(ctx, "scal", n(80))]
    bad += checks.forest(ctx, "badfiles", n(80), bad=0.02, entries=(1, 3), missing=0.15, pragmas=0.3, uni=0.4)
    bad += checks.forest(ctx, "push", n(60), entries=(1, 2), missing=0.05, uni=0.4, wellbalanced=0.2)
    sem = ["pushtag #z\u00e9\n", "2020-01-01 open Assets:\u00c9 USD,EUR,USD\n", 'option "b\u00e9" "1"\n', "2020-01-01 price USD 1/0 EUR\n", "2020-01-01 * \"\u65e5\u672c\" #a\n  kk: 1\n  Assets:A 1 USD {1 USD, 2 USD}\n  kk: 2\n  kk: 3\n", "2020-01-01 open Assets:A #t #t ^l\n  ^l\n  kk: 1\n  kk: \"\u00e9\"\n", 'option "title" "a"\noption "title" "b"\n', 'option "operating_currency" "USD"\noption "operating_currency" "USD"\n', "pushmeta kk: 1\npushmeta kk: 2\npopmeta kk:\n", "popmeta zz:\n", 'include "nope/\u00e9.bean"\n', 'option "name_assets" "Income"\n', "2020-01-01 custom \"\u00e9\" 2020-02-30\n", "\U0001F600\n", "; \u00e9\n", "\n"]
    bad += [{"inline": "".join(r.choice(sem) for _ in range(r.randint(1, 5)))} for _ in range(n(250))]
    import wide
    bad += [wide.far("\u65e5\n"), wide.far(" " * 300 + "; c\n2020-01-01 open Assets:A" + " " * 300 + "#a #a\n"), wide.files("2020-01-01 close Assets:A #\u00e9 #\u00e9\n"), wide.chain("2020-01-01 close\n")]
    scns += [dict(s, reports=True) for s in bad]
    k = 0
    for s in scns:
        if s.get("app"):
            s["programs"] = []
            for _ in range(12):
                p = progs[k % len(progs)]
                k += 1
                s["programs"].append({"on": p["on"], "kind": r.choice(["error", "warning"]), "reason": r.choice(["app-reason", "reason \u00e9\u65e5", "x"]), "steps": p["steps"], "note": "note-%d" % k if k % 2 else None, "how": "report" if k % 4 == 0 else "", "model": [p["rel"], p["ctx"]]})
    exps = ctx.decide(scns)
    res = ctx.run(scns)
    base = ctx.shards.base(0)
    # line and column of every reported place, by the specification
    cmps, asks = [], []
    for i, (s, e, g) in enumerate(zip(scns, exps, res)):
        ctx.traces += 1
        if "res" not in g or "parse" not in g["res"]:
            ctx.violation("reports", s, ["no result: %s" % json.dumps(g)[:300]], g)
            continue
        if e["moot"]:
            continue
        c = compare.Compare(base, s, e, g["res"])
        ds = [d for d in c.run() if d.facet in ("span", "resolve", "errors", "warnings")]
        ctx.compared += c.checked
        if ds:
            ctx.violation("places", s, [repr(d) for d in ds], g["res"], e)
            continue
        recs = g["res"]["parse"].get("errors", []) + g["res"]["parse"].get("warnings", []) + g["res"]["parse"].get("app", {}).get("reports", [])
        by = {}
        for x in recs:
            for sp in [x["sp"]] + [y[1] for y in x["rel"] + x["ctx"]]:
                by.setdefault(c.file_of(sp), set()).add((sp[1], sp[2]))
        if any(c.text_of(f) is None for f in by):
            ctx.note("reports: file spelled through a link", 1)
            continue
        for f, q in by.items():
            t = c.text_of(f)
            if t is not None:
                asks.append({"id": "%d.%d" % (i, len(asks)), "f": f, "t": tlc.codes(t), "q": sorted(q)})
        cmps.append((i, s, e, g["res"], c))
    path = os.path.join(ctx.shards.top, "positions.nd")
    with open(path, "w") as f:
        for a in asks:
            f.write(json.dumps({"id": a["id"], "t": a["t"], "q": a["q"]}) + "\n")
    out, st = tlc.run("Positions", cfgtext="SPECIFICATION Spec\nINVARIANT Emit\nINVARIANT LawPosition\nCHECK_DEADLOCK FALSE\n", env={"POSITIONS": path})
    ctx.stats(st)
    place = {}
    for a in asks:
        for s_, e_, l, c_, t, l2 in out[a["id"]]:
            place[(int(a["id"].split(".")[0]), a["f"], s_, e_)] = (l, c_, "".join(map(chr, t)).replace(base, "@ROOT@"), l2)
    nrep = 0
    for i, s, e, res_, c in cmps:
        p = res_["parse"]
        bad = []

        def name_of(sp):
            n_ = res_["spans"]["%d,%d,%d" % tuple(sp)][0]
            return "inline" if n_ is None else n_

        def pos(sp):
            return place[(i, c.file_of(sp), sp[1], sp[2])]
        groups = {}
        app = p.get("app", {})
        for path_, et, sp in app.get("elements", []):
            el = dig(p, path_)
            if el["sp"] != sp:
                bad.append("%s is at %s, its errors at %s" % (path_, el["sp"], sp))
            if et != kind_of(path_, p):
                bad.append("%s is called %r" % (path_, et))
        els = app.get("elements", [])
        for prog, x in zip(s.get("programs", []) if els else [], app.get("reports", [])):
            nrep += 1
            on = els[prog["on"] % len(els)]
            if x["sp"] != on[2] or x["r"] != prog["reason"] or x["m"] != ("invalid " if prog["kind"] == "error" else "questionable ") + on[1]:
                bad.append("made on %s: %s" % (on, [x["m"], x["r"], x["sp"]]))

            def expand(refs):
                o = []
                for how, j in refs:
                    el = els[j % len(els)]
                    o += [[el[1], el[2]]] if how == "one" else [[y[1], y[2]] for y in els if same_kind(y, el)]
                return o
            for what, refs in (("rel", prog["model"][0]), ("ctx", prog["model"][1])):
                if x[what] != expand(refs):
                    bad.append("%s of %s: expected %s, got %s" % (what, prog["steps"], expand(refs), x[what]))
            if x.get("note") != prog["note"]:
                bad.append("annotation %r" % x.get("note"))
            bad += judge_report(name_of, pos, x, prog["kind"], [("in this " + l, sp) for l, sp in x["ctx"]] + [(l, sp) for l, sp in x["rel"]])
        for kind, key in (("error", "errors"), ("warning", "warnings")):
            for x in p.get(key, []):
                nrep += 1
                bad += judge_report(name_of, pos, x, kind, [("in this " + l, sp) for l, sp in x["ctx"]] + [(l, sp) for l, sp in x["rel"]])
        if bad:
            ctx.violation("reports", s, bad[:8], p, None)
        else:
            ctx.sample("reports", {"scenario": str(s)[:500]})
    ctx.note("reports", nrep)


def same_kind(a, b):
    """elements of one Rust type: directives of all kinds are one"""
    d = lambda x: "directive" if x[0].count("/") == 1 else x[1]
    return d(a) == d(b)


def c26(ctx):
    """what errors and warnings point at besides their own place"""
    import checks
    from gen import Gen
    F = {"related", "context", "errors", "warnings", "load"}
    n = ctx.scale
    laws = ["LawRelated"]
    opts = ['option "title" "a"\n', 'option "title" "b"\n', 'option "operating_currency" "USD"\n', 'option "operating_currency" "EUR"\n', 'option "inferred_tolerance_default" "*:1"\n', 'option "inferred_tolerance_default" "*:2"\n',
            'option "documents" "d"\n', 'option "render_commas" "TRUE"\n', 'option "booking_method" "FIFO"\n', "2020-01-01 open Assets:A\n", ""]
    ctx.compose("options", F, {"slots": [{"alts": opts, "times": 4}]}, n(500), laws)
    ctx.compose("options in files", F, {"root": "r", "files": [{"path": "r"}, {"path": "d/s"}],
                                       "slots": [{"file": "r", "alts": opts, "times": 2}, {"file": "r", "alts": ['include "d/s"\n', ""]}, {"file": "r", "alts": opts}, {"file": "d/s", "alts": opts, "times": 2}]}, n(400), laws)
    every = [checks.opt(w, v) for w, vs in checks.OPTS[:18] for v in vs[:1]]
    ctx.compose("every option", F, {"slots": [{"alts": every}, {"alts": ["", "2020-01-01 open Assets:É\n"]}, {"alts": every}]}, n(400), laws)
    inc = ['include "s"\n', 'include "d/../s"\n', 'include "t"\n', "pushtag #a\n", "poptag #a\n", "pushmeta kk: 1\n", "popmeta kk:\n", "pushmeta kk: 2\n", ""]
    ctx.compose("includes", F, {"root": "r", "files": [{"path": "r"}, {"path": "s"}, {"path": "t"}, {"path": "d", "k": "dir"}],
                               "slots": [{"file": "r", "alts": inc, "times": 5}, {"file": "s", "alts": ["2020-01-01 open Assets:A\n"]}, {"file": "t", "alts": ['include "s"\n', "2020-01-01 open Assets:B\n"]}]}, n(700), laws)
    lim = ["", 'option "long_string_maxlines" "1"\n', 'option "long_string_maxlines" "3"\n', '2020-01-01 note Assets:A "a\nb"\n', '2020-01-01 note Assets:A "a\nb\nc\nd"\n', '2020-01-01 open Assets:A\n  kk: "é\n\n"\n', '2020-01-01 note Assets:A "%s"\n' % ("x\n" * 70), "garbage\n", 'option "title" "x\ny"\n']
    ctx.compose("long strings", F, {"slots": [{"alts": lim, "times": 4}]}, n(500), laws)
    ctx.add("malformed", F, checks.ledgers(ctx, "mal", n(250), size=(2, 7), bad=0.35, pragmas=0.15, options=0.15))
    ctx.add("scalars", F, [{"inline": (lambda g: g.render(g.ledger(g.n(2, 6), pragmas=0.1)))(Gen(s, bad=0.04))} for s in checks.seeds(ctx, "scal", n(150))])
    ctx.add("files", F, checks.forest(ctx, "files", n(150), bad=0.02, entries=(1, 3), missing=0.1, pragmas=0.4, options=0.4, links=0.3))
    ctx.flush(laws)


class Unsure(Exception):
    pass


def canon(x):
    """an expectation as a value which is equal to another one exactly if they mean the same"""
    if isinstance(x, dict):
        if set(x) == {"str"}:
            return "".join(map(chr, x["str"]))
        if set(x) == {"o"}:
            return ("some", canon(x["o"][0])) if x["o"] else None
        if set(x) == {"set"}:
            return tuple(sorted((repr(canon(y)) for y in x["set"])))
        if "any" in x:
            if len(x["any"]) != 1:
                raise Unsure
            return canon(x["any"][0])
        if set(x) == {"m", "s"}:
            # decimals compare by value
            m = x["m"] if not isinstance(x["m"], dict) else compare.plain(x["m"])
            m, k = int(m), x["s"]
            while k and m % 10 == 0:
                m, k = m // 10, k - 1
            return ("dec", m, k)
        return tuple(sorted((k, canon(v)) for k, v in x.items() if k not in ("sp", "lookup_ok")))
    if isinstance(x, list):
        return tuple(canon(y) for y in x)
    return x


def c27(ctx):
    """equality of what is returned"""
    import checks
    n = ctx.scale
    scns = []
    # near-copies of an entry: the same again, in other layout, or with one word replaced
    for s in checks.seeds(ctx, "copies", n(300)):
        g = Gen(s, dates=2, meta=0.4, expr=0.3)
        ls = [g.entry() for _ in range(g.n(1, 3))]
        out = []
        for e in ls:
            out.append(e)
            for _ in range(g.n(1, 3)):
                c = [(i, list(pc)) for i, pc in e]
                x = g.r.random()
                if x < 0.45:
                    other = g.entry()
                    i = g.n(0, len(c) - 1)
                    if c[i][1]:
                        j = g.n(0, len(c[i][1]) - 1)
                        w = c[i][1][j]
                        c[i][1][j] = (g.date() if w[:4].isdigit() and w[4:5] in "-/" and len(w) == 10 else g.string() if w[0] == '"' else g.tag() if w[0] == "#" else g.link() if w[0] == "^"
                                      else g.account() if ":" in w[1:-1] else g.currency() if w.isupper() and w.isalpha() else g.plainnum() if w[0].isdigit() else w)
                elif x < 0.6 and len(c) > 1:
                    t = c[1:]
                    g.r.shuffle(t)
                    c = c[:1] + t
                elif x < 0.7 and len(c) > 1:
                    del c[g.n(1, len(c) - 1)]
                elif x < 0.8:
                    c.append((True, ["zz%d" % g.n(1, 2), ":", "1"]))
                out.append(c)
        g.r.shuffle(out)
        t = "".join(g.lines(c) for c in out)
        if g.p(0.2):
            k = g.n(1, len(out) - 1)
            scns.append(("copies in files", {"root": "r", "files": [{"path": "r", "text": "".join(g.lines(c) for c in out[:k]) + 'include "s"\n'}, {"path": "s", "text": "".join(g.lines(c) for c in out[k:])}]}))
        else:
            scns.append(("copies", {"inline": t}))
    posts = ["Assets:A", "Assets:B", "! Assets:A", "Assets:A 1 USD", "Assets:A 1.0 USD", "Assets:A 1 EUR", "Assets:A 2 USD", "Assets:A USD", "Assets:A 1", "Assets:A 1 USD {}", "Assets:A 1 USD {2 USD}", "Assets:A 1 USD {3 USD}", "Assets:A 1 USD {2 EUR}", "Assets:A 1 USD {*}", 'Assets:A 1 USD {"l"}', "Assets:A 1 USD {2}", "Assets:A 1 USD {USD}", "Assets:A 1 USD {2 # 2 USD}", "Assets:A 1 USD {3 # 2 USD}", "Assets:A 1 USD {2 # 3 USD}", "Assets:A 1 USD {2 # USD}", "Assets:A 1 USD {# 2 USD}",
             "Assets:A 1 USD {2 USD, *}", 'Assets:A 1 USD {2 USD, "l"}', 'Assets:A 1 USD {2 USD, "m"}', 'Assets:A 1 USD {2 USD, "l", *}', "Assets:A 1 USD {2 USD, 2020-01-02}", "Assets:A 1 USD @ 3 USD", "Assets:A 1 USD @@ 3 USD", "Assets:A 1 USD @@ 2", "Assets:A 1 USD @@ USD", "Assets:A 1 USD @@", "Assets:A 1 USD @ 2 EUR", "Assets:A 1 USD {2 USD} @ 2 USD", "* Assets:A", "Assets:A 1 USD {2 USD, 2020-01-01}", "Assets:A 1 USD @ 2 USD", "Assets:A 1 USD @@ 2 USD", "Assets:A 1 USD @", "Assets:A 1 USD @ USD", "Assets:A 1 USD @ 2", "Assets:A 0.5*2 USD", "Assets:A (1) USD", "Assets:A 1 USD\n    kk: 1", "Assets:A 1 USD\n    kk: 2", "Assets:A 1 USD\n    #t", "Assets:A 1 USD\n    ^t", "Assets:A -1 USD", "Equity:A 1 USD"]
    scns.append(("postings", {"inline": '2020-01-01 * "x"\n' + "".join("  %s\n" % p for p in posts + posts[::-1])}))
    kinds = ["open Assets:A", "open Assets:A USD", "open Assets:A EUR", "open Assets:A USD,EUR", "open Assets:A EUR,USD", 'open Assets:A "STRICT"', 'open Assets:A "FIFO"', "open Assets:B", "close Assets:A", "commodity USD", "commodity EUR", "pad Assets:A Assets:B", "pad Assets:B Assets:A", "balance Assets:A 1 USD", "balance Assets:A 1 ~ 1 USD", "balance Assets:A 1.0 USD", "balance Assets:A 1 EUR", "price USD 1 EUR", "price EUR 1 USD", "price USD 2 EUR",
             'event "a" "b"', 'event "b" "a"', 'event "a" "a"', 'query "a" "b"', 'note Assets:A "a"', 'note Assets:A "a" #t', 'note Assets:A "a" ^t', 'document Assets:A "a"', 'document Assets:A "a" #t', 'custom "a"', 'custom "a" 1', 'custom "a" 1 2', 'custom "a" 2 1', 'custom "a" TRUE', 'custom "a" FALSE', 'custom "a" "b"', 'custom "a" 2020-01-01', 'custom "a" Assets:A', 'custom "a" 1 USD', 'custom "a" 1 EUR', '* "a"', '! "a"', '* "a" "b"', '* "" "a"', '* "a" ""', '* "b"', "*", 'txn "a"', "'A \"a\"", '* "a" #t', '* "a" #t #u', '* "a" #u #t', '* "a" ^t', "open Assets:A\n  kk: 1", "open Assets:A\n  kk: 1.0", "open Assets:A\n  kk: 2", "open Assets:A\n  kk: \"1\"", "open Assets:A\n  kk:", "open Assets:A\n  kk: NULL", "open Assets:A\n  ll: 1", "open Assets:A\n  kk: 1\n  ll: 1", "open Assets:A\n  ll: 1\n  kk: 1",
             "open Assets:A\n  kk: USD", "open Assets:A\n  kk: Assets:A", "open Assets:A\n  kk: #t", "open Assets:A\n  kk: ^t", "open Assets:A\n  kk: TRUE", "open Assets:A\n  kk: 2020-01-01", "open Assets:A\n  kk: 1 USD", "open Assets:A\n  #t", "open Assets:A\n  ^t"]
    for d in ("2020-01-01", "2020/01/01"):
        scns.append(("kinds", {"inline": "".join("%s %s\n" % ("2020-01-01", k) for k in kinds) + "".join("%s %s\n" % (d, k) for k in kinds[::-1]) + "".join("2020-01-02 %s\n" % k for k in kinds[::3])}))
    scns.append(("plugins", {"inline": "".join("plugin %s\n" % p for p in ('"a"', '"b"', '"a" "c"', '"a" "d"', '"a"', '"b" "c"', '"a" ""', '"a" "c"'))}))
    for s in checks.seeds(ctx, "pushed", n(60)):
        g = Gen(s, dates=1, meta=0.2)
        e = g.lines(g.entry())
        scns.append(("pushed", {"inline": e + "pushtag #a\npushmeta kk: 1\n" + e + e + "popmeta kk:\n" + e + "poptag #a\n" + e + "pushmeta kk: 1.0\n" + e + "popmeta kk:\n"}))
    for s in checks.ledgers(ctx, "mixed", n(80), pragmas=0.3, dates=1, kinds=["open", "close", "commodity", "price"]):
        scns.append(("mixed", s))
    ss = [dict(s, eq=True) for _, s in scns]
    for (lab, _), s, e, r in zip(scns, ss, ctx.decide(ss), ctx.run(ss)):
        ctx.traces += 1
        ctx.note(lab, 1)
        if lab in ("postings", "kinds", "plugins") and e["ok"] != "yes":
            raise ToolError("%s are not valid: %s" % (lab, e["blocks"]))
        if "res" not in r:
            ctx.violation(lab, s, ["no result: %s" % json.dumps(r)[:400]], r)
            continue
        p = r["res"].get("parse", {})
        if e["moot"] or e["ok"] != "yes" or not p.get("ok") or len(p["dirs"]) != len(e["dirs"]):
            ctx.moot += 1
            continue
        ds = []
        eq = p["eq"]
        posts_ = [x for d in e["dirs"] for x in d.get("postings", [])]
        for what, exp in (("dirs", e["dirs"]), ("items", e["dirs"]), ("postings", posts_), ("plugins", e["plugins"])):
            cs = []
            for x in exp:
                try:
                    cs.append(canon(x))
                except Unsure:
                    cs.append(None)
            if len(cs) != len(eq[what]):
                continue
            for i in range(len(cs)):
                for j in range(len(cs)):
                    if cs[i] is None or cs[j] is None:
                        continue
                    ctx.compared += 1
                    if (cs[i] == cs[j]) != bool(eq[what][i][j]):
                        ds.append("%s %d and %d compare %s: %s / %s" % (what, i, j, "equal" if eq[what][i][j] else "different", str(cs[i])[:300], str(cs[j])[:300]))
        def names(k):
            out = set()
            for d in e["dirs"]:
                for m in [d] + list(d.get("postings", [])):
                    for x in m[k]["set"]:
                        out.add(str(canon(x["k"]["v"] if k == "meta" else x["v"])))
            return len(out)
        for k, f in (("tags", "tags"), ("links", "links"), ("meta", "keys")):
            ctx.compared += 1
            if names(k) != eq[f]:
                ds.append("a hash set holds %d %s, %d are distinct" % (eq[f], f, names(k)))
        if ds:
            ctx.violation(lab, s, ds[:5], r["res"], e)
        else:
            ctx.sample(lab, {"scenario": str(s)[:400], "directives": len(e["dirs"])})
