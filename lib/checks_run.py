"""Checks of whole runs: determinism, and survival of arbitrary input."""
import json, os, random
import compare, gen, trees, tlc
from gen import Gen


def hashy(seed):
    """many files, names and errors: anything kept in a hash table"""
    g = Gen(seed, dates=3, meta=0.5)
    n = g.n(3, 9)
    names = ["f%d.bean" % i for i in range(n)]
    types = ["Assets", "Liabilities", "Equity", "Income", "Expenses"]
    files = []
    bad = g.p(0.5)
    for i in range(1, n):
        ls = []
        for _ in range(g.n(1, 4)):
            x = g.r.random()
            if x < 0.2:
                ls.append('option "name_%s" "%s"\n' % (g.pick(types).lower(), g.pick("A", "B", "C", "Assets", "Income")))
            elif x < 0.3:
                ls.append('option "%s" "%s"\n' % g.pick(("operating_currency", g.currency()), ("title", "t%d" % g.n(1, 3)), ("documents", "d%d" % g.n(1, 5)), ("inferred_tolerance_default", "%s:0.%d" % (g.currency(), g.n(1, 9)))))
            elif x < 0.4:
                ls.append('plugin "p%d"\n' % g.n(1, 9))
            elif x < 0.5 and bad:
                ls.append(g.pick("pushtag #t%d\n", "poptag #t%d\n", "pushmeta k%d: 1\n", "popmeta k%d:\n") % g.n(1, 6))
            elif x < 0.55 and bad:
                ls.append('include "nope%d.bean"\n' % g.n(1, 9))
            elif x < 0.6:
                ls.append('include "f%d.bean"\n' % g.n(1, n - 1))
            else:
                ls.append(g.render(g.entry()))
        if g.p(0.3):
            ls.append("2020-01-01 open %s:X %s\n" % (g.pick("A", "B", "Assets"), ",".join(g.currency() for _ in range(g.n(1, 6)))))
        files.append({"path": names[i], "text": "".join(ls)})
    root = ["include \"f%d.bean\"\n" % i for i in range(1, n)]
    g.r.shuffle(root)
    if g.p(0.2):
        root = ['include "f[0-9].bean"\n']
    for _ in range(g.n(0, 4)):
        root.insert(g.n(0, len(root)), g.pick("pushtag #r%d\n" % g.n(1, 9), "pushmeta r%d: %d\n" % (g.n(1, 9), g.n(1, 3)), "2020-01-01 open Assets:R\n") if bad else "2020-01-0%d open Assets:R\n" % g.n(1, 3))
    files.append({"path": "f0.bean", "text": "".join(root)})
    return {"files": files, "root": "f0.bean"}


def c19(ctx):
    import checks
    n = ctx.scale
    F = {"order", "members", "errors", "load", "acctype", "opts", "plugins", "warnings", "tags", "pushtags", "meta", "pushmeta", "links", "fields", "postings", "number", "span"}
    S = [("hash tables", [hashy(s) for s in checks.seeds(ctx, "hashy", n(160))])]
    many = []
    for s in checks.seeds(ctx, "many", n(40)):
        g = Gen(s, meta=0.3, expr=0.1)
        ls = g.entry()[:1]
        for k in range(g.n(5, 25)):
            x = g.r.random()
            ls.append((True, ["k%d" % g.n(1, 30), ":"] + g.metaval() if x < 0.6 else ["#t%d" % g.n(1, 30)] if x < 0.8 else ["^l%d" % g.n(1, 30)]))
        many.append({"inline": "".join("pushtag #p%d\n" % k for k in range(g.n(0, 12))) + "".join("pushmeta q%d: 1\n" % k for k in range(g.n(0, 12))) + g.render(ls)})
    S.append(("many", many))
    S.append(("duplicates", [dups(s) for s in checks.seeds(ctx, "dups", n(60))]))
    S.append(("ledgers", checks.ledgers(ctx, "ledgers", n(80), pragmas=0.3, options=0.2, noise=0.05)))
    S.append(("malformed", checks.ledgers(ctx, "malformed", n(80), size=(2, 8), bad=0.3, pragmas=0.3, options=0.1)))
    S.append(("trees", checks.forest(ctx, "trees", n(100), entries=(1, 3), missing=0.05, links=0.3, pragmas=0.2, options=0.2, plugins=0.2)))
    S.append(("types", [checks_types(s) for s in checks.seeds(ctx, "types", n(60))]))
    scns = [dict(s, reps=6 if ctx.quick() else 15) for _, ss in S for s in ss]
    labels = [l for l, ss in S for _ in ss]
    exps = ctx.decide(scns)
    runs = [ctx.run(scns)]
    rounds = 3 if ctx.quick() else 8
    for k in range(1, rounds):
        # other processes: fresh hash keys; another shard, so another place in the process's life
        runs.append(ctx.run([{}] * 0 + scns))
    base = ctx.shards.base(0)
    for i, (s, e, lab) in enumerate(zip(scns, exps, labels)):
        ctx.traces += rounds
        ctx.note(lab, 1)
        g = runs[0][i]
        if "res" not in g:
            ctx.violation(lab, s, ["no result: %s" % json.dumps(g)[:300]], g)
            continue
        ds = []
        if g["res"].get("rep_diffs"):
            ds.append("two runs in one process differ: %s" % first_diff(g["res"]["parse"], g["res"]["rep_diffs"][0]))
        for r in runs[1:]:
            if r[i].get("res") is None or r[i]["res"].get("rep_diffs"):
                ds.append("a run in another process differs from its repetition")
            elif r[i]["res"] != g["res"]:
                ds.append("two processes differ: %s" % first_diff(g["res"], r[i]["res"]))
        if not e["moot"] and not ds:
            c = compare.Compare(base, s, e, g["res"])
            ds = [repr(d) for d in c.run() if d.facet in ("load", "order", "members", "acctype", "opts", "plugins", "warnings", "errors")]
            ctx.compared += c.checked
        if ds:
            ctx.violation(lab, s, ds, g["res"], e)
        else:
            ctx.sample(lab, {"scenario": str(s)[:500], "repetitions": rounds * (s["reps"] + 1)})
    return {"repetitions_per_scenario": rounds * (scns[0]["reps"] + 1)}


HEADS = ["* \"n\"", "open Assets:A", "close Assets:A", "balance Assets:A 1 USD", "commodity USD", "pad Assets:A Equity:B", "note Assets:A \"n\"", "document Assets:A \"d\"", "event \"e\" \"v\"",
         "query \"q\" \"v\"", "price USD 1 EUR", "open Assets:A USD, EUR, USD, EUR"]


def dups(seed):
    """Several tags, links and keys given more than once on the same directive: several errors for one directive."""
    g = Gen(seed)
    out = ""
    for _ in range(g.n(1, 3)):
        tags = ["%s%s" % (c, t) for c in "#^" for t in g.r.sample("abcdefgh", g.n(0, 5))]
        g.r.shuffle(tags)
        out += "2020-01-0%d %s %s\n" % (g.n(1, 3), g.pick(HEADS), " ".join(tags))
        for t in g.r.sample(tags, g.n(0, len(tags))) + ["k%s: 1" % g.pick("abc") for _ in range(g.n(0, 4))]:
            out += "  %s\n" % t
    return {"inline": out}


def checks_types(seed):
    g = Gen(seed)
    k = g.n(2, 6)
    names = ["assets", "liabilities", "equity", "income", "expenses"]
    files = []
    for i in range(1, k):
        files.append({"path": "%s%d" % (g.pick("", "d/", "e/"), i), "text": "".join('option "name_%s" "%s"\n' % (g.pick(names), g.pick("A%d" % g.n(1, 4), "B")) if g.p(0.4) else "2020-01-0%d open %s:X\n" % (g.n(1, 3), g.pick("Assets", "A1", "A2", "Income", "Equity", "B")) for _ in range(g.n(1, 3)))})
    files.append({"path": "r", "text": "".join('include "%s"\n' % f["path"] for f in g.r.sample(files, len(files)))})
    return {"files": files, "root": "r"}


def first_diff(a, b, at=""):
    if type(a) is not type(b):
        return "%s: %s / %s" % (at, str(a)[:200], str(b)[:200])
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return first_diff(a.get(k), b.get(k), at + "." + k)
    if isinstance(a, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, "%s[%d]" % (at, i))
    return "%s: %s / %s" % (at, str(a)[:300], str(b)[:300])


# --------------------------------------------------------------------------- survival

LEX = ["2020-01-01", "2020-02-30", "1999-12-31", "open", "close", "balance", "pad", "txn", "*", "!", "price", "note", "document", "event", "custom", "query", "commodity",
       "include", "option", "plugin", "pushtag", "poptag", "pushmeta", "popmeta", "Assets:Cash", "Income:A:B", "Foo:Bar", "USD", "EUR", "'", "P", "#tag", "^link", "key:", "kk:", ":",
       '"s"', '"a\nb"', '""', '"\\q"', "10", "1,000.50", "3.", "1/0", "(", ")", "-", "+", "/", "{", "}", "{{", "}}", "@", "@@", "~", ",", "|", "TRUE", "NULL", "#", "^", "%", "&", "\\", "é", "٣", "２０２０-01-01",
       "\U0001F600", "\u00a0", "; c", "* org", "#+x", "…", "'A", "a", "Z", "0", "title", '"title"', '"operating_currency"', '"name_assets"', '"A"']


def soup(seed):
    g = Gen(seed)
    out = []
    for _ in range(g.n(1, 12)):
        if g.p(0.15):
            out.append(g.pick(" ", "  ", "\t"))
        if g.p(0.5):
            out.append(g.date() + " ")
        for _ in range(g.n(0, 8)):
            out.append(g.pick(*LEX) + g.pick("", " ", " ", " ", "  ", "\t"))
        out.append(g.pick("\n", "\n", "\n", "\n\n", "\n  ", "\r\n", ""))
    return "".join(out)


CH = list("aAzZ019 \t\n\n\"\\:;#^*!&?%{}()+-/@~,.|'_$<>=[]`") + ["é", "ß", "日", "Ω", "\U0001F600", "\u0301", "\u00a0", "\u2028", "\u200b", "\ufeff", "\ufffd", "\u0663", "\uff12", "\x00", "\x01", "\x0b", "\x0c", "\r", "\x1c", "\x7f", "\u0085", "\U0010ffff", "\u202e"]


def noise(seed):
    g = Gen(seed)
    return "".join(g.pick(*CH) for _ in range(g.pick(1, 2, 3, 5, 10, 40, 200)))


def mutate(g, t, alphabet):
    t = list(t)
    for _ in range(g.n(1, 6)):
        i = g.n(0, len(t))
        x = g.r.random()
        if x < 0.35:
            t.insert(i, g.pick(*alphabet))
        elif x < 0.55 and t:
            del t[i:i + g.pick(1, 1, 2, 5, 20)]
        elif x < 0.75 and i < len(t):
            t[i] = g.pick(*alphabet)
        elif x < 0.9:
            j = g.n(0, len(t))
            t[i:i] = t[j:j + g.n(1, 30)]
        else:
            t = t[:i]
    return "".join(t)


def huge(quick):
    """(label, text, entries or None): long and deep inputs; the number of directives, where it is plain"""
    k = 1 if quick else 4
    N = 20000 * k
    o = "2020-01-01 open Assets:A\n"
    return [
        ("pushtags", "pushtag #a\npoptag #a\n" * N + o, 1),
        ("unclosed pushtags", "pushtag #a\n" * 3000 + o, -1),
        ("pushmeta", "pushmeta kk: 1\npopmeta kk:\n" * N + o, 1),
        ("plugins", 'plugin "p"\n' * N + o, 1),
        ("bad options", 'option "zz" "1"\n' * 2000 + o, -1),
        ("bad lines", "zz\n" * 2000 + o, -1),
        ("bad entries", "2020-01-01 zz\n" * 2000, -1),
        ("entries", o * (5000 * k), 5000 * k),
        ("balances", "2020-01-01 balance Assets:A 1 USD\n" * (3000 * k), 3000 * k),
        ("descending", "".join("%04d-01-01 open Assets:A\n" % (9999 - i) for i in range(3000 * k)), 3000 * k),
        ("postings", '2020-01-01 * "x"\n' + "  Assets:A 1 USD\n" * (3000 * k), 1),
        ("meta", "2020-01-01 open Assets:A\n" + "".join("  k%d: %d\n" % (i, i) for i in range(3000 * k)), 1),
        ("tags", '2020-01-01 * "x" ' + " ".join("#t%d ^l%d" % (i, i) for i in range(3000 * k)) + "\n", 1),
        ("duplicate tags", '2020-01-01 * "x" ' + "#t " * 2000 + "\n", -1),
        ("currencies", "2020-01-01 open Assets:A " + ",".join("C%d" % i for i in range(3000 * k)) + "\n", 1),
        ("custom", '2020-01-01 custom "x" ' + "1 " * (3000 * k) + "\n", 1),
        ("parentheses", "2020-01-01 price USD " + "(" * 2000 + "1" + ")" * 2000 + " EUR\n", 1),
        ("open parentheses", "2020-01-01 price USD " + "(" * 3000 + "1 EUR\n", -1),
        ("sum", "2020-01-01 price USD " + "+".join(["1"] * 5000) + " EUR\n", 1),
        ("product", "2020-01-01 price USD " + "*".join(["1"] * 5000) + " EUR\n", 1),
        ("minus", "2020-01-01 price USD " + "-" * 2000 + "1 EUR\n", None),
        ("string", '2020-01-01 note Assets:A "' + "x" * 1000000 + '"\n', 1),
        ("wide string", '2020-01-01 note Assets:A "' + "日" * 5000 + '"\n', 1),
        ("escapes", '2020-01-01 note Assets:A "' + "\\n" * 300000 + '"\n', 1),
        ("bad escapes", '2020-01-01 note Assets:A "' + "\\q" * 100000 + '"\n', None),
        ("lines", '2020-01-01 note Assets:A "' + "x\n" * 20000 + '"\n', 1),
        ("comments", "; c\n" * 100000 + o, 1),
        ("org", "* org\n" * 50000 + o, 1),
        ("blank", "\n" * 300000 + o, 1),
        ("spaces", " " * 300000 + "\n" + o, 1),
        ("account", "2020-01-01 open Assets" + ":A" * 10000 + "\n", 1),
        ("account name", "2020-01-01 open Assets:" + "A" * 500000 + "\n", 1),
        ("key", "2020-01-01 open Assets:A\n  " + "k" * 500000 + ": 1\n", 1),
        ("tag", '2020-01-01 * "x" #' + "k" * 500000 + "\n", 1),
        ("digits", "2020-01-01 price USD " + "9" * 200000 + " EUR\n", -1),
        ("decimals", "2020-01-01 price USD 0." + "9" * 200000 + " EUR\n", -1),
        ("currency", "2020-01-01 commodity " + "A" * 200000 + "\n", None),
        ("braces", '2020-01-01 * "x"\n  Assets:A 1 USD ' + "{" * 50000 + "\n", -1),
        ("unclosed string", '2020-01-01 * "' + "x\n" * 50000, -1),
        ("garbage line", "é$" * 100000 + "\n" + o, None),
        ("quotes", '"' * 20001, -1),
        ("colons", ":" * 50000, None),
        ("hashes", "#" * 100000, None),
        ("includes", 'include "nope.bean"\n' * 1000, -1),
    ]


def unrep(ctx):
    """what cannot be represented is an error"""
    dates = ["2020-00-01", "2020-13-01", "2020-01-00", "2020-01-32", "2021-02-29", "2020-04-31", "2020-02-30", "1900-02-29", "２０２０-01-01", "2020-٠١-01", "0000-00-00"]
    nums = ["1/0", "1/(2-2)", "0/0", "79228162514264337593543950336", "79228162514264337593543950335+1", "-79228162514264337593543950335-1", "9999999999999999*9999999999999999", "0.00000000000000000000000000001", "٣", "1٣", "３.5", "1.٣", "(1/0)*0"]
    curs = ["ÉUR", "USÐ", "U日D", "Ω", "usd", "1USD"]
    D = ["%s open Assets:A\n", "2020-01-01 open Assets:A\n  kk: %s\n", '2020-01-01 * "x"\n  Assets:A 1 USD {%s}\n', '2020-01-01 custom "x" %s\n', "pushmeta kk: %s\npopmeta kk:\n2020-01-01 open Assets:A\n", '%s * "x"\n  Assets:A 1 USD\n']
    N = ["2020-01-01 price USD %s EUR\n", '2020-01-01 * "x"\n  Assets:A %s USD\n', '2020-01-01 * "x"\n  Assets:A 1 USD {%s USD}\n', '2020-01-01 * "x"\n  Assets:A 1 USD {1 # %s USD}\n', '2020-01-01 * "x"\n  Assets:A 1 USD @ %s USD\n', "2020-01-01 balance Assets:A %s USD\n", "2020-01-01 balance Assets:A 1 ~ %s USD\n", '2020-01-01 custom "x" %s\n', "2020-01-01 open Assets:A\n  kk: %s\n", "2020-01-01 open Assets:A\n  kk: %s USD\n"]
    C = ["2020-01-01 commodity %s\n", "2020-01-01 price %s 1 USD\n", "2020-01-01 price USD 1 %s\n", "2020-01-01 open Assets:A %s\n", "2020-01-01 open Assets:A USD,%s\n", '2020-01-01 * "x"\n  Assets:A 1 %s\n', "2020-01-01 balance Assets:A 1 %s\n"]
    return [t % v for T, V in ((D, dates), (N, nums), (C, curs)) for t in T for v in V]


def oddfiles():
    o = "2020-01-01 open Assets:A\n"
    r = [
        {"root": "r", "files": [{"path": "r", "text": 'include "b"\n' + o}, {"path": "b", "hex": "fffe00"}]},
        {"root": "r", "files": [{"path": "r", "hex": "c3"}]},
        {"root": "r", "files": [{"path": "r", "dir": True}]},
        {"root": "nope", "files": []},
        {"root": "r", "files": [{"path": "r", "text": 'include "d"\ninclude "d/../r2"\n' + o}, {"path": "d", "dir": True}, {"path": "r2", "text": o}]},
        {"root": "r", "files": [{"path": "r", "text": 'include "l"\n' + o}, {"path": "l", "symlink": "l"}]},
        {"root": "r", "files": [{"path": "r", "text": 'include "l"\n' + o}, {"path": "l", "symlink": "m"}, {"path": "m", "symlink": "l"}]},
        {"root": "r", "files": [{"path": "r", "text": 'include "l"\n' + o}, {"path": "l", "symlink": "nope"}]},
        {"root": "r", "files": [{"path": "r", "text": 'include "r"\n' + o}]},
        {"root": "r", "files": [{"path": "r", "text": 'include "*"\n' + o}]},
        {"root": "r", "files": [{"path": "r", "text": 'include "%s"\n' % ("x" * 300) + o}]},
        {"root": "r", "files": [{"path": "r", "text": 'include "%s"\n' % ("x/" * 5000) + o}]},
        {"root": "r", "files": [{"path": "r", "text": 'include ""\n' + o}]},
        {"root": "r", "files": [{"path": "r", "text": 'include "/"\ninclude "."\ninclude ".."\ninclude "//"\ninclude "~"\n' + o}]},
        {"root": "r", "files": [{"path": "r", "text": 'include "a\\0b"\n' + o}]},
        {"root": "r", "files": [{"path": "r", "text": 'include "a\0b"\n' + o}]},
        {"root": "r", "files": [{"path": "r", "text": 'include "[a"\ninclude "***"\ninclude "a**"\ninclude "[]"\ninclude "[!]"\n' + o}]},
        {"root": "r", "files": [{"path": "r", "text": 'include "é"\ninclude "日*"\n' + o}, {"path": "é", "text": o}, {"path": "日本", "text": o}]},
        {"root": "r", "files": [{"path": "r", "text": ""}]},
        {"root": "r", "files": [{"path": "r", "hex": "efbbbf"}]},
        {"inline": 'include "x"\n'}, {"inline": 'include "*"\n'}, {"inline": 'include "/nope"\n'}, {"inline": ""},
        {"root": "r", "files": [{"path": "r", "text": 'include "d/*"\n' + o}, {"path": "d/a", "hex": "ff"}, {"path": "d/b", "dir": True}, {"path": "d/c", "symlink": "c"}, {"path": "d/e", "text": o}]},
        {"root": "0.bean", "files": [{"path": "%d.bean" % i, "text": 'include "%d.bean"\n%s' % (i + 1, o)} for i in range(1500)] + [{"path": "1500.bean", "text": o}]},
        {"root": "r", "files": [{"path": "r", "text": 'include "d*/**/x*"\n' + o}] + [{"path": "d%d/e/x%d" % (i, i), "text": o} for i in range(200)]},
    ]
    return r


KNOWN = {
    "lexer-recursion": {"inline": '2020-01-01 note Assets:A "' + "日" * 100000 + '"\n'},
    "deep-sum": {"inline": "2020-01-01 price EUR " + "+".join(["1"] * 100000) + " USD\n"},
    "glob-non-utf8": {"root": "r", "files": [{"path": "r", "text": 'include "d/*"\n'}, {"pathhex": b"d/a\xff".hex(), "hex": ""}]},
}


def failed(r):
    """how a run failed to return, or None"""
    if "res" in r:
        p = r["res"].get("parse")
        if p is not None and p["ok"] != (len(p.get("errors", [])) == 0 if "errors" in p or p["ok"] else p["n"] == 0):
            return "failure without an error" if not p["ok"] else "success with errors"
        return None
    return "panic: %s" % r["panic"] if "panic" in r else "killed by signal or aborted (%s)" % r["crash"] if "crash" in r else "no answer in %s s" % r.get("hang")


def c01(ctx):
    import checks
    n = ctx.scale
    laws = ["LawProgress"]
    # 1. ledgers and near-ledgers: what the specification says of success and failure must happen
    decided = [("unrepresentable", [{"inline": t} for t in unrep(ctx)]),
               ("malformed", checks.ledgers(ctx, "malformed", n(150), size=(1, 6), bad=0.4, pragmas=0.2, options=0.1)),
               ("scalars", [{"inline": (lambda g: g.render(g.ledger(g.n(1, 5), pragmas=0.2)))(Gen(s, bad=0.1))} for s in checks.seeds(ctx, "scal", n(100))]),
               ("files", checks.forest(ctx, "files", n(80), bad=0.05, entries=(0, 3), missing=0.2, pragmas=0.3, options=0.2, links=0.4))]
    sd = [dict(s, reports=True) for _, ss in decided for s in ss]
    ld = [l for l, ss in decided for _ in ss]
    exps = ctx.decide(sd, laws)
    base = ctx.shards.base(0)
    for s, l, e, r in zip(sd, ld, exps, ctx.run(sd)):
        ctx.traces += 1
        ctx.note(l, 1)
        f = failed(r)
        if f is None and not e["moot"] and e["ok"] != "any":
            ctx.compared += 1
            p = r["res"].get("parse")
            if l == "unrepresentable" and e["ok"] != "no":
                raise tlc.ToolError("the specification accepts %s" % s)
            if p is None and not any(x["k"] == "bad" for x in e["srcs"][:1]):
                f = "the sources did not load: %s" % r["res"]
            elif p is not None and p["ok"] and e["ok"] == "no":
                f = "success, where an error was to be reported"
        if f:
            ctx.violation(l, s, [f], r, e)
        else:
            ctx.sample(l, {"scenario": str(s)[:300], "success": e["ok"]})
    # 2. every run of the model ends
    few = [s for s in sd[:: max(1, len(sd) // n(150, 4))]]
    path = os.path.join(ctx.shards.top, "live.nd")
    with open(path, "w") as f:
        for i, s in enumerate(few):
            f.write(json.dumps(tlc.world(i, base, s)) + "\n")
    _, st = tlc.run("Check", cfgtext="SPECIFICATION FairSpec\nCONSTANT World <- WorldOf\nINVARIANT LawProgress\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n", env={"SCENARIOS": path})
    ctx.stats(st)
    # 3. anything at all: it returns, and fails exactly with errors
    wild = []
    for s in checks.seeds(ctx, "soup", n(700)):
        wild.append(("token soup", {"inline": soup(s)}))
    for s in checks.seeds(ctx, "noise", n(700)):
        wild.append(("characters", {"inline": noise(s)}))
    for s in checks.seeds(ctx, "mutants", n(700)):
        g = Gen(s, bad=0.05, uni=1)
        t = g.render(g.ledger(g.n(1, 5), pragmas=0.2, options=0.1))
        wild.append(("mutated ledgers", {"inline": mutate(g, t, CH + LEX)}))
    for s in checks.seeds(ctx, "mutfiles", n(150)):
        g = Gen(s)
        t = trees.tree(s, entries=(0, 3), pragmas=0.3, options=0.1, missing=0.2, links=0.4)
        for f in t["files"]:
            if "text" in f and g.p(0.6):
                f["text"] = mutate(g, f["text"], CH + LEX + ['include "f*"\n', 'include "*"\n', "*", "..", "/", "[", "]", "?"])
        wild.append(("mutated files", t))
    wild += [("odd files", s) for s in oddfiles()]
    ws = [dict(s, reports=True, owned=i % 2 == 0) for i, (_, s) in enumerate(wild)]
    for (l, _), s, r in zip(wild, ws, ctx.run(ws)):
        ctx.traces += 1
        ctx.note(l, 1)
        f = failed(r)
        if f:
            ctx.violation(l, s, [f], r)
        else:
            ctx.compared += 1
            ctx.sample(l, {"scenario": str(s)[:300]})
    # 4. long and deep
    big = huge(ctx.quick())
    for (l, t, k), r in zip(big, ctx.run([{"inline": t, "terse": True} for _, t, _ in big], 120)):
        ctx.traces += 1
        ctx.note("large inputs", 1)
        f = failed(r)
        if f is None and k is not None:
            ctx.compared += 1
            p = r["res"]["parse"]
            if k < 0 and p["ok"]:
                f = "success, where an error was to be reported"
            if k >= 0 and not (p["ok"] and p["n"] == k):
                f = "%d directives expected, got %s" % (k, p)
        if f:
            ctx.violation("large inputs: " + l, {"inline": t if len(t) < 100000 else t[:2000] + "... (%d characters)" % len(t)}, [f], r)
    # 5. the known findings
    for line in open(os.path.join(os.path.dirname(tlc.SPEC), "known-findings.txt")):
        if line.startswith("known: property=C01 id="):
            i, what = line[len("known: property=C01 id="):].strip().split(" ", 1)
            if failed(ctx.run([dict(KNOWN[i], terse=True)])[0]):
                ctx.known.append("id=%s %s" % (i, what))
    return {"terminating_runs_of_the_model": len(few)}
