"""The checks, one function per property: what is explored, which laws are checked on the model and which
aspects of the conformance comparison decide the property."""
import gen, trees, wide
from gen import Gen

VALUES = {"number", "tags", "pushtags", "links", "meta", "pushmeta", "acctype", "lookup", "postings", "fields", "opts", "plugins"}
WHO = {"errors", "members", "load"}


def seeds(ctx, label, n):
    s = ctx.rng(label)
    return [s + i * 7919 for i in range(n)]


def ledgers(ctx, label, n, size=(1, 6), bad=0.0, pragmas=0.0, options=0.0, **opt):
    out = []
    for s in seeds(ctx, label, n):
        g = Gen(s, **opt)
        out.append({"inline": g.render(g.ledger(g.n(*size), bad=bad, pragmas=pragmas, options=options))})
    return out


def forest(ctx, label, n, **kw):
    return [trees.tree(s, **kw) for s in seeds(ctx, label, n)]


def general(ctx, facets, n=250):
    """everything at once; only differences in the property's own aspects count"""
    n = ctx.scale(n)
    facets = set(facets) - {"errors"}
    ctx.add("mixed", facets, ledgers(ctx, "mixed", n, pragmas=0.2, options=0.08, noise=0.05))
    ctx.add("mixed files", facets, forest(ctx, "mixedfiles", n // 3, pragmas=0.2, options=0.1, plugins=0.1, missing=0.0, links=0.1))


def large(ctx, facets, scns):
    """large scenarios, for which the laws of the specification would take too long"""
    ctx.add("large", facets, scns)
    ctx.flush()


# --------------------------------------------------------------------------- order and includes

DIRS3 = ["2020-01-0%d %s\n" % (d, k) for d in (1, 2) for k in ("open Assets:A", "balance Assets:A 1 USD", "close Assets:A", 'txn "t"')] + ["2019-12-31 price USD 1 EUR\n", ""]


def c02(ctx):
    F = {"order", "members", "errors", "load"}
    ctx.compose("order menu", F, {"slots": [{"alts": DIRS3, "times": 5}]}, ctx.scale(700), ["LawOrder", "LawOnce"])
    one = dict(kinds=gen.KINDS + ["open", "balance", "balance", "open"], meta=0.0, expr=0.0, uni=0, dates=3)
    ctx.add("long", F, ledgers(ctx, "long", ctx.scale(25), size=(22, 60), **one))
    # one or two days with more directives of a group than any internal bucket is likely to hold
    ctx.add("busy days", F, ledgers(ctx, "busy", ctx.scale(12), size=(40, 90), **dict(one, dates=2, kinds=["open"] * 8 + ["balance"] * 4 + ["close", "note", "commodity"])))
    ctx.add("busy files", F, forest(ctx, "busyf", ctx.scale(8), entries=(8, 25), missing=0.0, links=0.1, plain=True, **dict(one, dates=1)))
    ctx.add("medium", F, ledgers(ctx, "medium", ctx.scale(80), size=(8, 21), **one))
    ctx.add("dates", F, ledgers(ctx, "dates", ctx.scale(60), size=(5, 15), **dict(one, dates=14)))
    ctx.add("files", F, forest(ctx, "files", ctx.scale(60), entries=(1, 6), missing=0.0, links=0.1, plain=True, **one))
    general(ctx, F, 120)
    ctx.flush(["LawOrder", "LawOnce"])
    large(ctx, F, [wide.directives(), wide.files(), wide.chain(wide.op(7))])


def incmenu(path, others, extra):
    return ['include "%s"\n' % o for o in others] + extra


def chain(ctx, label, n):
    """long include chains, wide fans, cycles"""
    out = []
    for s in seeds(ctx, label, n):
        g = Gen(s, dates=2, meta=0.0)
        k = g.n(3, 14)
        shape = g.pick("chain", "fan", "cycle", "binary", "random")
        names = ["d%d/f%d.bean" % (i % 3, i) if g.p(0.7) else "f%d.bean" % i for i in range(k)]
        files = []
        for i, p in enumerate(names):
            if shape in ("chain", "cycle"):
                tg = [i + 1] if i + 1 < k else ([g.n(1, k - 1)] if shape == "cycle" and k > 1 else [])
            elif shape == "fan":
                tg = list(range(1, k)) if i == 0 else []
                g.r.shuffle(tg)
            elif shape == "binary":
                tg = [j for j in (2 * i + 1, 2 * i + 2) if j < k]
            else:
                tg = [j for j in range(1, k) if g.p(0.25)]
            lines = [[(False, ["2020-01-0%d" % g.n(1, 2), "open", "Assets:F%d" % i])] for _ in range(g.n(1, 2))]
            for j in tg:
                lines.insert(g.n(0, len(lines)), [trees.include_line(trees.rel(p.rpartition("/")[0], names[j]))])
            files.append({"path": p, "text": g.render([l for x in lines for l in x])})
        out.append({"files": files, "root": names[0], "mode": g.pick("abs", "rel", "dot")})
    return out


def c03(ctx):
    F = {"members", "order", "errors", "load", "pushtags", "pushmeta"}
    laws = ["LawOnce", "LawOrder", "LawRepeat"]
    o = lambda x: "2020-01-01 open Assets:%s\n" % x
    menu = {"root": "r", "files": [{"path": "r"}, {"path": "a"}, {"path": "s/b"}, {"path": "s/c"}],
            "slots": [{"file": "r", "alts": ["", 'include "a"\n', 'include "s/b"\n', 'include "./a"\n', o("R")], "times": 3},
                      {"file": "a", "alts": ["", 'include "s/b"\n', 'include "s/c"\n', 'include "a"\n', o("A")], "times": 2},
                      {"file": "s/b", "alts": ["", 'include "c"\n', 'include "../a"\n', o("B")], "times": 2},
                      {"file": "s/c", "alts": ["", 'include "b"\n', o("C")]}, {"file": "s/c", "alts": [o("C")]}]}
    ctx.compose("include menu", F, menu, ctx.scale(500), laws)
    # includes among the other pragmas
    other = ["", 'plugin "p"\nplugin "q"\n', 'option "title" "t"\n', "pushtag #a\npoptag #a\n", "pushmeta kk: 1\npopmeta kk:\n", o("O"), 'plugin "p"\n' + o("P")]
    inca, incb = 'include "a"\n', 'include "s/b"\n'
    menu2 = {"root": "r", "files": menu["files"][:3],
             "slots": [{"file": "r", "alts": other}, {"file": "r", "alts": [inca, incb, inca + incb, inca + o("M") + incb]}, {"file": "r", "alts": other, "times": 2},
                       {"file": "a", "alts": other + [o("A"), 'include "s/b"\n', 'include "s/b"\n' + o("A")]}, {"file": "a", "alts": ["", o("A2")]}, {"file": "s/b", "alts": ["", o("B"), 'plugin "z"\n', o("B") + o("C")]}]}
    ctx.compose("pragma menu", F, menu2, ctx.scale(500), laws)
    ctx.add("trees", F, forest(ctx, "trees", ctx.scale(150), entries=(1, 3), missing=0.02, links=0.3, dates=2, meta=0.1))
    ctx.add("trees with pragmas", F, forest(ctx, "treesp", ctx.scale(60), entries=(1, 2), missing=0.0, links=0.3, dates=2, meta=0.1, wellbalanced=0.5, kinds=["open", "close"], tags=["a", "b"]))
    ctx.add("trees with all pragmas", F, forest(ctx, "treesa", ctx.scale(80), entries=(0, 2), missing=0.0, links=0.2, dates=2, meta=0.1, wellbalanced=0.3, plugins=0.5, options=0.15, tags=["a", "b"]))
    ctx.add("shapes", F, chain(ctx, "shapes", ctx.scale(40)))
    ctx.add("globs", F, [trees.globs(s) for s in seeds(ctx, "globs", ctx.scale(60))])
    ctx.flush(laws)
    large(ctx, F, [wide.files(wide.op(900)), wide.chain(wide.op(901)), wide.chain('include "f3"\n' + wide.op(902))])


# --------------------------------------------------------------------------- push and pop

def c04(ctx):
    F = {"tags", "pushtags", "errors", "load", "members"}
    laws = ["LawTags", "LawTagErrors", "LawOnce"]
    d = "2020-01-01 open Assets:A\n"
    items = ["", "pushtag #a\n", "pushtag #b\n", "poptag #a\n", "poptag #b\n", d, "2020-01-01 open Assets:A #a\n", '2020-01-01 * "x" #c #a\n']
    menu = {"root": "r", "files": [{"path": "r"}, {"path": "s"}],
            "slots": [{"file": "r", "alts": items, "times": 3}, {"file": "r", "alts": ["", 'include "s"\n']}, {"file": "r", "alts": items[:6], "times": 3},
                      {"file": "s", "alts": items[:6], "times": 2}]}
    ctx.compose("push menu", F, menu, ctx.scale(600), laws)
    bal = {"slots": [{"alts": ["pushtag #a\n"]}, {"alts": items[:6] + [d, "pushtag #a\n"], "times": 3}, {"alts": [d]}, {"alts": ["poptag #a\n", "poptag #a\npoptag #a\n"]}, {"alts": ["", "poptag #b\n"]}, {"alts": [d]}]}
    ctx.compose("balanced menu", F, bal, ctx.scale(400), laws)
    out = []
    for s in seeds(ctx, "pushes", ctx.scale(200)):
        g = Gen(s, dates=3, meta=0.3, kinds=["open", "close", "txn", "custom", "note"], tags=["a", "b", "A", "a/b", "a-b"][:g_n(s)], expr=0)
        out.append({"inline": g.render(pushseq(g, "tag", g.n(3, 16)))})
    ctx.add("push sequences", F, out)
    ctx.add("files", F, [pushtree(s, "tag") for s in seeds(ctx, "files", ctx.scale(150))])
    general(ctx, F, 90)
    ctx.flush(laws)
    large(ctx, F, wide.pushes("tag", True) + wide.pushes("tag", False))


def g_n(s):
    return 1 + s % 5


def pushseq(g, what, n, closeall=0.75):
    """a random sequence of pushes, pops and directives, mostly closed at the end"""
    lines, open_ = [], []
    for _ in range(n):
        x = g.r.random()
        w = g.pick("tag", "meta") if what == "both" else what
        if x < 0.3:
            k = g.tag() if w == "tag" else g.key()
            open_.append((w, k))
            lines.append((False, ["pushtag", k]) if w == "tag" else (False, ["pushmeta", k, ":"] + g.metaval()))
        elif x < 0.5 and (open_ or g.p(0.1)):
            w, k = open_.pop(g.n(0, len(open_) - 1)) if open_ and g.p(0.96) else (w, g.tag() if w == "tag" else g.key())
            lines.append((False, ["poptag", k] if w == "tag" else ["popmeta", k, ":"]))
        else:
            lines += g.entry()
    if g.p(closeall):
        while open_:
            w, k = open_.pop(g.n(0, len(open_) - 1))
            lines.append((False, ["poptag", k] if w == "tag" else ["popmeta", k, ":"]))
            if g.p(0.4):
                lines += g.entry()
    return lines


def pushtree(seed, what):
    """pushes and pops spread over several files"""
    g = Gen(seed, dates=3, meta=0.25, kinds=["open", "close", "txn", "note"], tags=["a", "b", "c"], keys=["kk", "mm", "nn"], expr=0)
    n = g.pick(2, 3, 4, 6)
    names = [g.pick("", "x/", "y/") + "f%d.bean" % i for i in range(n)]
    # the lines of one balanced sequence are dealt out to nested files
    lines = pushseq(g, what, g.n(4, 12) if n < 5 else g.n(10, 24), closeall=0.9)
    entries, cur = [], []
    for l in lines:
        if not l[0] and cur:
            entries.append(cur)
            cur = []
        cur.append(l)
    if cur:
        entries.append(cur)

    def deal(es, i):
        """file i holds es, with a middle part moved to file i+1"""
        files = []
        if i + 1 < n and len(es) > 1:
            a = g.n(0, (len(es) - 1) // (1 if n < 5 else 3))
            b = g.n(a if n < 5 else max(a, len(es) * 2 // 3), len(es))
            inner = es[a:b]
            es = es[:a] + [[trees.include_line(trees.rel(names[i].rpartition("/")[0], names[i + 1]))]] + es[b:]
            files += deal(inner, i + 1)
            if g.p(0.15):
                es.insert(g.n(a + 1, len(es)), [trees.include_line(trees.rel(names[i].rpartition("/")[0], names[i + 1]))])
        files.append({"path": names[i], "text": g.render([l for e in es for l in e])})
        return files
    return {"files": deal(entries, 0), "root": names[0], "mode": g.pick("abs", "rel", "dot")}


def c05(ctx):
    F = {"meta", "pushmeta", "lookup", "errors", "load", "members"}
    laws = ["LawMeta", "LawMetaErrors", "LawOnce"]
    d = "2020-01-01 open Assets:A\n"
    items = ["", "pushmeta kk: 1\n", "pushmeta kk: \"x\"\n", "pushmeta mm: TRUE\n", "popmeta kk:\n", "popmeta mm:\n", d, d + "  kk: 7\n", '2020-01-01 * "x"\n  mm: USD\n']
    menu = {"root": "r", "files": [{"path": "r"}, {"path": "s"}],
            "slots": [{"file": "r", "alts": items, "times": 3}, {"file": "r", "alts": ["", 'include "s"\n']}, {"file": "r", "alts": items[:7], "times": 3},
                      {"file": "s", "alts": items[:7], "times": 2}]}
    ctx.compose("push menu", F, menu, ctx.scale(500), laws)
    bal = {"slots": [{"alts": ["pushmeta kk: 0\n"]}, {"alts": ["", "pushmeta kk: 1\n", "popmeta kk:\n", "pushmeta mm: 3 USD\n", d + "  kk: 9\n", d], "times": 3}, {"alts": [d]}, {"alts": ["popmeta kk:\n", "popmeta kk:\npopmeta kk:\n"]},
                     {"alts": ["", d + "popmeta mm:\n", "popmeta kk:\n" + d + "popmeta mm:\n"]}, {"alts": [d]}]}
    ctx.compose("balanced menu", F, bal, ctx.scale(500), laws)
    out = []
    for s in seeds(ctx, "pushes", ctx.scale(200)):
        g = Gen(s, dates=3, meta=0.45, kinds=["open", "close", "txn", "custom", "note"], keys=["kk", "mm", "nn", "a-b", "option"][:g_n(s)], expr=0.1)
        out.append({"inline": g.render(pushseq(g, "meta", g.n(3, 16)))})
    ctx.add("push sequences", F, out)
    ctx.add("files", F, [pushtree(s, "meta") for s in seeds(ctx, "files", ctx.scale(150))])
    general(ctx, F, 90)
    ctx.flush(laws)
    large(ctx, F, wide.pushes("meta", True) + wide.pushes("meta", False))


# --------------------------------------------------------------------------- includes

def c06(ctx):
    F = {"errors", "members", "load", "span"}
    laws = ["LawOnce", "LawMissing"]
    o = lambda d, x: "20%02d-01-01 open Assets:%s\n" % (d, x)
    files = [{"path": "d/r"}, {"path": "d/a"}, {"path": "d/ab"}, {"path": "d/s/a"}, {"path": "a"}, {"path": "d/.a"}, {"path": "d/bad", "k": "bad"}, {"path": "d/e", "k": "dir"}, {"path": "d/l", "k": "link", "to": "s/a"}]
    paths = ["a", "./a", "s/a", "../a", "../d/a", "@ROOT@/a", "@ROOT@/d/a", "*/a", "../a*", "a?", "[a]b", "s/*", ".a", ".*", "?a", "bad", "e", "l", "nope", "nope/a", "s/../a", "[", "**/a", "", "a/", "../*/ab", "[!a]", "[bl]", "A"]
    paths.remove(".*")
    paths.remove("a/")
    menu = {"root": "d/r", "files": files,
            "slots": [{"file": "d/r", "alts": ['include "%s"\n' % p for p in paths] + [o(50, "R")], "times": 2},
                      {"file": "d/a", "alts": [o(1, "A")]}, {"file": "d/ab", "alts": [o(2, "B"), 'include "s/a"\n' + o(2, "B")]},
                      {"file": "d/s/a", "alts": [o(3, "C"), 'include "../ab"\n' + o(3, "C"), 'include "a"\n']},
                      {"file": "a", "alts": [o(4, "D"), 'include "d/s/a"\n' + o(4, "D")]}, {"file": "d/.a", "alts": [o(5, "E")]}]}
    ctx.compose("path menu", F, menu, ctx.scale(600), laws)
    ctx.add("patterns", F, [trees.globs(s) for s in seeds(ctx, "globs", ctx.scale(350))])
    ctx.add("trees", F, forest(ctx, "trees", ctx.scale(200), entries=(0, 1), missing=0.15, links=0.4, meta=0.0, kinds=["open", "close"]))
    ctx.add("deep", F, chain(ctx, "deep", ctx.scale(20)))
    ctx.flush(laws)


def c07(ctx):
    F = {"errors", "members", "load", "order"}
    laws = ["LawOnce", "LawRepeat", "LawRootAgain", "LawTagErrors", "LawMetaErrors"]
    inc = ['include "%s"\n' % p for p in ("a", "./a", "s/b", "@ROOT@/a", "s/../a", "l", "r")]
    ctxs = ["", "pushtag #x\n", "poptag #x\n", "pushmeta kk: 1\n", "pushmeta kk: 2\n", "popmeta kk:\n", "2020-01-01 open Assets:R\n"]
    close = ["", "poptag #x\n", "popmeta kk:\n", "poptag #x\npopmeta kk:\n"]
    menu = {"root": "r", "files": [{"path": "r"}, {"path": "a"}, {"path": "s/b"}, {"path": "l", "k": "link", "to": "a"}],
            "slots": [{"file": "r", "alts": ctxs}, {"file": "r", "alts": inc}, {"file": "r", "alts": ctxs, "times": 2}, {"file": "r", "alts": inc}, {"file": "r", "alts": close},
                      {"file": "a", "alts": ["2020-01-01 open Assets:A\n", 'include "s/b"\n', 'include "r"\n', 'include "a"\n', "pushtag #x\n", "poptag #x\n"]},
                      {"file": "s/b", "alts": ["2020-01-01 open Assets:B\n", 'include "../a"\n', 'pushtag #x\ninclude "../a"\npoptag #x\n']}]}
    ctx.compose("repeat menu", F, menu, ctx.scale(900), laws)
    # the same, mostly closed and in equal contexts
    wrap = [("", ""), ("pushtag #x\n", "poptag #x\n"), ("pushmeta kk: 1\n", "popmeta kk:\n"), ("pushmeta kk: 2\n", "popmeta kk:\n"), ("pushmeta kk: 1 USD\n", "popmeta kk:\n"), ("pushmeta kk: \"1\"\n", "popmeta kk:\n"),
            ("pushtag #x\npushtag #y\n", "poptag #x\npoptag #y\n"), ("pushtag #y\npushtag #x\n", "poptag #x\npoptag #y\n"), ("pushmeta kk: 1\npushmeta mm:\n", "popmeta mm:\npopmeta kk:\n"), ("pushmeta mm:\npushmeta kk: 1\n", "popmeta mm:\npopmeta kk:\n"),
            ("pushmeta kk: 2\npushmeta kk: 1\n", "popmeta kk:\npopmeta kk:\n"), ("pushtag #y\n", "poptag #y\n"), ("pushtag #X\n", "poptag #X\n"), ("pushtag #x\npushtag #z\n", "poptag #z\npoptag #x\n"), ("pushmeta mm: 1\n", "popmeta mm:\n"),
            ("pushmeta kk:\n", "popmeta kk:\n"), ("pushmeta kk: 1.0\n", "popmeta kk:\n"), ("pushmeta kk: 0+1\n", "popmeta kk:\n"), ("pushmeta kk: 10\n", "popmeta kk:\n"), ("pushmeta kk: #x\n", "popmeta kk:\n"), ("pushmeta kk: ^x\n", "popmeta kk:\n"), ("pushtag #x\npushmeta kk: 1\n", "popmeta kk:\npoptag #x\n"),
            ("pushtag #w\npoptag #w\n", ""), ("pushmeta kk: 3\npopmeta kk:\npushmeta kk: 1\n", "popmeta kk:\n")]
    blocks = [a + i + b for a, b in wrap for i in ('include "a"\n', 'include "./s/../a"\n', 'include "l"\n')]
    menu2 = {"root": "r", "files": menu["files"], "slots": [{"file": "r", "alts": blocks, "times": 2}, {"file": "a", "alts": ["2020-01-01 open Assets:A\n", 'include "s/b"\n']}, {"file": "s/b", "alts": ["2020-01-01 open Assets:B\n", 'include "../l"\n']}]}
    ctx.compose("context menu", F, menu2, ctx.scale(700), laws)
    ctx.add("trees", F, forest(ctx, "trees", ctx.scale(150), entries=(1, 1), missing=0.03, links=0.5, meta=0.0, kinds=["open"], wellbalanced=0.3, tags=["a"], inc=2.0))
    ctx.add("push trees", F, [pushtree(s, "both") for s in seeds(ctx, "pt", ctx.scale(120))])
    ctx.add("shapes", F, chain(ctx, "shapes", ctx.scale(25)))
    ctx.flush(laws)


def c25(ctx):
    F = {"plugins", "errors", "load"}
    laws = ["LawPlugins", "LawOnce"]
    items = ["", 'plugin "p"\n', 'plugin "p" "c"\n', 'plugin "q"\n', 'plugin "p" ""\n', "2020-01-01 open Assets:A\n"]
    menu = {"root": "r", "files": [{"path": "r"}, {"path": "a"}, {"path": "b"}],
            "slots": [{"file": "r", "alts": items, "times": 2}, {"file": "r", "alts": ['include "a"\n', 'include "b"\n', ""]}, {"file": "r", "alts": items}, {"file": "r", "alts": ['include "b"\n', 'include "a"\n', ""]}, {"file": "r", "alts": items},
                      {"file": "a", "alts": items, "times": 2}, {"file": "a", "alts": ["", 'include "b"\n']}, {"file": "a", "alts": ['plugin "za"\n']}, {"file": "b", "alts": items}, {"file": "b", "alts": ['plugin "zb" "x"\n']}]}
    ctx.compose("plugin menu", F, menu, ctx.scale(700), laws)
    ctx.add("trees", F, forest(ctx, "trees", ctx.scale(150), entries=(0, 1), missing=0.0, plugins=0.6, meta=0.0))
    ctx.add("many", F, [{"inline": (lambda g: g.render([l for _ in range(g.n(3, 30)) for l in g.plugin()]))(Gen(s))} for s in seeds(ctx, "many", ctx.scale(60))])
    general(ctx, F, 90)
    ctx.flush(laws)
    large(ctx, F, [{"inline": "".join('plugin "p%d" "c%d"\n' % (i, i % 3) for i in range(wide.N))}, wide.files('plugin "last"\n', each=lambda i: 'plugin "p%d"\n' % i)])


# --------------------------------------------------------------------------- options and account types

def opt(n, v):
    return 'option "%s" "%s"\n' % (n, v)


OPTS = [("title", ["T", ""]), ("operating_currency", ["USD", "EUR", "usd", "", "USD "]), ("documents", ["docs", "/abs", "d/e", "./docs2"]), ("inferred_tolerance_default", ["USD:0.005", "*:0.1", "EUR:1", "USD:0.1", "USD", "USD:", ":1", "usd:1", "USD:1:2"]),
        ("inferred_tolerance_multiplier", ["0.5", "1.10", "x", ""]), ("infer_tolerance_from_cost", ["TRUE", "false", "1", "maybe"]), ("render_commas", ["TRUE", "FALSE", "1", "0", "2"]),
        ("booking_method", ["STRICT", "STRICT_WITH_SIZE", "NONE", "AVERAGE", "FIFO", "LIFO", "HIFO", "fifo", ""]), ("plugin_processing_mode", ["DEFAULT", "RAW", "default", "Raw"]), ("conversion_currency", ["NOTHING", "nothing", "X"]),
        ("account_previous_balances", ["Opening", "a", "A:B"]), ("account_previous_earnings", ["E:P", ""]), ("account_previous_conversions", ["C:P", "C:"]), ("account_current_earnings", ["E:C", ":C"]), ("account_current_conversions", ["C:C", "C::C"]),
        ("account_unrealized_gains", ["U", "U:a"]), ("account_rounding", ["R1", "1"]), ("long_string_maxlines", ["5", "0", "-1", "x", "128"]),
        ("name_assets", ["Aktiva", "Income", "assets"]), ("name_liabilities", ["Passiva", "Assets"]), ("name_equity", ["Eigen", ""]), ("name_income", ["Ertrag"]), ("name_expenses", ["Aufwand", "A B"]),
        ("bogus", ["x"]), ("Title", ["T"]), ("", [""]), ("account_foo", ["X"]), ("name_foo", ["X"])]


def c08(ctx):
    F = {"opts", "errors", "load"}
    laws = ["LawOptions", "LawOptionNames", "LawNamesDistinct"]
    every = [opt(n, v) for n, vs in OPTS for v in vs]
    ctx.compose("single and pairs", F, {"slots": [{"alts": every}, {"alts": [""] + every}]}, ctx.scale(1100), laws)
    # the same with blanks around them, in other cases, with more behind
    near = []
    for n, vs in OPTS[1:23]:
        if n != "documents":
            for v in [v for v in vs[:3] if v]:
                near += [opt(n, x) for x in (v + " ", " " + v, "\\t" + v, v + "\n", v.lower(), v.upper(), v.capitalize(), v + v[-1], v[:-1], v + ":", v + "\u00e9")] + [opt(x, v) for x in (n + " ", " " + n, n.upper(), n.replace("_", "-"), n + "s", n[:-1])]
    near = sorted(set(near))
    ctx.compose("near misses", F, {"slots": [{"alts": near}]}, ctx.scale(len(near)), laws)
    good = [opt(n, v) for n, vs in OPTS[:23] for v in vs[:1]] + [opt("operating_currency", "EUR"), opt("documents", "other"), opt("inferred_tolerance_default", "*:2")]
    menu = {"root": "d/r", "files": [{"path": "d/r"}, {"path": "e/s"}, {"path": "e/f/t"}],
            "slots": [{"file": "d/r", "alts": good + [""], "times": 2}, {"file": "d/r", "alts": ['include "../e/s"\n']}, {"file": "d/r", "alts": good + [""]}, {"file": "e/s", "alts": good + [""], "times": 2}, {"file": "e/s", "alts": ['include "f/t"\n', ""]}, {"file": "e/f/t", "alts": good + [""]}]}
    ctx.compose("across files", F, menu, ctx.scale(500), laws)
    out = []
    for s in seeds(ctx, "many", ctx.scale(150)):
        g = Gen(s, bad=[0, 0, 0, 0.08][s % 4])
        names = g.r.sample(OPTS[:23], g.n(3, 14))
        ls = []
        for n, vs in names:
            ls.append((False, ["option", '"%s"' % n, '"%s"' % g.optval(n)]))
            if n in ("operating_currency", "documents", "inferred_tolerance_default", "long_string_maxlines"):
                for _ in range(g.n(0, 4)):
                    ls.append((False, ["option", '"%s"' % n, '"%s"' % g.optval(n)]))
        g.r.shuffle(ls)
        out.append({"inline": g.render(ls)})
    ctx.add("many options", F, out)
    ctx.add("trees", F, forest(ctx, "trees", ctx.scale(100), entries=(0, 1), options=0.6, missing=0, kinds=["commodity"], meta=0.0))
    ctx.add("mixed", F, ledgers(ctx, "mixed", ctx.scale(120), options=0.6, bad=0.0))
    ctx.flush(laws)


def c09(ctx):
    F = {"acctype", "errors", "load", "opts"}
    laws = ["LawTypes", "LawNamesDistinct"]
    names = ["Assets", "Liabilities", "Equity", "Income", "Expenses", "X", "Y-1"]
    o = [opt("name_" + t, n) for t in ("assets", "income", "equity") for n in ("X", "Income", "Assets")]
    a = ["2020-01-01 open %s:A\n" % n for n in ("Assets", "Income", "X", "Expenses")]
    ctx.compose("rename menu", F, {"slots": [{"alts": o + a + [""], "times": 4}]}, ctx.scale(600), laws)
    menu = {"root": "r", "files": [{"path": "r"}, {"path": "a"}, {"path": "b"}],
            "slots": [{"file": "r", "alts": ["", opt("name_assets", "X"), opt("name_income", "X")]}, {"file": "r", "alts": ['include "a"\n', 'include "b"\n', 'include "b"\ninclude "a"\n']},
                      {"file": "r", "alts": ["", opt("name_assets", "X"), opt("name_income", "Assets"), opt("name_assets", "Y"), "2020-01-01 open X:R\n"], "times": 2}, {"file": "r", "alts": ["", 'include "b"\n']},
                      {"file": "a", "alts": ["", opt("name_assets", "Y"), opt("name_liabilities", "Assets"), 'include "b"\n']}, {"file": "a", "alts": ["", "2020-01-01 open X:A\n", "2020-01-01 open Assets:A\n", "2020-01-01 open Y:A\n"]},
                      {"file": "b", "alts": ["2020-01-01 open X:B\n", "2020-01-01 open Assets:B\n", "2020-01-01 open Y:B\n" + opt("name_assets", "Q")]}]}
    ctx.compose("across files", F, menu, ctx.scale(600), laws)
    out = []
    for s in seeds(ctx, "random", ctx.scale(200)):
        g = Gen(s, meta=0.5, expr=0.0)
        cur = names[:5]
        ls = []
        for _ in range(g.n(2, 8)):
            if g.p(0.35):
                i = g.n(0, 4)
                n = g.pick(names + ["Vermögen", "A", "Zé", "X9", "A--", "Assets2"])
                ls.append((False, ["option", '"name_%s"' % ["assets", "liabilities", "equity", "income", "expenses"][i], '"%s"' % n]))
                if n not in cur or g.p(0.1):
                    cur = cur[:i] + [n] + cur[i + 1:]
            else:
                g.o["types"] = cur if g.p(0.97) else names
                ls += g.entry(g.pick("open", "pad", "txn", "custom", "balance", "note", "txn"))
        if g.p(0.4):
            files = [{"path": "r", "text": g.render(ls[:1] + [trees.include_line("s")] + ls[1:] if ls and not ls[0][0] and len([x for x in ls[:2] if not x[0]]) == 2 else ls + [trees.include_line("s")])}]
            g.o["types"] = cur
            files.append({"path": "s", "text": g.render(g.entry(g.pick("open", "pad", "txn", "close")))})
            out.append({"files": files, "root": "r"})
        else:
            out.append({"inline": g.render(ls)})
    ctx.add("renames", F, out)
    general(ctx, F, 120)
    ctx.flush(laws)


# --------------------------------------------------------------------------- values

def c10(ctx):
    F = {"number", "errors", "load"}
    nums = ["1", "2", "3", "0.5", "1.25", "7.00", "0.1", "1,000.10", "0", "0.000", "12345678901234567890.12"]
    un = ["", "-", "+"]
    ops = ["+", "-", "*", "/", " - ", " + ", " * ", " / "]
    pre, post = "2020-01-01 price USD ", " EUR\n"
    ctx.compose("a op b", F, {"slots": [{"alts": [pre]}, {"alts": un}, {"alts": nums}, {"alts": ops[4:]}, {"alts": un}, {"alts": nums}, {"alts": [post]}]}, ctx.scale(800), ["LawHalfUlp"])
    n2 = ["1", "2.5", "3", "0.125", "10.00", "-4"]
    ctx.compose("parentheses", F, {"slots": [{"alts": [pre]}, {"alts": ["", "(", "-(", "(-"]}, {"alts": n2}, {"alts": ops[:4]}, {"alts": ["", "(", "+"]}, {"alts": n2}, {"alts": ["", ")"]}, {"alts": ops[4:]}, {"alts": n2}, {"alts": ["", ")", "))"]}, {"alts": [post]}]}, ctx.scale(1000), ["LawHalfUlp"])
    ctx.compose("chains", F, {"slots": [{"alts": [pre]}, {"alts": n2}] + [{"alts": ops[4:]}, {"alts": n2}] * 3 + [{"alts": [post]}]}, ctx.scale(700), ["LawHalfUlp"])
    out = []
    for s in seeds(ctx, "ties", ctx.scale(250)):
        g = Gen(s, expr=0.95)
        # quotients which end on or near half a unit of the last place
        sc = g.n(0, 6)
        q = g.n(1, 10 ** g.n(1, 7)) * 2 + (1 if g.p(0.8) else 0)
        d = g.pick(2, 20, 4, 8, 200, 5, 3, 6, 7, 40)
        num = "%d" % q if sc == 0 else "%d.%0*d" % (q // 10 ** sc, sc, q % 10 ** sc)
        e = g.pick("", "-") + num + " / " + g.pick("", "-") + str(d)
        if g.p(0.3):
            e = "(" + e + ") * " + g.plainnum()
        if g.p(0.2):
            e = e + " - " + g.plainnum()
        line = g.pick("2020-01-01 price USD %s EUR\n", "2020-01-01 balance Assets:A %s EUR\n", "2020-01-01 * \"x\"\n  Assets:A %s USD\n", "2020-01-01 * \"x\"\n  Assets:A 1 USD {%s USD} @@ 2 EUR\n",
                      "2020-01-01 open Assets:A\n  kk: %s\n", "2020-01-01 custom \"x\" %s USD TRUE\n", "2020-01-01 * \"x\"\n  Assets:A 1 USD @ %s EUR\n", "2020-01-01 custom \"x\" (%s)\n", "pushmeta kk: %s\npopmeta kk:\n")
        out.append({"inline": line % e})
    ctx.add("ties", F, out)
    ctx.add("random expressions", F, [{"inline": (lambda g: "2020-01-01 price USD %s EUR\n" % g.join(g.num(g.n(1, 5))))(Gen(s, expr=0.9))} for s in seeds(ctx, "rnd", ctx.scale(300))])
    ctx.add("everywhere", F, ledgers(ctx, "everywhere", ctx.scale(120), expr=0.6, kinds=["txn", "txn", "balance", "price", "custom"]))
    ctx.flush(["LawHalfUlp"])


COST = ["5", "# 7", "5 # 7", "5 USD", "# 7 USD", "5 # 7 USD", "USD", "2020-02-02", '"lot"', "*", "5 #", "# USD", "5 # USD", "(1+2) USD"]


def c11(ctx):
    F = {"postings", "number", "errors", "load", "acctype"}
    h = '2020-01-01 * "x"\n'
    menu = {"slots": [{"alts": [h]}, {"alts": ["  ", "  ! ", "  # ", "  * ", "  'P ", "  & ", "  ? ", "  % "]}, {"alts": ["Assets:A", "Income:B:C-1"]}, {"alts": ["", " 10", " -1.50 USD", " USD", " 2*3 GBP", " +1 USD"]},
                      {"alts": ["", " {}", " {5 USD}", " {# 7 USD}", " {5 # 7 USD}", ' {2020-02-02, "l", *}', " {USD}"]}, {"alts": ["", " @", " @@", " @ 1", " @@ 1", " @ EUR", " @@ EUR", " @ 2 EUR", " @@ 2 EUR", " @ -2 EUR"]}, {"alts": ["\n", "\n  Assets:Z\n"]}]}
    ctx.compose("posting menu", F, menu, ctx.scale(1000))
    menu = {"slots": [{"alts": [h + "  Assets:A 1 USD {"]}, {"alts": COST}, {"alts": [""] + [", " + c for c in COST]}, {"alts": ["", ", 2021-03-03", ', "m"', ", *", ", 9 EUR"]}, {"alts": ["}\n", "} @ 1 EUR\n"]}]}
    ctx.compose("cost menu", F, menu, ctx.scale(900))
    ctx.add("transactions", F, ledgers(ctx, "txn", ctx.scale(220), size=(1, 3), kinds=["txn"], meta=0.15))
    out = []
    for s in seeds(ctx, "many", ctx.scale(40)):
        g = Gen(s, meta=0.1, expr=0.1)
        ls = [(False, ["2020-01-01", "*", '"x"'])]
        for _ in range(g.n(6, 30)):
            ls += g.posting()
        out.append({"inline": g.render(ls)})
    ctx.add("many postings", F, out)
    general(ctx, F, 80)
    ctx.flush()


def c12(ctx):
    F = {"fields", "errors", "load", "number", "members", "acctype"}
    toks = ["", " Assets:A", " USD", " 1.50", ' "s"', " 2020-02-02", ", EUR", " ~ 0.1", " TRUE", " #t", ' ""', " Foo:B"]
    kws = ["open", "close", "balance", "price", "commodity", "pad", "document", "note", "event", "query", "custom", "txn"]
    for i, (lab, ks) in enumerate([("account first", ["open", "close", "balance", "pad", "document", "note"])]):
        ctx.compose(lab, F, {"slots": [{"alts": ["2020-01-01 " + k + " Assets:A" for k in ks]}, {"alts": toks, "times": 3}, {"alts": ["\n"]}]}, ctx.scale(800))
    ctx.compose("other first", F, {"slots": [{"alts": ["2020-01-01 " + k + t for k in ["price", "commodity"] for t in (" USD",)] + ["2020-01-01 " + k + ' "x"' for k in ("event", "query", "custom", "txn", "*", "!")] + ["2020-01-01 %"]}, {"alts": toks, "times": 3}, {"alts": ["\n"]}]}, ctx.scale(800))
    ctx.compose("any", F, {"slots": [{"alts": ["2020-01-01 ", "1999/12/31 ", ""]}, {"alts": kws + ["Open", "txn2", "&", "#", "?", "'Q"]}, {"alts": toks, "times": 2}, {"alts": ["\n", "\n  kk: 1\n", "\n  Assets:A\n"]}]}, ctx.scale(700))
    bk = ["STRICT", "STRICT_WITH_SIZE", "NONE", "AVERAGE", "FIFO", "LIFO", "HIFO"]
    ctx.compose("bookings", F, {"slots": [{"alts": ["2020-01-01 open Assets:A ", "2020-01-01 open Assets:A USD ", "2020-01-01 open Assets:A USD,EUR "]}, {"alts": ['"%s"\n' % y for b in bk for y in (b, b + " ", " " + b, b.lower(), b.capitalize(), b + "\n", b.replace("_", " ") if "_" in b else b + "_", b[:-1])]}]}, ctx.scale(200))
    for k in gen.KINDS:
        ctx.add("kind " + k, F, ledgers(ctx, "k" + k, ctx.scale(28), size=(1, 3), kinds=[k], meta=0.15, uni=0.3))
    ctx.add("spoilt", F, ledgers(ctx, "spoilt", ctx.scale(250), size=(1, 1), bad=0.9))
    ctx.add("custom", F, [{"inline": (lambda g: "2020-01-01 custom \"x\" " + g.join([p for _ in range(g.n(0, 8)) for p in g.metaval()]) + "\n")(Gen(s))} for s in seeds(ctx, "custom", ctx.scale(60))])
    general(ctx, F, 80)
    ctx.flush()
    w = wide.many()
    large(ctx, F, [w["currencies"], w["values"], w["postings"]])


KEYWORDS = ["txn", "open", "close", "balance", "price", "commodity", "pad", "document", "note", "event", "query", "custom", "option", "options", "plugin", "include", "pushtag", "poptag", "pushmeta", "popmeta"]


def c13(ctx):
    F = {"tags", "links", "meta", "lookup", "errors", "load", "postings"}
    heads = ["2020-01-01 open Assets:A\n", '2020-01-01 * "x" #a ^l\n', '2020-01-01 note Assets:A "n" #a\n', '2020-01-01 custom "c" 1\n', "2020-01-01 close Assets:A ^l #b #c\n"]
    lines = ["", "  kk: 1\n", '  kk: "x"\n', "  mm:\n", "  #a\n", "  #b\n", "  ^l\n", "  ^a\n", "  Assets:P 1 USD\n", "  Assets:Q\n", "  mm: USD\n", "  options: 1\n", "  ^A\n"]
    ctx.compose("line menu", F, {"slots": [{"alts": heads}, {"alts": lines, "times": 4}]}, ctx.scale(900))
    txn = {"slots": [{"alts": [heads[1]]}, {"alts": lines[:8]}, {"alts": ["  Assets:P 1 USD\n"]}, {"alts": lines[:8], "times": 2}, {"alts": ["  Assets:Q\n"]}, {"alts": lines[:8]}]}
    ctx.compose("transaction menu", F, txn, ctx.scale(700))
    vals = ["", ' "s"', " USD", " Assets:A", " #t", " ^l", " 2020-02-02", " TRUE", " FALSE", " NULL", " 1.50", " 1 USD", " -(2+3)", " 1/3 GBP", " true", " Foo:A", " 1 2", " USD EUR", ' "a" "b"', " #t #u"]
    ctx.compose("value menu", F, {"slots": [{"alts": ["2020-01-01 open Assets:A\n  kk:", "2020-01-01 *\n  Assets:A\n    kk:", '2020-01-01 custom "x"', "pushmeta kk:"]}, {"alts": vals}, {"alts": ["\n", " ; c\n"]}]}, ctx.scale(700))
    ctx.add("directives", F, ledgers(ctx, "dirs", ctx.scale(200), size=(1, 4), meta=0.7))
    out = []
    for s in seeds(ctx, "many", ctx.scale(40)):
        g = Gen(s, meta=0.5, expr=0.1)
        ls = g.entry()[:1]
        n = g.n(5, 25)
        ks = ["k%d" % i for i in range(n)]
        if g.p(0.5):
            ks = (KEYWORDS + ks)[:max(n, 20)] if g.p(0.5) else g.r.sample(KEYWORDS, 12) + ks[:3]
        g.r.shuffle(ks)
        for k in ks:
            x = g.r.random()
            ls.append((True, [k, ":"] + g.metaval() if x < 0.6 else ["#" + k] if x < 0.8 else ["^" + k]))
        out.append({"inline": g.render(ls)})
    ctx.add("many", F, out)
    general(ctx, F, 80)
    ctx.flush()
    w = wide.many()
    large(ctx, F, [w["tags"], w["links"], w["meta"], w["postings"]])


FILL = ["", "\n", "   \n", "\t\n", "; c\n", "  ; c\n", "* h\n", "! h\n", "& h\n", "# h\n", "? h\n", "% h\n", ": h\n", "  : x\n", ' ; "u\n', "*\n", "\r\n", "** 2020-01-01 open Assets:Z\n", "#+x: \"\n", ";\n"]


def c14(ctx):
    F = VALUES | {"errors", "order", "members", "load", "warnings"}
    lines = [("2020-01-01 open Assets:A USD", ), ("  kk: 1",), ('2020-01-02 * "p" "n" #a',), ("  mm: \"v\"",), ("  Assets:A  1 USD",), ("    kk: 2",), ("  Assets:B",), ('option "title" "T"',), ('plugin "p"',)]
    lines = [l[0] for l in lines]
    # fillers at every place, one after another
    for eol, lab in (("\n", "fillers"), ("\r\n", "fillers crlf")):
        sl = [{"alts": FILL}]
        for l in lines[:2] + lines[2:7]:
            sl += [{"alts": [l + eol]}, {"alts": FILL}]
        ctx.compose(lab, F, {"slots": sl}, ctx.scale(450), same=True)
    ends = ["", "\n", " ", " ; c", "\r\n", "\n\n  ", "\n\t", " \t\n", ";c\n", "\n* x", "\n  ; x", "\n;"]
    eols = ["\n", "\r\n", " \n", "\t \r\n", " ; c\n", ";c\r\n", "\n  \n", "\n;x\n"]
    ind = ["  ", " ", "\t", "    ", " \t "]
    sp = [" ", "  ", "\t", " \t "]
    sl = [{"alts": ["", "\n", "; c\n", "  \n", "* x\n", " ; c\n"]}, {"alts": ["2020-01-02"]}, {"alts": sp}, {"alts": ["*"]}, {"alts": sp}, {"alts": ['"p"']}, {"alts": [" "]}, {"alts": ['"n"']}, {"alts": eols}, {"alts": ind}, {"alts": ["kk:"]}, {"alts": ["", " ", "\t"]}, {"alts": ["1"]}, {"alts": eols},
          {"alts": ind}, {"alts": ["Assets:A"]}, {"alts": sp}, {"alts": ["1"]}, {"alts": sp}, {"alts": ["USD"]}, {"alts": ends}]
    ctx.compose("spacing", F, {"slots": sl}, ctx.scale(500), same=True)
    ctx.compose("pragma endings", F, {"slots": [{"alts": FILL}, {"alts": ['pushtag #a', 'option "title" "x"', 'plugin "p"', "pushmeta kk: 1", "2020-01-01 open Assets:A", "2020-01-01 *", 'include "x"']}, {"alts": ends}]}, ctx.scale(600))
    ctx.add("noisy", F, ledgers(ctx, "noisy", ctx.scale(200), noise=0.4, pragmas=0.15, options=0.08))
    ctx.add("noisy malformed", F, ledgers(ctx, "noisybad", ctx.scale(80), noise=0.35, bad=0.2))
    # the same ledger in several layouts: compared with each other as well
    ctx.add("noisy files", F, forest(ctx, "nf", ctx.scale(60), noise=0.35, entries=(1, 2), missing=0))
    ctx.flush()


def c15(ctx):
    F = {"span", "resolve", "load"}
    G = F | {"errors"}
    laws = ["LawBlocks", "LawErrorPlaces"]
    w = ["a", "é", "日本", "\U0001F600", "x y", ""]
    sl = [{"alts": ["", "; é\n", "\n\n", "\r\n", "* 日\n"]}, {"alts": ["2020-01-02 * "]}, {"alts": ['"%s" ' % x for x in w]}, {"alts": ['"%s"' % x for x in w]}, {"alts": [" #a", " ^l #b", ""]}, {"alts": ["\n", " ; c\n", "\r\n", "  \n\n"]}, {"alts": ["  kk: \"é\"\n", "\tkk:   USD\n", ""]},
          {"alts": ["  ! Assets:É 1 USD {1 # 2 EUR, \"é\"} @@ 3 GBP", "  Assets:A  2*(3+4) USD", "  Assets:A @ EUR"]}, {"alts": ["\n", "", " ; é\n", "\n  Assets:B\n  #t\n", "\n\n; é\n"]}, {"alts": ["", "2020-01-03 open Assets:A USD,EUR \"FIFO\"\n", "1 é\n"]}]
    ctx.compose("menu", G, {"slots": sl}, ctx.scale(900), laws)
    ctx.add("ledgers", G, ledgers(ctx, "ledgers", ctx.scale(250), noise=0.15, uni=0.5, pragmas=0.1, options=0.1))
    ctx.add("malformed", G, ledgers(ctx, "malformed", ctx.scale(80), noise=0.1, uni=0.5, bad=0.2))
    ctx.add("files", G, forest(ctx, "files", ctx.scale(120), pragmas=0.2, options=0.2, plugins=0.2, missing=0.05, entries=(1, 3), uni=0.4))
    few = dict(dates=3, meta=0.3, kinds=["open", "close", "txn", "note"], tags=["a", "b"], keys=["kk", "mm"], expr=0.1)
    ctx.add("pushes", G, [{"inline": (lambda g: g.render(pushseq(g, "both", g.n(5, 18), closeall=0.95)))(Gen(s, **few))} for s in seeds(ctx, "pushes", ctx.scale(80))])
    ctx.add("push files", G, [pushtree(s, "both") for s in seeds(ctx, "pushfiles", ctx.scale(50))])
    ctx.add("crlf", G, [{"inline": (lambda g: g.render(g.ledger(g.n(1, 5), options=0.1), crlf=True, noise=0.1))(Gen(s, uni=0.5))} for s in seeds(ctx, "crlf", ctx.scale(50))])
    ctx.flush(laws)
    large(ctx, G, [wide.far(), wide.far("é\n"), wide.far(wide.op(3, " USD,EUR,USD"), crlf=True), wide.files("2020-01-01 close Assets:A #a\n"), wide.files("  \n2020-01-01 close Assets:A #a #a\n"), wide.tail(1100)])


BADBLOCKS = ["garbage\n", "2020-01-01 open\n", "2020-13-01 open Assets:A\n", "2020-01-01 open Assets:A\n  bad line\n", '2020-01-01 * "x"\n  Foo:B 1 USD\n', "2020-01-01 balance Assets:A 1\n", "$\n", "  indented\n", "2020-01-01 close assets:a\n", "2020-01-01 * \"x\"\n  Assets:A 1 USD {1 USD, 2 USD}\n", "pushtag a\n", 'option "title"\n', "plugin\n", "popmeta kk\n", 'plugin "p" | x\n', "pushtag #a #b\n", 'include\n', 'option "title" "t" "u"\n', "pushmeta kk 1\n", "pushmeta kk: 1 2\n"]


def c18(ctx):
    F = {"errors", "load"}
    laws = ["LawBlocks", "LawErrorPlaces"]
    good = ["2020-01-01 open Assets:A\n", '2020-01-01 * "x"\n  Assets:A 1 USD\n', 'option "title" "t"\n']
    sem = ["poptag #z\n", "2020-01-01 open Assets:A USD,USD\n", 'option "bogus" "1"\n', "2020-01-01 price USD 1/0 EUR\n", "2020-01-01 open Assets:A\n  kk: 1\n  kk: 2\n"]
    ctx.compose("blocks", F, {"slots": [{"alts": good + sem + BADBLOCKS, "times": 4}]}, ctx.scale(900), laws)
    # malformed entries which are no pragmas, where everything else is settled
    plain = [b for b in BADBLOCKS if not b.startswith(("push", "pop", "opt", "plu", "inc"))]
    ctx.compose("blocks without pragmas", F, {"slots": [{"alts": good + sem + plain, "times": 4}]}, ctx.scale(400), laws)
    ctx.compose("separated without pragmas", F, {"slots": [{"alts": good[:2]}, {"alts": plain}, {"alts": good[:2]}, {"alts": plain + sem}, {"alts": good[:2]}, {"alts": sem + plain}]}, ctx.scale(400), laws)
    ctx.compose("separated", F, {"slots": [{"alts": good[:2]}, {"alts": BADBLOCKS}, {"alts": good[:2]}, {"alts": BADBLOCKS + sem}, {"alts": good[:2]}, {"alts": sem + BADBLOCKS}]}, ctx.scale(600), laws)
    ctx.add("malformed", F, ledgers(ctx, "mal", ctx.scale(400), size=(2, 8), bad=0.35, pragmas=0.1, options=0.05))
    ctx.add("scalars", F, ledgers(ctx, "scal", ctx.scale(150), size=(2, 8), **{"meta": 0.3}) if False else [{"inline": (lambda g: g.render(g.ledger(g.n(2, 6), pragmas=0.1)))(Gen(s, bad=0.03))} for s in seeds(ctx, "scal", ctx.scale(150))])
    ctx.add("files", F, forest(ctx, "files", ctx.scale(120), bad=0.02, entries=(1, 3), missing=0.1, pragmas=0.2))
    ctx.add("long", F, ledgers(ctx, "long", ctx.scale(20), size=(15, 40), bad=0.3, meta=0.1, expr=0))
    ctx.flush(laws)
    large(ctx, F, [wide.files("2020-01-01 close\n"), wide.far("garbage\n"), {"inline": "".join("2020-01-01 open Assets:A\n2020-01-01 close\n" for _ in range(wide.N))}])


def c22(ctx):
    F = {"fields", "errors", "warnings", "load", "plugins", "meta", "opts", "postings"}
    laws = ["LawWarnings"]
    ch = ["a", "\\\\", '\\"', "\\n", "\n", ";", "#", "é", "\\t", "\\x41", "\\u00e9", "\\u{1F600}", "\\101", "\\q", " ", "|", "\\'", "\\r", "\\0", "'", "\\/", "\\b", "\\f", "\\u12", "\\x4"]
    ctx.compose("characters", F, {"slots": [{"alts": ['2020-01-01 event "e" "', '2020-01-01 open Assets:A\n  kk: "', 'plugin "']}, {"alts": ch, "times": 3}, {"alts": ['"\n']}]}, ctx.scale(900))
    ctx.compose("escapes", F, {"slots": [{"alts": ['2020-01-01 note Assets:A "']}, {"alts": ["\\", "\\x", "\\u", "\\u{", "a\\"]}, {"alts": list("0123478aAfFgnrtbvxu\"'\\{é /?e\n") + [""]}, {"alts": list("0479afFgz}\"") + [""]}, {"alts": ["", "1", "4f", "00}", "}"]}, {"alts": ['z"\n']}]}, ctx.scale(700))
    out = []
    for s in seeds(ctx, "long", ctx.scale(150)):
        g = Gen(s)
        ls = []
        lim = 64
        for _ in range(g.n(1, 5)):
            if g.p(0.35):
                lim = g.pick(0, 1, 2, 3, 5, 10, 63, 64, 65, 100)
                ls.append('option "long_string_maxlines" "%d"\n' % lim)
            k = max(0, g.pick(lim - 2, lim - 1, lim, lim + 1, lim + 5, 1, 2))
            body = "".join(g.pick("a", "", "; x", "#y", "\\n", "é") + g.pick("\n", "\n", "\r\n" if g.p(0.1) else "\n") for _ in range(k)) + g.pick("", "z")
            two = lambda x: (x, g.pick(x, "s", x + "\n"))
            if g.p(0.25):
                ls.append(g.pick('2020-01-01 * "%s" "%s"\n', '2020-01-01 event "%s" "%s"\n', '2020-01-01 query "%s" "%s"\n', 'plugin "%s" "%s"\n', '2020-01-01 custom "%s" "%s"\n', '2020-01-01 note Assets:A "%s"\n  kk: "%s"\n',
                                 '2020-01-01 *\n  Assets:A 1 USD {"%s"}\n    kk: "%s"\n', '2020-01-01 custom "x" 1 "%s" TRUE "%s"\n') % two(body))
            else:
                ls.append(g.pick('2020-01-01 note Assets:A "%s"\n', '2020-01-01 * "%s" "x"\n', '2020-01-01 open Assets:A\n  kk: "%s"\n', 'plugin "%s"\n', '2020-01-01 event "a" "%s"\n', 'option "title" "%s"\n', '2020-01-01 * "x"\n  Assets:A 1 USD {"%s"}\n', '2020-01-01 custom "%s"\n',
                                 '2020-01-01 * "%s"\n', '2020-01-01 ! "x" "%s" #a\n', '2020-01-01 query "%s" "x"\n', '2020-01-01 query "x" "%s"\n', '2020-01-01 document Assets:A "%s"\n', 'plugin "x" "%s"\n', '2020-01-01 *\n  Assets:A 1 USD\n    kk: "%s"\n',
                                 'pushmeta kk: "%s"\npopmeta kk:\n', '2020-01-01 event "%s" "a"\n', '2020-01-01 custom "x" "%s"\n', '2020-01-01 custom "x" 5 "%s" USD\n') % body)
        if g.p(0.3):
            out.append({"root": "r", "files": [{"path": "r", "text": ls[0] + 'include "s"\n' + "".join(x for x in ls[1:2] if "title" not in x)}, {"path": "s", "text": "".join(ls[2:])}]})
        else:
            out.append({"inline": "".join(ls)})
    ctx.add("long strings", F, out)
    ctx.add("strings", F, [{"inline": (lambda g: "".join("2020-01-01 event %s %s\n" % (g.string(), g.string()) for _ in range(g.n(1, 5))))(Gen(s, bad=[0, 0, 0.05][s % 3]))} for s in seeds(ctx, "str", ctx.scale(150))])
    rnd = []
    for s in seeds(ctx, "rnd", ctx.scale(250)):
        g = Gen(s)
        body = "".join(g.pick("a", "b", " ", "\\\\", '\\"', "\\n", "\n", "é", "日", "\t", "'", ";", "#", "*", "{", "}", "@", "\u00a0", "\U0001F600", "\\t", "\\x7e", "\\u0041", "\\u{e9}", "\\r", "%", "\u2028", "\\60", "\r\n", "\n\n", "\\\\n") for _ in range(g.n(0, 25)))
        rnd.append({"inline": g.pick('2020-01-01 query "q" "%s"\n', '2020-01-01 * "%s"\n', '2020-01-01 open Assets:A\n  kk: "%s"\n', 'option "title" "%s"\n', 'plugin "m" "%s"\n') % body})
    ctx.add("random strings", F, rnd)
    ctx.add("mixed", {"warnings"}, ledgers(ctx, "mixed", ctx.scale(80), options=0.2, bad=0.05))
    ctx.flush(laws)
    large(ctx, F, [{"inline": '%s2020-01-01 note Assets:A "%s"\n' % ('option "long_string_maxlines" "%d"\n' % lim if lim else "", "x\n" * k)} for lim, k in ((0, 255), (0, 256), (0, 300), (256, 255), (256, 256), (300, 100), (300, 299), (300, 300), (320, 300), (65536, 70), (65600, 70), (16777216, 70))])


def c23(ctx):
    F = {"fields", "number", "errors", "load", "meta", "postings"}
    ctx.compose("dates", F, {"slots": [{"alts": ["2020", "2021", "1900", "2000", "0000", "0001", "9999", "0004", "2100"]}, {"alts": ["-", "/"]}, {"alts": ["00", "01", "02", "04", "06", "09", "11", "12", "13", "1", "99"]}, {"alts": ["-", "/"]}, {"alts": ["00", "01", "28", "29", "30", "31", "32", "9"]}, {"alts": [" open Assets:A\n"]}]}, ctx.scale(900))
    m = ["31", "30", "29", "28"]
    ctx.compose("month ends", F, {"slots": [{"alts": ["2023-", "2024-", "1600-", "1700-"]}, {"alts": ["%02d" % i for i in range(1, 13)]}, {"alts": ["-"]}, {"alts": m}, {"alts": [" commodity USD\n"]}]}, ctx.scale(400))
    num = {"slots": [{"alts": ["2020-01-01 price USD "]}, {"alts": ["0", "1", "12", "123", "1234", "00", "012"]}, {"alts": ["", ",000", ",12", ",1234", ",123,456", ",12,345", ","]}, {"alts": ["", ".", ".0", ".50", ".123456", ".5,000", "..5", ".0000000000000000000000000000", ".00000000000000000000000000001"]}, {"alts": [" EUR\n", "EUR\n", ". EUR\n"]}]}
    ctx.compose("numbers", F, num, ctx.scale(700))
    words = ["TRUE", "FALSE", "NULL", "True", "true", "TRUEX", "TRUE1", "FALS", "FALSEs", "NULLS", "nULL", "T", "TRUE-", "NUL", "TRUE.", "FALSE_X", "#TRUE", "NULL'"]
    ctx.compose("words", F, {"slots": [{"alts": ["2020-01-01 open Assets:A\n  kk: ", '2020-01-01 custom "x" ', "pushmeta kk: ", "2020-01-01 commodity "]}, {"alts": words}, {"alts": ["\n", " \n", ";c\n"]}]}, ctx.scale(400))
    pos = []
    for s in seeds(ctx, "positions", ctx.scale(250)):
        g = Gen(s, bad=[0, 0.25][s % 2])
        d, n = g.date(), g.plainnum()
        pos.append({"inline": g.pick("%(d)s open Assets:A\n", "2020-01-01 * \"x\"\n  Assets:A %(n)s USD {%(d)s}\n", "2020-01-01 open Assets:A\n  kk: %(d)s\n", "2020-01-01 balance Assets:A %(n)s ~ %(n)s USD\n",
                                       "2020-01-01 custom \"x\" %(d)s %(n)s %(d)s\n", "%(d)s txn \"x\"\n", "2020-01-01 * \"x\"\n  Assets:A 1 USD @ %(n)s USD\n", "2020-01-01 price USD -%(n)s EUR\n", "pushmeta kk: %(d)s\npopmeta kk:\n", "option \"inferred_tolerance_multiplier\" \"1\"\n%(d)s price X %(n)s Y\n") % {"d": d, "n": n}})
    ctx.add("positions", F, pos)
    big = []
    for s in seeds(ctx, "big", ctx.scale(200)):
        g = Gen(s)
        k = g.n(1, 31)
        dg = "".join(g.pick("0123456789") for _ in range(k))
        p = g.n(0, k)
        t = (dg[:p] or "0") + ("." + dg[p:] if dg[p:] else "")
        if g.p(0.3):
            i = dg[:p] or "0"
            i = "{:,}".format(int(i)) if g.p(0.8) else i
            t = i + ("." + dg[p:] if dg[p:] else "")
        big.append({"inline": "2020-01-01 price USD %s%s EUR\n" % (g.pick("", "-"), t)})
    ctx.add("digits", F, big)
    alld = []
    for s in seeds(ctx, "year", ctx.scale(12)):
        g = Gen(s)
        y = g.n(0, 9999)
        alld.append({"inline": "".join("%04d-%02d-%02d open Assets:A\n" % (y, m_, d_) for m_ in range(1, 13) for d_ in ([1, 28] + ([29] if m_ != 2 or (y % 4 == 0 and (y % 100 or y % 400 == 0)) else []) + ([30] if m_ != 2 else []) + ([31] if m_ in (1, 3, 5, 7, 8, 10, 12) else [])))})
    ctx.add("years", F, alld)
    general(ctx, {"number", "fields", "meta"}, 60)
    ctx.flush()


from checks_places import *    # noqa
from checks_print import *     # noqa
from checks_run import *       # noqa
