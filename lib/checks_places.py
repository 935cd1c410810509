"""Checks of spans, synthetic sources and identifier types: models of their own, enumerated by TLC and replayed."""
import json, os, random
import tlc
from gen import Gen

LAWCFG = "SPECIFICATION Spec\nINVARIANT Emit\n%sCHECK_DEADLOCK FALSE\n"


def rng(ctx, label):
    return random.Random(ctx.rng(label))


def put(ctx, name, obj):
    p = os.path.join(ctx.shards.top, name)
    with open(p, "w") as f:
        json.dump(obj, f)
    return p


ALPHA = ["a", "\u00e9", "\u65e5", "\n", "\r", " ", "\u00a0"]
WIDE = ["a", "b", "Z", "\u00e9", "\u65e5", "\U0001F600", "\n", "\n", "\r\n", " ", "\t", "\u00a0", "\u3000", "\u2028", "\u0085", ";", '"', "\x0b", "\x0c", "\u0301", "\u20ac"]


def c16(ctx):
    r = rng(ctx, "texts")
    texts = []
    for _ in range(ctx.scale(60)):
        n = r.choice([5, 6, 8, 12, 20, 30])
        w = r.choice([WIDE, ALPHA, ["a", "\n"], ["\U0001F600", "\n", " "], ["\u00a0", "\u3000", "x"]])
        texts.append("".join(r.choice(w) for _ in range(n)))
    mx = 3 if ctx.quick() else 5
    inp = put(ctx, "spans.json", {"alphabet": [ord(c) for c in ALPHA], "max": mx, "texts": [tlc.codes(t) for t in texts]})
    out, st = tlc.run("Spans", cfgtext=LAWCFG % "INVARIANT LawSound\nINVARIANT LawPrefix\n", env={"SPANS": inp}, timeout=800)
    ctx.stats(st)
    rows = sorted(out.values(), key=lambda x: x["t"])
    scns, meta = [], []
    for n, x in enumerate(rows):
        t = "".join(map(chr, x["t"]))
        size = len(t.encode())
        exp = {(a[0], a[1]): a for row in x["a"] for a in row}
        if size <= 20:
            qs = [(s, e) for s in range(size + 3) for e in range(size + 3)]
        else:
            b = sorted({k[0] for k in exp})
            qs = list(exp)
            qs = r.sample(qs, min(len(qs), 250))
            qs += [(r.randint(0, size + 3), r.randint(0, size + 3)) for _ in range(80)] + [(r.choice(b), r.choice(b)) for _ in range(40)]
        qs += [(0, 2**62), (2**62, 2**62), (2**63, 0), (size, 2**64 - 1), (2**64 - 1, 2**64 - 1)]
        kind = n % 4
        queries = []
        if kind == 0:
            scn = {"op": "resolve", "inline": t, "owned": n % 8 == 0}
            src, want = 0, None
        elif kind == 1:
            scn = {"op": "resolve", "root": "d/t", "files": [{"path": "d/t", "text": t}], "mode": ["abs", "rel", "dot"][n % 3]}
            src, want = 0, {"abs": "@ROOT@/d/t", "rel": "d/t", "dot": "./d/t"}[scn["mode"]]
        elif kind == 2:
            # second of two included files
            scn = {"op": "resolve", "root": "r", "files": [{"path": "r", "text": 'include "o"\ninclude "d/t"\n'}, {"path": "d/t", "text": t}, {"path": "o", "text": "\n\u65e5\n\n"}]}
            src, want = 2, "@ROOT@/d/t"
        else:
            scn = {"op": "resolve", "inline": '; \u00e9\ninclude "@ROOT@/d/t"\n', "files": [{"path": "d/t", "text": t}, {"path": "z", "hex": "ff"}]}
            src, want = 1, "@ROOT@/d/t"
        queries = [(src, s, e) for s, e in qs]
        # sources that do not exist
        queries += [(q, s, e) for q in (3, 77, 2**63) for s, e in ((0, 0), (0, 1), (5, 2))]
        scn["queries"] = queries
        scns.append(scn)
        meta.append((t, exp, src, want))
    res = ctx.run(scns)
    for scn, (t, exp, src, want), g in zip(scns, meta, res):
        ctx.traces += 1
        ctx.note("texts", 1)
        if "res" not in g:
            ctx.violation("texts", scn, ["no result: %s" % json.dumps(g)[:300]], g)
            continue
        bad = []
        for (q, s, e), a in zip(scn["queries"], g["res"]["answers"]):
            ctx.compared += 1
            if "panic" in a:
                bad.append("panic resolving %s" % [q, s, e])
                continue
            x = exp.get((s, e)) if q == src else None
            if x is None:
                if a["content"] != "" or a["txt"] != "":
                    bad.append("span %s should be empty, is %r / %r" % ([q, s, e], a["content"], a["txt"]))
                continue
            w = [want, x[4], x[5], t[x[2] - 1:x[3] - 1], t[x[2] - 1:x[3] - 1]]
            h = [a["file"], a["l1"], a["l2"], a["content"], a["txt"]]
            if w != h:
                bad.append("span %s of %r: expected %r, got %r" % ([q, s, e], t, w, h))
        if bad:
            ctx.violation("texts", dict(scn, queries=scn["queries"][:50]), bad[:10])
        else:
            ctx.sample("texts", {"text": t, "spans": len(scn["queries"])})
    # the spans of parsed elements and errors, in ledgers
    import checks
    F = {"resolve", "span", "load"}
    ctx.add("ledgers", F, checks.ledgers(ctx, "ledgers", ctx.scale(80), noise=0.3, uni=0.6, pragmas=0.1))
    ctx.add("errors", F | {"errors"}, checks.ledgers(ctx, "errors", ctx.scale(80), noise=0.3, uni=0.6, bad=0.3))
    ctx.add("files", F, checks.forest(ctx, "files", ctx.scale(50), uni=0.6, noise=0.3, entries=(1, 2), missing=0.05))
    import wide
    ctx.add("large", F | {"errors"}, [wide.far(), wide.far("\u65e5\n", crlf=True), wide.files("\n; \u00e9\n2020-01-01 close Assets:A #a #a\n")])
    ctx.flush()
    return {"exhaustive": False, "alphabet": ALPHA, "max_length": mx}


FRAGS = ["x", "\u00e9\n", "\u65e5\u672c ", "\n", "", "a\nb"]
FRAGW = ["x", "y z", "\u00e9", "\u65e5\u672c", "\n", "\n\n", " ", "\u00a0", "\U0001F600", "2020-01-01 open Assets:A", "\r\n", "", "end\n", "\tq"]


def c17(ctx):
    r = rng(ctx, "histories")
    hist = []
    for _ in range(ctx.scale(120)):
        names = r.randint(1, 5)
        hist.append([{"n": r.randint(1, names), "f": tlc.codes("".join(r.choice(FRAGW) for _ in range(r.randint(0, 4))))} for _ in range(r.choice([2, 4, 6, 10, 16]))])
    mx = 3 if ctx.quick() else 4
    inp = put(ctx, "synth.json", {"names": 2, "fragments": [tlc.codes(f) for f in FRAGS], "max": mx, "histories": hist})
    cfg = LAWCFG % "INVARIANT LawFragment\nINVARIANT LawStore\nINVARIANT LawNumbers\nPROPERTY LawStable\n"
    out, st = tlc.run("Synthetic", cfgtext=cfg, env={"SYNTH": inp}, timeout=800)
    ctx.stats(st)
    # more names, and more fragments of one name, than fit in eight bits; here the laws would take too long
    big = [[{"n": 1 + i % 270, "f": tlc.codes("\u00e9%d\n" % i)} for i in range(280)], [{"n": 1 + i % 2, "f": tlc.codes("\u65e5 \n\n")} for i in range(280)]]
    inp = put(ctx, "synthbig.json", {"names": 0, "fragments": [], "max": 0, "histories": big})
    out2, st = tlc.run("Synthetic", cfgtext=LAWCFG % "", env={"SYNTH": inp}, timeout=300)
    ctx.stats(st)
    out = list(out.values()) + list(out2.values())
    reals = [{"inline": "2020-01-01 open Assets:A\n; \u00e9\n\u65e5 \n"},
             {"root": "r", "files": [{"path": "r", "text": "; \u65e5\ninclude \"s/i\"\n"}, {"path": "s/i", "text": "\u00e9\n2020-01-01 open Assets:A\n\n"}]},
             {"root": "r", "mode": "rel", "files": [{"path": "r", "text": "include \"bad\"\n"}, {"path": "bad", "hex": "c3"}]}]
    nreal = [1, 2, 2]
    NAMES = ["", "plugin", "<synthetic two>", "n\u00e9", "zz", "a/b.bean", "plugi"] + ["w%d" % i for i in range(300)]
    scns, meta = [], []
    for k, x in enumerate(sorted(out, key=lambda v: json.dumps(v["h"]))):
        v = k % 3
        scn = dict(reals[v], op="synth", steps=[])
        want = []

        def resolve(i, row):
            scn["steps"].append({"a": "resolve", "i": i})
            want.append(("resolve", row))
        for i, row in enumerate(x["h"]):
            f = "".join(map(chr, row[1]))
            scn["steps"].append({"a": "create", "n": NAMES[row[0]], "f": f})
            want.append(("create", row))
            if r.random() < 0.25:
                scn["steps"].append({"a": "clone"})
                want.append(("clone", None))
            resolve(i, row)
            for j in ([r.randint(0, i)] if i > 4 else range(i)):
                resolve(j, x["h"][j])
            if r.random() < 0.4:
                q = [r.randint(0, nreal[v] - 1), r.randint(0, 20), r.randint(0, 50)]
                scn["steps"].append({"a": "real", "q": q})
                want.append(("real", q))
            if r.random() < 0.3:
                # parts of a fragment
                b = f.encode()
                s, e = r.randint(0, len(b)), r.randint(0, len(b))
                scn["steps"].append({"a": "sub", "i": i, "s": s, "e": e})
                want.append(("sub", (row, s, e, x["subs"][i])))
        for i, row in enumerate(x["h"]):
            resolve(i, row)
            if (r.random() < 0.3 and row[5]) or i == 0:
                scn["steps"].append({"a": "report", "i": i})
                want.append(("report", row))
        scns.append(scn)
        meta.append(want)
    res = ctx.run(scns)
    for scn, want, g in zip(scns, meta, res):
        v = [k for k in range(3) if all(scn.get(a) == b for a, b in reals[k].items())][0]
        base = nreal[v]
        ctx.traces += 1
        ctx.note("histories", 1)
        if "res" not in g:
            ctx.violation("histories", scn, ["no result: %s" % json.dumps(g)[:300]], g)
            continue
        bad = []
        for (kind, w), step, a in zip(want, scn["steps"], g["res"]["steps"]):
            ctx.compared += 1
            if kind == "create":
                # the numbers of sources are not prescribed, the offsets follow from them
                if a["sp"][1:] != [w[3], w[4]]:
                    bad.append("%s: span %s, expected %s" % (step, a["sp"], w[3:5]))
            elif kind == "resolve":
                c = "".join(map(chr, w[5]))
                e = [NAMES[w[0]], w[6], w[7], c, c]
                h = [a["file"], a["l1"], a["l2"], a["content"], a["txt"]]
                if e != h:
                    bad.append("%s: expected %r, got %r" % (step, e, h))
            elif kind == "sub":
                row, s, e, subs = w
                x = [y for z in subs for y in z if y[0] == s and y[1] == e]
                if not x:
                    if a["content"] != "" or a["txt"] != "":
                        bad.append("%s: should be empty, is %r" % (step, a))
                    continue
                c = "".join(map(chr, x[0][2]))
                e = [NAMES[row[0]], x[0][3], x[0][4], c, c]
                h = [a["file"], a["l1"], a["l2"], a["content"], a["txt"]]
                if e != h:
                    bad.append("%s: expected %r, got %r" % (step, e, h))
            elif kind == "real":
                if [a["file"], a["l1"], a["l2"], a["content"]] != a["base"] or a["txt"] != a["content"]:
                    bad.append("%s: with synthetic sources %r, without %r" % (step, a, a["base"]))
            elif kind == "report":
                c = "".join(map(chr, w[5]))
                place = "%s:%d:%d" % (NAMES[w[0]], w[8], w[9])
                if a["txt"] != c or "synthetic-reason" not in a["rep"] or not a["rep"].endswith("synthetic-annotation\n") or (c and place not in a["rep"]) or NAMES[w[0]] not in a["rep"]:
                    bad.append("report of %r should name %s: %r" % (c, place, a))
        if bad:
            ctx.violation("histories", scn, bad[:10], g["res"])
        else:
            ctx.sample("histories", {"steps": scn["steps"][:8]})
    return {"max_history": mx, "exhaustive": False}



KINDS = ["currency", "tag", "link", "key", "acctype", "accname", "subaccount", "flag"]
ABC = ["A", "Z", "a", "z", "0", "9", "-", "_", ".", "'", "/", ":", "\u00e9", "\u00c9", "\u65e5", "\u00b2", "\u0663", " ", "\n", "@", "[", "`", "{", "\u20ac", "\u0301"]


def c20(ctx):
    import checks
    r = rng(ctx, "texts")
    texts = set()
    for _ in range(ctx.scale(1500)):
        n = r.choice([4, 5, 6, 8, 12, 23, 24, 25, 26, 40])
        w = r.choice([["A", "B", "0", "-", "."], ["A", "a", "0", "-"], ["a", "b", "0", "-", "_"], ["A", "a", "\u00e9", "\u65e5", ":"], ["A", "a", ":"], ["a", "Z", "/", ".", "_", "-", "7"], ["/", "A", "'", "_", "0"], ["A"]])
        s = [r.choice(w) for _ in range(n)]
        if r.random() < 0.4:
            s[r.randrange(n)] = r.choice(ABC)
        if r.random() < 0.5:
            s[0] = r.choice("AZaz09/")
        texts.add("".join(s))
    # every ASCII character and the representatives, alone and in each position
    singles = [chr(c) for c in range(1, 127)] + [c for c in ABC if ord(c) > 126]
    for c in singles:
        texts |= {c, c + "A", "A" + c, "A" + c + "A", "a" + c, "a" + c + "b", c + "a", "A:" + c, c + ":A", "A0" + c, c + "0"}
    al = [{"chars": [ord(c) for c in ABC], "max": 2 if ctx.quick() else 3}, {"chars": [ord(c) for c in "Aa0-'/:.\u00e9"], "max": 4 if ctx.quick() else 6}]
    inp = put(ctx, "names.json", {"alphabets": al, "texts": [tlc.codes(t) for t in sorted(texts)]})
    out, st = tlc.run("Identifiers", cfgtext=LAWCFG % "INVARIANT LawInclusions\nINVARIANT LawJoin\n", env={"NAMES": inp}, timeout=800)
    ctx.stats(st)
    rows = {"".join(map(chr, x["s"])): x["r"] for x in out.values()}
    keys = sorted(rows)
    scns = [{"op": "names", "kinds": KINDS, "strings": keys[i:i + 400]} for i in range(0, len(keys), 400)]
    members = dict.fromkeys(KINDS, 0)
    for scn, g in zip(scns, ctx.run(scns)):
        if "res" not in g:
            ctx.violation("constructors", {"strings": scn["strings"][:20]}, ["no result: %s" % json.dumps(g)[:300]], g)
            continue
        for s, got in zip(scn["strings"], g["res"]["rows"]):
            ctx.traces += 1
            for k, e, h in zip(KINDS, rows[s], got):
                if k == "flag" and len(s) != 1:
                    continue
                ctx.compared += 1
                members[k] += e
                if e != h:
                    ctx.violation("constructors", {"op": "names", "kinds": [k], "strings": [s]}, ["%s %r: expected %s, got %s" % (k, s, ["rejected", "accepted"][e], h)])
    ctx.note("constructors", len(keys))
    ctx.sample("constructors", {k: rows[k] for k in r.sample(keys, 6)})
    # the same in ledgers and in option values
    F = {"fields", "tags", "links", "meta", "errors", "load", "opts", "acctype", "postings", "members", "number"}
    ids = ["A", "AB", "A1", "A-B", "A.B", "A'B", "A_B", "AB-", "A.", "a", "ab", "aB", "a-b", "a_b", "Ab", "A-b", "/A", "/1A", "/1", "A/B", "1A", "\u00c9", "\u00c9a", "A\u00e9", "a\u00e9", "\u65e5", "A:B", "A:b", "A:1", "A::B", "A:", "A:\u65e5", "0", "A" * 24, "A" * 25, "A1" * 13, "a.b", "a/b", "A~", "A+", "TRUE", "NULL", "txn", "a" * 30]
    pos = [("2020-01-01 commodity ", "\n"), ("2020-01-01 open Assets:", "\n"), ("2020-01-01 open ", ":X\n"), ("2020-01-01 close ", "\n"), ("2020-01-01 *  #", "\n"), ("2020-01-01 * ^", "\n"), ("2020-01-01 * \"\"\n  ", ": 1\n"), ("2020-01-01 ", " \"n\"\n"), ("2020-01-01 *\n  ", " Assets:A\n"),
           ("2020-01-01 open Assets:A X,", "\n"), ("pushtag #", "\n"), ("pushmeta ", ": 1\n"), ("2020-01-01 *\n  Assets:A 1 ", "\n"), ("2020-01-01 open Assets:A\n  kk: ", "\n"),
           ('option "operating_currency" "', '"\n'), ('option "name_assets" "', '"\n2020-01-01 open Income:X\n'), ('option "account_rounding" "', '"\n'), ('option "inferred_tolerance_default" "', ':1"\n'), ('option "conversion_currency" "', '"\n'), ('option "account_current_earnings" "', '"\n')]
    import gen
    ctx.compose("ledgers", F, {"slots": [{"alts": [a for a, _ in pos][:14]}, {"alts": ids}, {"alts": sorted({b for _, b in pos[:14]})}]}, ctx.scale(900))
    cross = [{"inline": a + i + b} for a, b in pos for i in ids]
    r.shuffle(cross)
    ctx.add("positions", F, cross if not ctx.quick() else cross[:700])
    rnd = []
    short = [k for k in keys if 0 < len(k) <= 5 and "\n" not in k and '"' not in k and "\\" not in k]
    for _ in range(ctx.scale(400)):
        a, b = r.choice(pos)
        rnd.append({"inline": a + r.choice(short) + b})
    ctx.add("random positions", F, rnd)
    ctx.flush()
    return {"members": members}
