"""Is what the implementation did allowed by what the specification expects?"""
import os
import re


class Diff:
    def __init__(self, facet, where, exp, got):
        self.facet, self.where, self.exp, self.got = facet, where, exp, got

    def __repr__(self):
        return "[%s] %s: expected %s, got %s" % (self.facet, self.where, short(self.exp), short(self.got))


def short(x):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) < 400 else s[:400] + "..."


def plain(x):
    """an expected value without its wrappers, for display and as a key"""
    if isinstance(x, dict):
        if "str" in x and len(x) == 1:
            return "".join(map(chr, x["str"]))
        if "o" in x and len(x) == 1:
            return plain(x["o"][0]) if x["o"] else None
        if "set" in x and len(x) == 1:
            return [plain(y) for y in x["set"]]
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(y) for y in x]
    return x


def bare(x):
    """an expectation without locations"""
    if isinstance(x, dict):
        return {k: bare(v) for k, v in x.items() if k != "sp"}
    if isinstance(x, list):
        return [bare(y) for y in x]
    return x


FIELD_FACETS = {"tags": "tags", "links": "links", "meta": "meta", "at": "acctype", "lookup_ok": "lookup", "x": "number"}


class Compare:
    def __init__(self, base, scn, exp, res):
        self.base, self.scn, self.exp, self.res = base, scn, exp, res
        self.diffs = []
        self.texts = {}
        for f in scn.get("files", []):
            if "text" in f:
                self.texts[os.path.normpath(os.path.join(base, f["path"]))] = f["text"].replace("@ROOT@", base)
        if "inline" in scn:
            self.texts[None] = scn["inline"].replace("@ROOT@", base)
        self.names = []
        for s in exp["srcs"]:
            self.names.append(None if s["k"] == "inline" else os.path.normpath(plain(s["name"])))
        self.spans = res.get("spans", {})
        self.checked = 0

    def diff(self, facet, where, exp, got):
        self.diffs.append(Diff(facet, where, exp, got))

    def real(self, name):
        return None if name is None else os.path.realpath(name)

    def file_of(self, sp):
        """name of the file an observed span lies in"""
        r = self.spans.get("%d,%d,%d" % tuple(sp))
        if r is None:
            return "?"
        if r[0] is None:
            return None
        n = r[0].replace("@ROOT@", self.base)
        return os.path.normpath(os.path.join(self.base, n))

    def content(self, name, s, e):
        t = self.text_of(name)
        if t is None:
            return None
        return t.encode()[s:e].decode("utf-8", "replace").rstrip().replace(self.base, "@ROOT@")

    def text_of(self, name):
        if name in self.texts:
            return self.texts[name]
        # spelled through a link
        if name is not None:
            for f in self.scn.get("files", []):
                if "symlink" in f:
                    p = os.path.join(self.base, f["path"])
                    if name == p or name.startswith(p + "/"):
                        q = os.path.normpath(os.path.join(os.path.dirname(p), f["symlink"].replace("@ROOT@", self.base)) + name[len(p):])
                        if q in self.texts:
                            return self.texts[q]
        return None

    def span(self, where, exp, got):
        """exp in one of the span forms of the specification, got [source, start, end]"""
        self.checked += 1
        if isinstance(exp, dict) and "free" in exp:
            return
        f = self.file_of(got)
        if isinstance(exp, list):
            src, s, e, l, m = exp
            if got[1:] != [s, e] or f != self.names[src]:
                self.diff("span", where, [self.names[src], s, e], [f] + got[1:])
            else:
                r = self.spans["%d,%d,%d" % tuple(got)]
                c = self.content(f, s, e)
                if c is not None and r[1:] != [l, m, c]:
                    self.diff("resolve", where, [l, m, c], r[1:])
            return
        if "rng" in exp:
            src, s0, s1, e0, e1 = exp["rng"]
            if not (f == self.names[src] and s0 <= got[1] <= s1 and e0 <= got[2] <= e1 and got[1] <= got[2]):
                self.diff("span", where, exp, [f] + got[1:])
            return
        if "anyof" in exp:
            if not any(f == self.names[a[0]] and a[1] <= got[1] <= got[2] <= a[2] for a in exp["anyof"]):
                self.diff("span", where, exp, [f] + got[1:])
            return
        if "dir" in exp:
            src, s, e, nxt, l = exp["dir"]
            n = self.names[src]
            t = self.text_of(n)
            lim = nxt if nxt >= 0 else (len(t.encode()) if t is not None else 1 << 60)
            if not (f == n and got[1] == s and e <= got[2] <= lim):
                self.diff("span", where, exp, [f] + got[1:])
            else:
                r = self.spans["%d,%d,%d" % tuple(got)]
                c = self.content(f, s, got[2])
                if c is not None and (r[1] != l or r[3] != c or r[2] != l + c.count("\n")):
                    self.diff("resolve", where, [l, l + c.count("\n"), c], r[1:])
            return
        raise AssertionError(exp)

    def value(self, facet, where, exp, got):
        if isinstance(exp, dict):
            if len(exp) == 1:
                if "str" in exp:
                    exp = plain(exp).replace(self.base, "@ROOT@")
                    if exp != got:
                        self.diff(facet, where, exp, got)
                    return
                if "o" in exp:
                    if not exp["o"]:
                        if got is not None:
                            self.diff(facet, where, None, got)
                    elif got is None:
                        self.diff(facet, where, plain(exp), None)
                    else:
                        self.value(facet, where, exp["o"][0], got)
                    return
                if "any" in exp:
                    alts = plain(exp["any"])
                    self.checked += 1
                    if alts and got not in alts:
                        self.diff("number", where, alts, got)
                    return
                if "set" in exp:
                    self.sets(facet, where, exp["set"], got)
                    return
            if not isinstance(got, dict):
                self.diff(facet, where, plain(exp), got)
                return
            for k in sorted(set(exp) | set(got)):
                w = where + "." + k
                if k not in exp or k not in got:
                    self.diff(facet, w, plain(exp.get(k, "(absent)")), got.get(k, "(absent)"))
                elif k == "sp":
                    self.span(w, exp[k], got[k])
                else:
                    self.value(FIELD_FACETS.get(k, facet), w, exp[k], got[k])
            return
        if isinstance(exp, list):
            if not isinstance(got, list) or len(exp) != len(got):
                self.diff(facet, where, plain(exp), got)
                return
            for i, (a, b) in enumerate(zip(exp, got)):
                self.value(facet, "%s[%d]" % (where, i), a, b)
            return
        self.checked += 1
        if exp != got or type(exp) is not type(got):
            self.diff(facet, where, exp, got)

    @staticmethod
    def setkey(x):
        x = plain(x)
        if isinstance(x, dict):
            return str(x["k"]["v"] if "k" in x else x["v"])
        if isinstance(x, list):
            return str(x[0])
        return str(x)

    def sets(self, facet, where, exp, got):
        ek = sorted((self.setkey(x) for x in exp))
        gk = sorted((self.setkey(x) for x in got))
        if where.endswith("documents"):
            norm = lambda p: os.path.normpath(os.path.join(self.base, p.replace("@ROOT@", self.base)))
            a, b = sorted(norm(x) for x in ek), sorted(norm(x) for x in gk)
            if a != b:
                self.diff(facet, where, a, b)
            return
        if ek != gk:
            # tags and metadata which come from a push pragma are a matter of their own
            pushed = {self.setkey(x) for x in exp if self.is_pushed(x)}
            delta = set(ek) ^ set(gk)
            own = [k for k in delta if k not in pushed and k in ek]
            f = facet
            if facet in ("tags", "meta"):
                f = facet if own else "push" + facet
                if not pushed and not own and not delta:
                    f = facet
            self.diff(f, where, ek, gk)
            return
        ge = {self.setkey(x): x for x in got}
        for x in exp:
            f = facet
            if facet in ("tags", "meta") and self.is_pushed(x):
                f = "push" + facet
            self.value(f, "%s{%s}" % (where, self.setkey(x)), x, ge[self.setkey(x)])

    @staticmethod
    def is_pushed(x):
        if not isinstance(x, dict):
            return False
        sp = x["k"]["sp"] if "k" in x else x.get("sp")
        return isinstance(sp, dict) and "anyof" in sp

    # ---- errors

    def place_matches(self, place, err):
        f = self.file_of(err["sp"])
        s, e = err["sp"][1:]
        if isinstance(place, list):
            return f == self.names[place[0]] and [s, e] == place[1:3]
        if "rng" in place:
            src, s0, s1, e0, e1 = place["rng"]
            return f == self.names[src] and s0 <= s <= s1 and e0 <= e <= e1
        if "in" in place:
            src, a, b = place["in"]
            return f == self.names[src] and a <= s <= e <= b
        raise AssertionError(place)

    def runs(self):
        """maximal runs of adjacent malformed blocks: (name, start, end of the first block, end)"""
        out = []
        for src, bl in enumerate(self.exp["blocks"]):
            i = 0
            while i < len(bl):
                if bl[i]["ok"]:
                    i += 1
                    continue
                j = i
                while j + 1 < len(bl) and not bl[j + 1]["ok"]:
                    j += 1
                end1 = bl[i + 1]["s"] - 1 if i + 1 < len(bl) else 1 << 60
                end = bl[j + 1]["s"] - 1 if j + 1 < len(bl) else 1 << 60
                # the first block of a run reaches up to the next block's first character when both are malformed
                out.append((self.names[src], bl[i]["s"], end1, end))
                i = j + 1
        return out

    def soft(self):
        """of an expectation which is open because of a malformed pragma: the malformed entries up to it are reported"""
        if "load_error" in self.res:
            return []
        got = self.res["parse"]
        if got["ok"]:
            self.diff("errors", "success", ["errors at", [list(r[:2]) for r in self.runs()]], "success")
            return self.diffs
        src, at = next((i, b["s"]) for i, bl in enumerate(self.exp["blocks"]) for b in bl if b["soft"])
        before = self.names[:src]
        places = [(self.file_of(e["sp"]), e["sp"][1]) for e in got["errors"]]
        for n, s, e1, end in self.runs():
            if n in before or (n == self.names[src] and s <= at):
                self.checked += 1
                if not any(f == n and s <= x <= e1 for f, x in places):
                    self.diff("errors", "malformed entry not reported", [n, s], [self.show_err(e) for e in got["errors"]][:6])
        return self.diffs

    def errors(self, got):
        runs = self.runs()
        used = [False] * len(got)
        slots = []
        for g in self.exp["errors"]:
            n = 1 if g["n"] == -1 else g["n"]
            for _ in range(n):
                slots.append(g)
        adj = [[i for i, e in enumerate(got) if any(self.place_matches(p, e) for p in g["at"])] for g in slots]
        match = {}

        def aug(u, seen):
            for v in adj[u]:
                if v in seen:
                    continue
                seen.add(v)
                if v not in match or aug(match[v], seen):
                    match[v] = u
                    return True
            return False
        for u in range(len(slots)):
            if not aug(u, set()):
                self.diff("errors", "missing error", [self.show_place(p) for p in slots[u]["at"]], [self.show_err(e) for e in got][:6])
        for v, u in match.items():
            used[v] = True
            if "rel" in slots[u]:
                self.related(slots[u]["rel"], got[v])
        for e in got:
            self.contexts(e)
        optional = [g for g in self.exp["errors"] if g["n"] <= 0]
        inrun = [[] for _ in runs]
        for i, e in enumerate(got):
            f = self.file_of(e["sp"])
            for k, (n, s, e1, end) in enumerate(runs):
                if f == n and s <= e["sp"][1] <= end:
                    inrun[k].append(e["sp"][1])
                    used[i] = True
            if not used[i] and any(self.place_matches(p, e) for g in optional for p in g["at"]):
                used[i] = True
            if not used[i]:
                self.diff("errors", "unexpected error", "none here", self.show_err(e))
        for k, (n, s, e1, end) in enumerate(runs):
            if not any(x <= e1 for x in inrun[k]):
                self.diff("errors", "malformed entry not reported", [n, s], [self.show_err(e) for e in got][:6])
        self.checked += len(slots) + len(runs) + len(got)

    def related(self, exp, err):
        """the other places an error or warning points at"""
        self.checked += 1
        e = [(self.names[r[0]], r[1], r[2]) for r in exp]
        g = [(self.file_of(x[1]),) + tuple(x[1][1:]) for x in err["rel"]]
        if e != g:
            self.diff("related", "related to %s" % self.show_err(err), e, g)

    def contexts(self, err):
        """the contexts of an error begin in its entry or the one before, no later than it"""
        f = self.file_of(err["sp"])
        src = [i for i, n in enumerate(self.names) if n == f]
        if not src or not err["ctx"]:
            return
        starts = [b["s"] for b in self.exp["blocks"][src[0]] if b["s"] <= err["sp"][1]]
        # text that cannot continue the entry before it may be reported in the context of that one
        lo = starts[-2] if len(starts) > 1 else 0
        self.checked += 1
        prev = None
        for _, c in err["ctx"]:
            if self.file_of(c) != f or not lo <= c[1] <= err["sp"][1] or (prev is not None and not c[1] <= prev):
                self.diff("context", "contexts of %s" % self.show_err(err), "beginning no earlier than %d and no later than the error, inside out" % lo, err["ctx"])
                return
            prev = c[1]

    def show_place(self, p):
        if isinstance(p, list):
            return [self.names[p[0]]] + p[1:3]
        (k, v), = p.items()
        return [k, self.names[v[0]]] + v[1:]

    def show_err(self, e):
        return [e["m"], e["r"][:80], self.file_of(e["sp"])] + e["sp"][1:]

    def warnings(self, got):
        runs = self.runs()
        exp = [(self.names[w[0]], w[1], w[2]) for w in self.exp["warnings"]]
        about = {(self.names[w[0]], w[1], w[2]): w for w in self.exp["warnings"]}
        obs = []
        for w in got:
            f = self.file_of(w["sp"])
            if any(f == n and s <= w["sp"][1] <= end for (n, s, e1, end) in runs):
                continue
            obs.append((f,) + tuple(w["sp"][1:]))
            if obs[-1] in about:
                a = about[obs[-1]]
                self.related(a[5], w)
                if str(a[6]) not in re.findall(r"\d+", w["r"]):
                    self.diff("related", "reason of the warning at %s" % (obs[-1],), "mentions %d lines" % a[6], w["r"])
        if sorted(exp, key=str) != sorted(obs, key=str):
            self.diff("warnings", "warnings", sorted(exp, key=str), sorted(obs, key=str))
        self.checked += 1

    # ---- everything

    def dir_id(self, d):
        """expected directive: where it starts"""
        s = d["sp"]["dir"]
        return (self.names[s[0]], s[1])

    def run(self):
        if "load_error" in self.res:
            self.diff("load", "load", "loads", self.res["load_error"])
            return self.diffs
        got = self.res["parse"]
        exp = self.exp
        self.warnings(got["warnings"])
        if exp["ok"] == "yes" and not got["ok"]:
            for e in got["errors"][:3]:
                self.diff("errors", "unexpected error", "success", self.show_err(e))
            if not got["errors"]:
                self.diff("errors", "failure without errors", "success", got)
            return self.diffs
        if exp["ok"] == "no" and got["ok"]:
            at = [self.show_place(p) for g in exp["errors"] for p in g["at"] if g["n"]] + [list(r[:2]) for r in self.runs()]
            self.diff("errors", "success", ["errors at", at], "success")
            return self.diffs
        if not got["ok"]:
            if not got["errors"]:
                self.diff("errors", "failure without errors", "errors", got)
            self.errors(got["errors"])
            return self.diffs
        # directives: who is there, in which order, and what each of them says
        e_ids = [self.dir_id(d) for d in exp["dirs"]]
        g_ids = [(self.file_of(d["sp"]), d["sp"][1]) for d in got["dirs"]]
        if e_ids != g_ids:
            if sorted(e_ids, key=str) != sorted(g_ids, key=str):
                # by content other than location, to tell a wrong location from a missing directive
                ek = sorted(repr((d["k"], d["date"]["v"])) for d in exp["dirs"])
                gk = sorted(repr((d["k"], d["date"]["v"])) for d in got["dirs"])
                self.diff("span" if ek == gk else "members", "directives", e_ids, g_ids)
            else:
                self.diff("order", "directives", e_ids, g_ids)
        by = {}
        for d in got["dirs"]:
            by.setdefault((self.file_of(d["sp"]), d["sp"][1]), d)
        for i, d in enumerate(exp["dirs"]):
            g = by.get(e_ids[i])
            if g is not None:
                self.directive("dirs[%d]" % i, d, g)
            elif len(exp["dirs"]) == len(got["dirs"]):
                self.directive("dirs[%d]" % i, d, got["dirs"][i])
        for k in sorted(set(exp["opts"]) | set(got["opts"])):
            self.value("opts", "opts." + k, exp["opts"].get(k, "(absent)"), got["opts"].get(k, "(absent)"))
        self.value("plugins", "plugins", exp["plugins"], got["plugins"])
        return self.diffs

    def directive(self, where, d, g):
        for k in sorted(set(d) | set(g)):
            w = where + "." + k
            if k not in d or k not in g:
                self.diff("fields", w, plain(d.get(k, "(absent)")), g.get(k, "(absent)"))
            elif k == "sp":
                self.span(w, d[k], g[k])
            elif k == "postings":
                self.value("postings", w, d[k], g[k])
            else:
                self.value(FIELD_FACETS.get(k, "fields"), w, d[k], g[k])
