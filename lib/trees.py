"""Random multi-file ledgers: which files exist, how they include each other, how the paths are spelled."""
import os
from gen import Gen

FDIRS = ["", "a", "a/b", "c", "d.x", "e[1]", "s p", "ü", ".h"]
FNAMES = ["m.bean", "n.bean", "o", "p.beancount", "q.x.bean", "é.bean", "r s.bean", ".t.bean", "u[2].bean", "2020-01.bean", "Z.bean"]


def rel(frm, to):
    return os.path.relpath(to or ".", frm or ".")


def quote(p):
    return '"%s"' % p.replace("\\", "\\\\").replace('"', '\\"')


class Tree:
    """files of a scenario; include targets and their spellings"""

    def __init__(self, g, nfiles, dirs=None, links=0.3, plain=False):
        self.g = g
        r = g.r
        self.dirs = r.sample(dirs or FDIRS[:-1], min(len(dirs or FDIRS[:-1]), g.n(1, 4)))
        if "" not in self.dirs and g.p(0.5):
            self.dirs.append("")
        self.files = []
        names = [n for n in FNAMES if not plain or n.isascii() and "[" not in n and " " not in n]
        k = 0
        while len(self.files) < nfiles:
            k += 1
            d, n = g.pick(self.dirs), g.pick(names)
            if k > 30:
                n = "f%d.bean" % k
            p = os.path.join(d, n)
            if p not in self.files:
                self.files.append(p)
        self.root = self.files[0]
        self.links = []      # (path, target text, target path or None)
        if g.p(links):
            t = g.pick(self.files)
            d = g.pick(self.dirs)
            p = os.path.join(d, g.pick("ln.bean", "zlink"))
            self.links.append((p, g.pick(rel(d, t), "@ROOT@/" + t), t))
        if g.p(links * 0.6):
            d = g.pick([x for x in self.dirs if x] or [""])
            if d:
                self.links.append(("ldir", g.pick(d, "@ROOT@/" + d), d))
        if g.p(links * 0.2):
            self.links.append(("dangling.bean", "nowhere.bean", None))
        self.bad = []
        self.extradirs = []

    def alias(self, t):
        """another name for t through a link, or t"""
        g = self.g
        for p, _, to in self.links:
            if to == t and g.p(0.5):
                return p
            if to and p == "ldir" and t.startswith(to + "/") and g.p(0.5):
                return p + t[len(to):]
        return t

    def spell(self, frm, t):
        """a way to write path t in a file at path frm"""
        g = self.g
        t = self.alias(t)
        d = os.path.dirname(frm)
        x = g.r.random()
        if any(c in t for c in "[*?"):
            # a name with pattern characters is matched literally only when escaped
            t2 = "".join("[%s]" % c if c in "[]*?" else c for c in t)
            if g.p(0.9):
                t = t2
        if x < 0.15:
            return "@ROOT@/" + t
        if x < 0.2:
            return "@ROOT@//" + t.replace("/", "/./")
        s = rel(d, t) if "[" not in d + t else self.relesc(d, t)
        if x < 0.5:
            return s
        if x < 0.65:
            return "./" + s
        if x < 0.75:
            return s.replace("/", "//", 1)
        if x < 0.9:
            # a detour through an existing directory
            dd = g.pick([q for q in self.dirs if q and "[" not in q] or [""])
            if dd and "[" not in d:
                return rel(d, dd) + "/" + (rel(dd, t) if "[" not in t else self.relesc(dd, t))
        return s

    @staticmethod
    def relesc(d, t):
        up = [c for c in d.split("/") if c]
        return "/".join([".."] * len(up) + [t])

    def scenario(self, texts, **kw):
        files = [{"path": p, "text": texts[p]} for p in self.files]
        files += [{"path": p, "symlink": to} for p, to, _ in self.links]
        files += [{"path": p, "hex": "fffe00c3"} for p in self.bad]
        files += [{"path": p, "dir": True} for p in self.extradirs]
        out = {"files": files, "root": self.root, "mode": self.g.pick("abs", "abs", "rel", "dot")}
        out.update(kw)
        return out


def include_line(path):
    return (False, ["include", quote(path)])


def tree(seed, entries=None, pragmas=0.0, options=0.0, missing=0.08, nfiles=None, dates=6, noise=0.0, plain=False, inc=1.2, links=0.3, wellbalanced=0.0, plugins=0.0, bad=0.0, **opt):
    """a ledger of several files"""
    g = Gen(seed, dates=dates, noise=noise, bad=bad, **opt)
    t = Tree(g, nfiles or g.n(2, 6), plain=plain, links=links)
    if g.p(missing):
        t.bad.append(os.path.join(g.pick(t.dirs), "bad.bean"))
    if g.p(missing * 0.5):
        t.extradirs.append("adir.bean")
    texts = {}
    todo = list(t.files[1:])
    for k, p in enumerate(t.files):
        items = []
        for _ in range(g.n(0, 3) if entries is None else g.n(*entries)):
            items.append(g.entry())
        while g.p(pragmas):
            items.append(g.pragma())
        while g.p(options):
            items.append(g.option())
        while g.p(plugins):
            items.append(g.plugin())
        if g.p(wellbalanced):
            tg = g.tag()
            items = [[(False, ["pushtag", tg])]] + items + [[(False, ["poptag", tg])]]
        if bad and g.p(0.2):
            items.append(g.malformed())
        g.r.shuffle(items)
        ninc = 0
        while ninc < 4 and (g.p(inc / (1.6 + ninc)) or (k == 0 and ninc == 0)):
            ninc += 1
            x = g.r.random()
            if todo and g.p(0.75):
                tgt = todo.pop(0)
            elif x < missing and t.bad:
                tgt = t.bad[0]
            elif x < missing * 1.6:
                tgt = g.pick("nowhere.bean", "a/nowhere.bean", "", "adir.bean", "m.bea", "M.BEAN", "dangling.bean", "m.bean/x", "none*.bean", "[", "a/***", "[!", "*[.bean")
                items.insert(g.n(0, len(items)), [include_line(tgt)])
                continue
            elif x < missing * 1.8:
                tgt = t.root
            else:
                tgt = g.pick(t.files[1:])
            sp = t.spell(p, tgt)
            # a wildcard which has just one match is like a plain path
            if g.p(0.1) and os.path.basename(tgt)[0] != "." and not any(c in sp for c in "[*?"):
                i = sp.rfind("/") + 1
                b = sp[i:]
                j = g.n(0, len(b) - 1)
                if b[j] != ".":
                    sp = sp[:i] + b[:j] + "[%s]" % b[j] + b[j + 1:]
            items.insert(g.n(0, len(items)), [include_line(sp)])
        texts[p] = g.render([l for it in items for l in it])
    return t.scenario(texts)


GDIRS = ["g", "g/sub", "g/sub/deep", "h", ""]
GNAMES = ["a.g", "b.g", "ab.g", "abc.g", "a1.g", "B.g", "é.g", "x.y.g", ".a.g", "a", "a.gg", "ag", "[.g", "a-b.g", "*.g", "Ab.g", "A.G", "aB1.g"]
PATS = ["*.g", "?.g", "a*.g", "*", "[ab].g", "[!a].g", "a?.g", "*.*", "[a-c]*.g", "*b*", "??.g", "a*", "[a", "***", "a**", "[]", "[!]", "[]a]*", "[[]*", "[!a-z]*.g", "*.y.g", "*-*", "[A-Z].g", "[é].g", "?", "[*].g", "z*", "[a-]*.g", "*.g*", "A.G", "[.]*", "?a.g", "*g"]


def generalise(g, path):
    """a pattern which (mostly) matches this path"""
    out, comps = [], path.split("/")
    for k, c in enumerate(comps):
        t = ""
        i = 0
        while i < len(c):
            x, ch = g.r.random(), c[i]
            if ch in "[]*?":
                t += "[%s]" % ch
            elif c[0] == ".":
                t += ch
            elif i == 0 and ch == ".":
                t += ch
            elif x < 0.1:
                t += "?"
            elif x < 0.22 and ch not in ".-":
                t += g.pick("[%s]", "[%sz]", "[x%s]", "[A%s9]") % ch
            elif x < 0.27 and ch.isascii() and ch.islower():
                t += g.pick("[a-z]", "[!A-Z]", "[!0-9]", "[a-%s]" % ch)
            elif x < 0.3 and ch.isalpha():
                t += ch.swapcase()
            elif x < 0.36 and (i > 0 or ch != ".") and not t.endswith("*"):
                t += "*"
                i += g.n(0, len(c) - i)
                continue
            else:
                t += ch
            i += 1
        out.append(t)
    return "/".join(out)


def globs(seed):
    """patterns against directories; the files hold directives with different dates, so that the order of matches is immaterial"""
    g = Gen(seed, dates=6, meta=0.1)
    files = []
    links = []
    day = [0]
    spoilt = g.pick(0.06, 0.06, 0.06, 0.35)
    gdirs = GDIRS if g.p(0.6) else g.r.sample(GDIRS, 1)
    for _ in range(g.n(2, 9)):
        p = os.path.join(g.pick(gdirs), g.pick(GNAMES))
        if p in [f["path"] for f in files]:
            continue
        if g.p(spoilt):
            files.append({"path": p, "hex": g.pick("ff", "ff", "c3", "6162e9", "3bed a080".replace(" ", ""))})
        elif g.p(0.06):
            files.append({"path": p, "dir": True})
        else:
            n = g.n(0, 2)
            t = ""
            for _ in range(n):
                day[0] += 1
                t += "%04d-01-01 %s\n" % (1900 + day[0], g.pick("open Assets:A", "close Assets:A", 'note Assets:A "x"', 'event "a" "b"'))
            files.append({"path": p, "text": t})
    deep = g.p(0.25)
    fs = [f["path"] for f in files if "text" in f]
    if fs and not deep and g.p(0.25):
        t = g.pick(fs)
        p = os.path.join(g.pick(GDIRS[:3]), g.pick("l.g", "al.g", ".l.g"))
        links.append({"path": p, "symlink": g.pick("@ROOT@/" + t, rel(os.path.dirname(p), t), "nowhere")})
    rootdir = g.pick("", "", "g", "r", "r/s", "e[1]", "q*")
    root = os.path.join(rootdir, "root.bean")
    up = "/".join([".."] * len([c for c in rootdir.split("/") if c]))
    lines = []
    for _ in range(g.n(1, 3)):
        d = g.pick(GDIRS + ["*", "g/*", "?", "[gh]", "g*", "nodir"])
        pat = g.pick(PATS)
        if deep and g.p(0.6):
            d, pat = g.pick("**", "g/**", "g/sub/**", "**"), g.pick("*.g", "a*", "?.g", "*")
            if g.p(0.1):
                pat = "a.g"
        path = "/".join(x for x in [g.pick("@ROOT@", up, up), d, pat] if x)
        if files and g.p(0.45):
            pat = generalise(g, g.pick(files)["path"])
            path = "/".join(x for x in [g.pick("@ROOT@", up, up), pat] if x)
        if d == "" and up == "" and rootdir == "" and pat in ("*", "*.*"):
            pass        # matches the root itself, which is an error of its own
        lines.append((False, ["include", quote(path)]))
        if g.p(0.3):
            day[0] += 1
            lines.append((False, ["%04d-01-01" % (1900 + day[0]), "open", "Assets:R"]))
    if g.p(0.2):
        lines = [(False, ["pushtag", "#a"])] + lines + [(False, ["poptag", "#a"])]
    files.append({"path": root, "text": g.render(lines)})
    paths = [f["path"] for f in files + links]
    # a directory cannot also be a file
    for p in paths:
        if any(q.startswith(p + "/") for q in paths):
            return globs(seed + 7919 * 1000003)
    if len(set(paths)) != len(paths):
        return globs(seed + 7919 * 1000003)
    return {"files": files + links, "root": root, "mode": g.pick("abs", "rel", "dot")}
