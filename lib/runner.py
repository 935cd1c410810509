"""One property check: generate, let the specification decide what is expected, run the real code, compare."""
import hashlib, json, os, random, sys, time, traceback
import tlc, conform, compare
from tlc import ToolError, SpecViolation

VERIF = conform.VERIF


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.compared = self.moot = 0
        self.violations = []      # dicts
        self.samples = []
        self.known = []
        self.cov = {}
        self.outcomes = {}        # per flow, what the specification expects
        self.buildtime = conform.build()
        self.shards = conform.Shards(8)
        self.pending = []         # (scenario, facets, label)

    def quick(self):
        return self.tier != "thorough"

    def scale(self, n, thorough=25):
        return n * 4 if self.quick() else n * thorough

    def late(self):
        """on a slow machine the quick check explores less rather than run out of time"""
        return self.quick() and time.time() - self.t0 > 400

    def rng(self, label):
        h = hashlib.sha256(("%s/%s/%d" % (self.pid, label, self.seed)).encode()).digest()
        return int.from_bytes(h[:6], "big")

    # ---- results
    def note(self, label, n):
        self.cov[label] = self.cov.get(label, 0) + n

    def stats(self, st):
        self.states += st["states"]
        self.transitions += st["transitions"]

    def sample(self, label, what):
        if sum(1 for s in self.samples if s["flow"] == label) < 2:
            self.samples.append({"flow": label, "case": what})

    def violation(self, label, scn, diffs, res=None, exp=None, facets=()):
        self.violations.append({"flow": label, "scenario": scn, "diffs": diffs, "facets": sorted(facets), "got": res, "expected": exp})

    # ---- flow B: generated scenarios, expectation by TLC
    def add(self, label, facets, scns):
        for s in scns:
            self.pending.append((s, frozenset(facets), label))

    def judge(self, items, exps, results, base):
        for (scn, facets, label), e, r in zip(items, exps, results):
            self.traces += 1
            self.note(label, 1)
            o = ("open" if e["soft"] else "moot") if e["moot"] else {"yes": "accepted", "no": "rejected"}.get(e["ok"], "either")
            self.outcomes.setdefault(label, {}).setdefault(o, 0)
            self.outcomes[label][o] += 1
            if "res" not in r:
                self.violation(label, scn, ["no result: %s" % json.dumps(r)[:400]], r, None)
                continue
            if e["moot"] and not e["soft"]:
                self.moot += 1
                continue
            c = compare.Compare(base, scn, e, r["res"])
            ds = c.soft() if e["moot"] else c.run()
            self.compared += c.checked
            ds = [d for d in ds if d.facet in facets]
            if ds:
                self.violation(label, scn, [repr(d) for d in ds], r["res"], e, facets)
            else:
                self.sample(label, {"scenario": trim(scn), "outcome": e["ok"], "directives": len(e["dirs"]), "errors": len(e["errors"])})

    def flush(self, laws=(), timeout=600):
        """decide all pending scenarios"""
        items, self.pending = self.pending, []
        if self.late():
            self.note("left out for lack of time", len(items) - len(items[::4]))
            items = items[::4]
        if not items:
            return
        exps = self.decide([s for s, _, _ in items], laws, timeout)
        res = self.run([s for s, _, _ in items])
        self.judge(items, exps, res, self.shards.base(0))

    def decide(self, scns, laws=(), timeout=600):
        """what the specification expects of each scenario"""
        if not scns:
            return []
        base = self.shards.base(0)
        path = os.path.join(self.shards.top, "scenarios.nd")
        with open(path, "w") as f:
            for i, s in enumerate(scns):
                f.write(json.dumps(tlc.world(i, base, s)) + "\n")
        cfg = "SPECIFICATION Spec\nCONSTANT World <- WorldOf\nINVARIANT Emit\n%sCHECK_DEADLOCK FALSE\n" % "".join("INVARIANT %s\n" % l for l in laws)
        exp, st = tlc.run("Check", cfgtext=cfg, env={"SCENARIOS": path}, timeout=timeout)
        self.stats(st)
        if len(exp) != len(scns):
            raise ToolError("TLC answered %d of %d scenarios" % (len(exp), len(scns)))
        return [exp[str(i)] for i in range(len(scns))]

    def run(self, scns, timeout=60):
        res = self.shards.run(scns, timeout)
        # what went wrong is tried again, alone, with more time
        for i, r in enumerate(res):
            if "hang" in r:
                res[i] = self.shards.run([scns[i]], 240)[0]
        return res

    # ---- flow A: compositions of a menu, made by TLC
    def compose(self, label, facets, menu, cap, laws=(), timeout=600, same=False):
        if self.late():
            self.note("left out for lack of time", cap)
            return
        base = self.shards.base(0)
        files = [{"p": tlc.comps(base) + tlc.comps(f["path"]), "k": f.get("k", "text"), "t": [], "to": tlc.codes(f.get("to", "").replace("@ROOT@", base))}
                 for f in menu.get("files", [])]
        paths = [f["path"] for f in menu.get("files", [])]
        slots = []
        total = 1
        for sl in menu["slots"]:
            f = 0 if sl.get("file") is None else paths.index(sl["file"]) + 1
            for _ in range(sl.get("times", 1)):
                slots.append({"f": f, "alts": [tlc.codes(a.replace("@ROOT@", base)) for a in sl["alts"]]})
                total *= len(sl["alts"])
        root = paths.index(menu["root"]) + 1 if "root" in menu else 0
        picks = []
        if total > cap:
            r = random.Random(self.rng(label))
            # each alternative of each slot about equally often
            cols = []
            for sl in slots:
                k = len(sl["alts"])
                c = [i % k + 1 for i in range(cap)]
                r.shuffle(c)
                cols.append(c)
            picks = sorted(set(zip(*cols)))
        path = os.path.join(self.shards.top, "menu.json")
        with open(path, "w") as f:
            json.dump({"base": tlc.comps(base), "root": root, "files": files, "slots": slots, "picks": picks}, f)
        cfg = "SPECIFICATION Spec\nCONSTANT World <- ComposedWorld\nINVARIANT Emit\n%sCHECK_DEADLOCK FALSE\n" % "".join("INVARIANT %s\n" % l for l in laws)
        exp, st = tlc.run("Compose", cfgtext=cfg, env={"MENU": path}, timeout=timeout)
        self.stats(st)
        out = sorted(exp.values(), key=lambda x: json.dumps(x["texts"]))
        if same:
            # a law of the specification: layout does not matter
            bare = {json.dumps([compare.bare(x["exp"][k]) for k in ("dirs", "opts", "plugins")], sort_keys=True) for x in out}
            if len(bare) != 1:
                raise ToolError("layouts of %s differ in meaning under the specification" % label)
        items, exps = [], []
        for x in out:
            ts = ["".join(map(chr, t)).replace(base, "@ROOT@") for t in x["texts"]]
            scn = {}
            if root:
                scn = {"root": menu["root"], "files": []}
                for f, t in zip(menu["files"], ts[1:]):
                    k = f.get("k", "text")
                    e = {"path": f["path"]}
                    e.update({"text": t} if k == "text" else {"symlink": f["to"]} if k == "link" else {"dir": True} if k == "dir" else {"hex": "ff"})
                    scn["files"].append(e)
            else:
                scn = {"inline": ts[0]}
            items.append((scn, frozenset(facets), label))
            exps.append(x["exp"])
        res = self.run([s for s, _, _ in items])
        self.judge(items, exps, res, base)
        self.cov.setdefault("compositions", {})[label] = {"possible": total, "explored": len(items), "exhaustive": not picks}
        return total, len(items)

    # ---- the end
    def finish(self, extra=None, assumptions=()):
        self.shards.close()
        vio = 0
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        lines = []
        for v in self.violations[:3]:
            vio += 1
            p = os.path.join(VERIF, "replay", "%s-%d.json" % (self.pid, vio))
            with open(p, "w") as f:
                json.dump(dict(v, property=self.pid, seed=self.seed, tier=self.tier), f, indent=1, default=str)
            lines.append("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("--- %s: %s" % (v["flow"], json.dumps(v["scenario"])[:1500]))
            for d in v["diffs"][:6]:
                print("    " + d[:1200])
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "values_compared": self.compared, "moot": self.moot, "flows": self.cov, "outcomes": self.outcomes, "samples": self.samples[:12]}
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": "quick" if self.quick() else "thorough", "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for l in lines:
            print(l)
        print("%s: %d states, %d scenarios, %d values compared, %d violations, %.0fs"
              % (self.pid, self.states, self.traces, self.compared, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def trim(scn):
    s = json.dumps(scn)
    return scn if len(s) < 1500 else s[:1500] + "..."


def replay(path):
    """decides the recorded scenario again on the current tree; exit 1 if it still differs"""
    v = json.load(open(path))
    if not v.get("facets"):
        print("this record has no scenario of its own: run check.py %s" % v["property"])
        return 2
    ctx = Ctx(v["property"], "quick", v["seed"])
    try:
        ctx.add(v["flow"], v["facets"], [v["scenario"]])
        ctx.flush()
    finally:
        ctx.shards.close()
    for x in ctx.violations:
        print(json.dumps(x["scenario"], indent=1))
        print("\n".join(x["diffs"]))
    return 1 if ctx.violations else 0


def main(pid, fn, assumptions=()):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = None
    try:
        ctx = Ctx(pid, tier, seed)
        extra = fn(ctx)
        return ctx.finish(extra, assumptions)
    except SpecViolation as e:
        print("the specification itself violates a law (an error of the check):\n%s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if ctx:
            ctx.shards.close()
