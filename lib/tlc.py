"""Running TLC on the specification and reading what it emits."""
import json, os, re, shutil, subprocess, tempfile, time

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class ToolError(Exception):
    pass


class SpecViolation(Exception):
    """an invariant of the specification is violated on the model"""


def run(module, cfg=None, env=None, workers=8, timeout=800, extra=(), heap="10g", cfgtext=None):
    """returns (emitted, stats): emitted maps id -> JSON, stats has states, transitions, actions"""
    if os.environ.get("VERIF_TIER") == "thorough":
        timeout *= 8
    meta = tempfile.mkdtemp(prefix="limatlc")
    try:
        e = dict(os.environ)
        e.update(env or {})
        if cfgtext is not None:
            cfg = os.path.join(meta, "m.cfg")
            with open(cfg, "w") as f:
                f.write(cfgtext)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss128m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC",
               "-metadir", meta, "-cleanup", "-noGenerateSpecTE", "-workers", str(workers),
               "-config", cfg or module + ".cfg", *extra, module + ".tla"]
        t0 = time.time()
        out = os.path.join(meta, "out")
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out on " + module)
        emitted = {}
        rest = []
        with open(out) as f:
            for line in f:
                if line.startswith('"@@'):
                    s = json.loads(line)
                    i, j = s[2:].split(" ", 1)
                    emitted[i if i != "-" else "-%d" % len(emitted)] = json.loads(j)
                else:
                    rest.append(line)
        txt = "".join(rest)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
        if p.returncode in (12, 13):
            raise SpecViolation("\n".join(l for l in txt.splitlines() if "is violated" in l) + txt[-4000:])
        if p.returncode != 0 or not m:
            raise ToolError("TLC failed (%d) on %s:\n%s" % (p.returncode, module, "\n".join(l for l in txt.splitlines() if "rror" in l)[:3000] + txt[-1500:]))
        stats = {"states": int(m.group(2)), "transitions": int(m.group(1)), "wall": time.time() - t0}
        return emitted, stats
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def codes(s):
    return [ord(c) for c in s]


def comps(p):
    return [codes(c) for c in p.split("/") if c]


def world(sid, base, scn):
    """a harness scenario in the form the specification reads: paths absolute, texts as code points"""
    files = []
    root = 0
    for f in scn.get("files", []):
        p = comps(base) + comps(f["path"])
        if f.get("dir"):
            files.append({"p": p, "k": "dir", "t": [], "to": []})
        elif "symlink" in f:
            files.append({"p": p, "k": "link", "t": [], "to": codes(f["symlink"].replace("@ROOT@", base))})
        elif "hex" in f:
            files.append({"p": p, "k": "bad", "t": [], "to": []})
        else:
            files.append({"p": p, "k": "text", "t": codes(f["text"].replace("@ROOT@", base)), "to": []})
        if scn.get("root") == f["path"]:
            root = len(files)
    inline = codes(scn["inline"].replace("@ROOT@", base)) if "inline" in scn else []
    return {"id": str(sid), "base": comps(base), "root": root, "inline": inline, "files": files}
