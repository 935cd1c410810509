"""Building the conformance harness against /repo and running scenarios through it."""
import hashlib, json, os, select, shutil, subprocess, tempfile, threading, time
from tlc import ToolError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = os.path.join(VERIF, "harness/target/debug/conform")


def fingerprint():
    """of everything the harness is built from"""
    h = hashlib.sha256()
    for top in ("/repo", os.path.join(VERIF, "harness")):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "tests", "examples", "benches"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".proto")):
                    h.update(os.path.join(d, f).encode() + b"\0")
                    with open(os.path.join(d, f), "rb") as x:
                        h.update(x.read() + b"\0")
    return h.hexdigest()


def cargo(*args):
    p = subprocess.run(["cargo", *args, "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness does not build:\n" + p.stdout[-4000:])


def build():
    """from /repo's current tree. Cargo goes by modification times; the fingerprint makes sure that contents count"""
    t0 = time.time()
    mark = os.path.join(VERIF, "harness/target/debug/.built-from")
    fp = fingerprint()
    old = open(mark).read() if os.path.exists(mark) else None
    was = os.stat(BIN).st_mtime_ns if os.path.exists(BIN) else None
    cargo("build")
    if old is not None and old != fp and os.stat(BIN).st_mtime_ns == was:
        cargo("clean", "-p", "beancount-parser-lima")
        cargo("build")
    with open(mark, "w") as f:
        f.write(fp)
    return time.time() - t0


class Shards:
    """scratch directories, one per harness process; scenario i runs in shard i mod n"""

    def __init__(self, n=8):
        self.n = n
        self.top = tempfile.mkdtemp(prefix="limaconf")
        for k in range(n):
            os.makedirs(os.path.join(self.top, str(k), "w"))

    def base(self, i):
        return os.path.join(os.path.realpath(self.top), str(i % self.n), "w")

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)

    def run(self, scns, timeout=60):
        """scns: list of scenarios; result list in the same order"""
        res = [None] * len(scns)
        threads = []
        errors = []

        def work(k):
            try:
                self._work(k, scns, res, timeout)
            except Exception as e:      # noqa
                errors.append(e)
        for k in range(self.n):
            if k < len(scns):
                t = threading.Thread(target=work, args=(k,))
                t.start()
                threads.append(t)
        for t in threads:
            t.join()
        if errors:
            raise errors[0]
        return res

    def _work(self, k, scns, res, timeout):
        d = os.path.join(self.top, str(k))
        p = None
        for i in range(k, len(scns), self.n):
            if p is None:
                p = subprocess.Popen([BIN, d], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
                buf = b""
            line = json.dumps(dict(scns[i], id=i)) + "\n"
            try:
                _write(p, line.encode())
                out, buf = _readline(p, buf, timeout)
            except (BrokenPipeError, EOFError):
                rc = p.wait()
                res[i] = {"crash": rc}
                p = None
                continue
            except TimeoutError:
                p.kill()
                p.wait()
                res[i] = {"hang": timeout}
                p = None
                continue
            res[i] = json.loads(out)
        if p is not None:
            p.stdin.close()
            p.wait()
            p.stdout.close()


def _write(p, data):
    while data:
        n = p.stdin.write(data)
        data = data[n:]


def _readline(p, buf, timeout):
    end = time.time() + timeout
    parts = [buf]
    while True:
        if b"\n" in parts[-1]:
            a, b = b"".join(parts).split(b"\n", 1)
            return a, b
        left = end - time.time()
        if left <= 0:
            raise TimeoutError
        r, _, _ = select.select([p.stdout], [], [], left)
        if not r:
            raise TimeoutError
        c = p.stdout.read(1 << 20)
        if not c:
            raise EOFError
        parts.append(c)
