"""Ledgers that are large in one respect: more of something than fits in eight bits."""
N = 280


def op(i, extra=""):
    return "2020-01-%02d open Assets:W%d%s\n" % (28 - i % 28, i, extra)


def directives():
    k = ["open Assets:A", "balance Assets:A 1 USD", "close Assets:A", 'note Assets:A "n"', "commodity USD"]
    return {"inline": "".join("20%02d-0%d-01 %s #t%d\n" % ((i * 37) % 3, 1 + i % 2, k[i * 7 % 5], i) for i in range(N))}


def files(last="", root="", each=lambda i: op(i), pre=""):
    """a root with N files, the last of which ends in the given text"""
    return {"root": "r", "files": [{"path": "r", "text": pre + "".join('include "w/f%d"\n' % i for i in range(N)) + root}] +
            [{"path": "w/f%d" % i, "text": each(i) + (last if i == N - 1 else "")} for i in range(N)]}


def chain(last="", n=N):
    """each file includes the next one, in the middle"""
    return {"root": "f0", "files": [{"path": "f%d" % i, "text": op(2 * i) + ('include "f%d"\n' % (i + 1) if i < n - 1 else last) + op(2 * i + 1)} for i in range(n)]}


def pushes(what, same):
    push = (lambda i: "pushtag #w%d\n" % i) if what == "tag" else (lambda i: "pushmeta ww%d: %d\n" % (i, i))
    pop = (lambda i: "poptag #w%d\n" % i) if what == "tag" else (lambda i: "popmeta ww%d:\n" % i)
    if same:
        push0, pop0 = push, pop
        push = (lambda i: push0(0)) if what == "tag" else (lambda i: "pushmeta ww0: %d\n" % i)
        pop = lambda i: pop0(0)
    return [{"inline": "".join(map(push, range(N))) + op(1) + "".join(map(pop, range(N - 1))) + op(2) + (pop(N - 1) if end else "") + op(3)} for end in (True, False)]


def far(text="", crlf=False):
    """after many lines, and far to the right"""
    nl = "\r\n" if crlf else "\n"
    return {"inline": (nl + "; é" + nl) * (N // 2) + op(1) + '2020-01-02 note Assets:A "' + "é" * N + '" ' + " " * 20 + "#late ^far" + nl + text}


def tail(n):
    return {"inline": "".join("2020-01-01 note Assets:A \"%060d\" #n%d\n" % (i, i) for i in range(n)) + "2020-01-02 close Assets:B\n"}


def many():
    r = range(N)
    return {"tags": {"inline": "2020-01-01 open Assets:A" + "".join(" #w%d" % i for i in r) + "\n"},
            "links": {"inline": "2020-01-01 open Assets:A\n" + "".join("  ^w%d\n" % i for i in r)},
            "meta": {"inline": "2020-01-01 open Assets:A\n" + "".join("  ww%d: %d\n" % (i, i) for i in r)},
            "currencies": {"inline": "2020-01-01 open Assets:A " + ",".join("W%dX" % i for i in r) + "\n"},
            "values": {"inline": "2020-01-01 custom \"c\"" + "".join(" %d" % i for i in r) + "\n"},
            "postings": {"inline": "2020-01-01 *\n" + "".join("  Assets:W%d %d USD\n" % (i, i) for i in r)}}
