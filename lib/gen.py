"""Random ledgers.  Nothing here knows what is valid: what a ledger means is the specification's business.
A line is (indented?, [pieces]); a ledger is a list of lines; render() lays it out."""
import random

KINDS = ["txn", "open", "close", "balance", "price", "commodity", "pad", "document", "note", "event", "query", "custom"]
NONASCII_UP = ["É", "Σ", "Ж", "日", "א", "\U00020000"]
NONASCII_LO = ["ß", "é", "ж", "½", "٣", "５"]


class Gen:
    def __init__(self, seed, **opt):
        self.r = random.Random(seed)
        self.o = dict(bad=0.0, uni=0.15, dates=6, meta=0.4, expr=0.3, push=0.0, noise=0.0, types=["Assets", "Liabilities", "Equity", "Income", "Expenses"])
        self.o.update(opt)

    # ---- choice helpers
    def p(self, x):
        return self.r.random() < x

    def pick(self, *xs):
        return self.r.choice(xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple, str)) else xs)

    def bad(self):
        return self.p(self.o["bad"])

    def n(self, a, b):
        return self.r.randint(a, b)

    # ---- scalars
    def date(self):
        if self.bad():
            return self.pick("2023-02-29", "1900-02-29", "2020-13-01", "2020-00-10", "2020-04-31", "2020-1-01", "20200101", "2020-01-1", "0000-01-00", "2020-01-0", "٢٠٢٠-01-01", "2020-0١-01")
        k = self.o["dates"]
        if self.p(0.12):
            return self.pick("2024-02-29", "2000-02-29", "1999-12-31", "0001-01-01", "9999-12-31", "0000-02-29", "2020/06/15", "2021-12/31", "1970/01-01", "2023-02-28", "0400-02-29")
        d = self.n(1, k)
        s = self.pick("-", "-", "-", "/")
        return "2020%s%02d%s%02d" % (s, (d + 1) // 2, s, 1 if d % 2 else 31 if (d + 1) // 2 in (1, 3, 5, 7) else 28)

    def plainnum(self):
        x = self.r.random()
        if self.bad():
            return self.pick("1.", ".5", "1,2", "1,23.4", "1,2345", "12,34,567", "0x1", "1e5", "1.2.3", "79228162514264337593543950336", "0.00000000000000000000000000001", "1__0", "٣", "１", "1,000,00")
        if x < 0.35:
            return str(self.n(0, 12))
        if x < 0.6:
            return "%d.%s" % (self.n(0, 999), "".join(self.pick("0123456789") for _ in range(self.n(1, 4))))
        if x < 0.75:
            return self.pick("1,000", "12,345.67", "1,234,567", "0,000.10", "100,000,000.001", "1234,567", "0,123")
        if x < 0.85:
            return self.pick("0", "0.0", "00.500", "0000", "007", "1.000", "0.10", "10.00")
        if x < 0.93:
            return self.pick("79228162514264337593543950335", "7.9228162514264337593543950335", "0.0000000000000000000000000001", "1234567890123456789012345678", "99999999999999.9999")
        return "".join(self.pick("0123456789") for _ in range(self.n(1, 9))) + self.pick("", ".5", ".25", ".005")

    def num(self, depth=2):
        """pieces of an expression"""
        if depth == 0 or not self.p(self.o["expr"]):
            m = self.plainnum()
            return [self.pick("-", "-", "+") + m] if self.p(0.3) else [m]
        x = self.r.random()
        if x < 0.6:
            op = self.pick("+-*/")
            a, b = self.num(depth - 1), self.num(depth - 1)
            if op == "/" and self.p(0.7):
                b = [self.pick("2", "3", "4", "7", "0.5", "1.25", "3.0", "8", "6", "-3")]
            return a + [op] + b
        if x < 0.85:
            return ["("] + self.num(depth - 1) + [")"]
        return [self.pick("-", "+")] + ["("] + self.num(depth - 1) + [")"]

    def currency(self):
        if self.bad():
            return self.pick("usd", "USD-", "U$D", "/5", "1USD", "USD.", "Usd", "É", "/.")
        return self.pick("USD", "EUR", "GBP", "A", "V", "X2", "USD.X", "A-B", "C_D", "VHT'S1", "/NQH21", "/6J", "AAA.B-C_D'E9", "NQH21_QNEG21.P", "TRUE1", "NULLS", "NONE", "TR")

    def account(self, types=None):
        if self.bad():
            return self.pick("Assets", "assets:Cash", "Assets:cash", "Assets::Cash", "Assets:", "Foo:Bar", "Assets:Cash:", "Assets:C$h", "Asset:Cash", "AssetsX:Cash", "Assets:-X")
        t = self.pick(types or self.o["types"])
        parts = []
        for _ in range(self.n(1, 3)):
            x = self.r.random()
            if x < 0.7:
                parts.append(self.pick("Cash", "Bank", "US", "Checking", "A", "B", "Food", "X1", "Z-9", "B-", "A--b"))
            elif x < 0.85:
                parts.append(self.pick("1", "401k", "2020", "7-11", "9X"))
            elif self.p(self.o["uni"] * 3):
                parts.append(self.pick(NONASCII_UP) + self.pick("", "a", "é", "ß9", "-"))
            else:
                parts.append(self.pick("Caf", "R") + self.pick("", "é", "ж", "½"))
        return t + ":" + ":".join(parts)

    def string(self, multi=True):
        x = self.r.random()
        if self.bad():
            return self.pick('"\\q"', '"\\x4"', '"\\u12"', '"\\u{110000}"', '"\\ud800"', '"a\\8"', '"\\u{}"', "'x'", '"\\xg1"')
        if x < 0.5:
            return '"%s"' % self.pick("a", "Groceries", "Store", "n1", "n2", "x y", "foo", "bar baz", "2020-01-01", "USD", "ledger/doc.pdf", "SELECT * WHERE x = 1")
        if x < 0.6:
            return '""'
        if x < 0.75:
            return '"%s"' % self.pick("a ; not a comment", "#nt", "^nl", "100 USD", "* x", "key: v", "|", "{}", "option", " lead", "trail ", "\ttab")
        if x < 0.87:
            return '"%s"' % self.pick('a \\"quoted\\"', "back\\\\slash", "line\\nbreak", "tab\\there", "\\x41\\x7a", "\\u00e9", "\\u{1F600}", "\\101\\0", "\\'", "\\/", "a\\\\", "\\\\\\\"", "\\b\\f\\r", "\\\\n", "\\u{65e5}x", "\\377", "\\47a", "\\400")
        if x < 0.95 or not multi:
            return '"%s"' % self.pick("é", "日本語"[0:2], "ß€", "\U0001F600", "a\u0301"[0:1], "Ж–Ж", "\u3000x", "x\u00a0")
        return '"%s"' % self.pick("two\nlines", "three\n\nlines ; x", "\n", "a\n  indented\n#x\n* y", "x\r\ny", "end\n")

    def tag(self):
        if self.bad():
            return self.pick("#", "# x", "#é", "#a$", "##")
        return "#" + self.pick(self.o.get("tags", ["a", "b", "c", "t-1", "X_y", "a/b", "a.b", "2020", "-", ".", "Trip-2020"]))

    def link(self):
        if self.bad():
            return self.pick("^", "^ x", "^é", "^^")
        return "^" + self.pick("l", "m", "L", "inv-1", "X_y", "a/b", "2020.1", "a")

    def key(self):
        if self.bad():
            return self.pick("k", "Key", "1k", "k$", "_k", "ké")
        return self.pick(self.o.get("keys", ["kk", "mm", "nn", "a-b", "a_b", "key1", "open", "option", "txn", "price", "camelCase", "include"]))

    def metaval(self):
        """pieces of a value, possibly none"""
        x = self.r.random()
        if x < 0.2:
            return [self.string()]
        if x < 0.3:
            return [self.currency()]
        if x < 0.4:
            return [self.account()]
        if x < 0.48:
            return [self.tag()]
        if x < 0.56:
            return [self.link()]
        if x < 0.64:
            return [self.date()]
        if x < 0.72:
            return [self.pick("TRUE", "FALSE", "NULL")]
        if x < 0.82:
            return self.num()
        if x < 0.93:
            return self.num() + [self.currency()]
        return []

    def keyval(self):
        return [self.key(), ":"] + self.metaval()

    # ---- entries: lists of lines
    def metalines(self, density=None):
        out = []
        d = self.o["meta"] if density is None else density
        while self.p(d) and len(out) < 5:
            x = self.r.random()
            out.append((True, self.keyval() if x < 0.65 else [self.tag()] if x < 0.83 else [self.link()]))
        return self.undup(out)

    def undup(self, lines):
        """mostly without repeated keys, tags or links"""
        if self.p(0.06):
            return lines
        seen, out = set(), []
        for l in lines:
            k = l[1][0]
            if k not in seen:
                seen.add(k)
                out.append(l)
        return out

    def tagslinks(self):
        out = []
        while self.p(0.25):
            out.append(self.pick(self.tag, self.link)())
        return out if self.p(0.1) else list(dict.fromkeys(out))

    def flag(self):
        if self.bad():
            return self.pick("x", "'x", "P", "**", "!!", "''A")
        return self.pick("*", "!", "&", "#", "?", "%", "'A", "'Z", "'P", "*", "!")

    def cost(self):
        comps = []
        amounts = ["per", "total", "both", "cur", "percur", "totalcur", "bothcur", "hashcur", "perhash", "perhashcur"]
        for _ in range(self.n(0, 4)):
            k = self.pick(self.pick(amounts), "date", "label", "merge", self.pick(amounts))
            comps.append(k)
        if not self.p(0.15):
            comps = list(dict.fromkeys("amt" if c in amounts else c for c in comps))
            comps = [self.pick(amounts) if c == "amt" else c for c in comps]
            self.r.shuffle(comps)
        out = ["{"]
        for i, c in enumerate(comps):
            if i:
                out.append(",")
            n1, n2, cur = self.num(1), self.num(1), [self.currency()]
            out += {"per": n1, "total": ["#"] + n1, "both": n1 + ["#"] + n2, "cur": cur, "percur": n1 + cur,
                    "totalcur": ["#"] + n1 + cur, "bothcur": n1 + ["#"] + n2 + cur, "hashcur": ["#"] + cur,
                    "perhash": n1 + ["#"], "perhashcur": n1 + ["#"] + cur,
                    "date": [self.date()], "label": [self.string()], "merge": ["*"]}[c]
        if self.bad():
            out.append(",")
        out.append("}")
        if self.bad():
            out = ["{{"] + out[1:-1] + ["}}"]
        return out

    def price_ann(self):
        return [self.pick("@", "@@")] + self.pick([lambda: self.num() + [self.currency()], lambda: self.num() + [self.currency()], self.num, lambda: [self.currency()], lambda: []])()

    def posting(self):
        pc = []
        if self.p(0.2):
            pc.append(self.flag())
        pc.append(self.account())
        if self.p(0.75):
            if self.p(0.9):
                pc += self.num()
            if self.p(0.9):
                pc.append(self.currency())
            if self.p(0.3):
                pc += self.cost()
            if self.p(0.3):
                pc += self.price_ann()
        return [(True, pc)] + self.metalines(self.o["meta"] * 0.6)

    def entry(self, kind=None):
        kind = kind or self.pick(self.o.get("kinds", KINDS + ["txn"] * 6))
        d = self.date()
        if kind == "txn":
            h = [d, self.pick("txn", self.flag(), self.flag())]
            h += [self.string() for _ in range(self.pick(0, 1, 1, 2, 2, 2))]
            h += self.tagslinks()
            lines = [(False, h)] + self.metalines()
            for _ in range(self.pick(0, 1, 2, 2, 3)):
                lines += self.posting()
            return lines
        h = [d, kind]
        if kind == "open":
            h.append(self.account())
            cs = [self.currency() for _ in range(self.pick(0, 1, 1, 2, 3))]
            if not self.p(0.1):
                cs = list(dict.fromkeys(cs))
            for i, c in enumerate(cs):
                h += ([","] if i else []) + [c]
            if self.p(0.35):
                h.append('"%s"' % (self.pick("STRICT", "STRICT_WITH_SIZE", "NONE", "AVERAGE", "FIFO", "LIFO", "HIFO") if not self.bad() else self.pick("strict", "", "FOO", "FIFO ")))
        elif kind == "close":
            h.append(self.account())
        elif kind == "balance":
            h.append(self.account())
            h += self.num()
            if self.p(0.35):
                h += ["~", self.plainnum()]
            h.append(self.currency())
        elif kind == "price":
            h += [self.currency()] + self.num() + [self.currency()]
        elif kind == "commodity":
            h.append(self.currency())
        elif kind == "pad":
            h += [self.account(), self.account()]
        elif kind in ("document", "note"):
            h += [self.account(), self.string()]
        elif kind in ("event", "query"):
            h += [self.string(), self.string()]
        elif kind == "custom":
            h.append(self.string())
            for _ in range(self.n(0, 4)):
                h += self.metaval()
        if kind != "custom":
            h += self.tagslinks()
        return [(False, h)] + self.metalines()

    def option(self):
        n = self.pick("title", "operating_currency", "operating_currency", "documents", "inferred_tolerance_default", "inferred_tolerance_default",
                      "booking_method", "render_commas", "infer_tolerance_from_cost", "inferred_tolerance_multiplier", "conversion_currency",
                      "plugin_processing_mode", "account_previous_balances", "account_previous_earnings", "account_previous_conversions",
                      "account_current_earnings", "account_current_conversions", "account_unrealized_gains", "account_rounding",
                      "name_assets", "name_liabilities", "name_equity", "name_income", "name_expenses", "long_string_maxlines")
        if self.bad():
            n = self.pick("Title", "foo", "", "title ", "name_asset", "documents2", "operating_currencies")
        v = self.optval(n)
        return [(False, ["option", '"%s"' % n, '"%s"' % v])]

    def optval(self, n):
        b = self.bad()
        if n in ("operating_currency", "conversion_currency"):
            return self.pick("usd", "", "US D", "USD-", "/5") if b else self.pick("USD", "EUR", "GBP", "NOTHING", "/ES")
        if n == "documents":
            return self.pick("docs", "a/b", "/abs/docs", "other", "d1", "d2")
        if n == "inferred_tolerance_default":
            return self.pick("USD", "USD:x", "usd:0.1", ":", "USD:0.1:2", "**:1", "") if b else self.pick("USD", "EUR", "*", "GBP", "A1") + ":" + self.pick("0.005", "1", "0.10", "-0.5", "+2")
        if n == "inferred_tolerance_multiplier":
            return self.pick("x", "", "1..2", "--1") if b else self.pick("0.5", "1.1", "2", "0.50", "-1", "+0.7")
        if n in ("infer_tolerance_from_cost", "render_commas"):
            return self.pick("yes", "", "2", "T", "0x") if b else self.pick("TRUE", "FALSE", "true", "False", "tRuE")
        if n == "booking_method":
            return self.pick("", "fifo", "X", "STRICT ") if b else self.pick("STRICT", "STRICT_WITH_SIZE", "NONE", "AVERAGE", "FIFO", "LIFO", "HIFO")
        if n == "plugin_processing_mode":
            return self.pick("raw", "", "OTHER") if b else self.pick("default", "raw").upper()
        if n == "long_string_maxlines":
            return self.pick("-1", "", "x", "1.5", "٣") if b else self.pick("0", "1", "2", "3", "64", "100", "+5", "007")
        if n.startswith("account_"):
            return self.pick("", "a", "A::B", ":A", "A:", "é") if b else self.pick("Opening-Balances", "Earnings:Previous", "X:Y:Z", "1:2", "Conv")
        if n.startswith("name_"):
            return self.pick("", "assets", "A B", "1A", "A:B", "É") if b else self.pick("Assets", "Liabilities", "Equity", "Income", "Expenses", "Activa", "Vermögen"[0:4] + "en", "A", "X-1")
        return self.pick("My Ledger", "x", "", "t2")

    def pragma(self):
        x = self.r.random()
        if x < 0.2:
            return [(False, ["pushtag", self.tag()])]
        if x < 0.4:
            return [(False, ["poptag", self.tag()])]
        if x < 0.6:
            return [(False, ["pushmeta", self.key(), ":"] + self.metaval())]
        if x < 0.8:
            return [(False, ["popmeta", self.key(), ":"])]
        return self.plugin()

    def plugin(self):
        return [(False, ["plugin", self.string()] + ([self.string()] if self.p(0.5) else []))]

    def malformed(self):
        """a line or block which most likely is not an entry"""
        x = self.r.random()
        if x < 0.25:
            return [(False, [self.pick("garbage", "Assets:Cash", "USD", "100", '"str"', "(", "}", "@", "balance", "open Assets:A", "$", "é", "2020-01-01", "2020-01-01 foo", "2020-13-01 open Assets:A", "2020-01-01 open", "2020-01-01 open Foo:A", "2020-01-01 open Assets:A usd", "2020-01-01 balance Assets:A 10", "2020-01-01 price USD 3", "2020-01-01 close", "2020-01-01 txn 5", "2020-01-01 * Assets:A", "2020-01-01 open Assets:A USD EUR", "2020-01-01 custom", "options", "~", "key: 1", "2020-01-01 pad Assets:A", "2020-01-01 note \"x\"", "2020-01-01 commodity usd", "2020-01-01 event \"a\"", "2020-01-01 document Assets:A")])]
        e = self.entry() if self.p(0.7) else self.pick(self.pragma, self.option, self.plugin)()
        k = self.n(0, len(e) - 1)
        ind, pc = e[k]
        pc = list(pc)
        y = self.r.random()
        if y < 0.35 and pc:
            del pc[self.n(0, len(pc) - 1)]
        elif y < 0.6 and pc:
            i = self.n(0, len(pc) - 1)
            pc.insert(i, pc[i])
        elif y < 0.8 and len(pc) > 1:
            i = self.n(0, len(pc) - 2)
            pc[i], pc[i + 1] = pc[i + 1], pc[i]
        else:
            pc.insert(self.n(0, len(pc)) if self.p(0.6) else len(pc), self.pick("$", "!", "#", "*", "|", "/", "^zz", "NULL", "kk:", "txn", "| 99 x", "}", ")", "@@", "'P", "+", "option", "USD", "5", "#zz", "é", "(", "{", "TRUE", "Assets:Cash", '"s"', "foo", "@", "2020-02-02", ",", "~", "|", ":"))
        e[k] = (ind, pc)
        if self.p(0.1):
            e.insert(self.n(1, len(e)), (True, [self.pick("garbage", "Foo:Bar 1 USD", "5", "#a #b", "kk", "kk: 1 2")]))
        return e

    # ---- layout
    def join(self, pc):
        out = ""
        for i, x in enumerate(pc):
            if i == 0:
                out = x
                continue
            glue = " "
            z = self.r.random()
            if x in (":", ","):
                glue = "" if z < 0.8 else " "
            elif pc[i - 1] in ("(", "{") or x in (")", "}"):
                glue = self.pick("", " ")
            elif z < 0.12:
                glue = self.pick("  ", "\t", "   \t ")
            elif z < 0.16 and (x in "+-*/()" or pc[i - 1] in "+-*/()") and x[0] != "/" and pc[i - 1][-1:] != "/":
                glue = ""
            out += glue + x
        return out

    def comment(self):
        return self.pick(";", "; c", ";;; x", "; \"unclosed", "; 2020-01-01 open Assets:A", ";é", "; * x", ";option \"a\" \"b\"", "; trailing  ")

    def filler(self):
        """a line without meaning"""
        return self.pick("", "", "   ", "\t", "; comment", "  ; indented comment", ";", "* heading", "** sub 2020-01-01 open Assets:A", "! x", "& x", "# x", "? x", "% x", ": x", "#+STARTUP: \"x", "  : colon", " :x", "*", "#\"", "%é", "\t; \"")

    def render(self, lines, noise=None, crlf=None, final=True):
        z = self.o["noise"] if noise is None else noise
        out = []
        while self.p(z):
            out.append(self.filler())
        for ind, pc in lines:
            t = self.join(pc)
            if ind:
                t = self.pick("  ", "  ", "    ", "\t", " ") + t
            if self.p(z):
                t += self.pick("", " ", "  ", "\t") + (self.comment() if self.p(0.7) else "")
            elif z == 0 and self.p(0.03):
                t += " ; c"
            out.append(t)
            while self.p(z * 0.8):
                out.append(self.filler())
        eol = "\r\n" if (crlf if crlf is not None else self.p(0.08)) else "\n"
        s = eol.join(out)
        return s + (eol if final and not self.p(0.1) else "")

    def lines(self, lines, **kw):
        """rendered, to be followed by something else"""
        s = self.render(lines, **kw)
        return s if s.endswith("\n") else s + "\n"

    def ledger(self, n, bad=0.0, pragmas=0.0, options=0.0):
        out = []
        for _ in range(n):
            if self.p(bad):
                out += self.malformed()
            elif self.p(pragmas):
                out += self.pragma()
            elif self.p(options):
                out += self.option()
            else:
                out += self.entry()
        return out
