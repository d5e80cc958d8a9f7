"""Scenarios: sequences of operations on journals, drawn from a seed.

The generator knows nothing about what is right. It aims at texts that are mostly meaningful, in
unusual forms, and leaves their interpretation to the specification.
"""
import random
import re

SYMS = ["EUR", "USD", "$", "€", "BTC", "AAPL", "VEUR_AS", "GBP", "Ж", "日本", "e", "Eur", "eur", "EURO",
        "X%", "£", "h", "CHF", "_", "E", "BRK.B", "S&P", "C#", "A/B", "x:y"]
COMPS = ["Assets", "Expenses", "Income", "Liabilities", "Equity", "Cash", "Bank", "Food", "A", "a", "B", "AB",
         "Asset", "assets", "Groceries", "Joint Account", "2023", "Bar's", "R&D", "x-y", "Мој рачун", "日本",
         "café", "Ünal", "Fee 2", "Opening Balances", "@work", "$", "10 EUR", "z", "Z", "Ä", "1", "10", "2",
         "Trading", "Tax%", "é", "…", "#1", "P", "include"]
PAYEES = ["Supermarket", "Bank", "", "x", "Café Größe", "日本語", "Payee with  two spaces", "Smith; Sons", "a;b",
          "A = B", "=x", "2023-01-01", "Hair: cut", "|pipe", "#hash", "@", "Opening", "P", "1", "-", "end;",
          "x ;not a note", "Émile", "Tab less", "'quoted'", "\"q\"", "a, b"]
NOTES = ["note", "two words", "key: value", ":tag:", "a;b", "; double", "", "日本", "1 EUR", "  padded  ", "x",
         "2023-01-01", "@", "{5}", "é", "A:B  10 EUR", "P", "-", "trailing.", "=", "a  b"]


def fmt(n, scale):
    """the exact text of n / 10^scale"""
    s = str(abs(n)).rjust(scale + 1, "0")
    t = s if scale == 0 else s[:-scale] + "." + s[-scale:]
    return ("-" if n < 0 else "") + t


class Num:
    """exact decimal n / 10^s"""
    __slots__ = ("n", "s")

    def __init__(self, n, s):
        self.n, self.s = n, s

    def text(self):
        return fmt(self.n, self.s)

    def at(self, s):
        return self.n * 10 ** (s - self.s)

    def __neg__(self):
        return Num(-self.n, self.s)

    def __add__(self, o):
        s = max(self.s, o.s)
        return Num(self.at(s) + o.at(s), s)

    def __mul__(self, o):
        return Num(self.n * o.n, self.s + o.s)


def total(nums):
    r = Num(0, 0)
    for x in nums:
        r = r + x
    return r


LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_$%€éÉßşİıΣσςдДǅ日"
ODD = ".'&#:~?!^/*<>"


def word(rng, letters, lo=1, hi=8):
    return "".join(rng.choice(letters) for _ in range(rng.randint(lo, hi)))


def variants(rng, w):
    """texts that are easily mistaken for the given one"""
    return [w.lower(), w.upper(), w.swapcase(), w.capitalize(), w + w[-1], w[:-1], w[1:], w[::-1], w + "_", "_" + w,
            w + "S", w[:1], w * 2, w + rng.choice(LETTERS), rng.choice(LETTERS) + w]


def related(rng, k):
    """k different symbols, many of them similar to each other"""
    letters = rng.choice([LETTERS, LETTERS[:26], LETTERS[:52]]) + (ODD if rng.random() < 0.1 else "")
    out = []
    while len(out) < k:
        w = word(rng, letters)
        if out and rng.random() < 0.75:
            w = rng.choice(variants(rng, rng.choice(out)))
        if w and w not in out and w[0] not in ".*#:~!" and not any(c.isdigit() or c.isspace() for c in w):
            out.append(w)
    return out


def numerals(rng, t):
    """other ways to write the number, and numbers that are too long"""
    s, b = ("-", t[1:]) if t[:1] == "-" else ("", t)
    k = rng.random()
    if k < 0.3:
        return s + "0" * rng.randint(1, 3) + b
    if k < 0.45 and "." not in b:
        return s + b + "."
    if k < 0.6:
        return s + "." + str(rng.randint(0, 999))
    if k < 0.75:
        return s + b + ("" if "." in b else ".") + "0" * rng.randint(1, 6)
    if k < 0.9:
        return s + word(rng, "123456789", 1, 30) + "." + word(rng, "0123456789", 20, 32)
    return s + word(rng, "123456789", 25, 32)


PUNCT = "-_.,'&()/+=@#%!?*<>^~|$\"\\{}[]`"
TEXT = LETTERS + LETTERS[:52] * 2 + "0123456789" * 3 + PUNCT


def name_part(rng):
    """a component of an account name"""
    while True:
        sp = " " if rng.random() < 0.85 else rng.choice("\u00a0\u3000\u2003")
        t = sp.join(word(rng, TEXT, 1, rng.choice([2, 6, 12])) for _ in range(rng.choice([1, 1, 1, 2, 3])))
        if t[0] not in "(*!<[":
            return t


def phrase(rng):
    """a payee or a note"""
    return rng.choice([" ", " ", "  ", " ; ", ";", ": ", " = "]).join(
        word(rng, TEXT + ";:", 1, rng.choice([3, 8])) for _ in range(rng.choice([1, 2, 3, 5])))


def month_days(y, m):
    return 31 if m in (1, 3, 5, 7, 8, 10, 12) else 30 if m != 2 else 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28


class Gen:
    def __init__(self, rng, nsyms=None, naccts=None, depth=4):
        self.r = rng
        k = nsyms or rng.choice([1, 2, 2, 3, 3, 4, 6])
        self.syms = rng.sample(SYMS, min(k, len(SYMS)))
        if k > len(SYMS):
            self.syms += many_syms(k - len(SYMS))
        elif rng.random() < 0.25:
            self.syms = related(rng, k)
        self.nocomm = rng.random() < 0.12
        self.comps = rng.sample(COMPS, rng.randint(3, 8))
        if rng.random() < 0.25:
            self.comps = [name_part(rng) for _ in range(rng.randint(3, 8))]
        self.long = rng.random() < 0.03
        if self.long:
            self.comps += [word(rng, LETTERS[:52] + " ", 30, rng.choice([40, 100, 300])).strip().replace("  ", "x") or "x"
                           for _ in range(2)]
            self.syms[0] = word(rng, LETTERS[:52], 9, rng.choice([13, 40, 80]))
        self.words = rng.random() < 0.25
        self.accts = []
        n = naccts or rng.choice([2, 3, 4, 5, 6, 8])
        tries = 0
        while len(self.accts) < n:
            tries += 1
            base = []
            if self.accts and rng.random() < 0.6:
                base = rng.choice(self.accts).split(":")
                base = base[:rng.randint(0, len(base))]
            room = max(1, depth - len(base))
            comps = self.comps if tries < 6 * n else COMPS + ["c%d" % i for i in range(99)]
            path = base + [rng.choice(comps) for _ in range(rng.randint(1, room if depth > 9 else min(room, 3)))]
            if path[0][:1] in list("(*!<[") or ";" in path[0]:
                continue
            if rng.random() < 0.02:
                path.insert(rng.randint(0, len(path)), "")
            if rng.random() < 0.04 and len(path) > 1:      # spaces around the colon
                path[1], path[0] = rng.choice([" ", ""]) + path[1], path[0] + rng.choice([" ", "", ""])
            name = ":".join(path)
            if n > 8 and self.accts and rng.random() < 0.15:       # differs only in case
                name = rng.choice([str.upper, str.lower, str.swapcase])(rng.choice(self.accts))
            if name not in self.accts:
                self.accts.append(name)
        self.year = rng.choice([2023, 2024, 2000, 1999, 2022, 1900, 1970])
        self.date_no = 0

    # -- leaves ----------------------------------------------------------------------------
    def date(self):
        r = self.r
        if r.random() < 0.1:
            return r.choice(["2024-02-29", "2000-02-29", "1999-12-31", "2023-01-01", "0001-01-01", "9999-12-31",
                             "2023-02-28", "2023-12-31", "1900-02-28"])
        y = self.year if r.random() < 0.9 else r.choice([r.randint(1, 9999), r.randint(1950, 2050)])
        m = r.randint(1, 12)
        return "%04d-%02d-%02d" % (y, m, r.randint(1, month_days(y, m)))

    def time(self):
        r = self.r
        return r.choice(["00:00:00", "23:59:59", "12:00:00", "09:30:15", "00:00:01", "%02d:%02d:%02d" % (
            r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))])

    def num(self, zero=True):
        r = self.r
        k = r.random()
        if k < 0.35:
            n = Num(r.randint(1, 100), 0)
        elif k < 0.75:
            n = Num(r.randint(1, 99999), r.choice([1, 2, 2, 2, 3]))
        elif k < 0.83:
            n = Num(r.randint(1, 10 ** 12), r.choice([0, 4, 6, 8]))
        elif k < 0.88:
            n = Num(r.randint(1, 10 ** r.randint(8, 22)), r.randint(8, 18))
        elif k < 0.92:
            n = Num(r.choice([1, 10, 100, 1000, 1000000, 5, 50, 2000]), r.choice([0, 1, 2]))
        elif k < 0.95 and zero:
            n = Num(0, r.choice([0, 0, 2, 5]))
        else:
            n = Num(r.randint(1, 9), r.choice([0, 2, 10]))
        return -n if r.random() < 0.4 else n

    def sym(self):
        if self.nocomm and self.r.random() < 0.5:
            return ""
        return self.r.choice(self.syms)

    odd = 0
    wide = None                          # the number of postings of most transactions, if they are long

    def amount(self, n, sym, style=None):
        """the text of an amount in one of the four notations"""
        t = n if isinstance(n, str) else n.text()
        if self.odd and self.r.random() < self.odd:
            t = numerals(self.r, t)
        if not sym:
            return t
        style = self.r.randint(0, 5) if style is None else style
        if style == 1:
            return t + sym
        if style == 2:
            return sym + " " + t
        if style == 3:
            return sym + t
        if style == 4:
            return t + "  " + sym
        return t + " " + sym

    def acct(self):
        return self.r.choice(self.accts)

    # -- transactions ------------------------------------------------------------------------
    def header(self):
        r = self.r
        return {"date": self.date(), "aux": self.date() if r.random() < 0.15 else None,
                "payee": self.payee(), "note": self.note() if r.random() < 0.2 else None}

    def payee(self):
        if self.long and self.r.random() < 0.2:
            return word(self.r, TEXT + " ", 50, self.r.choice([100, 600, 1500]))
        return phrase(self.r) if self.words else self.r.choice(PAYEES)

    def note(self):
        if self.long and self.r.random() < 0.2:
            return word(self.r, TEXT + " ", 50, self.r.choice([100, 600, 1500]))
        return phrase(self.r) if self.words else self.r.choice(NOTES)

    def post(self, amt=None, cost=None, lot=None, inote=None):
        return {"k": "post", "acct": self.acct(), "amt": amt, "cost": cost, "lot": lot, "inote": inote}

    def single(self, sym, n=None):
        """postings in one commodity that add up to zero, as [Num]"""
        if self.wide and self.r.random() < 0.7:
            n = self.r.randint(self.wide // 2, self.wide)
        n = n or (self.r.choice([2, 2, 2, 3, 3, 4, 5, 7]) if self.r.random() < 0.98 else self.r.choice([9, 12, 17, 33]))
        vals = [self.num() if n < 40 else Num(self.r.randint(-10 ** 6, 10 ** 6), self.r.choice([0, 2, 4])) for _ in range(n - 1)]
        if self.r.random() < 0.15 and n > 2:
            vals[-1] = -vals[0]
        vals.append(-total(vals))
        self.r.shuffle(vals)
        return vals

    def body(self, kind):
        """the postings of a transaction"""
        r = self.r
        sym = self.sym()
        if kind == "simple":
            return [self.post(self.amount(v, sym)) for v in self.single(sym)]
        if kind == "elided":
            ps = [self.post(self.amount(v, sym)) for v in self.single(sym)]
            r.choice(ps)["amt"] = None
            return ps
        if kind == "multi":
            syms = r.sample(self.syms, min(len(self.syms), r.choice([2, 2, 3])))
            ps = [self.post(self.amount(v, s)) for s in syms for v in self.single(s, r.choice([2, 2, 3]))]
            r.shuffle(ps)
            return ps
        if kind == "multielided":
            syms = r.sample(self.syms, min(len(self.syms), r.choice([2, 2, 3])))
            ps = [self.post(self.amount(v, s)) for s in syms for v in self.single(s, 2)]
            r.shuffle(ps)
            r.choice(ps)["amt"] = None
            return ps
        if kind == "tworest":            # remainders in several commodities for one omitted amount
            syms = r.sample(self.syms, min(len(self.syms), r.choice([2, 2, 3])))
            ps = [self.post(self.amount(self.num(), s)) for s in syms for _ in range(r.choice([1, 1, 2]))] + [self.post()]
            r.shuffle(ps)
            return ps
        if kind in ("cost", "costelided", "costs"):
            ps, vals = [], []
            y = r.choice(self.syms)
            for _ in range(1 if kind != "costs" else r.choice([2, 2, 3])):
                x = r.choice([s for s in self.syms if s != y] or ["QQQ"])
                q = self.num(zero=r.random() < 0.3)
                c = self.num(zero=r.random() < 0.1)
                c = Num(abs(c.n), c.s)
                if r.random() < 0.5:
                    value = q * c
                    mark = "@"
                else:
                    value = c if q.n >= 0 else -c
                    mark = "@@"
                if q.s + c.s > 27 or len(str(abs(q.n * c.n))) > 27:
                    q, c, mark, value = Num(3, 0), Num(5, 1), "@", Num(15, 1)
                sp = r.choice([" ", " ", " ", "", "   "])
                ps.append(self.post(self.amount(q, x), mark + sp + self.amount(c, y),
                                    self.lot(y) if r.random() < 0.2 else None))
                vals.append(value)
            rest = -total(vals)
            if kind == "costs" and r.random() < 0.4:
                part = self.num()
                ps.append(self.post(self.amount(part, y)))
                rest = rest + -part
            ps.append(self.post(self.amount(rest, y)))
            if r.random() < 0.5:
                ps[-1]["amt"] = None
            r.shuffle(ps)
            return ps
        if kind == "exchange":
            if len(self.syms) < 2:
                return self.body("simple")
            x, y = r.sample(self.syms, 2)
            a, b = self.num(False), self.num(False)
            a, b = Num(abs(a.n), a.s), Num(-abs(b.n), b.s)
            if r.random() < 0.5:
                a, b = -a, -b
            if r.random() < 0.3:
                b = Num(-a.n, a.s)
            ps = [self.post(self.amount(a, x)), self.post(self.amount(b, y))]
            if r.random() < 0.35:        # several postings per side
                part = self.num(False)
                ps.append(self.post(self.amount(part, x)))
                if r.random() < 0.5:
                    ps.append(self.post(self.amount(-part, x)))
            if r.random() < 0.2:
                part = self.num(False)
                ps += [self.post(self.amount(part, y)), self.post(self.amount(-part, y))]
            if r.random() < 0.15:        # a zero posting in one of them
                ps.append(self.post(self.amount(Num(0, r.choice([0, 2])), r.choice([x, y]))))
            if r.random() < 0.6:
                r.shuffle(ps)
            return ps
        if kind == "unbalanced":
            ps = self.body(r.choice(["simple", "multi", "cost", "costs", "simple"]))
            k = r.choice(ps)
            if k["amt"] is not None and k["cost"] is None:
                k["amt"] = self.amount(self.num(), self.sym() or r.choice(self.syms))
            elif r.random() < 0.5:
                k["cost"] = None
            return ps
        if kind == "nearly":             # off by one unit in the last place
            vals = self.single(sym)
            i = r.randrange(len(vals))
            s = vals[i].s + r.choice([0, 0, 1, 5])
            if s <= 27:
                vals[i] = vals[i] + Num(r.choice([1, -1]), s)
            return [self.post(self.amount(v, sym)) for v in vals]
        if kind == "same_sign":
            if len(self.syms) < 2:
                return self.body("unbalanced")
            x, y = r.sample(self.syms, 2)
            a, b = self.num(False), self.num(False)
            if (a.n < 0) != (b.n < 0):
                b = -b
            return [self.post(self.amount(a, x)), self.post(self.amount(b, y))]
        if kind == "three":
            syms = r.sample(SYMS, 3)
            return [self.post(self.amount(self.num(False), s)) for s in syms]
        if kind == "twoelided":
            ps = self.body("simple") + [self.post()]
            ps[0]["amt"] = None
            r.shuffle(ps)
            return ps
        if kind == "empty":
            return []
        if kind == "one":
            return [self.post(self.amount(self.num(), sym))]
        raise ValueError(kind)

    GOOD = ["simple"] * 4 + ["elided"] * 4 + ["multi"] * 2 + ["cost"] * 3 + ["costs"] * 2 + ["exchange"] * 3
    ANY = GOOD + ["unbalanced", "nearly", "same_sign", "three", "twoelided", "multielided", "tworest"]
    BAD = ["unbalanced", "nearly", "same_sign", "three", "twoelided", "nearly", "unbalanced", "tworest", "one"]

    def lot(self, y=None):
        r = self.r
        y = y or r.choice(self.syms)
        n = self.num(False)
        price = "{" + r.choice(["", "", " "]) + self.amount(Num(abs(n.n), n.s), y) + r.choice(["", "", " "]) + "}"
        date = "[" + self.date() + r.choice(["", "", "", " "]) + "]"
        k = r.random()
        if k < 0.4:
            return price
        if k < 0.55:
            return date
        if k < 0.8:
            return price + r.choice([" ", ""]) + date
        return date + r.choice([" ", ""]) + price

    def xact(self, kind=None, notes=0.15):
        r = self.r
        kind = kind or r.choice(self.GOOD)
        x = {"k": "xact", "h": self.header(), "body": []}
        while r.random() < notes:
            x["body"].append({"k": "note", "note": self.note()})
        for p in self.body(kind):
            if r.random() < notes / 2:
                p["inote"] = self.note()
            x["body"].append(p)
            while r.random() < notes:
                x["body"].append({"k": "note", "note": self.note()})
        return x

    def price(self, s=None, d=None):
        r = self.r
        a = s or r.choice(self.syms)
        b = d or r.choice([y for y in self.syms if y != a] or ["QQ"])
        n = self.num(r.random() < 0.1)
        return {"k": "price", "date": self.date(), "time": self.time() if r.random() < 0.5 else None,
                "s": a, "q": Num(abs(n.n), n.s).text(), "d": b}

    def items(self, n, kinds=None, prices=0.15, notes=0.15):
        out = []
        for _ in range(n):
            if self.r.random() < prices:
                out.append(self.price())
            else:
                out.append(self.xact(self.r.choice(kinds) if kinds else None, notes))
        return out


def many_syms(k):
    """distinct plain symbols"""
    out = []
    i = 0
    while len(out) < k:
        t, n = "", i
        while True:
            t = chr(65 + n % 26) + t
            n //= 26
            if n == 0:
                break
        out.append("S" + t)
        i += 1
    return out


# ---------------------------------------------------------------------------------------------
# rendering

class Layout:
    """how items are written; the default is canonical"""

    def __init__(self, rng=None, wild=False, crlf=False):
        self.r = rng
        self.wild = wild
        self.crlf = crlf

    def pick(self, plain, *others):
        if not self.wild or self.r is None:
            return plain
        return self.r.choice((plain,) + others)

    def trail(self):
        return self.pick("", "", "", " ", "   ")

    def post(self, p, lots=True):
        t = self.pick("    ", " ", "  ", "        ", " " * 13, " " * self.r.choice([17, 40, 130]) if self.r else "") + p["acct"]
        if p["amt"] is not None:
            t += self.pick("  ", "  ", "    ", " " * 20, " " * self.r.choice([5, 70, 300]) if self.r else "") + p["amt"]
            if p["lot"] and lots:
                t += self.pick(" ", "  ") + p["lot"]
            if p["cost"]:
                t += self.pick(" ", "  ") + p["cost"]
        if p["inote"] is not None:
            t += self.pick("  ", "   ", "      ") + ";" + self.pick(" ", "", "   ") + p["inote"]
        return t + self.trail()

    def note(self, n):
        return self.pick("    ", " ", "       ") + ";" + self.pick(" ", "", "  ") + n["note"] + self.trail()

    def header(self, h):
        t = h["date"]
        if h["aux"]:
            t += "=" + h["aux"]
        if h["payee"]:
            t += self.pick(" ", "  ", " ") + h["payee"]
        if h["note"] is not None:
            t += self.pick("  ", "   ", "      ") + ";" + self.pick(" ", "", "   ") + h["note"]
        return t + self.trail()

    def price(self, p):
        sep = self.pick(" ", "  ", "   ")
        ws = ["P", p["date"]] + ([p["time"]] if p["time"] else []) + [p["s"], p["q"], p["d"]]
        return sep.join(ws) + self.trail()

    def fillers(self):
        """top-level lines without meaning"""
        if not self.wild or self.r is None:
            return []
        out = []
        while self.r.random() < 0.3:
            out.append(self.r.choice(["; comment", "# comment", "* org", "| bar", ";", "", "   ", "#2023-01-01 x",
                                      ";  A  10 EUR", "*** heading", "", " ", "; 日本"]))
        return out

    def item(self, it, lots=True):
        if it["k"] == "raw":
            return list(it["lines"])
        if it["k"] == "price":
            return [self.price(it)]
        out = [self.header(it["h"])]
        for b in it["body"]:
            out.append(self.post(b, lots) if b["k"] == "post" else self.note(b))
        return out

    def text(self, items, lots=True, final=True):
        lines = []
        for it in items:
            lines += self.fillers()
            lines += self.item(it, lots)
            if it["k"] == "xact":
                lines.append(self.pick("", "", "", "  "))
        lines += self.fillers()
        if not final and not self.wild:
            while lines and lines[-1] == "":
                lines.pop()
        if self.wild and self.r and self.r.random() < 0.02:      # a tab: rejected or read like a space
            i = self.r.randrange(len(lines)) if lines else 0
            if lines and lines[i][:1] == " ":
                lines[i] = "\t" + lines[i].lstrip(" ")
        nl = "\r\n" if self.crlf else "\n"
        t = nl.join(lines)
        if final:
            t += nl
        return t


PLAIN = Layout()


# ---------------------------------------------------------------------------------------------
# scenarios

ALL = ["xacts", "accts", "bal", "report", "areport", "pool", "prices"]

GROUPS = {
    "C01": ["xacts"], "C02": ["xacts"], "C03": ["xacts"], "C04": ["xacts", "accts"],
    "C05": ["xacts", "accts", "bal"], "C06": ["accts", "bal"], "C07": ["accts", "bal", "report"],
    "C08": ["accts", "areport"], "C09": ["xacts", "accts"], "C10": ["xacts", "pool", "prices"],
    "C11": ["xacts"], "C12": ["xacts"], "C13": ["prices"], "C14": ["prices"], "C15": ["prices"],
    "C16": ["xacts"], "C17": ["xacts"], "C18": ALL, "C19": ALL, "C20": ["xacts"],
    "C21": ["xacts", "accts", "bal", "pool", "prices"], "C22": ["xacts", "accts", "bal", "pool"],
    "C23": ["accts", "bal", "report", "areport"], "C24": [], "C25": ALL,
    "C26": ["xacts", "accts", "bal", "prices"], "C27": ALL, "C28": ["xacts"], "C29": [],
}
# C13, C14: the transactions are needed for their number
for _p in ("C06", "C07", "C08", "C13", "C14", "C15", "C23"):
    GROUPS[_p] = GROUPS[_p] + ["xacts"]


def read(slot, text, **kw):
    return dict({"op": "read", "slot": slot, "via": "text", "text": text, "obs": True}, **kw)


def syms_of(gen):
    return sorted(set(gen.syms + ["QQQ", "QQ"] + SYMS))


def via(rng, text, slot=0):
    """a read of the text through one of the entry points"""
    k = rng.random()
    if k < 0.55:
        return read(slot, text)
    if k < 0.75:
        return read(slot, text, via="cursor")
    return read(slot, text, via="portions", sizes=[rng.choice([1, 2, 3, 7, 64, 4096]) for _ in range(rng.randint(1, 3))],
                interrupt=rng.random() < 0.2)


SOUP_POST = ["5", "-5", "0", "1.5", "EUR", "USD", "$", "5 EUR", "-2 USD", "@", "@@", "@ 2 USD", "@@ 3 USD", "{5 USD}", "{2 EUR}",
             "[2023-01-01]", "[2023-02-30]", "{", "}", "[", "]", "x", "=", "-", ".", ",", "1.2.3", "{x}", "(c)", ";", "; n"]
SOUP_PRICE = ["2023-01-02", "2023-01-02", "2023-02-30", "10:11:12", "24:00:00", "10:11", "EUR", "USD", "AB", "5", "1.25", "0", "-1",
              "1.2.3", "x", "5 USD", "EUR 5 USD", "2023-01-02 EUR", ";", "{5}", "@"]
SOUP_HEAD = ["=2023-01-03", "=2023-02-29", "=", "Payee", "  ; note", ";", "  ;", "x", "2023-01-02", "*", "!", "(1)", "|", "=x", "-", "0", "9"]


# lines that are not part of a journal, or not at every place
DIRECTIVES = [
    "    A  10 EUR", "account Assets", "include", "include nofile.ledger", "P", "x",
    "P 2023-01-01", "P 2023-01-01 EUR", "P 2023-01-01 EUR 5", "commodity EUR",
    "P 2023-13-01 EUR 5 USD", "P 2023-01-01 EUR x USD", "P 2023-01-01 EUR 5 EUR",
    "P 2023-01-01 25:00:00 EUR 5 USD", "apply tag x", "~ monthly", "end", "=/x/",
    "P 2023-01-01 EUR 5,0 USD", "bucket A", "! include x", "D 1000.00 EUR",
    " ; note outside", "2023-02-30 x", "2023/01/01 x", "20x3-01-01 x", "2023-01-01x",
    "i 2023-01-01 EUR 5 USD", "o", "in x.ledger", "C 1 EUR = 2 USD", "Y 2023", "A x", "N EUR", "a", "year 2023",
    "include /nonexistent/x.ledger", "include nodir/x.ledger", "include .", "import x.ledger", "price 2023-01-01 EUR 5 USD",
    "pP 2023-01-01 EUR 5 USD", "tag x", "payee x", "@", "!", "(", "é", "'", "\\", "%", "?", "_", ",", ".", "/",
    "# x", "; x", "* x", "| x", "#", "\tA  5 EUR", "\t", "\t; x",
    "-x", "--sort date", "-", "- ", "-f x", "2023-01-01=2023-02-31 x", "2023-01-01= x", "2023-01-01=", "2023-01-01==2023-01-02 x", "Price 2023-01-01 EUR 5 USD", "I", "Include x.ledger"]

# not amounts, most of them
POSTINGS = [
    "EUR", "10 EUR @", "10 EUR @@", "@ 5 EUR", "@@ 5 EUR", "10 EUR 5 USD", "10 EUR extra text",
    "1..0 EUR", "1.2.3 EUR", "--5 EUR", "5- EUR", "1,000.00 EUR", "1,5 EUR", "5 EUR @ x", "5 EUR @ EUR",
    "5 EUR @@ -", "5 EUR {", "5 EUR {}", "5 EUR {x}", "5 EUR {5 USD", "5 EUR {USD}", "5 EUR [2023-02-30]",
    "5 EUR [x]", "5 EUR []", "5 EUR [2023-01-01", "5 EUR {1 USD} {2 USD}", "5 EUR }", "5 EUR ]",
    "5 EUR @ 5 USD @ 6 USD", "5 EUR @@@ 5 USD", "5 EUR @ 5 USD x", "5 EUR @ 1.2.3 USD", "abc", "$", "5-5 EUR",
    "5 EUR [2023-01-01] [2023-01-02]", "5 EUR @ {5 USD}", "5 EUR {1.2.3 USD}", "5.5.5", "-", ".", ",",
    "1e5", "0x10 EUR", "5 5 EUR", "5 EUR 5", "EUR 5 5", "EUR 5 USD", "5 EUR USD", "1 000 EUR", "5 EUR = 5 EUR",
    "5 EUR {5 USD}}", "5 EUR {5 USD} }", "5 EUR [2023-01-01]]", "5 EUR [2023-01-01 x]", "5 EUR [2023-01-01=2023-01-02]",
    "5 EUR [x 2023-01-01]", "5 EUR {5 USD x}", "5 EUR {5 USD 6}", "5 EUR {{5 USD}}", "5 EUR [[2023-01-01]]", "5 EUR ]", "5 EUR }",
    "5 EUR [2023-01-01] x", "5 EUR {5 USD} x", "5 EUR {5 USD} 6", "5 EUR {5 USD} @", "5 EUR [2023-01-01", "5 EUR 2023-01-01]",
    "5 EUR {5 USD} [2023-01-01] {5 USD}", "5 EUR [2023-01-01] {5 USD} [2023-01-01]", "5 EUR {} @ 5 USD", "5 EUR [] @ 5 USD",
    "5 EUR @ 5 USD {6 USD}", "5 EUR @ 5 USD [2023-01-01]", "5 EUR @ 5 USD @ 6 USD", "5 EUR @@ 5 USD @ 6 USD", "5 EUR @@@ 5 USD",
    "5 EUR @ @ 5 USD", "5 EUR @ 5 USD x", "5 EUR @ x", "5 EUR @@ x 5 y",
    "5 EUR @ 5,0 USD", "5 EUR {5,0 USD}", "(5 EUR)", "5 EUR (note)", "79228162514264337593543950336 EUR",
    "1.00000000000000000000000000001 EUR"]


def badnum(rng, t):
    """a number with something in it that does not belong there, mostly"""
    p = rng.choice([0, len(t), rng.randint(0, len(t))])
    return t[:p] + rng.choice(["-", "-", ".", ".", ",", "+", "_", "e", "e5", "'", "x", "--", "..", "0x", "%", "\u0663", "−"]) + t[p:]


def twist(rng, name):
    """a name that is nearly the given one"""
    i = rng.randint(0, len(name))
    c = name[i:i + 1]
    k = rng.randint(0, 6)
    if k == 0:
        return name[:i] + rng.choice(" :.-_xX0") + name[i:]
    if k == 1:
        return name[:i] + name[i + 1:]
    if k == 2:
        return name[:i] + c.swapcase() + name[i + 1:]
    if k == 3:
        return name[:i] + c + c + name[i + 1:]
    if k == 4:
        return name[:i] + name[i + 1:i + 2] + c + name[i + 2:]
    if k == 5:
        return name.replace(":", rng.choice([" :", ": ", " : ", "::", ".", "/"]))
    return name[:i]


def api(rng, g, kinds, slot=0):
    """a transaction made by calls; the text is what it means"""
    x = g.xact(rng.choice(kinds), rng.choice([0.1, 0.4]))
    x["h"].update(payee=rng.choice(["", "Shop", "A b", "日本", "x"]), note=rng.choice([None, None, "n", "A  b: C"]))
    body = []
    for b in x["body"]:
        if b["k"] == "note":
            b["note"] = rng.choice(["n", "two  Words", "É;", "Key: value", ":tag:"])
            body.append(dict(b))
            continue
        b["inote"] = b["lot"] = None
        cost = b["cost"] or ""
        body.append({"k": "post", "acct": b["acct"], "amt": b["amt"] or "", "cost": cost.lstrip("@").strip() if b["amt"] else "",
                     "per": bool(b["amt"]) and cost.startswith("@") and not cost.startswith("@@")})
    h = x["h"]
    return read(slot, PLAIN.text([x]), via="api", x={"date": h["date"], "aux": h["aux"] or "", "payee": h["payee"],
                                                    "note": h["note"] or "", "body": body})


class Scenarios:
    def __init__(self, prop, seed, big=0.06):
        self.prop = prop
        self.seed = seed
        self.big = big

    def make(self, i):
        rng = random.Random(f"{self.seed}/{self.prop}/{i}")
        sc = getattr(self, "s_" + self.prop, self.s_general)(rng, i)
        sc.setdefault("groups", GROUPS[self.prop])
        sc.setdefault("files", [])
        sc["id"] = f"{self.prop}-{self.seed}-{i}"
        if self.prop == "C25":
            for op in sc["ops"]:
                op.setdefault("obs", True)
        return sc

    # -- the general form: a few reads into one journal --------------------------------------
    def world(self, rng):
        k = rng.random()
        if k < self.big / 3:
            return Gen(rng, nsyms=rng.choice([9, 17, 33, 40]), naccts=4), rng.randint(20, 30)
        if k < 2 * self.big / 3:
            return Gen(rng, naccts=rng.choice([17, 33, 40]), depth=rng.choice([2, 4, 9])), rng.randint(15, 30)
        if k < self.big:
            return Gen(rng), rng.choice([33, 40, 65] if rng.random() < 0.9 else [130, 260])
        if k < self.big * 1.2:           # many siblings, long transactions
            g = Gen(rng)
            base = rng.choice(["", "", rng.choice(g.accts) + ":"])
            g.accts = g.accts[:2] + ["%s%s%d" % (base, rng.choice(["", "c", "é"]), i) for i in range(rng.choice([40, 70, 140]))]
            for _ in range(5):
                t = rng.choice(g.accts).swapcase()
                if t not in g.accts:
                    g.accts.append(t)
            g.wide = rng.choice([40, 70, 130])
            return g, rng.choice([2, 3, 4])
        if k < self.big * 1.4:
            return Gen(rng, naccts=rng.choice([3, 6]), depth=rng.choice([12, 20, 40])), rng.randint(2, 5)
        return Gen(rng, depth=rng.choice([2, 3, 4, 4, 7])), rng.choice([1, 1, 2, 2, 3, 4, 6])

    def s_general(self, rng, i, kinds=None, prices=0.12, notes=0.15, wild=0.4, reads=(1, 1, 2, 3)):
        g, n = self.world(rng)
        kinds = kinds or (g.GOOD if rng.random() < 0.75 else g.ANY)
        ops = []
        for _ in range(rng.choice(reads)):
            lay = Layout(rng, wild=rng.random() < wild, crlf=rng.random() < 0.1)
            m = max(1, n if not ops else n // 2)
            ops.append(via(rng, lay.text(g.items(m, kinds, prices, notes), final=rng.random() < 0.8)))
        if rng.random() < 0.2:
            for _ in range(rng.choice([1, 1, 2, 5, 9])):
                ops.insert(rng.randint(0, len(ops)), api(rng, g, kinds))
        return {"ops": ops, "syms": syms_of(g)}

    def s_C01(self, rng, i):
        return self.s_general(rng, i, Gen.GOOD * 2 + Gen.BAD * 2, 0.05, 0.05)

    def s_C02(self, rng, i):
        return self.s_general(rng, i, ["elided"] * 6 + ["costelided"] * 2 + ["cost", "costs", "twoelided", "simple",
                                                                       "multielided", "tworest", "exchange"], 0.05, 0.1)

    def s_C03(self, rng, i):
        if rng.random() < 0.6:
            return self.s_general(rng, i)
        # one amount per transaction, the other one omitted: any number will do
        g = Gen(rng)
        g.odd = 0.6
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            items = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                x = g.xact("simple", 0.05)
                x["body"] = [g.post(g.amount(g.num(), g.sym())), g.post()]
                rng.shuffle(x["body"])
                items.append(x)
            ops.append(via(rng, Layout(rng, wild=rng.random() < 0.4, crlf=rng.random() < 0.1).text(items)))
        return {"ops": ops, "syms": syms_of(g)}

    def s_C05(self, rng, i):
        return self.s_general(rng, i, Gen.GOOD, 0.05, 0.05)

    s_C06 = s_C05

    def s_C04(self, rng, i):
        sc = self.s_general(rng, i, ["simple", "elided", "multi"], 0.02, 0.02)
        if rng.random() < 0.5:
            g = Gen(rng, depth=rng.choice([2, 5, 12]))
            for _ in range(rng.randint(1, 6)):
                sc["ops"].insert(rng.randint(0, len(sc["ops"])),
                                 {"op": "reg", "slot": 0, "name": g.acct(), "obs": True})
        return sc

    def s_C09(self, rng, i):
        g, n = self.world(rng)
        ops = []
        for _ in range(rng.choice([2, 3, 5, 9])):
            kinds = g.GOOD if rng.random() < 0.85 else g.ANY
            ops.append(via(rng, PLAIN.text(g.items(max(1, n // 2), kinds, 0.1, 0.05))))
            if rng.random() < 0.3:
                ops.append({"op": "reg", "slot": 0, "name": g.acct() + ":" + rng.choice(COMPS), "obs": True})
            if rng.random() < 0.15:
                ops += [api(rng, g, kinds) for _ in range(rng.choice([1, 2, 6]))]
        return {"ops": ops, "syms": syms_of(g)}

    def s_C10(self, rng, i):
        sc = self.s_general(rng, i, Gen.GOOD + ["three"], 0.25, 0.02)
        if rng.random() < 0.2:
            g = Gen(rng)
            sc["syms"] = sorted(set(sc["syms"] + g.syms + ["QQ"]))
            sc["ops"].insert(rng.randint(0, len(sc["ops"])), self.added(rng, g))
        for _ in range(rng.randint(1, 5)):
            s = rng.choice(sc["syms"])
            s = rng.choice([s, rng.choice(SYMS + ["", "nope", " EUR", "EUR "]), rng.choice(variants(rng, s))])
            sc["ops"].insert(rng.randint(0, len(sc["ops"])), {"op": "cfind", "slot": 0, "sym": s, "obs": True})
        return sc

    def s_C11(self, rng, i):
        return self.s_general(rng, i, ["cost", "costs", "costelided"] * 3 + ["exchange", "simple", "multi"], 0.02, 0.05)

    def s_C12(self, rng, i):
        return self.s_general(rng, i, ["exchange"] * 6 + ["cost", "multi", "simple", "costs", "elided"], 0.02, 0.02)

    def s_C13(self, rng, i):
        return self.s_general(rng, i, ["exchange", "cost", "costs"] * 3 + ["simple", "elided"], 0.15, 0.02)

    def s_C14(self, rng, i):
        g, n = self.world(rng)
        g.year = 2023
        ops = []
        dates = [(g.date(), g.time() if rng.random() < 0.6 else None) for _ in range(rng.choice([1, 2, 4]))]
        for _ in range(rng.choice([1, 2, 3])):
            items = []
            for _ in range(max(2, n)):
                if rng.random() < 0.75:
                    p = g.price()
                    if rng.random() < 0.5:
                        p["date"], p["time"] = rng.choice(dates)
                    items.append(p)
                else:
                    items.append(g.xact(rng.choice(["cost", "exchange", "simple"]), 0.02))
            ops.append(via(rng, Layout(rng, wild=rng.random() < 0.4, crlf=rng.random() < 0.1).text(
                items, final=rng.random() < 0.8)))
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 2, 4])):
                op = self.added(rng, g)
                if rng.random() < 0.4 and op["f"] != "line":
                    d, t = rng.choice(dates)
                    op["moment"] = [int(x) for x in d.split("-")] + [int(x) for x in (t or "0:0:0").split(":")]
                ops.insert(rng.randint(0, len(ops)), op)
        return {"ops": ops, "syms": syms_of(g)}

    def s_C15(self, rng, i):
        shape = rng.choice(["random", "random", "chain", "star", "diamond", "race", "race"])
        k = rng.choice([2, 3, 4, 5, 6, 8]) if shape != "race" else rng.choice([5, 6, 7, 9, 11])
        g = Gen(rng, nsyms=k)
        g.nocomm = False
        future = rng.random() < 0.2
        items = []
        n = len(g.syms)
        edges = []
        if shape == "chain":
            edges = [(a, a + 1) for a in range(n - 1)] + ([(n - 1, 0)] if rng.random() < 0.3 else [])
        elif shape == "star":
            edges = [(0, a) for a in range(1, n)] + [(a, 0) for a in range(1, n) if rng.random() < 0.4]
        elif shape == "diamond":
            edges = [(0, a) for a in range(1, n - 1)] + [(a, n - 1) for a in range(1, n - 1)]
        elif shape == "race":
            # several separate paths from the first to the last
            inner = list(range(1, n - 1))
            rng.shuffle(inner)
            while inner:
                m = rng.randint(1, 3)
                path, inner = [0, *inner[:m], n - 1], inner[m:]
                edges += list(zip(path, path[1:]))
        for _ in range(rng.randint(0, 2 if shape == "race" else 2 * n)):
            a, b = rng.randrange(n), rng.randrange(n)
            if a != b and (shape != "race" or (a, b) != (0, n - 1)):
                edges.append((a, b))
        busy = rng.random() < 0.3       # some links with many prices
        for a, b in edges:
            for _ in range(rng.choice([1, 1, 2, 3]) if not busy else rng.choice([1, 1, 4, 9, 20])):
                p = g.price(g.syms[a], g.syms[b])
                q = g.r.choice([Num(rng.randint(1, 20), 0), Num(rng.randint(1, 999), 2), Num(rng.randint(1, 10 ** 6), 4)])
                p["q"] = q.text() if rng.random() < 0.95 else rng.choice(["0", "0.00"])
                if future:
                    p["date"] = "%04d-%02d-%02d" % (rng.randint(2000, 2200), rng.randint(1, 12), rng.randint(1, 28))
                elif rng.random() < 0.4:
                    p["date"] = "2023-0%d-01" % rng.randint(1, 3)
                items.append(p)
        rng.shuffle(items)
        if rng.random() < 0.4:
            items.append(g.xact(rng.choice(["cost", "exchange"]), 0))
        cut = rng.randint(0, len(items)) if rng.random() < 0.3 else len(items)
        ops = [read(0, PLAIN.text(items[:cut]))]
        qs = [(a, b) for a in g.syms for b in g.syms if a != b]
        rng.shuffle(qs)
        if shape == "race":
            qs.insert(0, (g.syms[0], g.syms[-1]))

        def queries(m):
            return [{"op": "price", "slot": 0, "s": a, "d": b, "obs": False,
                     "moment": rng.choice([[2024, 1, 1, 0, 0, 0], [2000, 1, 1, 0, 0, 0], [2023, 2, 1, 0, 0, 0],
                                           [2199, 1, 1, 0, 0, 0]])} for a, b in qs[:m]]
        ops += queries(8)
        if rng.random() < 0.25:
            ops += [self.added(rng, g) for _ in range(rng.choice([1, 3]))] + queries(8)
        if cut < len(items):
            ops.append(read(0, PLAIN.text(items[cut:])))
            ops += queries(12)
        return {"ops": ops, "syms": g.syms}

    def s_C16(self, rng, i):
        g = Gen(rng)
        items = []
        for _ in range(rng.randint(1, 5)):
            x = g.xact("simple", 0.1)
            h = x["h"]
            if rng.random() < 0.4:
                h["aux"] = g.date()
            if rng.random() < 0.4:
                h["note"] = g.note()
            k = rng.random()
            if k < 0.12:
                bad = rng.choice(["2023-02-29", "2023-13-01", "2023-00-10", "2023-04-31", "2023-01-32", "2023-01-00",
                                  "1900-02-29", "2023-06-31", "2100-02-29", "2023/01/01", "2023-01", "20230101",
                                  "2023-1-1", "23-01-01", "2023-01-0x", "2023.01.01"])
                h[rng.choice(["date", "aux"])] = bad
            elif k < 0.3:
                h["payee"] = " ".join(rng.choice(["a", "é", "=", ";", "b ", "  x", "|", "2", "日", "-"])
                                      for _ in range(rng.randint(1, 5))).strip()
            items.append(x)
        lay = Layout(rng, wild=rng.random() < 0.5, crlf=rng.random() < 0.15)
        return {"ops": [via(rng, lay.text(items, final=rng.random() < 0.8))], "syms": syms_of(g)}

    def s_C17(self, rng, i):
        return self.s_general(rng, i, ["simple", "elided", "cost", "multi"], 0.05, 0.45, 0.5)

    def s_C18(self, rng, i):
        g, n = self.world(rng)
        items = g.items(n, None, 0.15, 0.2)
        ops = [read(0, PLAIN.text(items))]
        for s in (1, 2):
            lay = Layout(rng, wild=rng.random() < 0.85, crlf=rng.random() < 0.35)
            ops.append(read(s, lay.text(items, final=rng.random() < 0.7)))
            ops.append({"op": "same", "slot": 0, "other": s, "mode": "all"})
        return {"ops": ops, "syms": syms_of(g)}

    def s_C19(self, rng, i):
        g, n = self.world(rng)
        n = max(n, rng.choice([1, 2, 3, 5]))
        items = g.items(n, (g.GOOD + ["empty"]) if rng.random() < 0.9 else g.ANY, 0.15, 0.1)
        if rng.random() < 0.004:         # many transactions, most of them without postings
            items += [g.xact("simple" if rng.random() < 0.02 else "empty", 0) for _ in range(rng.choice([260, 300]))]
        tag = f"c19_{self.seed}_{i}_"
        files = []
        ops = [read(0, PLAIN.text(items), via="cursor")]

        def cuts():
            m = rng.randint(1, min(4, len(items)))
            cs = sorted(rng.sample(range(1, len(items)), min(m, len(items) - 1))) if len(items) > 1 else []
            bounds = [0] + cs + [len(items)]
            return [items[a:b] for a, b in zip(bounds, bounds[1:])]

        pads = rng.random() < 0.06

        def pad(text):
            # the bytes around the size of the buffer of the reader
            if not pads:
                return text
            fill = rng.choice([8192, 8192, 16384, 4096]) - rng.randint(0, min(len(text.encode()) + 2, 4000))
            return ";" + "x" * max(0, fill - 2) + "\n" + text

        def add(name, text, main=False):
            """-> how the file is named where it is used"""
            k = rng.random()
            name = tag + name
            if rng.random() < 0.4:
                name = rng.choice([name.upper(), name.capitalize(), name.replace("e", "E")])
            if k < 0.25:
                name = tag + rng.choice(["d/", "d/e/", "d.x/", "d x/"]) + name
            if rng.random() < 0.08:
                name = name.replace(".ledger", rng.choice([" x.ledger", "; y.ledger", " a  b.ledger"]))
            f = {"name": name, "text": pad(text)}
            files.append(f)
            k = rng.random()
            if k < 0.2:
                f["aliases"] = ["%CWD%/" + name]
            elif k < 0.3:
                f["aliases"] = [rng.choice(["./", "./", "../files/", "././"]) + name]
            return f.get("aliases", [name])[0]

        slot = 1
        for way in rng.sample(["pieces", "portions", "files", "include", "nested", "file"], rng.choice([1, 2])):
            if way == "pieces":
                for c in cuts():
                    ops.append(via(rng, PLAIN.text(c, final=rng.random() < 0.7), slot))
            elif way == "portions":
                ops.append(read(slot, pad(PLAIN.text(items)), via="portions",
                                sizes=[rng.choice([1, 1, 2, 3, 5, 17, 100] if not pads else [100, 1000, 8192, 9000])
                                       for _ in range(rng.randint(1, 5))], interrupt=rng.random() < 0.4))
            elif way == "files":
                for k, c in enumerate(cuts()):
                    f = add(f"{slot}p{k}.ledger", PLAIN.text(c, final=rng.random() < 0.7))
                    ops.append(read(slot, "", via="file", file=f))
            elif way == "file":
                f = add(f"{slot}w.ledger", PLAIN.text(items, final=rng.random() < 0.7))
                ops.append(read(slot, "", via="file", file=f))
            elif way == "include":
                main = []
                for k, c in enumerate(cuts()):
                    if rng.random() < 0.6:
                        f = add(f"{slot}i{k}.ledger", PLAIN.text(c, final=rng.random() < 0.5))
                        main.append({"k": "raw", "lines": [f"include{rng.choice([' ', ' ', '  '])}{f}{rng.choice(['', '', ' ', '  '])}"]
                                     + ([""] if rng.random() < 0.5 else [])})
                    else:
                        main += c
                ops.append(via(rng, PLAIN.text(main, final=rng.random() < 0.7), slot))
            else:
                cs = cuts()
                inner = None
                for k, c in enumerate(reversed(cs)):
                    body = list(c)
                    if inner:
                        body.append({"k": "raw", "lines": [f"include {inner}"]})
                    inner = add(f"{slot}n{k}.ledger", PLAIN.text(body, final=rng.random() < 0.5))
                ops.append(read(slot, "", via="file", file=inner))
            ops.append({"op": "same", "slot": 0, "other": slot, "mode": "all"})
            slot += 1
        return {"ops": ops, "files": files, "syms": syms_of(g)}

    MUT = "0123456789--..,,  @@{}[]();:\t=/PpxX$é'\"#*|~!%&+_\u00a0\n"

    def mutate(self, rng, text):
        k = rng.random()
        if k < 0.5:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                p = rng.randrange(len(text) + 1)
                c = rng.choice(self.MUT)
                m = rng.random()
                if m < 0.35:
                    text = text[:p] + c + text[p:]
                elif m < 0.7:
                    text = text[:p] + c + text[p + 1:]
                else:
                    text = text[:p] + text[p + 1:]
            return text
        lines = text.split("\n")
        p = rng.randrange(len(lines))
        if k < 0.6:
            lines[p] = rng.choice(DIRECTIVES)
        elif k < 0.63:
            if rng.random() < 0.5:
                lines.insert(p, "P " + self.soup(rng, SOUP_PRICE))
            else:
                lines.insert(p, rng.choice(["2023-01-02", "2023-01-02", "2"]) + self.soup(rng, SOUP_HEAD))
        elif k < 0.66:
            lines.insert(p, lines[p])
        elif k < 0.7:
            del lines[p]
        else:
            posts = [q for q, l in enumerate(lines) if l.startswith(" ") and l.strip() and l.strip()[0] != ";"]
            if posts:
                p = rng.choice(posts)
                acct = lines[p].strip().split("  ")[0]
                if rng.random() < 0.25:
                    ns = list(re.finditer(r"[0-9]+(\.[0-9]+)?", lines[p][4 + len(acct):]))
                    if ns:
                        m = rng.choice(ns)
                        a, b = (4 + len(acct) + x for x in m.span())
                        lines[p] = lines[p][:a] + badnum(rng, m.group()) + lines[p][b:]
                        return "\n".join(lines)
                if rng.random() < 0.35:
                    lines[p] = "    " + acct + "  " + self.soup(rng, SOUP_POST)
                    return "\n".join(lines)
                lines[p] = "    " + acct + "  " + rng.choice(POSTINGS)
        return "\n".join(lines)

    def soup(self, rng, tokens):
        return "".join(rng.choice(tokens) + rng.choice(["", " ", " ", " "]) for _ in range(rng.randint(1, 6))).rstrip()

    def s_C20(self, rng, i):
        g = Gen(rng)
        tag = f"c20_{self.seed}_{i}_"
        files, ops = [], []
        if rng.random() < 0.3:
            ops.append(read(0, PLAIN.text(g.items(2))))
        text = PLAIN.text(g.items(rng.choice([1, 1, 2, 3]), None, 0.2, 0.1), final=rng.random() < 0.8)
        if rng.random() < 0.85:
            text = self.mutate(rng, text)
        way = rng.random()
        name = tag + "m.ledger"
        if way < 0.5:
            ops.append(via(rng, text))
        elif way < 0.6:
            p = rng.randint(0, len(text))
            ops.append(read(0, text[:p], via="portions", sizes=[rng.choice([1, 3, 50])], fail=True,
                            kind=rng.randrange(10)))
        elif way < 0.7:
            data = text.encode("utf-8")
            p = rng.randint(0, len(data))
            bad = list(data[:p] + rng.choice([b"\xff", b"\xc3", b"\xe2\x82", b"\xc0\x80", b"\xed\xa0\x80"]) + data[p:])
            if rng.random() < 0.4:
                ops.append(read(0, "", via="portions", sizes=[rng.choice([1, 3, 50])], bytes=bad))
            else:
                try:
                    bytes(bad).decode("utf-8")
                except UnicodeDecodeError:
                    files.append({"name": name, "text": "", "bytes": bad})
                    if rng.random() < 0.5:
                        ops.append(read(0, "", via="file", file=name))
                    else:
                        ops.append(read(0, f"include {name}\n"))
        elif way < 0.78:
            files.append({"name": name, "text": text})
            line = f"include {name}"
            if rng.random() < 0.3:
                line = rng.choice(["includes %s", "Include %s", "INCLUDE %s", "includ %s", "import %s", "!include %s", "@include %s", "inc %s", "i %s",
                                   "include %s x", "include %s %s", "include x %s", "include %s ; note", "include \"%s\"", "include %s*",
                                   "include=%s", "include:%s", "include%s", "include -f %s"]).replace("%s", name)
            ops.append(read(0, PLAIN.text(g.items(1)) + line + "\n" + PLAIN.text(g.items(1))))
        elif way < 0.84:
            files.append({"name": tag + "d/x.ledger", "text": text})
            gone = rng.choice([tag + "missing.ledger", tag + "d", tag + "d/", tag + "d/x.ledger/", tag + "d/X.ledger", tag + "d/x", ".", ""])
            w = rng.random()
            if w < 0.5:
                ops.append(read(0, "", via="file", file=gone))
            elif w < 0.75 or not gone:
                ops.append({"op": "run", "slot": 9, "args": rng.choice([["b"], ["accounts"], ["bal"]]) + ["-f", gone]})
            else:
                ops.append(read(0, PLAIN.text(g.items(1)) + f"include {gone}\n" + PLAIN.text(g.items(1))))
        else:
            if rng.random() < 0.8:
                files.append({"name": name, "text": text})
            ops.append({"op": "run", "slot": 9, "args": rng.choice([["b"], ["accounts"], ["bal"]]) + ["-f", name]})
        if not ops:
            ops.append(read(0, text))
        return {"ops": ops, "files": files, "syms": syms_of(g)}

    def s_C21(self, rng, i):
        g, n = self.world(rng)
        ops = []
        for _ in range(rng.choice([2, 3, 4, 6])):
            items = g.items(rng.randint(1, max(1, min(n, 8))), g.GOOD, 0.2, 0.05)
            k = rng.random()
            if k < 0.25:
                items.append(g.xact(rng.choice(g.BAD), 0.05))
                if rng.random() < 0.5:
                    items.append(g.xact("simple"))
            text = PLAIN.text(items)
            if 0.25 <= k < 0.4:
                text = self.mutate(rng, text)
            ops.append(via(rng, text))
        return {"ops": ops, "syms": syms_of(g)}

    def s_C22(self, rng, i):
        if rng.random() < 0.06:          # many siblings
            g = Gen(rng, naccts=rng.choice([12, 20]), depth=1)
            base = rng.choice(["", "Assets:"])
            g.accts = [base + a for a in g.accts]
            sc = {"ops": [read(0, PLAIN.text(g.items(20, ["simple", "elided"], 0, 0)))], "syms": syms_of(g)}
        else:
            sc = self.s_general(rng, i, ["simple", "elided", "multi", "cost"], 0.1, 0.02)
        names = sorted({l.strip().split("  ")[0] for op in sc["ops"] if op["op"] == "read"
                        for l in op["text"].replace("\r", "").split("\n") if l.startswith(" ") and l.strip()
                        and l.strip()[0] != ";"})
        for _ in range(rng.randint(3, 10)):
            base = rng.choice(names) if names else "A"
            comps = base.split(":")
            name = rng.choice([base, ":".join(comps[:-1]) or base, base.lower(), base.upper(), base + ":Sub", base[:-1] or "x",
                               base + "x", ":".join(reversed(comps)), comps[-1], comps[0], "Nope", "Nope:Sub:Sub",
                               base + " ", " " + base, ":".join(comps[1:]) or "y", base + ":" + comps[0],
                               comps[0] + ":" + comps[0], "no:" + base, base + ":", ":" + base,
                               base.replace(":", "::"), ":", comps[0] + "::" + comps[-1]])
            if rng.random() < 0.3:
                name = twist(rng, name)
            k = rng.random()
            if k < 0.5:
                op = {"op": "find", "name": name}
            elif k < 0.75:
                op = {"op": "reg", "name": name}
            elif k < 0.9:
                s = rng.choice(SYMS)
                op = {"op": "cfind", "sym": rng.choice([s, s.lower(), s + "x", "", s[:1], " ", twist(rng, s)])}
            else:
                op = {"op": "obs"}
            op.update(slot=0, obs=True)
            sc["ops"].insert(rng.randint(1, len(sc["ops"])), op)
        return sc

    def s_C23(self, rng, i):
        g, n = self.world(rng)
        n = min(n, 12)
        tag = f"c23_{self.seed}_{i}_"
        files = []
        m = rng.choice([1, 1, 2, 2, 3])
        for k in range(m):
            text = PLAIN.text(g.items(max(1, n // m), None if rng.random() < 0.92 else g.BAD, 0.1, 0.05),
                              final=rng.random() < 0.8)
            files.append({"name": tag + "f%d%s" % (k, rng.choice([".ledger", "", ".x y", "'q", "-b"])), "text": text})
        names = [f["name"] for f in files]
        rng.shuffle(names)
        names = names[:rng.choice([len(names), len(names), 1])]
        if rng.random() < 0.2:
            for _ in range(rng.choice([1, 1, 2, 3])):
                names.insert(rng.randint(0, len(names)), rng.choice(names))
        if rng.random() < 0.08:
            names.insert(rng.randint(0, len(names)), tag + "missing")
        ops = [read(0, "", via="file", file=f) for f in names]
        verb = rng.choice(["b", "bal", "balance", "accounts", "accounts"])
        args = []
        rest = list(names)
        while rest:
            k = rng.choice([1, 1, 1, 2]) if len(rest) > 1 else 1
            args.append(["-" + "f" * k, *rest[:k]])
            rest = rest[k:]
        args.insert(rng.randint(0, len(args)), [verb])
        bad = rng.random()
        if bad < 0.06:
            args.append(["-f"])
        elif bad < 0.1:
            args.append(["-x", "y"])
        elif bad < 0.13:
            args.insert(rng.randint(0, len(args)), rng.choice([["-q", "z"], ["-"], ["-f", ""], ["-"]]))
        elif bad < 0.2:
            args.insert(rng.randint(0, len(args)), rng.choice([
                ["--file", names[0]], ["--file=" + names[0]], ["--f", names[0]], ["-F", names[0]], ["-xf", "a", names[0]],
                ["--verbose"], ["--f", "a", names[0]], ["-b", "2023-01-01"], ["-é", "1"], ["--fff", names[0], names[0], names[0], names[0]]]))
        elif bad < 0.28:
            args = [[rng.choice(["BALANCE", "Bal", "B", "register", "reg", "r", "print", "c", "budget", "bala", "balances", "ba",
                                 "x", "é", "ACCOUNTS", "cleared", "a", "account", "accountss", "ac", "apples", "accounts "])] if a == [verb] else a for a in args]
        elif bad < 0.33:
            args.remove([verb])
        elif bad < 0.4:
            k = args.index([verb]) + 1
            args.insert(k, [rng.choice(["balance", "accounts", "A", "b", "register"])])
        args = [w for a in args for w in a]
        ways = ["run", rng.choice(["runcmd", "runbin"])]
        for w in ways:
            op = {"op": w, "slot": 0, "args": args}
            if w == "runcmd":
                op["cmd"] = " ".join(quote(a, rng) for a in args)
            ops.append(op)
        if names[0] != tag + "missing":
            op = {"op": "run", "slot": 1, "args": [rng.choice(["b", "accounts"]), "-f", names[0]]}
            ops += [read(1, "", via="file", file=names[0]), op]
        return {"ops": ops, "files": files, "syms": syms_of(g)}

    ARITH = ["add", "add_assign", "add_method", "sub_assign", "mul", "mul_assign", "div", "abs", "inverse", "invert",
             "inverse2", "copy", "remove", "qadd", "qsub", "qmul", "qmul_assign", "qdiv", "qadd2", "null"]

    def s_C24(self, rng, i):
        g = Gen(rng, nsyms=3)
        ops = []

        def one():
            n = g.num()
            if rng.random() < 0.15:
                n = Num(rng.choice([0, 1, -1, 10 ** 28, 79228162514264337593543950335, -79228162514264337593543950335,
                                    10 ** 14, 2 ** 64, 2 ** 32, 2 ** 63 - 1, 3, 7]), rng.choice([0, 0, 1, 14, 28]))
            return {"q": n.text(), "c": rng.choice(g.syms + ["", g.syms[0]])}
        for _ in range(rng.choice([0, 1, 2])):
            n = rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, rng.randint(-2 ** 31, 2 ** 31 - 1), rng.randint(-1000, 1000)])
            t = g.num().text() if rng.random() < 0.5 else rng.choice(
                [numerals(rng, g.num().text()), "", "-", "x", "1x", "1.2.3", "1,5", "--1", "1e5", " 1", "1 ", "0x1", ".", "-.5"])
            ops.append({"op": "qconv", "slot": 0, "n": n, "text": t})
        for f in rng.sample(self.ARITH, 8):
            a, b = one(), one()
            if rng.random() < 0.5:
                b["c"] = a["c"]
            if rng.random() < 0.15:
                b["q"] = a["q"]
            ops.append({"op": "arith", "slot": 0, "f": f, "a": a, "b": b})
        return {"ops": ops, "syms": g.syms}

    def s_C29(self, rng, i):
        g = Gen(rng, nsyms=rng.choice([9, 20, 40]) if rng.random() < 0.08 else None)
        ops = []
        for _ in range(rng.choice([2, 4, 6])):
            def one():
                return {"q": (last if last and rng.random() < 0.2 else g.num()).text(), "c": g.sym()}
            last = g.num()
            terms = []
            for _ in range(rng.choice([1, 2, 3, 3, 5, 8, 20]) if len(g.syms) < 9 else 50):
                f = rng.choice(["add", "add_assign", "sub_assign", "sub_assign", "bal"])
                terms.append({"f": f, "as": [one() for _ in range(rng.choice([0, 1, 2, 3, 6]))]} if f == "bal" else dict(one(), f=f))
            ops.append({"op": "bal", "slot": 0, "terms": terms})
        return {"ops": ops, "syms": g.syms}

    def added(self, rng, g):
        """a price added through the interface of the pool"""
        p = g.price()
        f = rng.choice(["price", "struct", "line"])
        d = [int(x) for x in p["date"].split("-")]
        t = [int(x) for x in (p["time"] or "0:0:0").split(":")]
        line = PLAIN.price(p)
        if rng.random() < 0.1:
            line = rng.choice(["P", "P 2023-01-01", "P 2023-01-01 EUR 5", "P 2023-02-30 EUR 5 USD", "P 2023-01-01 EUR x USD",
                               "P 2023-01-01 24:00:01 EUR 5 USD", "P 2023-01-01 EUR 1.2.3 USD", "P x EUR 5 USD"])
        return {"op": "addprice", "slot": 0, "f": f, "text": line, "s": p["s"], "moment": d + t,
                "a": {"q": p["q"], "c": p["d"]}, "obs": True}

    def s_C25(self, rng, i):
        g, n = self.world(rng)
        n = min(n, 8)
        items = g.items(n, g.GOOD if rng.random() < 0.9 else g.ANY, 0.3, 0.1)
        text = PLAIN.text(items)
        ops = [read(0, text), {"op": "obs", "slot": 0, "obs": True}, read(1, text),
               {"op": "same", "slot": 0, "other": 1, "mode": "all"}]
        if len(g.syms) > 1:
            for _ in range(3):
                a, b = rng.sample(g.syms, 2)
                for s in (0, 1):
                    ops.append({"op": "price", "slot": s, "s": a, "d": b, "moment": [2030, 1, 1, 0, 0, 0], "obs": s == 0})
        more = PLAIN.text(g.items(1, None, 0.2))
        ops += [read(0, more), read(1, more), {"op": "same", "slot": 0, "other": 1, "mode": "all"}]
        return {"ops": ops, "syms": syms_of(g)}

    def s_C26(self, rng, i):
        g = Gen(rng, nsyms=3)
        g.nocomm = False
        ops = []
        if rng.random() < 0.8:
            items = g.items(rng.randint(1, 3), ["cost", "simple", "costs"], 0.1, 0)
            for it in items:
                for p in it.get("body", []):
                    if p["k"] == "post" and p["amt"] and rng.random() < 0.5:
                        p["lot"] = g.lot()
            ops.append(read(0, PLAIN.text(items)))
        else:
            ops.append(read(0, ""))
        for _ in range(rng.randint(2, 6)):
            a, b = g.num(), g.num()
            if rng.random() < 0.15:
                a, b = Num(rng.choice([1, -1]), 0), (Num(1, 0) if rng.random() < 0.3 else b)
            ops.append({"op": "exch", "slot": 0, "per": rng.random() < 0.5, "obs": True,
                        "a": {"q": a.text(), "c": rng.choice(g.syms)}, "b": {"q": b.text(), "c": rng.choice(g.syms)},
                        "moment": rng.choice([[2023, 1, 1, 0, 0, 0], [2024, 2, 29, 23, 59, 58]])})
        return {"ops": ops, "syms": g.syms}

    def s_C27(self, rng, i):
        g, n = self.world(rng)
        items = g.items(min(n, 20), None, 0.1, 0.05)
        for it in items:
            for p in it.get("body", []):
                if p["k"] == "post" and p["amt"] and any(c not in "0123456789.- " for c in p["amt"]):
                    p["lot"] = g.lot() if rng.random() < 0.5 else p["lot"]
        lay = PLAIN
        ops = [read(0, lay.text(items)), read(1, lay.text(items, lots=False)),
               {"op": "same", "slot": 0, "other": 1, "mode": "lots"}]
        return {"ops": ops, "syms": syms_of(g)}

    def s_C28(self, rng, i):
        g = Gen(rng, nsyms=2)
        g.nocomm = False
        ops = []
        n = g.num()
        x, y = g.syms[:2]
        t = n.text()
        if rng.random() < 0.25:
            t = rng.choice(["1.", ".5", "+5", "1,000", "1.2.3", "--1", "-", "", "1e3", "00012", "0.000", "-0", "007.10", "1-",
                            "12345678901234567890.12345678", "79228162514264337593543950335",
                            "79228162514264337593543950336", "0.0000000000000000000000000001", "-.5", "1 2"])
        elif rng.random() < 0.2:
            t = badnum(rng, t)
        pos = t.lstrip("-")
        for st in rng.sample(range(5), 3):
            k = rng.random()
            a = g.amount(t, x, st)
            if k < 0.4:
                ops.append({"op": "pamt", "slot": 0, "text": a})
            elif k < 0.6:
                ops.append(read(0, f"2023-01-01 x\n    A  {a}\n    B\n\n"))
            elif k < 0.8:
                c = g.amount(pos, x, st)
                ops.append(read(0, f"2023-01-01 x\n    A  3 {y} @@ {c}\n    B\n\n"))
            else:
                c = g.amount(pos, x, st)
                z = rng.choice(["Za", "Zb", "Zc", "Zd", "Ze", "Zf"])
                ops.append(read(0, f"2023-01-01 x\n    A  3 {z} {{{c}}}\n    B\n\n"))
                ops.append({"op": "exch", "slot": 0, "per": True, "a": {"q": "1", "c": z}, "b": {"q": "5", "c": y},
                            "moment": [2023, 1, 1, 0, 0, 0], "obs": False})
        if rng.random() < 0.2:
            ops.append({"op": "pamt", "slot": 0, "text": rng.choice(
                ["EUR", "abc", "@", "{5}", "é", "x y", ";", "$", "-", "5 EUR x", "EUR 5 x", "  7 EUR", "7 EUR  ", ".", ","])})
        return {"ops": ops, "syms": syms_of(g) + ["Za", "Zb", "Zc", "Zd", "Ze", "Zf"]}


def quote(a, rng):
    if all(c.isalnum() or c in "-_./" for c in a):
        return a if rng.random() < 0.8 else "'" + a + "'"
    if "'" in a:
        return '"' + a + '"'
    return rng.choice(["'" + a + "'", '"' + a + '"'])
