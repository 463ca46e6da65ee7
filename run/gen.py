"""Scenario generation: bounded sweeps, boundary pools and seeded random exploration. Generators
only choose inputs; expectations come from the specification."""
import os, random, re, string
from lib import HARNESS, REPO

KEYDIR = os.path.join(HARNESS, "keys")
NOW = [1700000000, 0]


def pem(name):
    return open(os.path.join(KEYDIR, name + ".pem")).read()


RSA = ["rsa1", "rsa2", "rsa3", "rsa4"]
PEM = {n: pem(n) for n in RSA + ["pkcs1", "ec", "rsa1024", "public"]}

RESERVED = list("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~ ")
CONTROLS = [chr(i) for i in range(0x20)] + ["\x7f"]
WIDE = ["\u00e9", "\u00df", "\u0130", "\u3042", "\u20ac", "\U0001f600", "e\u0301", "\u202e",
        "\ufeff", "\uffff", "\U0010ffff", "\u0080", "\u00a0", "\u2028", "\uff0f", "\u212a"]
TRICKY = ["%", "%2", "%20", "%2F", "%2f", "%25", "%zz", "+", "a+b", "a b", " a", "a ", "&", "=",
          "a=b", "a&b", "a=b&c=d", "?", "#", "a?b", "a#b", "//", "/a", "a/", "a//b", "\\", "a\\b",
          ".a", "a.", "...", "a..b", "..a", ".a/b", "~", "a~b", ":", "a:b", "http://x/", "@", "x@y",
          ";", "a;b", ",", "a,b", "*", "'", "\"", "<x>", "{a}", "$", "$key", "${x}", "\t", "\n",
          "\r\n", "a\nb", "\0", "", "x-goog-meta-a", "X-Goog-Algorithm ", "host", "auto",
          "null", "true", "0", "-1", "A", "a", "Z", "z", "AbC", "UPPER"]


def dictionary():
    """String, character and number literals of the code under test, as in fuzzing: they steer
    inputs towards special cases; nothing is expected of them."""
    strs, nums = set(), set()
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            t = open(os.path.join(d, f), errors="replace").read()
            t = re.sub(r"//[^\n]*", "", t)
            t = re.sub(r"#\[cfg\(test\)\]\s*mod tests.*", "", t, flags=re.S)
            for m in re.finditer(r'"((?:[^"\\\n]|\\.){1,80})"', t):
                s = m.group(1)
                try:
                    s = s.encode().decode("unicode_escape").encode("latin1", "replace").decode(
                        "utf-8", "replace")
                except (UnicodeDecodeError, UnicodeEncodeError):
                    continue
                strs.add(s)
                strs.add(re.sub(r"\{[^}]*\}", "x", s))
            for m in re.finditer(r"'([^'\\\n]|\\[nrt0\\'\"]|\\x[0-9a-fA-F]{2})'", t):
                c = m.group(1)
                strs.add({"\\n": "\n", "\\r": "\r", "\\t": "\t", "\\0": "\0", "\\\\": "\\",
                          "\\'": "'", '\\"': '"'}.get(c, chr(int(c[2:], 16)) if c[:2] == "\\x"
                                                     else c))
            for m in re.finditer(r"(?<![\w.])(\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?(?![\w.])", t):
                nums.add(int(m.group(1).replace("_", "")))
            for m in re.finditer(r"(?<![\w.])0x([0-9a-fA-F_]+)", t):
                nums.add(int(m.group(1).replace("_", ""), 16))
    strs.discard("")
    return sorted(strs), sorted(nums)


class Gen:
    def __init__(self, seed, tier, salt):
        self.r = random.Random(f"{seed}/{salt}")
        self.tier = tier
        self.strs, self.nums = dictionary()
        self.sizes = sorted({n + k for n in self.nums if n <= 4096 for k in (-1, 0, 1)
                             if 0 <= n + k} | {0, 1, 2, 63, 64, 65, 127, 128, 255, 256, 257})

    # ------------------------------------------------------------- text
    def word(self, n=None):
        n = self.r.randint(1, 12) if n is None else n
        return "".join(self.r.choice(string.ascii_letters + string.digits) for _ in range(n))

    def plain(self):
        return self.r.choice(string.ascii_lowercase) + self.word(self.r.randint(0, 8)).lower()

    def char(self):
        k = self.r.random()
        if k < .35:
            return self.r.choice(string.ascii_letters + string.digits)
        if k < .75:
            return self.r.choice(RESERVED)
        if k < .82:
            return self.r.choice(CONTROLS)
        if k < .95:
            return self.r.choice(WIDE)
        while True:
            c = self.r.randrange(0x110000)
            if not 0xd800 <= c < 0xe000:
                return chr(c)

    def text(self, empty=True):
        k = self.r.random()
        if k < .25:
            s = self.r.choice(TRICKY)
        elif k < .35 and self.strs:
            s = self.r.choice(self.strs)
            j = self.r.random()
            if j < .3:
                s = s + self.word(2)
            elif j < .6:
                s = self.word(2) + s
            elif j < .7:
                s = s.upper() if self.r.random() < .5 else s.lower()
        elif k < .85:
            s = "".join(self.char() for _ in range(self.r.randint(1, 10)))
        elif k < .95:
            s = self.word()
        else:
            n = self.r.choice(self.sizes)
            s = (self.word(8) * (n // 8 + 1))[:min(n, 1500)]
        return s if (s or empty) else "x"

    def tags(self, s):
        return s

    # ------------------------------------------------------------- times
    def nanos(self):
        return self.r.choice([0, 0, 1, 2, 499999999, 500000000, 999999998, 999999999,
                              self.r.randrange(10**9)])

    def instant(self):
        k = self.r.random()
        if k < .3:
            s = self.r.randrange(253402300800)
        elif k < .6:
            s = 1600000000 + self.r.randrange(400000000)
        elif k < .9:
            # around month, year, leap-day and century boundaries
            import datetime as dt
            y = self.r.choice([1970, 1971, 1972, 1999, 2000, 2001, 2023, 2024, 2025, 2037, 2038,
                               2099, 2100, 2101, 2104, 2400, 4000, 9996, 9999,
                               self.r.randint(1970, 9999)])
            m, d = self.r.choice([(1, 1), (1, 2), (2, 28), (3, 1), (12, 31), (6, 30), (10, 1),
                                  (9, 9), (self.r.randint(1, 12), self.r.randint(1, 28))])
            s = (dt.date(y, m, d) - dt.date(1970, 1, 1)).days * 86400
            s += self.r.choice([0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399,
                                self.r.randrange(86400), -1, -86400])
            s = max(0, min(s, 253402300799))
        else:
            s = self.r.choice([0, 1, 59, 86399, 86400, 2**31 - 1, 2**31, 2**32 - 1, 2**32,
                               253402300799, 253402300798, 253402214400])
        return [s, self.nanos()]

    def duration(self):
        """(seconds, nanoseconds), inside and around 0..604800 s"""
        k = self.r.random()
        if k < .5:
            return self.r.choice([0, 1, 2, 59, 60, 3600, 86400, 604799, 604800]), self.nanos()
        if k < .75:
            n = self.r.choice([n for n in self.nums if n < 10**6] or [1])
            return max(0, min(604800, n + self.r.choice([-1, 0, 1]))), self.nanos()
        return self.r.randrange(604801), self.nanos()

    @staticmethod
    def plus(t, d):
        n = t[1] + d[1]
        return [t[0] + d[0] + n // 10**9, n % 10**9]

    # ------------------------------------------------------------- keys
    def account(self):
        k = self.r.random()
        if k < .6:
            return f"{self.plain()}@{self.plain()}.iam.gserviceaccount.com"
        return self.text()

    def sa(self, account=None, name=None):
        """(key spec, info)"""
        name = name or (self.r.choice(RSA) if self.r.random() < .15 else self.r.choice(RSA[:2]))
        account = self.account() if account is None else account
        return {"t": "sa", "email": account, "pem": PEM[name]}, \
               {"account": account, "pub": name, "can": True}

    # ------------------------------------------------------------- calls
    def url(self, **kw):
        """A URL call with plain defaults; returns a case."""
        key, info = kw.pop("keyinfo", None) or self.sa("sa@example.com", "rsa1")
        at = kw.pop("at", list(NOW))
        now = kw.pop("now", list(NOW))
        op = {"op": "url", "key": key, "bucket": "bucket", "object": "object", "region": None,
              "expires": None, "at": at, "method": "GET", "blob": False, "headers": [],
              "query": [], "now": now}
        op.update(kw)
        if op["expires"] is None:
            op["expires"] = self.plus(at or now, (3600, 0))
        return {"op": op, "now": now, "info": info}

    def form(self, sets, now=None):
        return {"op": {"op": "form", "set": sets, "now": now or list(NOW)},
                "now": now or list(NOW), "info": None}

    def signing(self, **kw):
        key, info = kw.pop("keyinfo", None) or self.sa("sa@example.com", "rsa1")
        o = {"key": key, "info": info, "at": list(NOW), "expires": self.plus(NOW, (3600, 0)),
             "region": None, "blob": False}
        o.update(kw)
        return ["signing", o]

    # header names and values that HTTP can carry
    def hname(self):
        k = self.r.random()
        if k < .5:
            return self.r.choice(["Content-Type", "content-type", "X-Goog-Meta-A", "x-goog-meta-a",
                                  "X-GOOG-ACL", "x-goog-acl", "Range", "Content-MD5", "Accept",
                                  "X-Custom", "x-custom", "a", "A", "b", "X-Goog-Resumable",
                                  "x-goog-content-length-range", "Cache-Control", "h", "i", "zz",
                                  "Content-Length", "If-Match", "X-A", "X-A-B", "hos", "hosts"])
        if k < .6:
            s = "".join(c for c in self.r.choice(self.strs or ["x"]) if c in HTOK)
            return self.nohost(s or "y")
        n = self.r.choice([1, 2, 3, 5, 8, 16, 63, 64, 65, 100]) if k > .9 else self.r.randint(1, 6)
        return self.nohost("".join(self.r.choice(HTOK) for _ in range(n)))

    @staticmethod
    def nohost(n):
        # The Host header and x-goog-content-sha256 are not the caller's to give (see DESIGN.md).
        return n + "x" if n.lower() in ("host", "x-goog-content-sha256") else n

    def hvalue(self):
        k = self.r.random()
        if k < .2:
            return self.r.choice(["", "a", "A", "text/plain", "a,b", "a, b", " a", "a ", "\ta\t",
                                  "a  b", "a\tb", ":", "a:b", ";", "%20", "+", "\"q\"", " ", "x;y",
                                  "application/json; charset=utf-8", "0", "bytes=0-1"])
        if k < .3:
            s = self.r.choice(self.strs or ["x"])
            return "".join(c for c in s if 32 <= ord(c) < 127)
        n = self.r.choice(self.sizes) if k > .95 else self.r.randint(0, 10)
        return "".join(chr(self.r.randint(32, 126)) for _ in range(min(n, 600)))

    def headers(self, hi=4):
        hs = [[self.hname(), self.hvalue()] for _ in range(self.r.randint(0, hi))]
        if hs and self.r.random() < .4:
            h = self.r.choice(hs)
            n = h[0]
            n = self.r.choice([n, n.upper(), n.lower(), n.title()])
            hs.insert(self.r.randint(0, len(hs)), [n, self.hvalue()])
        return hs

    def qname(self):
        while True:
            s = self.r.choice(["a", "b", "ab", "a-b", "a.b", "a1", "a_", "A", "aa", "upload_id",
                               "response-content-type", "response-content-disposition", "generation",
                               "X-Goog-Custom-Audit-Key", "Z", "x-goog-x", "X", "Y", "W"]) \
                if self.r.random() < .35 else self.text()
            # Parameters of the signing process are not the caller's to give (see DESIGN.md).
            if s.lower() not in QRESERVED:
                return s

    def query(self, hi=5):
        ps = [[self.qname(), self.text()] for _ in range(self.r.randint(0, hi))]
        if ps and self.r.random() < .4:
            p = self.r.choice(ps)
            ps.insert(self.r.randint(0, len(ps)),
                      [p[0], self.r.choice([p[1], self.text(), p[1] + "a", "a"])])
        if ps and self.r.random() < .3:
            p = self.r.choice(ps)
            ps.insert(self.r.randint(0, len(ps)),
                      [p[0] + self.r.choice(["-", "=", "a", "0", "~", ".", "%", "!", "&"]),
                       self.text()])
            if ps[-1][0].lower() in QRESERVED:
                ps.pop()
        return ps

    def region(self):
        k = self.r.random()
        if k < .25:
            return None
        if k < .7:
            return self.r.choice(["auto", "us-central1", "asia-northeast1", "US", "eu", "", "a/b",
                                  "AUTO", "europe-west1 ", "us%20", "x+y"])
        return self.text()

    def any_url(self, valid=True):
        at = self.r.choice([None, "at"])
        now = self.instant() if at is None or self.r.random() < .3 else list(NOW)
        if at:
            at = self.instant()
        start = at or now
        return self.url(keyinfo=self.sa(), bucket=self.carried(), object=self.carried(),
                        region=self.region(), now=now, at=at,
                        expires=self.plus(start, self.duration_in()),
                        method=self.r.choice(["DELETE", "GET", "HEAD", "POST", "PUT"]),
                        headers=self.headers(), query=self.query())

    def duration_in(self):
        s, n = self.duration()
        return (s, n)

    def carried(self):
        while True:
            s = self.text()
            if not any(p in (".", "..") for p in s.split("/")):
                return s

    # ------------------------------------------------------------- forms
    TEXT = ["acl", "bucket", "Cache-Control", "Content-Disposition", "Content-Encoding",
            "Content-Type", "Expires", "key", "success_action_redirect", "x-goog-custom-time"]

    def setter(self, f):
        if f == "Content-Length":
            return [f, str(self.r.choice([0, 1, 9, 10, 1024, 2**31 - 1, 2**31, 2**32, 2**53,
                                          2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1,
                                          self.r.choice(self.nums) % 2**64,
                                          self.r.randrange(2**64)]))]
        if f == "success_action_status":
            return [f, str(self.r.choice([0, 1, 200, 201, 204, 99, 404, 65535, 1000, 20,
                                          self.r.choice(self.nums) % 65536,
                                          self.r.randrange(65536)]))]
        if f == "meta":
            n = self.r.choice(["a", "A", "b", "reviewer", "project-manager", "key", "meta-a"]) \
                if self.r.random() < .6 else self.text(empty=False)
            return ["meta", n, self.text()]
        return [f, self.text()]

    def any_form(self, sign=None):
        fs = self.TEXT + ["Content-Length", "success_action_status"]
        k = self.r.random()
        if k < .15:
            chosen = list(fs)
        else:
            chosen = [f for f in fs if self.r.random() < .4]
        sets = [self.setter(f) for f in chosen]
        sets += [self.setter("meta") for _ in range(self.r.choice([0, 0, 1, 2, 3]))]
        if self.r.random() < .3 and sets:
            s = self.r.choice(sets)
            sets.append(list(s) if s[0] == "meta" and self.r.random() < .5 else self.setter(s[0]))
        if not any(s[0] == "key" for s in sets):
            sets.append(self.setter("key"))
        sign = self.r.random() < .75 if sign is None else sign
        now = self.instant() if self.r.random() < .4 else list(NOW)
        if sign:
            if not any(s[0] == "bucket" for s in sets):
                sets.append(self.setter("bucket"))
            at = None if self.r.random() < .3 else self.instant()
            start = at or now
            d = self.duration()
            if self.r.random() < .3:
                d = (self.r.randrange(10**9), self.nanos())
            if d == (0, 0):
                d = (0, 1)
            e = self.plus(start, d)
            if e[0] > 253402300799:
                start = [253402300799, 0]
                at, e = start, [253402300799, 999999999]
            sets.append(self.signing(keyinfo=self.sa(), at=at, expires=e, region=self.region()))
        self.r.shuffle(sets)
        return self.form(sets, now)


HTOK = string.ascii_letters + string.digits + "!#$%&'*+-.^_`|~"
QRESERVED = {"x-goog-algorithm", "x-goog-credential", "x-goog-date", "x-goog-expires",
             "x-goog-signedheaders", "x-goog-signature"}


def sessions(cases, prefix, per=12, **kw):
    """Groups cases into calls sessions; op ids are case indices."""
    out = []
    for b in range(0, len(cases), per):
        ops = []
        for i in range(b, min(b + per, len(cases))):
            op = dict(cases[i]["op"])
            op["id"] = i
            ops.append(op)
        out.append(dict({"s": "calls", "sid": f"{prefix}{b}", "now": NOW, "keys": [], "ops": ops},
                        **kw))
    return out
