"""A reference implementation of the documented interpolation grammar, written from docs/source/grammar.rst and the .g4 rules: maximal munch over the modes, then recursive descent."""
import re

WS = r"[ \t]*"
W1 = r"[ \t]+"
INT = r"(?:0|[1-9](?:_?[0-9])*)"
POINT = rf"(?:{INT}\.|(?:{INT})?\.[0-9](?:_?[0-9])*)"
# alternatives longest first where one can be a prefix of another
POINT_L = rf"(?:(?:{INT})?\.[0-9](?:_?[0-9])*|{INT}\.)"
EXPO = rf"(?:(?:{POINT_L}|{INT})[eE][+-]?[0-9](?:_?[0-9])*)"
FLOAT = rf"[+-]?(?:{EXPO}|{POINT_L}|[Ii][Nn][Ff]|[Nn][Aa][Nn])"
ID = r"[a-zA-Z_][a-zA-Z0-9_\-]*"
ESC = r"(?:\\[\\()\[\]{}:=, \t])+"


class Reject(Exception):
    pass


def _m(*rules):
    return [(t, re.compile(p, re.S), act) for t, p, act in rules]


def _quoted(q):
    return _m(("INTER_OPEN", r"\$\{" + WS, "push I"), ("QCLOSE", q, "pop"), ("STR", rf"[^{q}$]*[^{q}\\$]", None), ("ESC_INTER", r"(?:\\\\)*\\\$\{", None), ("ESC", rf"(?:\\\\)*\\{q}", None),
              ("QESC", r"(?:\\\\)+", None), ("STR", r"\\+", None), ("STR", r"\$", None))


MODES = {
    "D": _m(("INTER_OPEN", r"\$\{" + WS, "push I"), ("STR", r"[^$]*[^\\$]", None), ("ESC_INTER", r"(?:\\\\)*\\\$\{", None), ("TESC", r"(?:\\\\)+", None), ("STR", r"\\+", None), ("STR", r"\$", None)),
    "V": _m(("INTER_OPEN", r"\$\{" + WS, "push I"), ("{", r"\{" + WS, "push V"), ("BRACE_CLOSE", WS + r"\}", "pop"), ("QUOTE", "'", "push S"), ("QUOTE", '"', "push Q"), (",", WS + "," + WS, None), ("[", r"\[" + WS, None),
            ("]", WS + r"\]", None), (":", WS + ":" + WS, None), ("FLOAT", FLOAT, None), ("INT", r"[+-]?" + INT, None), ("BOOL", r"[Tt][Rr][Uu][Ee]|[Ff][Aa][Ll][Ss][Ee]", None), ("NULL", r"[Nn][Uu][Ll][Ll]", None),
            ("CHAR", r"[/\-\\+.$%*@?|]", None), ("ID", ID, None), ("ESC", ESC, None), ("WS", W1, None)),
    "I": _m(("INTER_OPEN", r"\$\{" + WS, "push I"), (":", WS + ":" + WS, "mode V"), ("INTER_CLOSE", WS + r"\}", "pop"), (".", r"\.", None), ("[", r"\[", None), ("]", r"\]", None), ("ID", ID, None), ("KEY", r"[^\\{}()\[\]:. \t'\"]+", None)),
    "S": _quoted("'"),
    "Q": _quoted('"'),
}


def lex(text, mode):
    out, stack, i = [], [], 0
    while i < len(text):
        best = None
        for t, r, act in MODES[mode]:
            m = r.match(text, i)
            if m and m.end() > i and (best is None or m.end() > best[1]):
                best = (t, m.end(), act)
        if best is None:
            raise Reject(f"no token at {i}")
        t, j, act = best
        out.append((t, text[i:j]))
        i = j
        if act:
            w = act.split()
            if w[0] == "push":
                stack.append(mode)
                mode = w[1]
            elif w[0] == "mode":
                mode = w[1]
            else:
                if not stack:
                    raise Reject("empty stack")
                mode = stack.pop()
    return out + [("EOF", "")]


class Parser:
    def __init__(self, tokens):
        self.t, self.i = tokens, 0

    @property
    def kind(self):
        return self.t[self.i][0]

    def take(self, *kinds):
        if self.kind not in kinds:
            raise Reject(f"{self.kind} instead of {kinds}")
        self.i += 1
        return self.t[self.i - 1]

    def text(self, ends):
        parts = []
        while self.kind not in ends:
            parts.append(self.interpolation() if self.kind == "INTER_OPEN" else self.take("STR", "ESC", "ESC_INTER", "TESC", "QESC"))
        if not parts:
            raise Reject("empty text")
        return ("text", parts)

    def element(self):
        k = self.kind
        if k == "QUOTE":
            self.take("QUOTE")
            if self.kind == "QCLOSE":
                self.take("QCLOSE")
                return ("quoted", None)
            x = self.text(("QCLOSE",))
            self.take("QCLOSE")
            return ("quoted", x)
        if k == "[":
            self.take("[")
            s = [] if self.kind == "]" else self.sequence()
            self.take("]")
            return ("list", s)
        if k == "{":
            self.take("{")
            pairs = []
            if self.kind != "BRACE_CLOSE":
                while True:
                    key = self.primitive(("ID", "NULL", "INT", "FLOAT", "BOOL", "CHAR", "ESC", "WS"))
                    self.take(":")
                    pairs.append((key, self.element()))
                    if self.kind != ",":
                        break
                    self.take(",")
            self.take("BRACE_CLOSE")
            return ("dict", pairs)
        return self.primitive(("ID", "NULL", "INT", "FLOAT", "BOOL", "CHAR", "ESC", "WS", ":", "INTER_OPEN"))

    def primitive(self, kinds):
        parts = []
        while self.kind in kinds:
            parts.append(self.interpolation() if self.kind == "INTER_OPEN" else self.take(*kinds))
        if not parts:
            raise Reject(f"{self.kind} where an element starts")
        return ("prim", parts)

    def sequence(self):
        """[(element or None, raw text)]"""
        def el():
            i = self.i
            e = self.element()
            return e, "".join(x for _, x in self.t[i:self.i])
        out, commas = [], 0
        if self.kind != ",":
            out.append(el())
            pending = False
        else:
            pending = True
        while self.kind == ",":
            self.take(",")
            if pending:
                out.append((None, ""))
            if self.kind in (",", "]", "BRACE_CLOSE", "EOF", "INTER_CLOSE", "QCLOSE"):
                pending = True
            else:
                out.append(el())
                pending = False
        if pending:
            out.append((None, ""))
        return out

    def interpolation(self):
        self.take("INTER_OPEN")
        toks, names = [], []  # a node's path; the parts of a resolver's name (None once it cannot be one)
        while self.kind == ".":
            self.take(".")
            toks.append(".")
            names = None

        def key(bracket):
            nonlocal names
            if bracket:
                toks.append("[")
                self.take("[")
            k = self.kind
            toks.append(self.interpolation() if k == "INTER_OPEN" else self.take("ID", "KEY")[1])
            names = None if names is None or bracket or k == "KEY" else names + [toks[-1]]
            if bracket:
                toks.append("]")
                self.take("]")
        key(self.kind == "[")
        while self.kind in (".", "["):
            if self.kind == ".":
                self.take(".")
                toks.append(".")
                key(False)
            else:
                key(True)
        if self.kind == ":" and names is not None:
            self.take(":")
            args = [] if self.kind == "BRACE_CLOSE" else self.sequence()
            self.take("BRACE_CLOSE")
            return ("call", names, args)
        self.take("INTER_CLOSE")
        return ("node", toks)


def parse_text(s):
    p = Parser(lex(s, "D"))
    x = p.text(("EOF",))
    p.take("EOF")
    return x


def parse_element(s):
    p = Parser(lex(s, "V"))
    x = p.element()
    p.take("EOF")
    return x


def number(kind, text):
    t = text.replace("_", "")
    return int(t) if kind == "INT" else float(t)


class Undefined(Exception):
    """The documentation does not define this evaluation"""


class Eval:
    """node(key text) and call(name, args, arg texts) supply the values of interpolations."""
    def __init__(self, node, call):
        self.node, self.call = node, call

    def inter(self, x):
        if x[0] == "call":
            names = []
            for n in x[1]:
                v = n if isinstance(n, str) else self.inter(n)
                if not isinstance(v, str):
                    raise Undefined("resolver name")
                names.append(v)
            return self.call(".".join(names), [self.element(e) if e is not None else "" for e, _ in x[2]], [t for _, t in x[2]])
        key = []
        for t in x[1]:
            v = t if isinstance(t, str) else self.inter(t)
            if not isinstance(v, str):
                raise Undefined("node key")
            key.append(v)
        return self.node("".join(key))

    def element(self, e):
        if e[0] == "quoted":
            return "" if e[1] is None else str(self.text(e[1], True))
        if e[0] == "list":
            return [self.element(x) if x is not None else "" for x, _ in e[1]]
        if e[0] == "dict":
            return {self.element(k): self.element(v) for k, v in e[1]}
        parts = e[1]
        if len(parts) == 1:
            x = parts[0]
            if x[0] in ("call", "node"):
                return self.inter(x)
            k, t = x
            if k in ("INT", "FLOAT"):
                return number(k, t)
            if k == "BOOL":
                return t.lower() == "true"
            if k == "NULL":
                return None
            if k == "WS":
                raise Undefined("only whitespace")
        return "".join(str(self.inter(x)) if x[0] in ("call", "node") else x[1][1::2] if x[0] == "ESC" else x[1] for x in parts)

    def text(self, x, quoted=False):
        parts = x[1]
        if len(parts) == 1 and parts[0][0] in ("call", "node"):
            return self.inter(parts[0])
        out = []
        for j, p in enumerate(parts):
            if p[0] in ("call", "node"):
                out.append(str(self.inter(p)))
                continue
            k, t = p
            nxt = parts[j + 1] if j + 1 < len(parts) else None
            inter = nxt is not None and nxt[0] in ("call", "node")
            if k == "ESC_INTER":  # n escaped backslashes, then an escaped interpolation
                t = "\\" * ((len(t) - 3) // 2) + "${"
            elif k == "ESC":  # n escaped backslashes, then an escaped quote
                t = "\\" * ((len(t) - 2) // 2) + t[-1]
            elif k == "TESC" and inter or k == "QESC" and (inter or nxt is None):
                t = "\\" * (len(t) // 2)
            out.append(t)
        return "".join(out)
