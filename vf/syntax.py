"""Reference syntax for Pip: operator table, lexer, parser, printer.

Written independently of /repo's scanner and parser (hand-written scanner
instead of one big regex, precedence climbing instead of tree bubbling), so
that the two can be compared.  The operator table below is the specification
the properties quantify over: (symbols, arity, associativity) from the loosest
binding level to the tightest.
"""
import re

# --------------------------------------------------------------------------
# Operator table.  Each level: arity, associativity, entries.  An entry is
# "SYM" or "SYM=default" where default is the value of a fold over an empty
# iterable (absent: nil).
# Argument-mode / mapping flags are attached per symbol below.

LEVELS = [
    (1, None, "O P Y YO YP"),
    (2, "R", ": ::"),
    (3, "R", "?"),
    (2, "L", "|==0"),
    (2, "L", "&==1"),
    (1, None, "!"),
    (2, "L", "===1"),
    (1, None, "V FI FN FU FX FJ RE"),
    (2, "R", "M=[] MC=[] ME=[] MJ='' MM=[] MP=[] MS=0 MU=[] MF=[] FI=[] FN=[] "
             "FE=[] FU=[] FX=[] FJ=[] SK=[] DK=[] V"),
    (3, "R", "MR MZ"),
    (3, "R", r"\?"),
    (2, "L", r"\|=0"),
    (2, "L", r"\&=1"),
    (1, None, r"\!"),
    (2, "C", "< > = <= >= != LT GT Q LE GE NE #= #< #> ~="),
    (2, "L", "N NI"),
    (1, None, "RP ST"),
    (2, "L", "CB=[]"),
    (1, None, "MX M MN N RC SH SN SS DN DS UQ EN PM FL FA"),
    (2, "L", "AE=[] AL=[] PE=[] PU=[] PB=[] PK=[]"),
    (1, None, "PO DQ"),
    (2, "L", "^=[] ^@=[] @? @*=[] <>=[] CH=[] J='' JW RL=[] Z=[] ZD=[] ZJ=[] "
             "H=[] S=[] WV=[] UW=[] CP=[] CG ZG OG TD=[] FD=0"),
    (3, "L", "RA TR"),
    (1, None, "^ <> CH J RV R RF PZ QR QP Z ZD ZJ H S WV UW CP CG ZG OG EY TD FD"),
    (3, "L", "R"),
    (2, "L", "WR='' ~=''"),
    (2, "L", ".=''"),
    (1, None, "X . K"),
    (2, "L", "RM='' DC=''"),
    (2, "L", "X=''"),
    (2, "L", "||='' |>='' <|='' TM=''"),
    (1, None, "|| |> <| TM LC UC SC TC IC"),
    (2, "L", r", \, RR=0 TB=0"),
    (1, None, r", \, RR TB"),
    (2, "L", "BA=-1 BO=0 BX=0 AT CM=0 |<=0 >|=0 RZ=0 RN=0"),
    (1, None, "BN SI CO TA SE CS CT AT RD DG BL |< >| RZ RN"),
    (2, "L", "+=0 -=0 AD=0"),
    (2, "L", "*=1 /=1 %=0 //=1"),
    (1, None, "+ - / % HV HU DB SQ ** E EE RT EX LN LB LD"),
    (2, "R", "**=1 E=1 EE=1 RT=1"),
    (2, "L", "FB=0"),
    (1, None, "U D # A C AB SG FB"),
    (2, "L", "@ @< @>"),
    (1, None, "@ @< @> ++ --"),
]

_DEFAULTS = {"0": "0", "1": "1", "-1": "-1", "[]": (), "''": ""}
COMPARISONS = {"<", ">", "=", "<=", ">=", "!=", "LT", "GT", "Q", "LE", "GE",
               "NE", "#=", "#<", "#>", "~="}

# How the arguments reach the operator.
#   lazy: unevaluated; lv: may stay an lvalue; rv: plain value
LAZY = {("?", 3), ("|", 2), ("&", 2)}
KEEP_LVALUE = {(":", 2), ("::", 2), ("PU", 2), ("PB", 2), ("PK", 2), ("PO", 1),
               ("DQ", 1), ("H", 1), ("H", 2), ("S", 1), ("S", 2), ("U", 1),
               ("D", 1), ("@", 1), ("@", 2), ("@<", 1), ("@<", 2), ("@>", 1),
               ("@>", 2), ("++", 1), ("--", 1)}
# Applied item by item to Lists and Ranges / to Lists only
EACH_RANGE = {
    1: set("^ CG ZG OG EY , \\, RR TB BN SI CO TA SE CS CT AT RD DG BL |< >| RZ "
           "RN - / % HV HU DB SQ ** E EE RT EX LN LB LD A C AB SG FB".split()),
    2: set("^ CG ZG OG WR ~ . DC X , \\, RR TB BA BO BX AT |< >| RZ RN AD * / % "
           "// ** E EE RT FB".split()),
    3: set(),
}
EACH_LIST = {
    1: set(". K || |> <| TM LC UC SC TC IC +".split()),
    2: set("|| |> <| TM + -".split()),
    3: set(),
}
# Operators that do NOT build functions when given a function operand
NOT_IN_LAMBDA = {
    1: set("O P Y YO YP ! V FI FN FU FX FJ RE RP ST".split()),
    2: set(": :: | & == M MC ME MJ MM MP MS MU MF FI FN FE FU FX FJ SK DK V".split()),
    3: set("? MR MZ R".split()),
}


class Info:
    __slots__ = ("sym", "arity", "prec", "assoc", "default", "mode",
                 "each", "lam")

    def __repr__(self):
        return f"<{self.sym}/{self.arity}>"


OPS = {1: {}, 2: {}, 3: {}}


def _build():
    for prec, (arity, assoc, text) in enumerate(LEVELS):
        for entry in text.split():
            m = re.fullmatch(r"(.+?)(?:=(0|1|-1|\[\]|''))?", entry)
            sym, dflt = m.group(1), m.group(2)
            info = Info()
            info.sym, info.arity, info.prec, info.assoc = sym, arity, prec, assoc
            info.default = None if dflt is None else _DEFAULTS[dflt]
            if assoc == "C":
                info.default = "1"
            key = (sym, arity)
            info.mode = ("lazy" if key in LAZY else
                         "lv" if key in KEEP_LVALUE else "rv")
            info.each = ("range" if sym in EACH_RANGE[arity] else
                         "list" if sym in EACH_LIST[arity] else None)
            info.lam = sym not in NOT_IN_LAMBDA[arity]
            OPS[arity][sym] = info
    # the level text writes | and & and == with their default after a second =
    for sym in ("|", "&", "=="):
        assert sym in OPS[2], sym


# "|==0" means symbol "|" default 0, written "|" "=" ... handle explicitly
LEVELS[3] = (2, "L", "|=0")
LEVELS[4] = (2, "L", "&=1")
_build()
# fix up symbols containing '=' which the entry regex cannot split reliably
CHAIN_PREC = OPS[2]["<"].prec
ASSIGN_PREC = OPS[2][":"].prec
SYMBOLS = set(OPS[1]) | set(OPS[2]) | set(OPS[3])
PUNCT_OPS = sorted((s for s in SYMBOLS if not s[0].isalpha()),
                   key=lambda s: (-len(s), s))

COMMANDS = {"F": ("LOOPVAR", "EXPR", "CODE"), "I": ("EXPR", "CODE", "ELSE"),
            "L": ("EXPR", "CODE"), "LR": ("EXPR", "EXPR", "CODE"),
            "T": ("EXPR", "CODE"), "W": ("EXPR", "CODE"), "WG": ()}


class Incomplete(Exception):
    pass


class Bad(Exception):
    pass


# --------------------------------------------------------------------------
# Lexer: produces (kind, text) pairs; kind in op cmd sym name num str chr pat esc

def lex(code):
    code = "\n" + code + "\n"
    i, n, out = 0, len(code), []
    while i < n:
        c = code[i]
        if c.isspace():
            # maximal run of whitespace, unless it opens a line comment
            j = i
            while j < n and code[j].isspace():
                j += 1
            # a ';' that is first on its line starts a comment
            if j < n and code[j] == ";" and "\n" in code[i:j]:
                i = _eol(code, j)
                continue
            if code.startswith("  ", i):
                # could still be 'blank lines then ;'
                i = _eol(code, i)
                continue
            i = j
            continue
        if code.startswith("{;", i):
            e = code.find(";}", i + 2)
            if e < 0:
                raise Incomplete("block comment")
            i = e + 2
            continue
        kind, text, i = _token(code, i)
        if kind is not None:
            out.append((kind, text))
    return out


def _eol(code, i):
    j = code.find("\n", i)
    return len(code) if j < 0 else j


def _classify_word(w):
    if w in SYMBOLS:
        return "op"
    if w in COMMANDS:
        return "cmd"
    if w == "EL":
        return "sym"
    return "name"


def _token(code, i):
    c = code[i]
    n = len(code)
    if "A" <= c <= "Z":
        j = i
        while j < n and "A" <= code[j] <= "Z":
            j += 1
        run = code[i:j]
        if run == "PIP":
            return "name", run, j
        w = run[:1] if len(run) % 2 else run[:2]
        if w == "EI":
            return "sym", "EL", i + 1
        return _classify_word(w), w, i + len(w)
    if c == "_" or ("a" <= c <= "z" and c != "j"):
        return "name", c, i + 1
    if c == "$":
        if i + 1 < n:
            d = code[i + 1]
            if d in "][()$`'" or d.isdigit() and d in "0123456789":
                return "name", c + d, i + 2
            if "a" <= d <= "z":
                j = i + 2
                while j < n and (code[j] == "_" or "a" <= code[j] <= "z"
                                 or code[j] in "0123456789"):
                    j += 1
                return "name", code[i:j], j
            if d == "_":
                j = i + 1
                while j < n and j < i + 4 and code[j] == "_":
                    j += 1
                return "name", code[i:j], j
        return "sym", "$", i + 1
    if c == "\\" and i + 1 < n:
        d = code[i + 1]
        if d in "abcdefg":
            return "name", c + d, i + 2
        if d == '"':
            j = i + 2
            while True:
                if j >= n - 0:
                    raise Incomplete("escaped string")
                if code[j] == "\\":
                    if j + 1 >= n:
                        raise Incomplete("escaped string")
                    if code[j + 1] == '"':
                        return "esc", code[i:j + 2], j + 2
                    j += 2
                else:
                    j += 1
        if d == "$":
            return "sym", r"\$", i + 2
    if c == '"':
        e = code.find('"', i + 1)
        if e < 0:
            raise Incomplete("string")
        return "str", code[i:e + 1], e + 1
    if c == "`":
        j = i + 1
        while j < n:
            if code[j] == "`":
                return "pat", code[i:j + 1], j + 1
            if code[j] == "\\":
                if j + 1 >= n:
                    break
                j += 2
            else:
                j += 1
        raise Incomplete("pattern")
    if c == "'":
        if i + 1 >= n:
            raise Incomplete("char")
        return "chr", code[i:i + 2], i + 2
    if c.isdigit() and c.isdecimal():
        j = i
        while j < n and code[j].isdecimal():
            j += 1
        if j + 1 < n and code[j] == "." and code[j + 1].isdecimal():
            j += 1
            while j < n and code[j].isdecimal():
                j += 1
        return "num", code[i:j], j
    if c in "][(){};":
        return "sym", c, i + 1
    for s in PUNCT_OPS:
        if code.startswith(s, i):
            return "op", s, i + len(s)
    return None, None, i + 1          # ignored character


# --------------------------------------------------------------------------
# AST.  Expressions are tuples:
#   ("lit", kind, text)  ("name", text)  ("val", value)
#   ("op", Op, [args])   ("chain", [e, Op, e, ...])
#   ("paren", e) ("list", [e]) ("block", [stmts]) ("send", [e])
# Statements: an expression or ("cmd", name, [args])

class Op:
    """An operator occurrence with its meta-operators."""
    __slots__ = ("sym", "arity", "fold", "scan", "map", "assign")

    def __init__(self, sym, arity, fold=False, scan=False, map=False,
                 assign=False):
        self.sym, self.arity = sym, arity
        self.fold, self.scan, self.map, self.assign = fold, scan, map, assign

    def _key(self):
        return (self.sym, self.arity, self.fold, self.scan, self.map,
                self.assign)

    def __eq__(self, o):
        return isinstance(o, Op) and self._key() == o._key()

    def __hash__(self):
        return hash(self._key())

    def but(self, **kw):
        d = dict(sym=self.sym, arity=self.arity, fold=self.fold,
                 scan=self.scan, map=self.map, assign=self.assign)
        d.update(kw)
        return Op(**d)

    @property
    def base_arity(self):
        return 2 if (self.fold or self.scan) else self.arity

    @property
    def info(self):
        return OPS[self.base_arity][self.sym]

    def __str__(self):
        s = self.sym
        if self.fold:
            s = "$" + s
        elif self.scan:
            s = "\\$" + s
        if self.map:
            s += " *" if self.sym + "*" in SYMBOLS else "*"
        if self.assign:
            s += ":"
        return s

    __repr__ = __str__


def parse(tokens):
    p = _Parser(list(tokens) + [None])
    return p.statements()


class _Parser:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def text(self, k=0):
        tok = self.peek(k)
        return tok[1] if tok else None

    def at(self, text):
        tok = self.peek()
        return tok is not None and tok[1] == text and tok[0] in ("sym", "op")

    def next(self):
        tok = self.t[self.i]
        self.i += 1
        return tok

    def semi(self):
        if self.at(";"):
            self.i += 1

    def statements(self):
        out = []
        while self.peek() is not None and not self.at("}"):
            out.append(self.statement())
        return out

    def statement(self):
        tok = self.peek()
        if tok is None:
            raise Incomplete("statement")
        if tok[0] == "cmd":
            self.next()
            args = []
            for kind in COMMANDS[tok[1]]:
                if kind == "ELSE":
                    if self.at("EL"):
                        self.next()
                        args.append(self.block())
                    else:
                        args.append([])
                elif kind == "CODE":
                    args.append(self.block())
                elif kind == "LOOPVAR":
                    args.append(self.namelist())
                else:
                    args.append(self.expr())
            st = ("cmd", tok[1], args)
        else:
            st = self.expr()
        self.semi()
        return st

    def namelist(self):
        tok = self.peek()
        if tok is None:
            raise Incomplete("name list")
        if tok[0] == "name":
            self.next()
            r = ("name", tok[1])
        elif self.at("["):
            self.next()
            items = []
            while not self.at("]"):
                items.append(self.namelist())
            self.next()
            if not items:
                raise Bad("empty name list")
            r = ("list", items)
        else:
            raise Bad("loop header")
        self.semi()
        return r

    def block(self):
        if self.at("{"):
            self.next()
            body = self.statements()
            if self.peek() is None:
                raise Incomplete("block")
            self.next()
            return body
        return [self.statement()]

    # ---- expressions: precedence climbing

    def infix(self):
        """(sym, arity, prec, assoc, assign) of the operator at point."""
        tok = self.peek()
        if tok is None or tok[0] != "op":
            return None
        s = tok[1]
        info = OPS[2].get(s) or OPS[3].get(s)
        if info is None:
            return None
        if self.text(1) == ":" and self.peek(1)[0] == "op":
            return info, ASSIGN_PREC, "R", True
        return info, info.prec, info.assoc, False

    def expr(self, minprec=-1):
        e = self.climb(self.operand(), minprec)
        if minprec == -1:
            self.semi()
        return e

    def climb(self, left, minprec):
        while True:
            nxt = self.infix()
            if nxt is None or nxt[1] < minprec:
                return left
            info, prec, assoc, assign = nxt
            self.next()
            if assign:
                self.next()
            op = Op(info.sym, info.arity, assign=assign)
            mid = None
            if assoc != "C" and info.arity == 3:
                mid = self.expr()
            right = self.operand()
            while True:
                n2 = self.infix()
                if n2 is None:
                    break
                p2 = n2[1]
                if p2 > prec or (p2 == prec and assoc == "R"):
                    right = self.climb(right, p2 if p2 == prec else prec + 1)
                else:
                    break
            if assoc == "C":
                if left[0] == "chain":
                    left = ("chain", left[1] + [op, right])
                else:
                    left = ("chain", [left, op, right])
            elif info.arity == 3:
                left = ("op", op, [left, mid, right])
            else:
                left = ("op", op, [left, right])

    def operand(self):
        tok = self.peek()
        if tok is None:
            raise Incomplete("expression")
        kind, text = tok
        if kind == "esc":
            self.next()
            return interpolate(text)
        if kind in ("num", "str", "chr", "pat"):
            self.next()
            return ("lit", kind, text)
        if kind == "name":
            self.next()
            return ("name", text)
        if self.at("("):
            self.next()
            es = self.until(")")
            if not es:
                return ("lit", "nil", "()")
            return ("paren", es[0]) if len(es) == 1 else ("send", es)
        if self.at("["):
            self.next()
            return ("list", self.until("]"))
        if self.at("{"):
            return ("block", self.block())
        if text in ("$", "\\$") and kind == "sym":
            self.next()
            nt = self.peek()
            if nt is None:
                raise Incomplete("meta-operator")
            if nt[0] != "op" or nt[1] not in OPS[2]:
                raise Bad("meta-operator")
            self.next()
            op = Op(nt[1], 1, fold=(text == "$"), scan=(text == "\\$"))
            prec = OPS[2][nt[1]].prec
        elif kind == "op" and text in OPS[1]:
            self.next()
            op = Op(text, 1)
            prec = OPS[1][text].prec
        else:
            raise Bad("operand " + text)
        if self.text() == "*" and self.peek()[0] == "op":
            self.next()
            op = op.but(map=True)
        if self.text() == ":" and self.peek()[0] == "op":
            self.next()
            op = op.but(assign=True)
            prec = ASSIGN_PREC
        return ("op", op, [self.expr(prec + 1)])

    def until(self, close):
        es = []
        while not self.at(close):
            if self.peek() is None:
                raise Incomplete("unclosed")
            es.append(self.expr())
        self.next()
        return es


_INTERP = re.compile(r"\\(\\|[a-z_]|[A-Z]{1,2})", re.DOTALL)


def interpolate(text):
    """Escaped string: \\x interpolates variable x, \\\\ is a backslash."""
    body = text[2:-2]
    parts, pos, names = [], 0, []
    for m in _INTERP.finditer(body):
        if m.group(1) == "\\":
            continue
        parts.append(body[pos:m.start()])
        names.append(m.group(1))
        pos = m.end()
    parts.append(body[pos:])
    if not names:
        return ("lit", "esc", text)
    items = [("lit", "esc", '\\"' + parts[0] + '\\"')]
    for nm, lit in zip(names, parts[1:]):
        items.append(("op", Op("ST", 1), [("name", nm)]))
        items.append(("lit", "esc", '\\"' + lit + '\\"'))
    return ("paren", ("op", Op("J", 1), [("list", items)]))


# --------------------------------------------------------------------------
# Canonical printing (what the display of a function looks like)

def show_block(stmts, reprval):
    return "{" + show_statements(stmts, reprval) + "}"


def show_statements(stmts, reprval):
    return "; ".join(show_statement(s, reprval) for s in stmts)


def show_statement(s, rv):
    if s[0] == "cmd":
        out = s[1]
        kinds = COMMANDS[s[1]]
        for k, (kind, arg) in enumerate(zip(kinds, s[2])):
            if kind == "ELSE":
                out += " EL {" + show_statements(arg, rv) + "}"
            elif kind == "CODE":
                out += " {" + show_statements(arg, rv) + "}"
            else:
                out += " " + show_expr(arg, rv)
                if kind == "EXPR" and kinds[k + 1] == "EXPR":
                    out += ";"
        return out
    return show_expr(s, rv)


def show_expr(e, rv):
    k = e[0]
    if k == "lit" or k == "name":
        return e[-1]
    if k == "val":
        s = rv(e[1])
        return "(" + s + ")" if _leading_op(e[1], s) else s
    if k == "paren":
        return "(" + show_expr(e[1], rv) + ")"
    if k == "block":
        return show_block(e[1], rv)
    if k == "send":
        return "(" + "; ".join(show_expr(x, rv) for x in e[1]) + ")"
    if k == "list":
        return "[" + "; ".join(show_expr(x, rv) for x in e[1]) + "]"
    if k == "chain":
        return " ".join(str(x) if isinstance(x, Op) else _sub(x, rv)
                        for x in e[1])
    op, args = e[1], [_sub(a, rv) for a in e[2]]
    if len(args) == 1:
        return f"{op} {args[0]}"
    if len(args) == 2:
        return f"{args[0]} {op} {args[1]}"
    return f"{args[0]} {op} {args[1]}; {args[2]}"


def _leading_op(value, s):
    return s[:1] in "-A,." and s[:1] != ""


def _sub(e, rv):
    s = show_expr(e, rv)
    return "(" + s + ")" if e[0] in ("op", "chain") else s


# --------------------------------------------------------------------------
# Rendering an AST as source, fully parenthesised (no reliance on precedence)

def render(e):
    k = e[0]
    if k in ("lit", "name"):
        return e[-1]
    if k == "raw":
        return e[1]
    if k == "paren":
        return "(" + render(e[1]) + ")"
    if k == "block":
        return "{" + ";".join(render_statement(s) for s in e[1]) + "}"
    if k == "send":
        return "(" + ";".join(render(x) for x in e[1]) + ")"
    if k == "list":
        return "[" + ";".join(render(x) for x in e[1]) + "]"
    if k == "chain":
        return " ".join(str(x) if isinstance(x, Op) else rsub(x) for x in e[1])
    op, args = e[1], [rsub(a) for a in e[2]]
    if len(args) == 1:
        return f"{op} {args[0]}"
    if len(args) == 2:
        return f"{args[0]} {op} {args[1]}"
    return f"{args[0]} {op} {args[1]};{args[2]}"


def rsub(e):
    s = render(e)
    return "(" + s + ")" if e[0] in ("op", "chain", "raw") else s


def render_statement(s):
    if s[0] == "cmd":
        out = s[1]
        for kind, arg in zip(COMMANDS[s[1]], s[2]):
            if kind == "ELSE":
                if arg:
                    out += " EL" + render_code(arg)
            elif kind == "CODE":
                out += render_code(arg)
            else:
                out += " " + rsub(arg) + ";"
        return out
    return render(s)


def render_code(stmts):
    return "{" + ";".join(render_statement(s) for s in stmts) + "}"


def render_program(stmts):
    return "\n".join(render_statement(s) for s in stmts)
