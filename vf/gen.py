"""Generators of Pip values, expressions and programs (as source text).

A kind is one letter naming the sort of value wanted in a place:
  n number   i small integer   u small natural   s string   S any scalar
  N list of numbers   T list of strings   L any list   G list of rows
  R finite range   Q infinite range   P pattern   I any iterable
  B function of one item   b of two   f of a string   0 nil   * anything
"""
from . import syntax as S
from .values import Blk, Pat, Rng, show

NUMS = ["0", "1", "2", "3", "-1", "5", "10", "-2", "7", "4", "-5", "12", "0.5",
        "-0.5", "2.5", "-7.25", "100", "255", "256", "1024", "-1000", "0.1",
        "3.75", "1.0", "0.0", "-0", "1e+2", "1.5e-3", "2147483647",
        "4294967296", "9007199254740993", "-100000000000000000000", "1e+20",
        "0.30000000000000004", "007", "00", "99", "50", "-3", "6"]
STRS = ["", "a", "abc", "Hello, World", "aab", "b", " ", "xyz", "ABC", "aXbXc",
        "a b c", "12", "abcabc", "one two  three", "A1b2C3", "-4x", "3e+2",
        "  pad ", "x\ny", "a\nbc\n", "\n", "\t", "'", "a,b;c", "0.0", ".5", ".",
        "-", "--1", "5 apples", " 12", "1.5.2", "-.5", "1e5", "e", "[]", "(a)",
        "\\", "a\\b", "%d", "{}", "é", "ß", "日本語", "Ab cD", "aaaa",
        "mississippi", "racecar", "z" * 11, "0", "00", "0x1F", "1_000"]
QUOTES = ['say "hi"', '"', 'a"b\\c']
WORD = "abcXYZ 019-,.;"


def lit(v):
    """Source text of a value usable as an operand anywhere."""
    s = show(v)
    if s[:1] in "-A,." and s:
        return "(" + s + ")"
    return s


# ------------------------------------------------------------ operator kinds
# symbol: alternatives "argkinds>resultkind"
HINT1 = {
    "!": "*>n", "\\!": "*>n", "RP": "*>s", "ST": "*>s",
    "V": "s>*", "FI": "L>L I>L", "FN": "L>L I>L", "FU": "G>G L>L",
    "FX": "I>N L>N", "FJ": "L>s T>s", "RE": "n>*",
    "MX": "N>n L>* R>n", "M": "N>n T>s", "MN": "N>n L>*", "N": "N>n G>N",
    "RC": "", "SH": "",
    "SN": "N>N L>L s>T G>G", "SS": "T>T L>L s>s N>N R>N",
    "DN": "N>N L>L s>T", "DS": "T>T L>L s>s R>N",
    "UQ": "L>L N>N s>s R>R T>T", "EN": "L>G I>G", "PM": "s>T N>G",
    "FL": "G>N L>L", "FA": "s>s S>s",
    "^": "s>T N>L T>G R>G", "<>": "N>G s>T L>G", "CH": "s>T L>G",
    "J": "T>s N>n G>s R>s I>s", "RV": "s>s L>L R>N", "R": "s>s L>L R>N",
    "RF": "s>s L>L R>R", "PZ": "s>s L>L", "QR": "s>s L>L", "QP": "s>s L>L",
    "Z": "G>G T>G", "ZD": "G>G", "ZJ": "s>s T>T", "H": "I>I L>L s>s",
    "S": "I>I L>L s>s", "WV": "G>L T>s", "UW": "s>T L>G", "CP": "G>G T>G",
    "CG": "u>G", "ZG": "u>G", "OG": "u>G", "EY": "u>G",
    "TD": "n>N i>N", "FD": "N>n", "X": "s>P T>P S>P", ".": "P>P S>S",
    "K": "P>P s>P", "||": "s>s T>T", "|>": "s>s T>T", "<|": "s>s T>T",
    "TM": "s>s T>T", "LC": "s>s T>T", "UC": "s>s T>T", "SC": "s>s T>T",
    "TC": "s>s T>T", "IC": "s>s T>T", ",": "u>R i>R N>L", "\\,": "u>R i>R",
    "RR": "", "TB": "n>n u>s N>N",
    "BN": "i>n", "SI": "n>n", "CO": "n>n", "TA": "n>n", "SE": "n>n",
    "CS": "n>n", "CT": "n>n", "AT": "n>n", "RD": "n>n", "DG": "n>n",
    "BL": "n>n", "|<": "n>n", ">|": "n>n", "RZ": "n>n", "RN": "n>n",
    "+": "n>n s>n P>P N>N R>R", "-": "n>n N>N P>P R>N s>n", "/": "n>n N>N",
    "%": "n>n N>N", "HV": "n>n N>N", "HU": "n>n N>N", "DB": "n>n N>N R>N",
    "SQ": "n>n N>N R>N", "**": "i>n N>N", "E": "i>n N>N", "EE": "i>n",
    "RT": "n>n", "EX": "i>n", "LN": "n>n", "LB": "n>n", "LD": "n>n",
    "U": "n>n", "D": "n>n", "++": "n>n", "--": "n>n",
    "#": "I>n s>n L>n G>n n>n", "A": "s>n T>N P>P", "C": "n>s P>P N>T",
    "AB": "n>n N>N R>N", "SG": "n>n N>N", "FB": "s>n T>N",
    "@": "I>* s>s L>* G>N", "@<": "I>I s>s L>L", "@>": "I>I s>s L>L",
    "O": "*>*", "P": "*>*", "Y": "*>*", "YO": "*>*", "YP": "*>*",
    "PO": "L>*", "DQ": "L>*",
}
HINT2 = {
    "|": "**>*", "&": "**>*", "\\|": "**>*", "\\&": "**>*", "==": "**>n SS>n",
    "M": "BN>N BL>L fT>T Bs>T BR>N fs>T", "MC": "bu>G bN>G", "ME": "bN>N bL>L bs>L bR>N",
    "MJ": "fs>s BN>s BR>s fT>s", "MM": "BG>G fT>G", "MP": "bN>N bs>L bR>N bL>L",
    "MS": "BN>n BR>n Bs>n", "MU": "bG>N bL>L", "MF": "BN>L BG>L fT>L BR>L",
    "FI": "BN>N BL>L fs>T BR>N fT>T", "FN": "BN>N BL>L fs>T BR>N", "FE": "bN>N bs>T bL>L bR>N",
    "FU": "bG>G bL>L", "FX": "bN>N bs>N bL>N", "FJ": "fs>s fT>s BN>s",
    "SK": "BN>N BL>L fT>T BR>N fs>T", "DK": "BN>N BL>L fT>T BR>N", "V": "BN>* bN>* sN>*",
    "<": "nn>n NN>n SS>n RR>n **>n", ">": "nn>n NN>n SS>n **>n",
    "=": "nn>n NN>n SS>n **>n", "<=": "nn>n NN>n **>n", ">=": "nn>n NN>n **>n",
    "!=": "nn>n NN>n SS>n **>n", "LT": "ss>n TT>n SS>n **>n", "GT": "ss>n TT>n **>n",
    "Q": "ss>n TT>n LL>n **>n", "LE": "ss>n TT>n **>n", "GE": "ss>n TT>n **>n",
    "NE": "ss>n TT>n **>n", "#=": "II>n LL>n", "#<": "II>n LL>n", "#>": "II>n LL>n",
    "~=": "sP>n ss>n TP>n Ps>n", "N": "nN>n ss>n *L>n nR>n Ps>n Ts>N", "NI": "nN>n ss>n *L>n nR>n Ps>n Ts>N",
    "CB": "Nu>G su>T Lu>G Ru>G", "AE": "L*>L N*>N I*>L", "AL": "LL>L NN>N IL>L L*>L",
    "PE": "L*>L N*>N I*>L", "PU": "L*>L N*>N ss>s", "PB": "L*>L N*>N ss>s", "PK": "Li>* Ni>n si>s",
    "^": "ss>T sP>T Ts>G", "^@": "sN>T Li>G Ni>G si>T RN>G", "@?": "ss>n sP>n Nn>n L*>n sT>N Rn>n RN>N",
    "@*": "ss>N sP>N Nn>N L*>N sT>L Rn>N", "<>": "su>T Lu>G Ri>L si>T", "CH": "su>T Lu>G Ru>L si>T",
    "J": "Ts>s Ns>s ss>s Gs>s LT>T Rs>s TP>P", "JW": "Ts>s Ns>s ss>s LT>T", "RL": "*u>L su>T nu>N",
    "Z": "LL>G ss>G NR>G sQ>G QL>G NT>G", "ZD": "G*>G T*>G", "ZJ": "ss>T TT>T sN>T sL>T",
    "H": "Ii>I si>s Li>L", "S": "Ii>I si>s Li>L Ri>I", "WV": "LL>L ss>s NN>N sL>L", "UW": "su>T Lu>G Ni>G",
    "CP": "LL>G ss>G NR>G", "CG": "uu>G", "ZG": "uu>G", "OG": "uu>G", "TD": "nu>N uu>N Ni>L", "FD": "Nu>n Ni>n",
    "WR": "ss>s sP>P Ts>T", "~": "sP>s ss>s Ps>s", ".": "ss>s SS>s Ts>T PP>P sP>P nn>n TT>T", "RM": "ss>s sP>s L*>L sT>s N*>N sL>s",
    "DC": "ss>s Ts>T", "X": "su>s ui>s Tu>T Pu>P sN>T", "||": "ss>s sP>s Ts>T sT>s", "|>": "ss>s sP>s sT>s",
    "<|": "ss>s sP>s sT>s", "TM": "su>s sR>s Tu>T", ",": "ii>R uu>R 0u>R u0>Q Ni>L", "\\,": "ii>R uu>R 0u>R",
    "RR": "", "TB": "uu>s nu>s Nu>T Ns>T us>s", "BA": "nn>n ii>n NN>N", "BO": "nn>n ii>n", "BX": "nn>n ii>n",
    "AT": "nn>n", "CM": "nn>n NN>n **>n RR>n", "|<": "nn>n Nn>N", ">|": "nn>n Nn>N", "RZ": "nn>n Nn>N", "RN": "nn>n Nn>N",
    "+": "nn>n Nn>N NN>N Rn>R Ri>R ss>n PP>P nN>N GN>G RN>N", "-": "nn>n Nn>N NN>N Ri>R nN>N iR>N RN>N", "AD": "nn>n NN>N",
    "*": "nn>n Nn>N NN>N Pu>P nR>N GN>G", "/": "nn>n Nn>N nN>N", "%": "nn>n ni>n Nn>N Ri>N", "//": "nn>n ni>n Nn>N",
    "**": "ii>n Nu>N nu>n", "E": "ii>n Nu>N", "EE": "ni>n", "RT": "in>n nn>n", "FB": "su>n ui>n Tu>N Ns>N us>n",
    "@": "Ii>* si>s Li>* Ni>n sN>T sR>s LR>L sP>T LN>L RR>R NR>N", "@<": "Ii>I si>s Li>L Ri>I sN>T", "@>": "Ii>I si>s Li>L Ri>I sN>T",
    ":": "", "::": "",
}
HINT3 = {"?": "***>*", "\\?": "***>*", "R": "sss>s sPs>s sPf>s sPP>s sTT>s TsS>T sTs>s sLL>s RiS>N NnS>N ssf>s",
         "RA": "Li*>L siS>s LN*>L sNS>s LRL>L sRs>s Ni*>N LNL>L", "TR": "sss>s Tss>T sTT>s ssT>s sTs>s RsN>L sNT>s",
         "MR": "fPs>T fss>T", "MZ": "bNN>N bLL>L bss>L bRN>N"}
HINTS = {}
for _a, _t in ((1, HINT1), (2, HINT2), (3, HINT3)):
    assert set(_t) == set(S.OPS[_a]), (_a, set(_t) ^ set(S.OPS[_a]))
    for _s, _txt in _t.items():
        HINTS[_s, _a] = [tuple(x.split(">")) for x in _txt.split()]

# operators safe to nest anywhere (no output, randomness, variable updates)
IMPURE = {("O", 1), ("P", 1), ("Y", 1), ("YO", 1), ("YP", 1), ("PU", 2),
          ("PB", 2), ("PK", 2), ("PO", 1), ("DQ", 1), ("++", 1), ("--", 1),
          ("U", 1), ("D", 1), (":", 2), ("::", 2), ("V", 1), ("V", 2),
          ("RE", 1), ("RC", 1), ("SH", 1), ("RR", 1), ("RR", 2)}
PURE = [k for k in HINTS if k not in IMPURE]
BIG = {("PM", 1), ("CB", 2), ("CP", 1), ("CP", 2), ("**", 1), ("**", 2),
       ("E", 1), ("E", 2), ("EE", 1), ("EE", 2), ("EX", 1), ("CG", 1),
       ("CG", 2), ("ZG", 1), ("ZG", 2), ("OG", 1), ("OG", 2), ("EY", 1),
       ("MC", 2), ("RL", 2)}

FAMILY = {"*": "nsNTLGRP0B", "S": "nsi", "I": "sNTLRG", "L": "NTG", "n": "iu",
          "N": "R", "s": ""}
PRODUCERS = {}
for _k, _alts in HINTS.items():
    if _k in IMPURE or _k in BIG:
        continue
    for _args, _res in _alts:
        for _want in set("nsNTLGRPIS*"):
            if _res == _want or _want == "*" or _res in FAMILY.get(_want, ""):
                PRODUCERS.setdefault(_want, []).append((_k, _args))
for _l in PRODUCERS.values():
    _l.sort()


class Gen:
    """Draws values and expressions.  env: kind -> variable names."""

    def __init__(self, d, env=None, wild=12, minus_zero=True):
        self.d, self.env, self.wild = d, env or {}, wild
        self.produce = PRODUCERS

    # -- values ----------------------------------------------------------
    def num(self):
        d = self.d
        k = d.below(20)
        if k < 8:
            return str(d.int(0, 9) - 0 if d.chance(70) else -d.int(1, 9))
        if k < 14:
            return d.pick(NUMS)
        if k < 16:
            return str(d.int(-1000, 1000))
        if k < 17:
            return str(d.int(-2, 2) * 10 ** d.int(0, 25) + d.int(-1, 1))
        whole, frac = d.int(0, 99), d.int(1, 999)
        s = f"{whole}.{frac}".rstrip("0")
        return "-" + s if d.chance(40) else s

    def small(self):
        return str(self.d.pick([0, 1, 2, 3, -1, 4, -2, 5, -3, 6, 8, -4, 10, -7]))

    def nat(self):
        return str(self.d.pick([2, 1, 3, 0, 4, 5, 6, 8, 10, 16]))

    def length(self, top=4):
        """A container length: now and then much larger than usual."""
        if self.d.chance(2):
            return self.d.weighted([(8, 20), (3, 40), (1, 130)]) + \
                self.d.below(14)
        return self.d.size(top)

    def string(self):
        d = self.d
        k = d.below(20)
        if k < 10:
            return d.pick(STRS)
        if k < 12:
            return "".join(d.pick("ab") for _ in range(self.length(7)))
        if k < 17:
            return "".join(d.pick(WORD) for _ in range(self.length(6)))
        if k < 18:
            return d.pick(QUOTES)
        if k < 19:
            return "".join(chr(d.int(32, 126)) for _ in range(self.length(6)))
        return "\n".join(d.many(1, 4, lambda: "".join(
            d.pick("ab c") for _ in range(self.length(4)))))

    def scalar(self):
        return self.num() if self.d.chance(45) else self.string()

    def rng(self):
        d = self.d
        k = d.below(10)
        if k < 5:
            return Rng(None, self.length(4))
        lo = d.int(-5, 8)
        return Rng(lo, lo + d.int(-2 if k == 9 else 0, 8))

    PATS = ["a", "\\d+", "[a-z]", "b|c", "(b)(c)?", ".", "\\s+", "(.)(.)", "a*",
            "^a", "c$", "(?:ab)+", "\\w+", "[^a-z]", "", "(a)|(b)", "x+?",
            "\\bb", "-?\\d", "\\n", "[A-Z]", "(.)\\1", "(?=b)", "ab", "l+",
            "([a-z])(\\d)", ",", "o", "\\.", "(a(b))", "(?P<n>a)", "^", "$",
            "B", "\\W"]

    def pat(self):
        d = self.d
        flags = d.weighted([(7, 0), (2, 2), (1, 8), (1, 16), (1, 256),
                            (1, 10)])
        return Pat(d.pick(self.PATS), flags)

    def value(self, kind, depth=2):
        d = self.d
        if kind == "*":
            kind = d.weighted([(5, "n"), (4, "s"), (3, "N"), (2, "T"),
                               (2, "L"), (2, "R"), (1, "G"), (2, "P"),
                               (1, "0"), (1, "Q")])
        if kind == "n":
            return self.num()
        if kind == "i":
            return self.small()
        if kind == "u":
            return self.nat()
        if kind == "s":
            return self.string()
        if kind == "S":
            return self.scalar()
        if kind == "N":
            return tuple(self.num() if d.chance(60) else self.small()
                         for _ in range(self.length(5)))
        if kind == "T":
            return tuple(self.string() for _ in range(self.length(4)))
        if kind == "G":
            c = self.length(3)
            item = self.num if d.chance(75) else self.string
            rows = self.length(3)
            return tuple(tuple(item() for _ in range(
                c if not d.chance(15) else d.int(0, 5))) for _ in range(rows))
        if kind == "R":
            return self.rng()
        if kind == "Q":
            return Rng(d.pick([None, 0, 1, -2, 5]), None)
        if kind == "P":
            return self.pat()
        if kind == "I":
            return self.value(d.pick("sNTLRG"), depth)
        if kind == "L":
            return tuple(self.value(d.weighted(
                [(6, "n"), (5, "s"), (2, "0"), (1, "P")] +
                ([(2, "L"), (2, "R"), (2, "N")] if depth else [])), depth - 1)
                for _ in range(self.length(4)))
        if kind == "0":
            return None
        raise ValueError(kind)

    # -- expressions as source ------------------------------------------
    def block(self, kind, depth=1):
        """A function: B one item, b two items, f a string."""
        d = self.d
        env = {"*": ["a"]}
        if kind == "B":
            env = {"n": ["a"], "*": ["a"], "i": ["a"], "N": ["a"]}
        elif kind == "b":
            env = {"n": ["a", "b"], "*": ["a", "b"], "s": ["b"], "i": ["a"]}
        elif kind == "f":
            env = {"s": ["a"], "*": ["a"], "S": ["a"], "T": ["g"]}
        sub = Gen(d, env, self.wild // 2)
        k = d.below(12)
        if k < 2:
            return "{" + d.pick(["a", "b", "g", "a.b", "[a;b]", "a+b", "f",
                                 "#a", "a*2", "", "1", "()", "a@0",
                                 "a<b", "b.a", "a%2"]) + "}"
        want = d.pick("nsNT*") if kind != "B" else d.pick("nnnsN*")
        body = sub.expr(want, d.int(1, depth + 1), local=True)
        if k == 11:
            body = f"P a;{body}" if d.chance(50) else f"I a{{{body}}}{body}"
        if k == 10:
            return "(" + d.pick(["_*2", "_+1", "_ . k", "#_", "-_", "_@0",
                                 "_<B", "_+B", "_ . B", "LC_", "RV_", "_=1",
                                 "_%2", "_N1", "$+_", "A_", "_.x", "J_"]) + ")"
        return "{" + body + "}"

    def expr(self, kind, depth, local=False):
        d = self.d
        if d.below(100) >= 100 - self.wild:
            kind = "*"
        if kind in "BbfF":
            return self.block(d.pick("Bbf") if kind == "F" else kind, depth)
        names = self.env.get(kind) or (self.env.get("*") if kind == "*"
                                       else None)
        if names and d.chance(70 if local else 45):
            return d.pick(names)
        if depth <= 0 or kind in "0QiuP" and d.chance(80) or d.chance(25):
            return lit(self.value(kind))
        prods = self.produce.get(kind)
        if not prods:
            return lit(self.value(kind))
        key, args = d.pick(prods)
        return self.apply(key, args, depth - 1, local)

    def apply(self, key, args, depth, local=False):
        sym, arity = key
        xs = [self.expr(a, depth, local) for a in args]
        return build(sym, xs)

    def focus(self, keys, depth):
        """An application of one of the operators in keys."""
        d = self.d
        key = d.pick(keys)
        alts = HINTS[key]
        if not alts:
            return lit(self.value("*"))
        args, _ = d.pick(alts)
        return self.apply(key, args, depth)


def build(sym, xs):
    if len(xs) == 1:
        return f"({sym} {xs[0]})"
    if len(xs) == 2:
        return f"({xs[0]} {sym} {xs[1]})"
    return f"({xs[0]} {sym} {xs[1]};{xs[2]})"
