"""Random unit systems with an independent evaluation of every name (exponents as fractions, factors in 60-digit decimals)."""
import decimal
from decimal import Decimal as D
from fractions import Fraction as F

from si_table import PREFIXES

CTX = decimal.Context(prec=60, Emax=10**6, Emin=-(10**6))
decimal.setcontext(CTX)

KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self static
struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual
yield try gen raw union auto default dimension unit constant base alias symbol prefix skip m r n f""".split())
KEYWORD_NAMES = "Type Move Loop Match Yield Box Where Use Static Final Try Do Macro As In For Async Become Trait Fn Pub Ref Super Crate".split()
SYL = "ba ce di fo gu ha je ki lo mu na pe qui ro su ta ve wi xo yu za bri cla dro flu gra kne plo sni tre vlo zhu".split()
RAW = """as break const continue else enum extern false fn for if impl in let loop match mod mut pub ref return struct trait true type
unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try""".split()
QTYPES = ["Quantity", "Quantity", "Measured", "Qy", "PhysicalValue", "Amt", "Quant_1"]
DTYPES = ["Dimension", "Dimension", "Dims", "ExponentVector", "Kind", "Dm", "Dim_Type"]


class Val:
    """A value: exponents per base dimension, factor, and a bound on the rounding error of computing it in f64 (ulp)."""

    def __init__(self, dims, factor, err=0.0, biggest=None):
        self.dims = {k: v for k, v in dims.items() if v}
        self.factor, self.err = factor, err
        self.extreme = biggest if biggest is not None else mag(factor)

    def mul(self, o, sign):
        d = dict(self.dims)
        for k, v in o.dims.items():
            d[k] = d.get(k, F(0)) + sign * v
        f = self.factor * o.factor if sign > 0 else self.factor / o.factor
        return Val(d, f, self.err + o.err + 1, max(self.extreme, o.extreme, mag(f)))

    def pow(self, p):
        d = {k: v * p for k, v in self.dims.items()}
        slack = 4
        if p.denominator == 1:
            f = self.factor ** int(p)
        else:
            f = self.factor ** (D(p.numerator) / D(p.denominator))
            # the exponent itself is rounded
            slack += 2.4 * mag(f)
        # the value, and its inverse, pass through the computation of a negative power
        return Val(d, f, float(abs(p)) * (self.err + 2) + slack, max(self.extreme, mag(f)))


def mag(f):
    return abs(f.adjusted()) + 1 if f else 0


# Expressions: ("num", text), ("name", n), ("pow", atom, Fraction, text), ("paren", expr), ("bin", lhs, op, factor); op in * / ' '


def show(e):
    k = e[0]
    if k == "num":
        return e[1]
    if k == "name":
        return e[1]
    if k == "pow":
        return f"{show(e[1])}{e[4]}{e[3]}"
    if k == "paren":
        return f"({show(e[1])})"
    op = e[2]
    return f"{show(e[1])}{' ' if op == ' ' else e[4] + op + e[4]}{show(e[3])}"


def names_in(e):
    k = e[0]
    if k == "name":
        return [e[1]]
    if k == "num":
        return []
    if k in ("pow", "paren"):
        return names_in(e[1])
    return names_in(e[1]) + names_in(e[3])


def rename(e, f):
    k = e[0]
    if k == "name":
        return ("name", f(e[1]))
    if k == "num":
        return e
    if k in ("pow", "paren"):
        return (k, rename(e[1], f), *e[2:])
    return (k, rename(e[1], f), e[2], rename(e[3], f), *e[4:])


def literal(text):
    """The value of a Rust numeric literal."""
    t = text.replace("_", "")
    for p, b in (("0x", 16), ("0o", 8), ("0b", 2)):
        if t.startswith(p):
            return D(int(t[2:], b))
    for suffix in ("f64", "f32", "u64", "i64", "u8"):
        t = t.removesuffix(suffix)
    return D(t)


def evaluate(e, env):
    k = e[0]
    if k == "num":
        return Val({}, literal(e[1]), 1)
    if k == "name":
        return env[e[1]]
    if k == "pow":
        return evaluate(e[1], env).pow(e[2])
    if k == "paren":
        return evaluate(e[1], env)
    return evaluate(e[1], env).mul(evaluate(e[3], env), -1 if e[2] == "/" else 1)


class Item:
    def __init__(self, kind, name, expr=None, base=None, symbol=None, aliases=(), metric=None, prefixes=(), annotation=None):
        self.kind, self.name, self.expr, self.base, self.symbol = kind, name, expr, base, symbol
        self.aliases, self.metric, self.prefixes, self.annotation = list(aliases), metric, list(prefixes), annotation
        self.layout = 0

    def copy(self):
        c = Item(self.kind, self.name, self.expr, self.base, self.symbol, self.aliases, self.metric, self.prefixes, self.annotation)
        c.layout = self.layout
        return c

    def all_prefixes(self):
        out = [] if self.metric is None else [p for p in PREFIXES if p not in self.metric]
        return out + self.prefixes

    def lines(self):
        attrs = []
        comma = "," if self.layout % 7 == 2 else ""
        if self.layout % 7 == 5 and self.kind == "unit":
            attrs += ["#[alias()]", "#[prefix()]"][self.layout % 2:]
        if self.base:
            attrs.append(f"#[base({self.base})]")
        if self.symbol:
            attrs.append(f"#[symbol({'r#' if self.symbol in RAW else ''}{self.symbol})]")
        if self.aliases:
            if self.layout % 2 and len(self.aliases) > 1:
                attrs += [f"#[alias({a})]" for a in self.aliases]
            else:
                attrs.append(f"#[alias({', '.join(self.aliases)}{comma})]")
        if self.metric is not None:
            attrs.append(f"#[metric_prefixes(skip: {', '.join(self.metric)}{comma})]" if self.metric else ["#[metric_prefixes]", "#[metric_prefixes()]", "#[metric_prefixes(skip:)]"][max(0, self.layout % 7 - 4)])
        if self.prefixes:
            if self.layout % 3 == 1 and len(self.prefixes) > 1:
                attrs += [f"#[prefix({p})]" for p in self.prefixes]
            else:
                attrs.append(f"#[prefix({', '.join(self.prefixes)}{comma})]")
        if self.layout % 5 >= 2:
            attrs = attrs[::-1]
        if self.layout % 5 == 4 and len(attrs) > 2:
            attrs = attrs[1:] + attrs[:1]
        ann = f": {self.annotation}" if self.annotation else ""
        rhs = f" = {show(self.expr)}" if self.expr is not None else ""
        return attrs + [f"{self.kind} {self.name}{ann}{rhs};"]


class System:
    def __init__(self):
        self.qtype, self.dtype, self.items = "Quantity", "Dimension", []
        self.order = None
        self.last_semicolon = True

    def copy(self):
        s = System()
        s.qtype, s.dtype = self.qtype, self.dtype
        s.items = [i.copy() for i in self.items]
        s.order = list(self.order) if self.order else None
        s.last_semicolon = self.last_semicolon
        return s

    def statements(self):
        out = [[f"quantity_type {self.qtype};"], [f"dimension_type {self.dtype};"]] + [i.lines() for i in self.items]
        if self.order:
            out = [out[i] for i in self.order]
        return out

    def text(self, indent="        "):
        text = "".join(indent + line + "\n" for st in self.statements() for line in st)
        return text if self.last_semicolon else text.rstrip().removesuffix(";") + "\n"

    def base_dims(self):
        return [i.name for i in self.items if i.kind == "dimension" and i.expr is None]

    def env(self):
        """Name to value for every name, generated ones included, and symbol to (unit name)."""
        env, todo, symbols, kinds = {}, [], {}, {}
        for i in self.items:
            if i.kind == "dimension" and i.expr is None:
                env[i.name] = Val({i.name: F(1)}, D(1))
                kinds[i.name] = "dimension"
            elif i.base:
                env[i.name] = Val({i.base: F(1)}, D(1))
                self._expand(i, env, symbols, kinds)
            else:
                todo.append(i)
        while todo:
            rest = []
            for i in todo:
                if all(n in env for n in names_in(i.expr)):
                    env[i.name] = evaluate(i.expr, env)
                    if i.kind == "unit":
                        self._expand(i, env, symbols, kinds)
                    else:
                        kinds[i.name] = i.kind
                else:
                    rest.append(i)
            if len(rest) == len(todo):
                raise ValueError("unresolvable")
            todo = rest
        return env, kinds, symbols

    def _expand(self, i, env, symbols, kinds):
        v = env[i.name]
        for p in [None] + i.all_prefixes():
            pf = D(1) if p is None else D(PREFIXES[p][1].numerator) / D(PREFIXES[p][1].denominator)
            for a in [None] + i.aliases:
                name = glue(p, a or i.name)
                if name != i.name:
                    env[name] = v.mul(Val({}, pf, 1), 1)
                kinds[name] = "unit"
            if i.symbol:
                symbols[("" if p is None else PREFIXES[p][0]) + i.symbol] = glue(p, i.name)


def plain(name):
    return name.removeprefix("r#")


def glue(prefix, name):
    return prefix + plain(name) if prefix else name


def snake(name):
    return "".join("_" + c.lower() if c.isupper() and k else c.lower() for k, c in enumerate(plain(name)))


class Names:
    def __init__(self, r):
        self.r, self.used, self.dims, self.fields = r, set(KEYWORDS), [], set()

    def reserve(self, names):
        """Names something else has already."""
        for n in names:
            self.used.update((n, n.lower(), n.lower().replace("_", "")))
            self.fields.add(snake(n))

    def fresh(self, make):
        while True:
            n = make()
            if n.lower() not in self.used and n not in self.used and n.lower().replace("_", "") not in self.used and snake(n) not in self.fields:
                self.used.update((n, n.lower(), n.lower().replace("_", "")))
                return n

    def take(self, n, field=False):
        """A name of a special form, if nothing else has it."""
        if n in self.used or (field and snake(n) in self.fields):
            return None
        self.used.add(n)
        return n

    def dim(self):
        n, k = None, self.r.random()
        if k < 0.03:
            # in lower case, a keyword
            n = self.take(self.r.choice(KEYWORD_NAMES), True)
        elif k < 0.045:
            n = self.take("r#" + self.r.choice(RAW), True)
        elif k < 0.10 and self.dims:
            # differs from another one in its capitals only
            n = self.r.choice(self.dims)
            k = self.r.randrange(1, len(n)) if len(n) > 1 else 0
            n = n[:k] + n[k].swapcase() + n[k + 1:]
            n = self.take(n, True)
        elif k < 0.14:
            # any identifier will do
            n = self.r.choice(["_", "", "", "__"]) + self.foreign("ÄÉΩЖΛŠабδéñ日度Q", 1, 2) + self.foreign("äéñöžджλω日度ÄΩЖ_3xY", 0, 4)
            n = self.take(n, True) if n.strip("_") and n.upper() != "_" else None

        def make():
            words = ["".join(self.r.choice(SYL) for _ in range(self.r.randint(1, 2))).capitalize() for _ in range(self.r.choice([1, 1, 1, 2, 3]))]
            n = "".join(words) + self.r.choice(["", "", "", "2", "X"])
            k = self.r.random()
            return n.upper() if k < 0.04 else n.lower() if k < 0.08 else "_".join(words) if k < 0.12 else n
        n = n or self.fresh(make)
        self.fields.add(snake(n))
        if not n.startswith("r#"):
            self.dims.append(n)
        return n

    def foreign(self, letters, least, most):
        return "".join(self.r.choice(letters) for _ in range(self.r.randint(least, most)))

    def unit(self):
        n, k = None, self.r.random()
        if k < 0.025:
            n = self.take("r#" + self.r.choice(RAW))
        elif k < 0.06:
            n = self.take(self.r.choice(["_", "", "", "__"]) + self.foreign("äéñöžджλωÄΩЖ日度u", 1, 1) + self.foreign("äéñöžджλω日度ÄΩЖ_3xY", 1, 4))
        if n:
            return n

        def make():
            s = "".join(self.r.choice(SYL) for _ in range(self.r.randint(1, 3)))
            s += self.r.choice(["", "", "", "_" + self.r.choice(SYL), str(self.r.randint(0, 9))])
            return self.r.choice([s.upper(), s.capitalize(), "_" + s, s + "_"]) if self.r.random() < 0.06 else s
        return self.fresh(make)

    def constant(self):
        return self.fresh(lambda: "_".join("".join(self.r.choice(SYL) for _ in range(2)) for _ in range(self.r.randint(1, 2))).upper())

    def symbol(self, taken, prefixes):
        """A symbol none of whose prefixed forms collides with another symbol."""
        pool = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZΩΔθλß"
        while True:
            s = "".join(self.r.choice(pool) for _ in range(self.r.choice([1, 1, 2, 2, 3])))
            if self.r.random() < 0.06:
                # any name may be a symbol as well
                s = plain(self.r.choice(sorted(self.used) + QTYPES + DTYPES + RAW))
            if not s.isidentifier() or s in KEYWORDS and s not in RAW or s == "_":
                continue
            forms = [s] + [PREFIXES[p][0] + s for p in prefixes]
            # (the name of a dimension stands for its unit where it has none)
            if any(f.rstrip("_") in self.fields or f in self.fields for f in forms):
                continue
            if len(set(forms)) == len(forms) and not any(f in taken or f in KEYWORDS and f not in RAW for f in forms):
                taken.update(forms)
                return s


# the sizes and spellings a literal may have
EXOTIC = ["4294967297", "9007199254740993", "9223372036854775807", "2147483648", "65537", "0x1F", "0b1011", "0o17", "1_0_0", "2.0f64", "3u64", "12i64", "7_f64",
          "0.000_001", "0007", "0.1e-5", "1E+3", "2.", "123456789012345678", "1.7976931348623157e100", "0.30000000000000004", "299792458.0000000001", "1e22", "1e23"]


# the exponents a power may have beyond the usual ones
WIDE = [5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, -7, -8, -16, -33, -64, -128, -129, -255, -257]
NEAR_ONE = ["1.01", "0.99", "1.0625", "1.125", "0.9375", "1.3", "0.75"]


def number(r, dims_only=False):
    if dims_only:
        return ("num", r.choice(["1", "1.0"]))
    k = r.random()
    if k > 0.96:
        return ("num", "-" + number(r)[1].removeprefix("-"))
    if k < 0.3:
        return ("num", str(r.choice([1, 2, 3, 5, 7, 10, 12, 60, 1000, 3600, 299792458])))
    if k < 0.6:
        return ("num", f"{r.uniform(0.01, 99):.{r.randint(1, 6)}f}")
    if k < 0.8:
        return ("num", f"{r.uniform(1, 9.99):.{r.randint(1, 14)}f}e{r.choice(['', '-', '-'])}{r.randint(0, 20)}")
    return ("num", r.choice(["1.0", "0.5", "1", "1_000", "2.5E3", "1e3", "1e-3", "0.001", "6.02214076e23", "3.141592653589793", "1.5_0"] + EXOTIC))


def power(r, rational, atom):
    sp = r.choice(["^", "^", " ^ ", "^ ", " ^"])
    if r.random() < 0.06:
        if atom[0] == "num" and atom[1] not in ("1", "1.0"):
            atom = ("num", r.choice(NEAR_ONE))
        p = r.choice(WIDE)
        return ("pow", atom, F(p), str(p), sp)
    if rational and r.random() < 0.35:
        p = F(r.choice([-5, -3, -2, -1, 1, 2, 3, 4, 6]), r.choice([1, 2, 2, 3, 4, 6]))
        num, den = p.numerator, p.denominator
        k = r.choice([1, 1, 2, -1]) if den != 1 or True else 1
        return ("pow", atom, p, f"({num * k}{r.choice(['/', ' / '])}{den * k})", sp)
    p = r.choice([-3, -2, -1, 0, 1, 2, 2, 3, 4])
    return ("pow", atom, F(p), str(p), sp)


def expression(r, pool, rational, dims_only=False, depth=0):
    """A random expression over the names in pool."""
    def factor():
        k = r.random()
        if k < 0.14 and depth < 3 :
            return ("paren", expression(r, pool, rational, dims_only, depth + 1))
        if k < 0.30 or not pool:
            a = number(r, dims_only)
        else:
            a = ("name", r.choice(pool))
        # (whether a sign or a power binds tighter is left open)
        if r.random() < 0.3 and not a[1].startswith("-"):
            return power(r, rational, a)
        return a

    length = r.choice([0, 1, 1, 2, 2, 3, 4]) if depth == 0 else r.choice([0, 1, 1, 2])
    if depth == 0 and r.random() < 0.05:
        # a long product, or deep parentheses
        if r.random() < 0.5:
            length = r.randint(8, 40)
        else:
            e = expression(r, pool, rational, dims_only, 2)
            for _ in range(r.randint(3, 12)):
                e = ("paren", e) if r.random() < 0.4 else ("bin", factor(), r.choice("*/"), ("paren", e), " ")
            return e
    e = factor()
    for _ in range(length):
        op = r.choice(["*", "*", "/", "/", " "])
        f = factor()
        if op == " ":
            # juxtaposition is defined for names only
            if not pool:
                op = "*"
            else:
                f = ("name", r.choice(pool))
                if r.random() < 0.3:
                    f = power(r, rational, f)
        e = ("bin", e, op, f, r.choice(["", " ", " ", " "]))
    return e


def fits(v, rational):
    if v.extreme > 150 or v.err > 3000 or v.factor == 0:
        return False
    # the exponent arithmetic has to stay small, and the probes have to be able to name the dimension
    if any(abs(x.numerator) > 300 or x.denominator > 12 for x in v.dims.values()):
        return False
    return rational or all(x.denominator == 1 for x in v.dims.values())


def random_system(r, rational=False, nbase=None, nunits=None, prefixes=0.3, symbols=0.6, unique_names=True, baseless=0.15, types=True, chain=False):
    s = System()
    s.last_semicolon = r.random() < 0.85
    nm = Names(r)
    if types:
        s.qtype = r.choice(QTYPES)
        s.dtype = r.choice(DTYPES)
    nm.used.update(x.lower() for x in QTYPES + DTYPES + ["unit", "units", "dimensions", "constants", "magnitude", "exponent", "units_type"])
    nbase = nbase or r.choice([1, 2, 3, 3, 4, 5, 7])
    nunits = nunits or r.randint(4, 12)
    taken = set()
    env = {}
    bases, dims, units, consts = [], [], [], []
    for _ in range(nbase):
        d = nm.dim()
        s.items.append(Item("dimension", d))
        bases.append(d)
        dims.append(d)
        env[d] = Val({d: F(1)}, D(1))

    def attributes(i):
        i.layout = r.randrange(210)
        if r.random() < prefixes:
            k = r.random()
            if k < 0.45:
                i.metric = []
            elif k < 0.7:
                i.metric = r.sample(list(PREFIXES), r.randint(1, 6))
            else:
                i.prefixes = r.sample(list(PREFIXES), r.randint(1, 4))
        if i.metric and r.random() < 0.3:
            i.prefixes = r.sample(i.metric, 1)
        if r.random() < 0.35:
            i.aliases = [nm.unit() for _ in range(r.randint(1, 3))]
        if i.base or r.random() < symbols:
            i.symbol = nm.symbol(taken, i.all_prefixes())

    for d in bases:
        if r.random() < baseless and len(units) > 0:
            continue
        i = Item("unit", nm.unit(), base=d)
        attributes(i)
        if r.random() < 0.3:
            i.annotation = d
        s.items.append(i)
        units.append(i.name)
        env[i.name] = Val({d: F(1)}, D(1))
        s._expand(i, env, {}, {})
    for _ in range(r.randint(2, 8)):
        for _ in range(50):
            e = expression(r, dims, rational, True)
            v = evaluate(e, env)
            if fits(v, rational):
                n = nm.dim()
                s.items.append(Item("dimension", n, e))
                dims.append(n)
                env[n] = v
                break
    pool = list(units)
    for k in range(nunits):
        for _ in range(50):
            recent = pool[-1:] if chain and r.random() < 0.9 else pool[-3:] if r.random() < 0.4 else pool
            e = expression(r, recent, rational)
            if k < 2 and r.random() < 0.6:
                # an exponent of any size
                e = ("pow", ("num", r.choice(NEAR_ONE)), F(x := r.choice(WIDE)), str(x), "^")
                if r.random() < 0.5:
                    e = ("bin", ("name", r.choice(pool)), r.choice("*/"), e, " ") if pool else e
            try:
                v = evaluate(e, env)
            except (decimal.InvalidOperation, decimal.Overflow, ZeroDivisionError):
                continue
            if not fits(v, rational):
                continue
            if r.random() < 0.25:
                i = Item("constant", nm.constant(), e)
            else:
                i = Item("unit", nm.unit(), e)
                attributes(i)
            if r.random() < 0.5:
                same = [n for n in dims if env[n].dims == v.dims]
                if same:
                    i.annotation = r.choice(same)
            env[i.name] = v
            if i.kind == "unit":
                s._expand(i, env, {}, {})
                units.append(i.name)
                pool.append(i.name)
                extra = [glue(p, a or i.name) for p in [None] + i.all_prefixes() for a in [None] + i.aliases]
                if len(extra) > 1:
                    pool.append(r.choice(extra))
            else:
                consts.append(i.name)
                pool.append(i.name)
            s.items.append(i)
            break
    env2, kinds, symbols_ = s.env()
    if len(kinds) != len(set(kinds)) or not check_names(s, kinds):
        return random_system(r, rational, nbase, nunits, prefixes, symbols, unique_names, baseless, types, chain)
    return s


def check_names(s, kinds):
    """No generated name (prefix plus alias) may coincide with another: that would be an ill-formed system."""
    seen = {}
    for i in s.items:
        if i.kind == "unit":
            for p in [None] + i.all_prefixes():
                for a in [None] + i.aliases:
                    n = glue(p, a or i.name)
                    if n in seen:
                        return False
                    seen[n] = 1
        else:
            if i.name in seen:
                return False
            seen[i.name] = 1
    return True


def permuted(s, r):
    t = s.copy()
    n = len(t.items) + 2
    t.order = r.sample(range(n), n)
    return t


def type_of(v, bases, mod, lcm=1):
    """An expression whose type is the dimension of v to the power of lcm, built from the base dimensions only."""
    parts = []
    for b in bases:
        x = v.dims.get(b, F(0)) * lcm
        if x:
            assert x.denominator == 1
            k = int(x)
            parts.append(f"{mod}::dimensions::{b}::<f64>::new_unchecked(1.0).powi::<{k if k >= 0 else '{' + str(k) + '}'}>()")
    if not parts:
        b = bases[0]
        parts = [f"{mod}::dimensions::{b}::<f64>::new_unchecked(1.0) / {mod}::dimensions::{b}::<f64>::new_unchecked(1.0)"]
    return " * ".join(parts)


def lcm_of(v):
    m = 1
    for x in v.dims.values():
        m = m * x.denominator // __import__("math").gcd(m, x.denominator)
    return m


def rust_float(d):
    f = float(d)
    s = repr(f)
    if "e" in s:
        m, e = s.split("e")
        return f"{m if '.' in m else m + '.0'}e{int(e)}"
    return s if "." in s else s + ".0"


def probes(s, mod, env=None, kinds=None, only=None):
    """Rust statements checking dimension and factor of every name of the system."""
    if env is None:
        env, kinds, _ = s.env()
    bases = s.base_dims()
    out = []
    for n, k in kinds.items():
        if only is not None and n not in only:
            continue
        v = env[n]
        m = lcm_of(v)
        want = type_of(v, bases, mod, m)
        if k == "dimension":
            one = f"{mod}::dimensions::{n}::<f64>::new_unchecked(1.0)"
        else:
            one = f"{mod}::{k}s::{n}.new(1.0f64)"
        raised = one if m == 1 else f"{one}.powi::<{m}>()"
        out.append(f'm.form("dimension of {k}"); {{ let a = {raised}; let b = {want}; m.same(&"{n}", true, ty(&a) == ty(&b)); }}')
        if k != "dimension":
            tol = int(2 * v.err + 4)
            out.append(f'm.form("factor of {k}"); m.close(&"{n}", {rust_float(v.factor)}, {one}.value_unchecked(), {tol});')
    return out


def module(mod, s):
    return f"pub mod {mod} {{\n    diman::unit_system! {{\n{s.text()}    }}\n}}\n"
