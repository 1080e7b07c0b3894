"""C09: the macro's verdict on random valid systems and on every kind of mistake planted at random places in them."""
import os

import systems
from common import deps, pmap, rustc, Inconclusive
from gen import PRELUDE, Draw
from si_table import PREFIXES
from systems import F, Item


class Ctx:
    """A random valid system about to be spoiled."""

    def __init__(self, r, rational):
        self.r, self.rational = r, rational
        while True:
            s = systems.random_system(r, rational, nbase=r.randint(2, 4), nunits=r.randint(4, 7), prefixes=0.25)
            self.s = s
            self.env, self.kinds, self.symbols = s.env()
            self.derived = [i for i in s.items if i.kind == "unit" and i.expr is not None]
            self.baseunits = [i for i in s.items if i.base]
            self.consts = [i for i in s.items if i.kind == "constant"]
            self.dims = [i for i in s.items if i.kind == "dimension" and i.expr is not None]
            if len(self.derived) >= 3 and len(self.consts) >= 1 and len(self.dims) >= 3 and self.symbols and len(self.baseunits) >= 1:
                break
        self.nm = systems.Names(r)
        self.nm.reserve(self.kinds)
        self.nm.used.update(x.lower() for x in systems.QTYPES + systems.DTYPES + ["unit", "units", "dimensions", "constants", "magnitude", "exponent"])
        self.taken = set(self.symbols)

    def fresh(self):
        return self.nm.unit()

    def variant(self, texts):
        return texts[self.number % len(texts)] if self.number is not None else self.r.choice(texts)

    def unit(self):
        return self.r.choice([k for k, v in self.kinds.items() if v == "unit"])

    def dim(self):
        return self.r.choice([k for k, v in self.kinds.items() if v == "dimension"])

    def const(self):
        return self.r.choice(self.consts).name

    def symbol(self):
        """One that no prefix makes collide with another."""
        while True:
            s = "zz" + "".join(self.r.choice("qwxyj") for _ in range(4))
            if s not in self.taken:
                self.taken.add(s)
                return s

    def dress(self, i):
        """Attributes and an annotation that are right, at random."""
        r = self.r
        i.layout = r.randrange(210)
        if r.random() < 0.4:
            i.aliases += [self.fresh() for _ in range(r.choice([1, 1, 2, 3]))]
        k = r.random()
        if k < 0.2 and i.metric is None and not i.prefixes:
            i.metric = []
        elif k < 0.4 and i.metric is None and not i.prefixes:
            i.metric = r.sample(list(PREFIXES), r.choice([1, 2, 5]))
            if r.random() < 0.3:
                i.prefixes = i.metric[:1]
        elif k < 0.6 and i.metric is None:
            i.prefixes += [p for p in r.sample(list(PREFIXES), r.choice([1, 2, 4])) if p not in i.prefixes]
        if i.symbol is None and r.random() < 0.4:
            i.symbol = self.symbol()
        if i.base and r.random() < 0.4:
            i.annotation = i.base
        return i

    def host(self, base=None, name=None):
        """A further unit without a mistake, dressed at random."""
        r = self.r
        if base if base is not None else r.random() < 0.4:
            d = self.nm.dim()
            self.s.items.append(Item("dimension", d))
            i = Item("unit", name or self.fresh(), base=d, symbol=self.symbol())
        else:
            b = r.choice(self.baseunits)
            expr, ann = r.choice([(("num", "4.0"), None), (("name", b.name), b.base), (("bin", ("num", "2.5"), "*", ("name", b.name), " "), b.base)])
            i = Item("unit", name or self.fresh(), expr, annotation=ann if r.random() < 0.5 else None)
        self.s.items.append(self.dress(i))
        return i

    def forms(self, i):
        """Every name of a unit."""
        return [systems.glue(p, n) for p in [""] + i.all_prefixes() for n in [i.name] + i.aliases]

    def form(self, i):
        forms = self.forms(i)
        return self.r.choice(forms if self.r.random() < 0.5 else forms[:1 + len(i.aliases)])

    def graft(self, e, name):
        """Put a name somewhere into an expression."""
        f = ("name", name)
        if self.r.random() < 0.3:
            f = systems.power(self.r, self.rational, f)
        k = self.r.random()
        if k < 0.35:
            return ("bin", e, self.r.choice("*/"), f, " ")
        if k < 0.6:
            return ("bin", f, self.r.choice("*/"), ("paren", e), " ")
        if k < 0.8:
            return ("bin", e, "/", ("paren", ("bin", ("num", "1") if self.r.random() < 0.5 else f, "*", f, " ")), " ")
        return f


FORMS = {}


def mistakes():
    M = {}

    def m(fn):
        M[fn.__name__] = fn
        return fn

    # -- undefined names
    @m
    def undefined_in_unit(x):
        i = x.r.choice(x.derived); i.expr = x.graft(i.expr, x.fresh())
    @m
    def undefined_in_constant(x):
        i = x.r.choice(x.consts); i.expr = x.graft(i.expr, x.fresh())
    @m
    def undefined_in_dimension(x):
        i = x.r.choice(x.dims); i.expr = x.graft(i.expr, x.nm.dim())
    @m
    def undefined_prefixed_unit(x):
        i = x.r.choice(x.derived)
        cand = [systems.glue(p, n) for n, k in x.kinds.items() if k == "unit" for p in PREFIXES if systems.glue(p, n) not in x.kinds]
        i.expr = x.graft(i.expr, x.r.choice(cand))
    @m
    def undefined_annotation(x):
        x.r.choice(x.derived + x.consts).annotation = x.nm.dim()
    @m
    def undefined_base_dimension(x):
        x.s.items.append(Item("unit", x.fresh(), base=x.nm.dim(), symbol=x.nm.symbol(x.taken, [])))
    @m
    def symbol_used_as_name(x):
        cand = [s for s in x.symbols if s not in x.kinds and s not in systems.RAW]
        i = x.r.choice(x.derived); i.expr = x.graft(i.expr, x.r.choice(cand))
    # -- cycles
    @m
    def circular_self(x):
        i = x.r.choice(x.derived + x.consts + x.dims); i.expr = x.graft(i.expr, i.name)
    @m
    def circular_pair(x):
        a, b = x.r.sample(x.derived + x.consts, 2); a.expr = x.graft(a.expr, b.name); b.expr = x.graft(b.expr, a.name)
    @m
    def circular_three(x):
        a, b, c = x.r.sample(x.derived + x.consts, 3)
        a.expr, b.expr, c.expr = x.graft(a.expr, b.name), x.graft(b.expr, c.name), x.graft(c.expr, a.name)
    @m
    def circular_long(x):
        n = x.r.choice([5, 12, 25, 60])
        names = [x.fresh() for _ in range(n)]
        for k, a in enumerate(names):
            e = ("name", names[(k + 1) % n])
            if x.r.random() < 0.5:
                e = ("bin", e, x.r.choice("*/"), ("name", x.unit()), " ")
            x.s.items.append(Item(x.r.choice(["unit", "constant"]), a, e))
    @m
    def circular_below(x):
        # a definition that builds on a cycle without being part of it
        a, b = x.r.sample(x.derived + x.consts, 2)
        a.expr = x.graft(a.expr, a.name)
        b.expr = x.graft(b.expr, a.name)
    @m
    def circular_dimensions(x):
        a, b = x.r.sample(x.dims, 2); a.expr = x.graft(a.expr, b.name); b.expr = x.graft(b.expr, a.name)
    @m
    def circular_through_prefix(x):
        i = x.r.choice(x.derived); i.metric, i.prefixes = [], []
        i.symbol = None
        i.expr = x.graft(i.expr, systems.glue(x.r.choice(list(PREFIXES)), i.name))
    @m
    def circular_through_alias(x):
        i = x.r.choice(x.derived); a = x.fresh(); i.aliases.append(a); i.expr = x.graft(i.expr, a)
    # -- double definitions
    @m
    def unit_twice(x):
        i = x.r.choice(x.derived + x.consts)
        for _ in range(x.r.choice([1, 1, 2, 3])):
            x.s.items.append(Item("unit", i.name, ("name", x.baseunits[0].name)))
    @m
    def constant_twice(x):
        i = x.r.choice(x.derived + x.consts)
        for _ in range(x.r.choice([1, 1, 2, 4])):
            x.s.items.append(Item("constant", i.name, ("num", "2.0")))
    @m
    def unit_many_times(x):
        n = x.fresh()
        for _ in range(x.r.choice([3, 4, 5, 8, 16])):
            x.s.items.append(Item(x.r.choice(["unit", "constant"]), n, ("num", x.r.choice(["2.0", "3.0"]))))
    @m
    def alias_many_times(x):
        n = x.fresh()
        for i in x.r.sample(x.derived, min(3, len(x.derived))):
            i.aliases.append(n)
            i.metric, i.prefixes = None, []
        if len(x.derived) < 3:
            x.s.items.append(Item("unit", n, ("num", "2.0")))
            x.s.items.append(Item("constant", n, ("num", "2.0")))
    @m
    def dimension_twice(x):
        n = x.dim()
        for _ in range(x.r.choice([1, 1, 2, 3])):
            x.s.items.append(Item("dimension", n, x.r.choice([None, ("name", x.s.base_dims()[0])])))
    @m
    def unit_named_like_dimension(x):
        x.s.items.append(Item("unit", x.dim(), ("num", "2.0")))
    @m
    def dimension_named_like_unit(x):
        x.s.items.append(Item("dimension", x.unit()))
    @m
    def alias_named_like_unit(x):
        i = x.r.choice(x.derived + x.baseunits); i.aliases.append(x.r.choice([u for u, k in x.kinds.items() if k == "unit"]))
    @m
    def alias_named_like_constant(x):
        x.r.choice(x.derived + x.baseunits).aliases.append(x.const())
    @m
    def alias_twice(x):
        i = x.r.choice(x.derived + x.baseunits); a = x.fresh(); i.aliases += [a, a]
    @m
    def alias_of_two_units(x):
        a = x.fresh()
        for i in x.r.sample(x.derived, 2):
            i.aliases.append(a)
    @m
    def unit_named_like_prefixed(x):
        i = x.r.choice(x.derived); i.metric, i.prefixes, i.symbol = [], [], None
        x.s.items.append(Item("unit", systems.glue(x.r.choice(list(PREFIXES)), i.name), ("num", "3.0")))
    @m
    def constant_named_like_prefixed_alias(x):
        i = x.r.choice(x.derived); i.metric, i.prefixes, i.symbol = None, ["kilo", "milli"], None
        a = x.fresh(); i.aliases.append(a)
        x.s.items.append(Item("constant", systems.glue(x.r.choice(["kilo", "milli"]), a), ("num", "3.0")))
    @m
    def prefix_twice(x):
        i = x.r.choice(x.derived); i.metric, i.symbol = None, None
        p = x.r.choice(list(PREFIXES)); i.prefixes = [p, p]
    @m
    def prefix_in_both(x):
        i = x.r.choice(x.derived); i.metric, i.symbol, i.prefixes = [], None, [x.r.choice(list(PREFIXES))]
    # -- symbols
    @m
    def symbol_twice(x):
        s = x.r.choice(list(x.symbols)); x.s.items.append(Item("unit", x.fresh(), ("num", "4.0"), symbol=s))
    @m
    def prefixed_symbol_twice(x):
        i = x.r.choice(x.derived); i.metric, i.prefixes = None, ["kilo", "milli", "micro"]
        i.symbol = "zzq"
        x.s.items.append(Item("unit", x.fresh(), ("num", "4.0"), symbol=x.r.choice(["k", "m", "μ"]) + "zzq"))
    @m
    def prefixed_symbols_collide(x):
        a, b = x.r.sample(x.derived, 2)
        a.metric = b.metric = None
        a.prefixes, b.prefixes = ["deca"], ["deci"]
        a.symbol, b.symbol = "zq", "azq"
    @m
    def base_unit_without_symbol(x):
        x.r.choice(x.baseunits).symbol = None
    # -- base units
    @m
    def two_base_units(x):
        i = x.r.choice(x.baseunits); x.s.items.append(Item("unit", x.fresh(), base=i.base, symbol=x.nm.symbol(x.taken, [])))
    @m
    def base_unit_for_derived_dimension(x):
        d = x.r.choice(x.dims)
        x.s.items.append(Item("unit", x.fresh(), base=d.name, symbol=x.nm.symbol(x.taken, [])))
    @m
    def base_unit_for_unit(x):
        x.s.items.append(Item("unit", x.fresh(), base=x.r.choice([x.unit(), x.const()]), symbol=x.nm.symbol(x.taken, [])))
    @m
    def unit_without_definition(x):
        i = Item("unit", x.fresh(), symbol=x.nm.symbol(x.taken, []))
        i.annotation = x.r.choice([None, x.s.base_dims()[0]])
        x.s.items.append(i)
    @m
    def base_unit_with_expression(x):
        i = x.r.choice(x.baseunits); i.expr = ("num", "1.0")
    @m
    def base_attribute_twice(x):
        i = x.r.choice(x.baseunits); i.extra = [f"#[base({x.r.choice(x.s.base_dims())})]"]
    # -- kinds
    @m
    def unit_in_dimension(x):
        i = x.r.choice(x.dims); i.expr = x.graft(i.expr, x.unit())
    @m
    def constant_in_dimension(x):
        i = x.r.choice(x.dims); i.expr = x.graft(i.expr, x.const())
    @m
    def number_in_dimension(x):
        i = x.r.choice(x.dims); n = ("num", x.r.choice(["2", "2.0", "0", "0.5", "1.5", "10", "1e3", "0.1"]))
        i.expr = x.r.choice([("bin", i.expr, "*", n, " "), ("bin", n, "*", ("paren", i.expr), " "), n])
    @m
    def number_near_one_in_dimension(x):
        i = x.r.choice(x.dims); n = ("num", x.r.choice(["1.5", "1.999999", "1.0000001", "1.0000000000001", "0.9999999", "0.99999999999999", "1.01"]))
        i.expr = x.r.choice([("bin", i.expr, x.r.choice("*/"), n, " "), ("bin", n, "*", ("paren", i.expr), " "), ("bin", n, "/", ("paren", i.expr), " "), n])
    @m
    def dimension_in_unit(x):
        i = x.r.choice(x.derived); i.expr = x.graft(i.expr, x.dim())
    @m
    def dimension_in_constant(x):
        i = x.r.choice(x.consts); i.expr = x.graft(i.expr, x.dim())
    # -- annotations
    @m
    def wrong_annotation(x):
        i = x.r.choice(x.derived + x.consts)
        wrong = [n for n, k in x.kinds.items() if k == "dimension" and x.env[n].dims != x.env[i.name].dims]
        i.annotation = x.r.choice(wrong)
    @m
    def annotation_off_by_one_dimension(x):
        i = x.r.choice(x.derived + x.consts)
        v = x.env[i.name]
        d = x.r.choice(x.s.base_dims())
        e = dict(v.dims); e[d] = e.get(d, F(0)) + x.r.choice([F(1), F(-1), F(2)])
        n = x.nm.dim()
        expr = ("num", "1")
        for b, k in e.items():
            if k:
                expr = ("bin", expr, "*", ("pow", ("name", b), k, str(k) if k.denominator == 1 else f"({k.numerator}/{k.denominator})", "^"), " ")
        x.s.items.append(Item("dimension", n, expr))
        i.annotation = n
    @m
    def annotation_lacks_one_dimension(x):
        i = x.r.choice(x.derived)
        b = x.r.choice(x.baseunits)
        v = x.env[i.name]
        e = dict(v.dims)
        d = b.base
        # a further factor adds a dimension the annotation does not have
        n = x.nm.dim()
        expr = ("num", "1")
        for q, k in e.items():
            if q != d and k:
                expr = ("bin", expr, "*", ("pow", ("name", q), k, str(k) if k.denominator == 1 else f"({k.numerator}/{k.denominator})", "^"), " ")
        x.s.items.append(Item("dimension", n, expr))
        if e.get(d, 0) == 0:
            i.expr = ("bin", i.expr, "*", ("name", b.name), " ")
            for j in x.derived + x.consts:
                j.annotation = None
        i.annotation = n
    def dimension_with(x, e):
        n = x.nm.dim()
        expr = ("num", "1")
        for b, k in e.items():
            if k:
                expr = ("bin", expr, "*", ("pow", ("name", b), k, str(k) if k.denominator == 1 else f"({k.numerator}/{k.denominator})", "^"), " ")
        x.s.items.append(Item("dimension", n, expr))
        return n
    @m
    def annotated_pure_number(x):
        u = ("name", x.unit())
        e = x.r.choice([("num", "5.0"), ("num", "1"), ("bin", u, "/", u, " "), ("pow", u, F(0), "0", "^"), ("bin", ("num", "2.0"), "*", ("paren", ("bin", u, "/", u, " ")), " ")])
        i = Item(x.r.choice(["unit", "constant"]), x.fresh(), e)
        i.annotation = x.r.choice([n for n, k in x.kinds.items() if k == "dimension" and x.env[n].dims])
        x.s.items.append(i)
    @m
    def annotation_without_dimension(x):
        i = x.r.choice([i for i in x.derived + x.consts if x.env[i.name].dims] + x.baseunits)
        i.annotation = dimension_with(x, {})
    @m
    def annotation_inverted(x):
        i = x.r.choice([i for i in x.derived + x.consts if x.env[i.name].dims] + x.baseunits)
        i.annotation = dimension_with(x, {b: -k for b, k in x.env[i.name].dims.items()})
    @m
    def annotation_multiplied(x):
        i = x.r.choice([i for i in x.derived + x.consts if x.env[i.name].dims] + x.baseunits)
        f = x.r.choice([2, 3, -2, 256, 65536])
        i.annotation = dimension_with(x, {b: k * f for b, k in x.env[i.name].dims.items()})
    @m
    def annotation_exchanged(x):
        # the same exponents, for other base dimensions
        a, b = x.r.sample(x.s.base_dims(), 2)
        k = x.r.choice([1, 2, -1, -3])
        u = next((j for j in x.baseunits if j.base == a), None)
        if u is None:
            u, b = x.baseunits[0], next(d for d in x.s.base_dims() if d != x.baseunits[0].base)
        x.s.items.append(Item("unit", x.fresh(), ("pow", ("name", u.name), F(k), str(k), "^"), annotation=dimension_with(x, {b: F(k)})))
    @m
    def annotation_of_wide_exponent(x):
        u = x.r.choice(x.baseunits)
        k = x.r.choice([2, 3, -1])
        x.s.items.append(Item("unit", x.fresh(), ("pow", ("name", u.name), F(k), str(k), "^"), annotation=dimension_with(x, {u.base: F(k + x.r.choice([256, -256, 65536, 2**32]))})))
    @m
    def wrong_annotation_of_base_unit(x):
        i = x.r.choice(x.baseunits)
        i.annotation = x.r.choice([n for n, k in x.kinds.items() if k == "dimension" and x.env[n].dims != {i.base: F(1)}])
    @m
    def annotation_is_unit(x):
        x.r.choice(x.derived + x.consts).annotation = x.r.choice([x.unit(), x.const()])
    # -- mistakes between units of any make
    @m
    def any_symbols_collide(x):
        a, b = x.host(), x.host()
        p, q = (x.r.choice([None, None] + i.all_prefixes()) for i in (a, b))
        s, t = (PREFIXES[k][0] if k else "" for k in (p, q))
        core = x.symbol()
        if s.startswith(t):
            a.symbol, b.symbol = core, s[len(t):] + core
        elif t.startswith(s):
            a.symbol, b.symbol = t[len(s):] + core, core
        elif x.r.random() < 0.5:
            a.symbol, b.symbol = t + core, s + core
            if p and q or p:
                # the plain one of a, and the prefixed one of b
                b.symbol = core if q else t + core
        else:
            a.symbol = b.symbol = core
    @m
    def many_units_of_one_symbol(x):
        s = x.symbol()
        for _ in range(x.r.choice([2, 3, 5, 9])):
            x.host().symbol = s
    @m
    def any_names_collide(x):
        a = x.host()
        f = x.form(a)
        splits = [(p, f[len(p):]) for p in PREFIXES if f.startswith(p) and len(f) > len(p) + 1]
        p, rest = x.r.choice([("", f)] + splits * 2)
        k = x.r.random()
        if not p and k < 0.3:
            x.s.items.append(Item("constant", f, x.r.choice([("num", "4.0"), ("name", x.unit())])))
        elif not p and k < 0.4:
            x.s.items.append(Item("dimension", f, x.r.choice([None, ("name", x.dim())])))
        else:
            b = x.host() if k < 0.7 else x.host(name=rest)
            if k < 0.7:
                b.aliases.append(rest)
            if p and p not in b.all_prefixes():
                b.prefixes.append(p)
            if x.r.random() < 0.5:
                x.s.items.remove(b)
                x.s.items.insert(0, b)
    @m
    def any_two_base_units(x):
        a = x.host(base=True)
        for _ in range(x.r.choice([1, 1, 2, 4])):
            x.host(base=True).base = a.base
        for i in x.s.items:
            if i.base == a.base:
                i.annotation = x.r.choice([None, a.base])
    @m
    def any_circle(x):
        n = x.r.choice([1, 2, 3, 4, 8])
        hosts = [x.host(base=False) for _ in range(n)]
        for k, i in enumerate(hosts):
            i.expr = ("name", x.form(hosts[(k + 1) % n]))
            i.annotation = None
            if x.r.random() < 0.5:
                i.expr = x.graft(("name", x.unit()), i.expr[1])
            if x.r.random() < 0.2:
                c = Item("constant", x.nm.constant(), i.expr)
                x.s.items.append(c)
                i.expr = ("name", c.name)
    @m
    def any_undefined(x):
        i = x.host(base=False)
        j = x.host()
        if x.r.random() < 0.5:
            missing = [systems.glue(p, n) for p in PREFIXES if p not in j.all_prefixes() for n in [j.name] + j.aliases] or [x.fresh()]
        else:
            missing = [x.fresh(), systems.glue("kilo", x.form(j)) if j.prefixes or j.metric is not None else x.fresh()] + ([j.symbol] if j.symbol else [])
            missing = [n for n in missing if n not in x.forms(j)]
        i.expr, i.annotation = x.graft(i.expr, x.r.choice(missing)), None
    @m
    def undefined_often(x):
        n = x.fresh()
        for i in x.r.sample(x.derived + x.consts, x.r.choice([2, 2, 3])) + [x.host(base=False) for _ in range(x.r.choice([0, 1, 2]))]:
            i.expr, i.annotation = x.graft(i.expr, n), None
    @m
    def any_dimension_in_unit(x):
        i = x.host(base=False)
        i.expr, i.annotation = x.graft(i.expr, x.dim()), None
    @m
    def any_unit_in_dimension(x):
        i = x.host()
        x.s.items.append(Item("dimension", x.nm.dim(), x.graft(("name", x.dim()), x.form(i))))
    @m
    def any_wrong_annotation(x):
        i = x.host()
        if i.base:
            true = {i.base: F(1)}
        else:
            # (the expression is a number, a base unit or a multiple of one)
            true = next(({b.base: F(1)} for b in x.baseunits if b.name in systems.names_in(i.expr)), {})
        j = x.r.choice([i, Item("constant", x.nm.constant(), ("name", x.form(i)))])
        if j is not i:
            x.s.items.append(j)
        j.annotation = x.r.choice([n for n, k in x.kinds.items() if k == "dimension" and x.env[n].dims != true])
    @m
    def any_base_unit_without_symbol(x):
        x.host(base=True).symbol = None
    @m
    def any_base_unit_for_derived_dimension(x):
        i = x.host(base=True)
        d = next(d for d in x.s.items if d.kind == "dimension" and d.name == i.base)
        d.expr = ("name", x.s.base_dims()[0])

    # -- type statements
    @m
    def no_quantity_type(x):
        x.drop = ["quantity_type"]
    @m
    def no_dimension_type(x):
        x.drop = ["dimension_type"]
    @m
    def two_quantity_types(x):
        x.raw = [f"quantity_type {x.r.choice([x.s.qtype, 'Another'])};"]
    @m
    def two_dimension_types(x):
        x.raw = [f"dimension_type {x.r.choice([x.s.dtype, 'Another'])};"]

    # -- malformed statements
    def raw(name, *texts):
        def f(x):
            u, d = x.baseunits[0].name, x.s.base_dims()[0]
            t = x.variant(texts)
            x.raw = [t.replace("$n", x.fresh()).replace("$u", u).replace("$d", d).replace("$D", x.nm.dim())]
        f.__name__ = name
        M[name] = f
        FORMS[name] = len(texts)

    raw("missing_semicolon", "unit $n = 2.0 * $u unit vv = 3.0;", "dimension $D dimension;", "constant $n = 1.0 constant vvv = 2.0;", "quantity_type;")
    raw("unknown_statement", "units $n = 2.0;", "let $n = 2.0;", "dim $D;", "pub unit $n = 2.0;", "$n = 2.0;")
    raw("missing_expression", "unit $n = ;", "constant $n = ;", "dimension $D = ;", "constant $n;", "constant $n: $d;", "unit $n: = 2.0;", "constant $n 2.0;")
    raw("dangling_operator", "unit $n = 2.0 *;", "unit $n = $u /;", "unit $n = * $u;", "unit $n = $u * / $u;", "unit $n = $u ^;", "dimension $D = / $d;", "unit $n = (2.0 * ) ;")
    raw("unknown_operator", "unit $n = $u + $u;", "unit $n = 1.0 - $u;", "unit $n = $u ** 2;", "unit $n = $u % 2;", "dimension $D = $d + $d;", "unit $n = -$u;", "unit $n = $u ^ ^ 2;")
    raw("bad_parentheses", "unit $n = ();", "unit $n = (2.0 $u) 3.0 ();", "unit $n = [2.0];", "unit $n = {2.0};", "dimension $D = ();")
    raw("bad_exponent", "unit $n = $u^1.5;", "unit $n = $u^x;", "unit $n = $u^$u;", "dimension $D = $d^0.5;", "dimension $D = $d^;", 'unit $n = $u^"2";', "unit $n = $u^();", "unit $n = $u^(2/3/4);")
    raw("tower_of_powers", "unit $n = $u^2^3;", "unit $n = 2.0 $u ^ 2 ^ 2;", "dimension $D = $d^2^3;", "constant $n = 2.0^2^3 * $u;", "unit $n = $u^-1^2;", "dimension $D = $d^2^1 / $d;", "unit $n = $u^1^1;")
    raw("bad_literal", 'unit $n = "2.0";', "unit $n = 'c';", "unit $n = true;", "constant $n = b'x';", 'dimension $D = "1";')
    raw("bad_name", "unit 2 = 2.0;", "unit struct = 2.0;", "unit = 2.0;", "dimension;", "constant = 3.0;", "unit a.b = 2.0;", "unit a::b = 2.0;", "constant $n, vvz = 2.0;")
    raw("unknown_attribute", "#[symbols(q)] unit $n = 2.0;", "#[foo] unit $n = 2.0;", "#[derive(Debug)] unit $n = 2.0;", "#[metric_prefix] unit $n = 2.0;", "#[] unit $n = 2.0;")
    raw("unknown_prefix", "#[prefix(kila)] unit $n = 2.0;", "#[prefix(kilo, foo)] unit $n = 2.0;", "#[metric_prefixes(skip: foo)] unit $n = 2.0;", "#[prefix(Kilo)] unit $n = 2.0;", "#[prefix(k)] unit $n = 2.0;")
    raw("attribute_without_arguments", "#[symbol] unit $n = 2.0;", "#[alias] unit $n = 2.0;", "#[prefix] unit $n = 2.0;", "#[base] unit $n;", "#[symbol()] unit $n = 2.0;", "#[base()] unit $n;")
    raw("attribute_twice", "#[symbol(zzx)] #[symbol(zzy)] unit $n = 2.0;", "#[metric_prefixes] #[metric_prefixes] unit $n = 2.0;")
    raw("attribute_malformed", "#[symbol(2)] unit $n = 2.0;", '#[symbol("q")] unit $n = 2.0;', "#[symbol(a b)] unit $n = 2.0;", "#[alias(2)] unit $n = 2.0;", "#[base($d, $d)] unit $n;", "#[alias(aa bb)] unit $n = 2.0;")
    raw("juxtaposed_number", "unit $n = 2.0 3.0;", "unit $n = $u 2.0;", "dimension $D = $d 1;")

    @m
    def zero_denominator(x):
        if x.rational:
            x.raw = [f"unit {x.fresh()} = {x.baseunits[0].name}^({x.r.choice(['1', '0', '-3'])}/0);"]
        else:
            x.raw = [f"unit {x.fresh()} = {x.baseunits[0].name}^({x.r.choice(['1/2', '2/1', '-3/2'])});"]
    @m
    def zero_denominator_of_zero(x):
        x.raw = [f"dimension {x.nm.dim()} = {x.s.base_dims()[0]}^(0/0);"]
    raw("exponent_too_large", "unit $n = $u^99999999999999999999;", "dimension $DA = $d^4294967296; dimension $DB = $DA^4294967296;", "unit $na = $u^4611686018427387904; unit $nb = $na * $na;",
        "unit $na = $u^-9223372036854775808; unit $nb = 1.0 / $na;", "dimension $DA = $d^9223372036854775807; dimension $DB = $DA * $d;", "constant $nA = $u^-9223372036854775807; constant $nB = $nA / ($u / $nA);",
        "dimension $DA = $d^2147483647; dimension $DB = $DA^2147483647; dimension $DC = $DB^2147483647;", "dimension $DA = $d^4611686018427387904; dimension $DB = $DA $DA;")
    return M


MISTAKES = mistakes()


def spoiled(r, rational, names, number=None):
    x = Ctx(r, rational)
    x.number = number
    x.drop, x.raw = [], []
    for n in names:
        x.host() if n == "nothing" else MISTAKES[n](x)
    sts = x.s.statements() + [[t] for t in x.raw]
    sts = [st for st in sts if not any(st[0].startswith(d) for d in x.drop)]
    for i in x.s.items:
        for a in getattr(i, "extra", []):
            for st in sts:
                if st[-1] == i.lines()[-1]:
                    st.insert(0, a)
    r.shuffle(sts)
    return [line for st in sts for line in st]


EDGE_VALID = [
    ["quantity_type Quantity;", "dimension_type Dimension;", "unit two = 2.0;", "constant X = 3.0 two;"],
    ["quantity_type Quantity;", "dimension_type Dimension;"],
    ["dimension_type Dimension;", "dimension One = 1;", "quantity_type Quantity;", "#[metric_prefixes] #[symbol(t)] unit two: One = 2.0;", "constant X: One = 3.0 kilotwo"],
    # each is free of mistakes
    ["quantity_type Quantity;", "dimension_type Dimension;", "dimension Length;"],
    ["dimension Length;", "dimension Time;", "dimension Velocity = Length / Time;", "quantity_type Quantity;", "dimension_type Dimension"],
    ["quantity_type Q;", "dimension_type Dims;", "dimension Length;", "#[base(Length)]", "#[symbol(m)]", "unit meter;"],
    ["quantity_type Quantity;", "dimension_type Dimension;", "unit far = 3.0 * near;", "#[base(Length)] #[symbol(nr)] unit near: Length;", "dimension Length;",
     "constant C: Area = 2 near far;", "dimension Area = Length Length;"],
    ["quantity_type Quantity;", "dimension_type Dimension;", "dimension A;", "dimension B;", "#[base(A)] #[symbol(a)] unit a;", "#[base(B)] #[symbol(b)] unit b;",
     "unit c: A = a * b / b;", "unit d: One = a^0 * (b / b);", "dimension One = 1;", "dimension Also = A * B^0;", "unit e: Also = 2.5 a;", "constant f: A = e * d;"],
    ["quantity_type Quantity;", "dimension_type Dimension;", "dimension A;", "#[alias()] #[base(A)] #[symbol(A_)] unit a;", "#[symbol(b)] unit b = a;", "#[symbol(a)] unit x = ((((2.0))));",
     "unit y = 1 / (a / (b / (a / b)));"],
    ["quantity_type Quantity;", "dimension_type Dimension;", "dimension A;", "dimension B = A^3;", "dimension C = B^-2;", "#[metric_prefixes] #[symbol(a)] #[base(A)] unit a: A;",
     "unit big: B = kiloa^3;", "unit inv: C = exaa^-6;", "#[prefix(kilo)] #[alias(za)] unit z = 2.0 milliA_;", "#[alias(A_)] #[prefix(milli)] unit w = megaa;"],
]


def run(c):
    c.rule = ("one observation = the compiler's verdict on one unit system definition: valid ones must compile, ones with a planted mistake must get an "
              "error inside their macro call that is not a crash of the macro; distinct = distinct definitions")
    c.extra["kinds_of_mistakes"] = len(MISTAKES)
    per = c.pick(3, 14)
    files = []
    for cfg, rational in (("min", False), ("minrat", True)):
        d = deps(cfg)
        draw = Draw(c, cfg)
        # the written ones in every form, the others at several random places
        bad = [(n, k) for n in MISTAKES for k in range(max(per, FORMS.get(n, 0)))]
        for _ in range(c.pick(20, 150)):
            bad.append((*draw.r.sample(list(MISTAKES), 2), None))
        draw.r.shuffle(bad)
        for k in range(0, len(bad), 14):
            entries = []
            for *names, number in bad[k:k + 14]:
                names = tuple(names)
                for _ in range(5):
                    try:
                        entries.append((names, spoiled(draw.r, rational, names, number)))
                        break
                    except (IndexError, ValueError):
                        continue
            files.append(("bad", f"{cfg}_bad{k // 14}", d, entries))
        good = [(("edge",), x) for x in EDGE_VALID]
        for _ in range(c.pick(10, 80)):
            s = systems.random_system(draw.r, rational)
            good.append((("random valid",), [line for st in systems.permuted(s, draw.r).statements() for line in st]))
        for _ in range(c.pick(6, 40)):
            good.append((("random valid, further units",), spoiled(draw.r, rational, ["nothing"] * draw.r.randint(2, 8))))
        for k in range(0, len(good), 3):
            files.append(("good", f"{cfg}_good{k // 3}", d, good[k:k + 3]))

    def render(entries):
        text, spans = PRELUDE, []
        for k, (_, lines) in enumerate(entries):
            a = text.count("\n") + 1
            text += f"pub mod s{k} {{\n    diman::unit_system! {{\n" + "".join(f"        {x}\n" for x in lines) + "    }\n}\n"
            spans.append((a, text.count("\n")))
        return text + "fn main() {}\n", spans

    def verdict(comp, span):
        errs = [e for e in comp.errors if any(span[0] <= x <= span[1] for x in e.lines)]
        panic = [e for e in errs if "panicked" in e.message]
        return errs, panic

    def one(job):
        kind, name, d, entries = job
        text, spans = render(entries)
        src = c.write(f"{name}.rs", text)
        comp = rustc(src, d, emit="metadata")
        out = []
        for k, (names, lines) in enumerate(entries):
            errs, panic = verdict(comp, spans[k])
            files_ = [src]
            if kind == "bad" and not errs or kind == "good" and not comp.ok or panic:
                # on its own, so that nothing else in the file hides or causes the verdict
                t, sp = render([(names, lines)])
                alone = c.write(f"{name}_{k}.rs", t)
                again = rustc(alone, d, emit="metadata")
                errs, panic = verdict(again, sp[0])
                files_ = [alone]
                ok = again.ok
                if not ok and not errs and not again.errors:
                    raise Inconclusive(f"{alone}: no diagnostics: {again.stderr[-300:]}")
            else:
                ok = comp.ok
            out.append((kind, d.cfg, names, lines, ok, errs, panic, files_))
        return out

    for res in pmap(one, files):
        for kind, cfg, names, lines, ok, errs, panic, fs in res:
            label = " + ".join(names)
            c.event(f"{cfg}/{kind}: {label if len(names) == 1 else 'two mistakes'}", tuple(lines))
            detail = {"config": cfg, "mistakes": names, "system": lines, "errors": [e.rendered[:800] for e in errs[:3]]}
            if panic:
                c.violate(f"the macro crashed on: {label}", detail, fs)
            elif kind == "bad" and not errs:
                c.violate(f"an ill-formed unit system is not rejected at the macro: {label}", detail, fs)
            elif kind == "good" and not ok:
                c.violate("a well-formed unit system is rejected", detail, fs)
            elif kind == "bad" and len(c.samples) < 10 and len(lines) % 5 == 0:
                c.sample(f"{label}: {errs[0].message[:140]}")
    return 250
