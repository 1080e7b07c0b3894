"""C22: every error the macro reports about an ill-formed unit system, against what is wrong with that system."""
import re

import systems
from checks.c09 import FORMS, MISTAKES, Ctx
from common import deps, pmap, rustc, Inconclusive
from gen import PRELUDE, Draw
from systems import F, names_in

PATTERNS = {
    "undefined": r'Undefined identifier "(?P<a>.*)"\.',
    "unresolvable": r'Unresolvable definition "(?P<a>.*)"\.',
    "several definitions": r'Identifier "(?P<a>.*)" defined multiple times\.',
    "several symbols": r"Symbol '(?P<a>.*)' is used for multiple units\.",
    "several base units": r"'(?P<a>.*)' is defined to be a base unit for dimension '(?P<b>.*)', but there already is a base unit for this dimension\.",
    "not a base dimension": r"'(?P<a>.*)' is defined to be a base unit for dimension '(?P<b>.*)', but '(?P=b)' is not a base dimension\.",
    "kind": r"(?P<k>Dimension|Unit|Constant) (?P<a>\S+) is defined in terms of the (?P<l>dimension|unit|constant) (?P<b>\S+)\.",
    "violated annotation": r"Dimension mismatch in expression\.",
    "undefined annotation": r"Undefined dimension (?P<a>\S+) in annotation\.",
    "annotation of another kind": r"Type error in annotation: Expected dimension, found (?P<k>unit|constant) '(?P<a>.*)'\.",
    "no symbol": r"Unit (?P<a>\S+) is declared as a base unit but does not define its symbol\.",
    "several type statements": r'Multiple definitions for (?P<k>quantity|dimension) type "(?P<a>.*)"\.',
    "no type statement": r"No definition for (?P<k>quantity|dimension) type",
}
PATTERNS = {k: re.compile(v + r"\Z") for k, v in PATTERNS.items()}
SYNTAX = set(FORMS) | {"number_in_dimension", "number_near_one_in_dimension", "unit_without_definition", "base_unit_with_expression",
                       "base_attribute_twice", "zero_denominator", "zero_denominator_of_zero"}
# found only when the definitions are evaluated
LATE = {"exponent_too_large"}


class Entry:
    """A name that some statement defines."""

    def __init__(self, item, name, needs, source=None, symbol=None):
        self.item, self.name, self.needs, self.source, self.symbol = item, name, needs, source, symbol
        self.kind = item.kind


class Wrong:
    """What is wrong with a system that can be read."""

    def __init__(self, items):
        self.items = items
        E = self.entries = []
        for i in items:
            own = [i.base] if i.base else list(names_in(i.expr)) if i.expr is not None else []
            if i.kind != "unit":
                E.append(Entry(i, i.name, own))
                continue
            for p in [None] + i.all_prefixes():
                for a in [None] + i.aliases:
                    short = None if a or not i.symbol else (systems.PREFIXES[p][0] if p else "") + i.symbol
                    if p or a:
                        E.append(Entry(i, systems.glue(p, a or i.name), [i.name], i.name, short))
                    else:
                        E.append(Entry(i, i.name, own, None, short))
        self.by_name = {}
        for e in E:
            self.by_name.setdefault(e.name, []).append(e)
        self.base_dims = {i.name for i in items if i.kind == "dimension" and i.expr is None}
        # what cannot be evaluated, because of something undefined or circular in it or below it
        # (of a name defined several times: all of its definitions, or any)
        self.good, self.some_good = (self.evaluable(q) for q in (all, any))
        self.values = {}
        todo = [e for e in E if all(x.name in self.good for x in self.by_name[e.name])]
        while todo:
            rest = []
            for e in todo:
                if len(self.by_name[e.name]) > 1 or not all(n in self.values for n in e.needs):
                    rest.append(e)
                elif e.source:
                    self.values[e.name] = self.values[e.source]
                elif e.item.base:
                    self.values[e.name] = self.values[e.item.base]
                elif e.item.expr is None:
                    self.values[e.name] = {e.name: F(1)}
                else:
                    self.values[e.name] = dims_of(e.item.expr, self.values)
            if len(rest) == len(todo):
                break
            todo = rest

    def evaluable(self, quantifier):
        good = set()
        while True:
            new = {n for n, es in self.by_name.items() if n not in good and quantifier(all(m in good for m in e.needs) for e in es)}
            if not new:
                return good
            good |= new

    def circular(self, name):
        """Does the name depend on itself?"""
        seen, todo = set(), [name]
        while todo:
            for e in self.by_name.get(todo.pop(), []):
                todo += [n for n in e.needs if n not in seen]
                seen.update(e.needs)
        return name in seen

    def undefined(self, e):
        return [n for n in e.needs if n not in self.by_name]

    def allowed(self, e, target):
        if e.kind == "dimension" or e.item.base and not e.source:
            return target.kind == "dimension"
        return target.kind != "dimension"

    def facts(self):
        """(kind of mistake, statement, identifier) of each that has to be reported."""
        out = []
        undefined_items = set()
        for e in self.entries:
            if not e.source:
                u = self.undefined(e)
                if u:
                    undefined_items.add(e.item)
                    out.append(("undefined", [e.item], u))
        for n, es in self.by_name.items():
            live = [e for e in es if e.item not in undefined_items]
            if len(live) > 1:
                for e in live:
                    out.append(("several definitions", [e.item], [n]))
        symbols = {}
        for e in self.entries:
            if e.symbol:
                symbols.setdefault(e.symbol, []).append(e)
        self.symbols = symbols
        for s, es in symbols.items():
            if len(es) > 1:
                for e in es:
                    out.append(("several symbols", [e.item], [s]))
        per_dim = {}
        for i in self.items:
            if i.base in self.base_dims:
                per_dim.setdefault(i.base, []).append(i)
            elif i.base:
                out.append(("not a base dimension", [i], [i.base]))
        self.per_dim = per_dim
        for e in self.entries:
            if e.source or e.item in undefined_items or len(self.by_name[e.name]) > 1:
                continue
            alien = [n for n in set(e.needs) for t in [self.by_name[n]] if len(t) == 1 and t[0].item not in undefined_items and not self.allowed(e, t[0])]
            if alien:
                out.append(("kind", [e.item], alien))
            i = e.item
            if e.name not in self.some_good and self.circular(e.name):
                out.append(("unresolvable", [i], [e.name]))
            if e.name in self.values:
                a = i.annotation
                if a and a not in self.by_name:
                    out.append(("undefined annotation", [i], [a]))
                elif a and len(self.by_name[a]) == 1 and self.by_name[a][0].kind != "dimension" and a in self.values:
                    out.append(("annotation of another kind", [i], [a]))
                elif a and a in self.values and self.values[a] != self.values[e.name]:
                    out.append(("violated annotation", [i], [a]))
                if i.base and not i.symbol:
                    out.append(("no symbol", [i], [i.name]))
        return out


def dims_of(e, env):
    """The dimension of an expression."""
    if e[0] == "num":
        return {}
    if e[0] == "name":
        return env[e[1]]
    if e[0] == "paren":
        return dims_of(e[1], env)
    if e[0] == "pow":
        return {k: v * e[2] for k, v in dims_of(e[1], env).items() if e[2]}
    out, other = dict(dims_of(e[1], env)), dims_of(e[3], env)
    for k, v in other.items():
        out[k] = out.get(k, F(0)) + (-v if e[2] == "/" else v)
    return {k: v for k, v in out.items() if v}


def dims_text(text):
    """The exponents an error message quotes."""
    out = {}
    for part in text.split():
        name, _, exp = part.rpartition("^")
        out[name] = F(exp.strip("()"))
    return {k: v for k, v in out.items() if v}


def field(name):
    n = systems.snake(name)
    return n + "_" if n in systems.KEYWORDS else n


def spoil(draw, rational, names, number):
    """A spoiled system: its statements as (lines, item or None for one that cannot be read, or a text)."""
    x = Ctx(draw, rational)
    x.number = number
    x.drop, x.raw = [], []
    for n in names:
        x.host() if n == "nothing" else MISTAKES[n](x)
    sts = [([f"quantity_type {x.s.qtype};"], "quantity_type"), ([f"dimension_type {x.s.dtype};"], "dimension_type")]
    sts = [s for s in sts if s[1] not in x.drop]
    for i in x.s.items:
        sts.append((getattr(i, "extra", []) + i.lines(), i))
    for t in x.raw:
        k = next((k for k in ("quantity_type", "dimension_type") if t.startswith(k + " ")), None)
        sts.append(([t], k))
    draw.shuffle(sts)
    return x, sts


def run(c):
    c.rule = ("one observation = one error the macro reported about an ill-formed unit system (its words, the tokens it marks, the dimensions it "
              "quotes, compared with what is wrong there), or one mistake that had to be reported; distinct = distinct errors and mistakes")
    c.assumptions = ["errors that rustc reports because the macro left names out are not judged",
                     "where a definition cannot be read, the other mistakes need not be reported"]
    files = []
    item_mistakes = [m for m in MISTAKES if m not in SYNTAX and m not in LATE]
    for cfg, rational in (("min", False), ("minrat", True)):
        d = deps(cfg)
        draw = Draw(c, cfg)
        todo = [(m, k) for m in MISTAKES if m not in LATE for k in range(max(c.pick(3, 14), FORMS.get(m, 0)))]
        for _ in range(c.pick(60, 400)):
            k = draw.r.choice([2, 2, 3, 4, 6])
            todo.append((*[draw.r.choice(item_mistakes) for _ in range(k)], None))
        for m in item_mistakes:
            # the same mistake again and again
            todo += [(*[m] * k, None) for k in [2, 3, 2, 4][:c.pick(2, 4)]]
        draw.r.shuffle(todo)
        for k in range(0, len(todo), 12):
            entries = []
            for *names, number in todo[k:k + 12]:
                for _ in range(5):
                    try:
                        entries.append((tuple(names), *spoil(draw.r, rational, names, number)))
                        break
                    except (IndexError, ValueError):
                        continue
            files.append((f"{cfg}_{k // 12}", d, entries))

    def one(job):
        name, d, entries = job
        text, places = PRELUDE, []
        for k, (names, x, sts) in enumerate(entries):
            text += f"pub mod s{k} {{\n    diman::unit_system! {{\n"
            first, where = text.count("\n"), {}
            for lines, item in sts:
                for line in lines:
                    text += f"        {line}\n"
                    where[text.count("\n")] = (item, line)
            places.append((first, text.count("\n"), where))
            text += "    }\n}\n"
        text += "fn main() {}\n"
        src = c.write(f"{name}.rs", text)
        comp = rustc(src, d, emit="metadata")
        if not comp.ok and not comp.errors:
            raise Inconclusive(f"{src}: no diagnostics: {comp.stderr[-300:]}")
        again = []
        if int(name.split("_")[1]) % 4 == 0:
            says = lambda x: sorted({(e.message, *sorted(e.marks), *e.notes) for e in x.errors})
            other = rustc(src, d, emit="metadata", out=src[:-3] + ".again")
            again = [([(f"{d.cfg}/compiled again", name)], [] if says(comp) == says(other) else
                      [("compiled again, the same system gets other errors", {"config": d.cfg, "once": says(comp)[:20], "again": says(other)[:20]}, src)])]
        return again + [judge(src, d.cfg, names, x, sts, place, [e for e in comp.errors if any(place[0] <= n <= place[1] for n in e.lines)], text.split("\n"))
                for (names, x, sts), place in zip(entries, places)]

    def judge(src, cfg, names, x, sts, place, errors, text):
        """The observations and violations of one system."""
        obs, bad = [], []
        where = place[2]
        label = " + ".join(names) if len(names) < 3 else f"{len(names)} mistakes"

        def marked(e):
            """The statements an error marks, with the text marked."""
            return [(where[l][0], text[l - 1][a - 1:b - 1] if l == m else None) for l, a, m, b in e.marks if l in where]

        def wrong(what, e=None):
            bad.append((f"{what}: {label}", {"config": cfg, "mistakes": names, "system": [l for st in sts for l in st[0]],
                                             "errors": [e.rendered[:1500]] if e else [q.rendered[:800] for q in errors[:6]]}, src))

        syntax = [n for n in names if n in SYNTAX]
        if syntax:
            # the first statement that cannot be read is what is reported
            unread = {None} | {i for i in x.s.items if systems_syntax(i)}
            hit = [e for e in errors if any(i in unread for i, _ in marked(e))]
            obs.append((f"{cfg}/unreadable: {label}", tuple(e.message for e in hit)))
            if not hit:
                wrong("no error points into the statement that cannot be read")
            stray = [e for e in errors if PATTERNS["undefined"].match(e.message) or marked(e) and not any(i in unread for i, _ in marked(e))]
            if len(names) == 1 and stray:
                wrong("an error points at a statement that is right", stray[0])
            return obs, bad

        w = Wrong(x.s.items)
        facts = w.facts()
        seen = []
        for e in errors:
            kind, m = next(((k, m) for k, p in PATTERNS.items() for m in [p.match(e.message)] if m), (None, None))
            if "panicked" in e.message:
                wrong("the macro crashed", e)
                continue
            if kind is None:
                continue
            obs.append((f"{cfg}/reported: {kind}", (label, e.message, tuple(e.marks))))
            g = m.groupdict()
            a, b = g.get("a"), g.get("b")
            marks = marked(e)
            for i, t in marks:
                if i is not None and not isinstance(i, str):
                    seen.append((i, kind, e))
            its = [i for i, _ in marks]
            defs = lambda n: [q.item for q in w.by_name.get(n, [])]
            if kind == "no type statement":
                if f"{g['k']}_type" not in x.drop:
                    wrong("a type statement is called missing that is there", e)
                continue
            if kind == "several type statements":
                many = [lines for lines, k in sts if k == f"{g['k']}_type"]
                if len(many) < 2 or not marks or any(i != f"{g['k']}_type" or t != a for i, t in marks):
                    wrong("a repeated type statement is reported wrongly", e)
                continue
            if not marks or any(isinstance(i, str) for i in its):
                wrong("an error does not point at the definition in question", e)
                continue
            i = its[0]
            if kind == "undefined":
                if a in w.by_name:
                    wrong("an identifier is called undefined that is defined", e)
                elif any(t != a or not (a in (names_in(i.expr) if i.expr is not None else []) or i.base == a) for i, t in marks):
                    wrong("an undefined identifier is not marked where it is used", e)
            elif kind == "unresolvable":
                if a in w.good or not defs(a):
                    wrong("a definition is called unresolvable that is not", e)
                elif i not in defs(a) or marks[0][1] not in [i.name] + i.aliases:
                    wrong("an unresolvable definition is not what is marked", e)
            elif kind == "several definitions":
                if len(defs(a)) < 2:
                    wrong("an identifier is said to have several definitions that has one", e)
                elif any(i not in defs(a) or t not in [i.name] + i.aliases for i, t in marks):
                    wrong("a statement is marked as a further definition of a name it does not define", e)
                elif len(marks) < 2 and len(set(defs(a))) > 1:
                    wrong("only one of several definitions is marked", e)
            elif kind == "several symbols":
                users = [q.item for q in w.symbols.get(a.removeprefix("r#"), [])]
                if len(users) < 2:
                    wrong("a symbol is said to belong to several units that belongs to one", e)
                elif any(i not in users or t != i.name for i, t in marks) or not set(users) <= set(its):
                    wrong("the units that share a symbol are not what is marked", e)
            elif kind == "several base units":
                us = w.per_dim.get(b, [])
                if len(us) < 2 or i not in us or i.name != a or marks[0][1] != a:
                    wrong("a further base unit is reported wrongly", e)
            elif kind == "not a base dimension":
                if i.base != b or i.name != a or marks[0][1] != a or b in w.base_dims:
                    wrong("a base unit is reported wrongly to be one of no base dimension", e)
            elif kind == "kind":
                # the definition, and the name used in it
                l, r = [q for q in w.by_name.get(a, []) if q.kind == g["k"].lower()], [q for q in w.by_name.get(b, []) if q.kind == g["l"]]
                if not any(b in p.needs and not w.allowed(p, q) for p in l for q in r):
                    wrong("a definition is said to use a name of the wrong kind that does not", e)
                elif not all(t in (a, b) or t in [i.name] + i.aliases for i, t in marks) or not {p.item for p in l} & set(its) or b not in [t for _, t in marks]:
                    wrong("a name of the wrong kind is not marked where it is used", e)
                elif any("can only be defined in terms of" in n and ("dimensions." in n) not in {p.kind == "dimension" or bool(p.item.base and not p.source) for p in l if b in p.needs}
                         for n in e.notes):
                    wrong("a wrong rule is quoted for the definition of a name", e)
            elif kind == "violated annotation":
                quoted = [re.search(r"has dimensions ?(.*)\Z", n) for n in e.notes]
                quoted = [dims_text(q[1]) for q in quoted if q]
                ann, val = w.values.get(i.annotation), w.values.get(i.name)
                if marks[0][1] != i.annotation:
                    wrong("a violated annotation is not what is marked", e)
                elif ann is not None and val is not None:
                    true = [{field(k): v for k, v in q.items()} for q in (ann, val)]
                    if true[0] == true[1]:
                        wrong("an annotation is called violated that is right", e)
                    elif quoted != true:
                        wrong(f"the dimensions quoted for an annotation and its definition are not {true}", e)
            elif kind == "undefined annotation":
                if i.annotation != a or marks[0][1] != a or a in w.good:
                    wrong("an annotation is called undefined that is defined", e)
            elif kind == "annotation of another kind":
                if i.annotation != a or marks[0][1] != a or not any(q.kind == g["k"] for q in w.by_name.get(a, [])):
                    wrong("the kind of an annotation is reported wrongly", e)
            elif kind == "no symbol":
                if not i.base or i.symbol or i.name != a or marks[0][1] != a:
                    wrong("a symbol is called missing that is there, or is none needed", e)
        for k in ("quantity_type", "dimension_type"):
            number = sum(1 for _, i in sts if i == k)
            if number != 1:
                obs.append((f"{cfg}/to report: number of type statements", (label, k, number)))
                if not any(k.replace("_", " ") in e.message for e in errors):
                    wrong(f"a mistake is not reported ({number} statements {k})")
        for d, us in w.per_dim.items():
            # one of them is as good as the other
            told = {i.name for i, k, e in seen if k == "several base units" and i in us}
            if len(us) > 1:
                obs.append((f"{cfg}/to report: several base units", (label, d)))
                if len(told) < len(us) - 1:
                    wrong(f"a mistake is not reported (several base units of {d})")
        for fact, its, idents in facts:
            obs.append((f"{cfg}/to report: {fact}", (label, tuple(i.name for i in its), tuple(idents))))
            said = [e for i, _, e in seen if i in its]
            said += [e for e in errors if e not in said and any(i in its for i, _ in marked(e))]
            words = lambda e: re.findall(r"(?:r#)?\w+", e.rendered)
            if not any(n in words(e) or n.removeprefix("r#") in words(e) for e in said for n in idents):
                wrong(f"a mistake is not reported ({fact}, {', '.join(idents)}, in '{its[0].lines()[-1]}')")
        return obs, bad

    shown = 0
    for res in pmap(one, files):
        for obs, bad in res:
            for what, detail in obs:
                c.event(what, detail)
            for what, detail, src in bad:
                c.violate(what, detail, [src])
            if obs and shown < 10 and "reported" in obs[0][0]:
                shown += 1
                c.sample(f"{obs[0][0]}: {obs[0][1][1]}")
    c.extra["systems"] = sum(len(f[2]) for f in files)
    return 900



def systems_syntax(i):
    """Is this a statement that cannot be read?"""
    if i.kind == "dimension":
        return i.expr is not None and any(float(t) != 1.0 for t in numbers(i.expr))
    if i.kind == "unit":
        return bool(i.base) == (i.expr is not None) or bool(getattr(i, "extra", None))
    return False


def numbers(e):
    if e[0] == "num":
        return [e[1]]
    return [n for k in e[1:] if isinstance(k, tuple) for n in numbers(k)]
