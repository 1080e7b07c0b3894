"""C02: the dimension of every result against dimensional algebra, observed as type identity at run time."""
import random

import algebra
from common import deps, pmap


def run(c):
    c.rule = ("one observation = the type of one intermediate result of a random straight-line program (products, quotients, powers, "
              "roots, units, numbers, vectors, Product/Quotient), compared by TypeId with the type of the dimension that the oracle "
              "computed with exact fractions; plus pairwise inequality of all the dimensions that occur; distinct = distinct "
              "(statement, dimension)")
    c.assumptions = ["TypeId identity is type identity", "a dimension that a unit system defines as a flat product of powers of base "
                     "dimensions is the dimension it spells (C07 decides that on its own)"]
    plan = []
    n = c.pick(10, 48)
    steps = c.pick(150, 220)
    for cfg, rational, vectors in [("std", False, True), ("rat", True, True), ("min", False, False)]:
        for i in range(n if cfg != "min" else 1):
            plan.append((cfg, rational, vectors, i))
    ds = {cfg: deps(cfg) for cfg in ("std", "rat", "min")}

    def one(job):
        cfg, rational, vectors, i = job
        r = random.Random(f"C02/{c.seed}/{cfg}/{i}")
        nb = [3, 7, 1, 12, 5, 2][i % 6] if cfg != "min" else 4
        p = algebra.make(r, nb, rational, vectors, steps, "sys")
        src = c.write(f"{cfg}_{i}.rs", algebra.source([p]))
        comp = c.compile(src, ds[cfg])
        return (comp.out, f"{cfg}/") if comp.ok else None

    for res in pmap(one, plan):
        if res:
            c.run(res[0], [c.seed], label=res[1])
    return 1000
