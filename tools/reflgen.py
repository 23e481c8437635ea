"""C++ types for the type trees of ReflModel.tla, with plain member access as the oracle for what reflection reports."""
import json, random

LEAF = {"b1": "bool", "i1": "signed char", "i2": "short", "i4": "int", "i8": "long", "u1": "unsigned char", "u4": "unsigned int", "f4": "float", "f8": "double",
        "dur": "Dur", "bits": "Bits", "enum": "En", "sv": "std::string_view"}
NUM = ["i1", "i2", "i4", "i8", "u1", "u4", "f4", "f8", "dur"]
NAMES = ["b", "a", "zeta", "c10", "c9", "Q", "data", "value", "_x", "m2"]


class Emit:
    def __init__(self):
        self.out, self.n = [], 0

    def cxx(self, t, view):
        k = t["k"]
        if k in LEAF:
            if not view:
                return LEAF[k]
            return "std::string_view" if k == "enum" else "const %s*" % LEAF[k]
        if k == "opt":
            return "std::optional<%s>" % self.cxx(t["c"], view)
        if k == "arr":
            return "std::array<%s, %d>" % (self.cxx(t["c"], view), t["n"])
        if k == "vec":
            return "FixedVector<%s, %d>" % (self.cxx(t["c"], view), t["n"])
        return self.struct(t, view)

    def struct(self, t, view):
        fs = [(f["n"], self.cxx(f["t"], view)) for f in t["f"]]
        self.n += 1
        name = "%s%d" % ("V" if view else "S", self.n)
        self.out.append("struct %s { %s };" % (name, " ".join("%s %s{};" % (c, n) for n, c in fs)))
        self.out.append("template <> struct Mem<%s> { static constexpr int count = %d; static constexpr const char* ty = R\"(%s)\"; "
                        "template <class X, class F> static void each(X& x, F&& f) { (void)x; (void)f; %s } };"
                        % (name, len(fs), json.dumps(t, separators=(",", ":")), " ".join("f(x.%s);" % n for n, _ in fs)))
        return name


def vary(t, rnd):
    """The leaves TLC distinguishes are numbers and enums; give the numbers a variety of types."""
    k = t["k"]
    if k == "i4":
        return {"k": rnd.choice(NUM + ["i4", "b1", "bits", "sv"])}
    if k in ("opt", "arr", "vec"):
        d = dict(t, c=vary(t["c"], rnd))
        if k != "opt":
            d["n"] = rnd.choice([1, 2, 3])
        return d
    if k == "str":
        return {"k": "str", "f": [{"n": f["n"], "t": vary(f["t"], rnd)} for f in t["f"]]}
    return t


def rand_type(rnd, depth, dims=3):
    """A larger type than the exhaustive ones."""
    c = rnd.random()
    if depth == 0 or c < 0.35:
        return {"k": rnd.choice(list(LEAF))}
    if c < 0.5:
        x = rand_type(rnd, depth - 1, dims)
        return x if x["k"] == "opt" else {"k": "opt", "c": x}
    if c < 0.7 and dims:
        return {"k": rnd.choice(["arr", "vec"]), "n": rnd.choice([1, 2, 3]), "c": rand_type(rnd, depth - 1, dims - 1)}
    return rand_struct(rnd, depth - 1, dims)


def rand_struct(rnd, depth, dims=3):
    names = rnd.sample(NAMES, rnd.randint(1, 5))
    return {"k": "str", "f": [{"n": n, "t": rand_type(rnd, depth, dims)} for n in names]}


def sub_of(t, rnd):
    """Some of the fields of t, as a view; None if there is nothing to view."""
    k = t["k"]
    if k == "sv":
        return None
    if k in LEAF:
        return t
    if k == "str":
        fs = [{"n": f["n"], "t": sub_of(f["t"], rnd)} for f in t["f"]]
        fs = [f for f in fs if f["t"] is not None]
        if not fs:
            return None
        keep = [f for f in fs if rnd.random() < 0.7] or [rnd.choice(fs)]
        rnd.shuffle(keep)
        return {"k": "str", "f": keep}
    c = sub_of(t["c"], rnd)
    if c is None:
        return None
    if k == "opt":
        return {"k": "opt", "c": c}
    if k == "arr":
        return {"k": "arr", "n": rnd.randint(1, t["n"]), "c": c}
    return {"k": "vec", "n": t["n"], "c": c}


def spoil(u, rnd):
    """A sub type that does not fit: a leaf of another kind, or a name the super struct does not have."""
    u = json.loads(json.dumps(u))
    spots = []

    def go(t):
        if t["k"] == "str":
            for f in t["f"]:
                spots.append(("name", f))
                if f["t"]["k"] in NUM:
                    spots.append(("leaf", f))
                go(f["t"])
        elif t["k"] in ("opt", "arr", "vec"):
            go(t["c"])
    go(u)
    what, f = rnd.choice(spots)
    if what == "name":
        f["n"] = "zz" + f["n"]
    else:
        f["t"] = {"k": rnd.choice([x for x in NUM if x != f["t"]["k"]])}
    return u


def flat(t):
    return all(f["t"]["k"] in LEAF for f in t["f"])


def small(t):
    """Within the documented limits of struct views: 100 paths, 5 dimensions, path length 16; and a bounded number of places."""
    def go(t, cells):
        k = t["k"]
        if k in LEAF:
            return 1, cells
        if k == "str":
            r = [go(f["t"], cells) for f in t["f"]]
            return 1 + sum(x[0] for x in r), sum(x[1] for x in r)
        p, c = go(t["c"], cells * t.get("n", 1))
        return p + 1, c + cells
    p, c = go(t, 1)
    return p < 80 and c < 600


def types_unit(types, seed, rounds):
    e, calls = Emit(), []
    rnd = random.Random(seed)
    for t in types:
        s = e.struct(t, False)
        calls.append("probe<%s>(g, %d);" % (s, rounds))
        u = sub_of(t, rnd)
        if u:
            v = e.struct(u, True)
            calls.append("sub<%s, %s>(g, %d, true);" % (s, v, rounds + 2))
            w = e.struct(spoil(u, rnd), True)
            calls.append("sub<%s, %s>(g, 1, false);" % (s, w))
            if flat(t) and flat(u):
                calls.append("range<%s, %s>(g);" % (s, v))
    return "\n".join(['#include "refl.hpp"', "namespace h {"] + e.out + ["void unit(Rng& g) { paths(g); %s }" % " ".join(calls), "}"]) + MAIN


def fields_unit(counts, unpack=None):
    out, calls = [], []
    if unpack:
        calls.append("unpack_from<%d>(std::make_index_sequence<%d>{});" % unpack)
    for n in counts:
        # types alternate so that neighbours can not be exchanged unnoticed by layout alone
        out.append("struct F%d { %s };" % (n, " ".join("%s f%d{};" % (("int", "long", "short", "double")[i % 4], i) for i in range(n))))
        out.append("template <> struct Mem<F%d> { static constexpr int count = %d; static constexpr const char* ty = \"\"; template <class X, class F> static void each(X& x, F&& f) { (void)x; (void)f; %s } };"
                   % (n, n, " ".join("f(x.f%d);" % i for i in range(n))))
        calls.append("fields<F%d, %d>();" % (n, n))
    return "\n".join(["#define FIXED_CONTAINERS_EXTENDED_STRUCT_DECOMPOSITION_1024 1", '#include "refl.hpp"', "namespace h {"] + out + ["void unit(Rng&) { %s }" % " ".join(calls), "}"]) + MAIN


MAIN = """
int main(int argc, char** argv)
{
    using namespace h;
    install_signals();
    g_conf = parse(argc, argv);
    g_rec.open(g_conf.out);
    Rng g(g_conf.seed);
    unit(g);
    g_rec.report();
    g_rec.out.flush();
    g_rec.meta.flush();
    std::fflush(stdout);
    _exit(0);
}
"""
