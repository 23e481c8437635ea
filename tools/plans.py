"""What each property's check runs."""
import json, os, random
import ct, reflgen
from engine import *

ELEMS = ["TI", "TN", "OB", "MO", "CO"]
SEQ_INV = ["Bounded", "Functional", "NeverRefuses", "InsertErase", "KeepsNewest", "ReportedKinds"]
BASE_ASSUMPTIONS = [
    "small scope: exhaustive up to the stated capacities and value domains, sampled by seeded random histories beyond",
    "element values are handled uniformly (data independence) by containers that never compare them",
    "clang 18, x86-64, libstdc++",
]


def seq_models(ctx, kinds, maxcap=3):
    futs, files = {}, {}
    for k in kinds:
        fn = ctx.path("sig-%s.ndjson" % k)
        files[k] = fn
        mincap = 1 if k in ("cdeque", "cqueue") else 0
        inv = SEQ_INV if k not in ("stack", "queue", "cqueue") else [i for i in SEQ_INV if i != "InsertErase"]
        futs[k] = ctx.pool.submit(run_model, ctx, "SeqModel", dict(NV=3, KIND=k, MINCAP=mincap, MAXCAP=maxcap, SIGFILE=fn), inv, tag="SeqModel-" + k)
    obl = {}
    for k, f in futs.items():
        r = f.result()
        obl[k] = parse_obl(r)
    return write_sigs(ctx, files, "seq"), obl


def check_obligations(ctx, lines, obl, maxcap, exclude=()):
    """Every (abstract value, call) pair of the bounded model was executed on the real code."""
    seen = {}
    for l in lines:
        d = json.loads(l)
        if d["c"] <= maxcap:
            st = tuple(sorted(d["s"])) if d["t"][0] == "u" else tuple(d["s"])
            seen.setdefault(d["t"], set()).add((d["c"], st, tuple(d["o"])))
    cov = {}
    for k, n in obl.items():
        got = len(seen.get(k, ()))
        cov[k] = dict(model_obligations=n, executed=got)
        if got < n and not ctx.violations:
            raise CheckError("only %d of %d (value, call) pairs of %s were executed" % (got, n, k))
    ctx.coverage.setdefault("obligations", {}).update(cov)


def seq_plan(kinds, elems=ELEMS):
    def plan(ctx):
        conf = Conf(ctx, "StepSeq", dict(NV=3))
        sc = ctx.scale(1, 12)
        for k in kinds:
            for e in elems:
                conf.add("%s-%s" % (k, e), "seq_main.cpp", ["-DHK=" + k, "-DHT=" + e],
                         dict(scale=sc, bfs=ctx.scale(1500, 4000), runs=ctx.scale(40, 120), bigruns=4, steps=300))
        conf.sigfile, obl = seq_models(ctx, kinds)
        ctx.log("models checked")
        lines = conf.execute()
        conf.validate(lines)
        check_obligations(ctx, lines, obl, 3)
        return BASE_ASSUMPTIONS
    return plan


ASSOC_INV = ["Bounded", "UniqueKeys", "Sorted", "Total", "LookupAgrees", "OrderKept", "FullOnly", "ReportedKinds", "TestAgrees"]


def parse_obl(r):
    m = re.search(r'<<"OBLIGATIONS", (.*?)>>', r["out"], re.S)
    return sum(int(x) for x in re.findall(r":> (\d+)", m.group(1))) if ":>" in m.group(1) else sum(int(x) for x in re.findall(r"\d+", m.group(1)))


def assoc_models(ctx, kinds, maxcap=3, mincap=0):
    futs, files = {}, {}
    for k in kinds:
        fn = ctx.path("sig-%s.ndjson" % k)
        files[k] = fn
        inv = list(ASSOC_INV)
        futs[k] = ctx.pool.submit(run_model, ctx, "AssocModel", dict(KIND=k, MINCAP=mincap, MAXCAP=maxcap, SIGFILE=fn), inv, tag="AssocModel-" + k)
    obl = {k: parse_obl(f.result()) for k, f in futs.items()}
    return write_sigs(ctx, files, "assoc"), obl


def ordered_configs(is_map):
    """(key, mapped, comparator, compactness, storage)"""
    E, D = "EMBEDDED_COLOR", "DEDICATED_COLOR"
    P, Q = "FixedIndexBasedPoolStorage", "FixedIndexBasedContiguousStorage"
    if is_map:
        return [("TI", "TI", "CmpLt", E, P), ("OB", "OB", "CmpGt", D, P), ("TI", "MO", "CmpTr", E, P), ("OB", "OB", "CmpHf", E, P),
                ("TI", "TI", "CmpHf", D, Q), ("OB", "OB", "CmpLt", E, Q), ("CO", "TN", "CmpLt", E, P), ("TN", "TI", "CmpTr", D, Q)]
    return [("TI", "void", "CmpLt", E, P), ("OB", "void", "CmpGt", D, P), ("MO", "void", "CmpTr", E, P), ("OB", "void", "CmpHf", E, P),
            ("TI", "void", "CmpHf", D, Q), ("OB", "void", "CmpLt", E, Q), ("CO", "void", "CmpLt", E, P), ("TN", "void", "CmpTr", D, Q)]


def ordered_plan(is_map):
    pre = "map_" if is_map else "set_"
    kinds = [pre + x for x in ("lt", "gt", "hf", "tr")]

    def plan(ctx):
        conf = Conf(ctx, "StepAssoc", {})
        for i, (k, v, c, cc, st) in enumerate(ordered_configs(is_map)):
            conf.add("%s%s-%s-%s-%d" % (pre, k, v, c, i), "assoc_main.cpp",
                     ["-DORD", "-DHKT=" + k, "-DHVT=" + v, "-DHCMP=" + c, "-DHCC=" + cc, "-DHST=" + st],
                     dict(scale=ctx.scale(1, 10), bfs=ctx.scale(800, 2500), core=ctx.scale(6000, 300000)))
        conf.sigfile, obl = assoc_models(ctx, kinds)
        ctx.log("models checked")
        lines = conf.execute()
        conf.validate(lines)
        check_obligations(ctx, lines, obl, 3)
        return BASE_ASSUMPTIONS
    return plan


def hashed_configs(is_map):
    """(key, mapped, hash mode, equality divisor, bucket mode)"""
    v = (lambda x: x) if is_map else (lambda x: "void")
    return [("TI", v("TI"), 0, 1, 0), ("TI", v("TI"), 1, 1, 1), ("OB", v("OB"), 2, 1, 0), ("OB", v("MO"), 3, 2, 1),
            ("TI", v("TI"), 4, 1, 2), ("CO" if is_map else "MO", v("OB"), 5, 1, 1), ("OB", v("OB"), 6, 2, 0), ("TN", v("TI"), 7, 1, 0)]


def hashed_plan(is_map):
    pre = "umap_" if is_map else "uset_"

    def plan(ctx):
        conf = Conf(ctx, "StepAssoc", {})
        for i, (k, v, mode, div, bm) in enumerate(hashed_configs(is_map)):
            conf.add("%s%s-%s-h%d-%d" % (pre, k, v, mode, i), "assoc_main.cpp",
                     ["-DHSH", "-DHKT=" + k, "-DHVT=" + v, "-DHMODE=%d" % mode, "-DHDIV=%d" % div, "-DHBM=%d" % bm],
                     dict(scale=ctx.scale(1, 10), bfs=ctx.scale(800, 2500), core=ctx.scale(6000, 300000)))
        # keys under the library's own hash function
        for i, k in enumerate(("KSV", "KST", "KDB", "KUE", "KPT")):
            conf.add("%s%s-default-hash" % (pre, k), "assoc_main.cpp",
                     ["-DDEFHASH", "-DHKT=" + k, "-DHVT=" + ("TI" if is_map else "void"), "-DHBM=%d" % (i % 2)],
                     dict(scale=ctx.scale(1, 10), bfs=ctx.scale(300, 1500), core=ctx.scale(1500, 60000)))
        conf.sigfile, obl = assoc_models(ctx, [pre + "eq", pre + "hf"])
        ctx.log("models checked")
        lines = conf.execute()
        conf.validate(lines)
        check_obligations(ctx, lines, obl, 3)
        return BASE_ASSUMPTIONS
    return plan


def enum_plan(kind, mapped):
    def plan(ctx):
        conf = Conf(ctx, "StepAssoc", {})
        for v in mapped:
            conf.add("%s-%s" % (kind, v), "enum_main.cpp", ["-DHVT=" + v], dict(scale=ctx.scale(1, 10), bfs=ctx.scale(3000, 6000), rounds=2))
        conf.sigfile, obl = assoc_models(ctx, [kind], maxcap=4, mincap=1)
        ctx.log("models checked")
        lines = conf.execute()
        conf.validate(lines)
        check_obligations(ctx, lines, obl, 4)
        return BASE_ASSUMPTIONS
    return plan


def models(ctx, module, kinds, inv, consts, sigs=None):
    """Checks one model per kind; returns the merged signature file and the obligations."""
    futs, files = {}, dict(sigs or {})
    for k in kinds:
        fn = ctx.path("sig-%s.ndjson" % k)
        files[k] = fn
        futs[k] = ctx.pool.submit(run_model, ctx, module, dict(KIND=k, SIGFILE=fn, **consts), inv, tag="%s-%s" % (module, k))
    obl = {k: parse_obl(f.result()) for k, f in futs.items()}
    return write_sigs(ctx, files, module), obl


def earr_group(ctx):
    conf = Conf(ctx, "StepEArr", {})
    for v in ("TI", "TN", "OB", "CO"):
        conf.add("earr-" + v, "earr_main.cpp", ["-DHVT=" + v], dict(scale=ctx.scale(1, 10), bfs=ctx.scale(3000, 6000)))
    conf.sigfile, obl = models(ctx, "EArrModel", ["earr", "earn"], ["TypeOk", "Functional", "Independent"], dict(MINCAP=1, MAXCAP=3))
    lines = conf.execute()
    conf.validate(lines, tag="earr")
    check_obligations(ctx, lines, obl, 3)


STR_INV = ["Bounded", "Functional", "ReportedKinds", "FindSound", "Complementary", "Order", "Pieces"]


def str_plan(ctx):
    conf, ref = Conf(ctx, "StepStr", {}), Conf(ctx, "StepStr", {})
    for c in (0, 1, 2, 3):
        conf.add("string-%d" % c, "str_main.cpp", ["-DHCAP=%d" % c], dict(scale=ctx.scale(1, 12)))
    ref.add("std-string", "str_main.cpp", ["-DREF"], dict(scale=ctx.scale(1, 4)))
    sig, obl = models(ctx, "StrModel", ["str"], STR_INV, dict(MINCAP=0, MAXCAP=3))
    conf.sigfile = ref.sigfile = sig
    ctx.log("models checked")
    lines = conf.execute()
    conf.validate(lines, tag="str")
    check_obligations(ctx, lines, obl, 3)
    calibrate(ctx, ref, "std::string")
    return BASE_ASSUMPTIONS


def calibrate(ctx, ref, what):
    """The specification itself is validated against the standard library's own class: a rejected step is an error of the specification."""
    before, st = list(ctx.violations), dict(ctx.stats)
    lines = ref.execute()
    ref.validate(lines, tag="calibration")
    bad = ctx.violations[len(before):]
    ctx.violations = before
    ctx.coverage.setdefault("specification_calibrated_against", {})[what] = len(lines)
    for k in ("executed_steps", "unique_steps", "histories", "validated"):
        ctx.stats[k] = st.get(k, 0)
    if bad:
        raise CheckError("the specification disagrees with %s: %s" % (what, json.dumps(bad[:3])[:3000]))


SEQ_KINDS = ["vector", "deque", "list", "cdeque", "stack", "queue", "cqueue"]
E_, D_ = "EMBEDDED_COLOR", "DEDICATED_COLOR"
P_, Q_ = "FixedIndexBasedPoolStorage", "FixedIndexBasedContiguousStorage"


def ord_defs(k, v, c="CmpLt", cc=E_, st=P_):
    return ["-DORD", "-DHKT=" + k, "-DHVT=" + v, "-DHCMP=" + c, "-DHCC=" + cc, "-DHST=" + st]


def hsh_defs(k, v, mode=0, div=1, bm=0):
    return ["-DHSH", "-DHKT=" + k, "-DHVT=" + v, "-DHMODE=%d" % mode, "-DHDIV=%d" % div, "-DHBM=%d" % bm]


def errors_plan(ctx):
    """C13: the same exploration over every container, judged only on how each call was answered; once with a recording policy, once with the default."""
    sc = ctx.scale(1, 8)
    sargs = dict(scale=sc, skip4=ctx.scale(1, 0), bfs=ctx.scale(400, 1500), runs=ctx.scale(15, 40), bigruns=2, steps=200)
    aargs = dict(scale=sc, skip4=ctx.scale(1, 0), bfs=ctx.scale(250, 800), core=ctx.scale(300, 4000), coreruns=4, runs=ctx.scale(10, 30), bigruns=2)
    groups = []
    for asp in ("verdict", "abort"):
        deff = ["-DDEFCHK"] if asp == "abort" else []
        c1 = Conf(ctx, "StepSeq", dict(NV=3, ASPECT=asp), project=verdict_only)
        for k in SEQ_KINDS:
            for e in (("TI", "OB") if asp == "verdict" else ("TN",)):
                c1.add("%s-%s-%s" % (asp, k, e), "seq_main.cpp", ["-DHK=" + k, "-DHT=" + e] + deff, sargs)
        c2 = Conf(ctx, "StepAssoc", dict(ASPECT=asp), project=verdict_only)
        if asp == "verdict":
            cf = [("map1", ord_defs("TI", "TI")), ("map2", ord_defs("OB", "OB", "CmpGt", D_, Q_)), ("set1", ord_defs("TI", "void")),
                  ("set2", ord_defs("OB", "void", "CmpHf", D_, Q_)), ("umap1", hsh_defs("TI", "TI", 0)), ("umap2", hsh_defs("OB", "OB", 7, 1, 1)),
                  ("uset1", hsh_defs("TI", "void", 0)), ("uset2", hsh_defs("OB", "void", 7, 1, 1))]
        else:
            cf = [("map", ord_defs("TI", "TN")), ("set", ord_defs("TI", "void")), ("umap", hsh_defs("TI", "TI", 7)), ("uset", hsh_defs("TI", "void", 1))]
        for n, d in cf:
            c2.add("%s-%s" % (asp, n), "assoc_main.cpp", d + deff, aargs)
        for v in (("TI", "OB", "void") if asp == "verdict" else ("TI",)):
            c2.add("%s-enum-%s" % (asp, v), "enum_main.cpp", ["-DHVT=" + v] + deff, dict(scale=sc, bfs=800))
        c3 = Conf(ctx, "StepStr", dict(ASPECT=asp), project=verdict_only)
        for c in ((0, 2, 3) if asp == "verdict" else (2,)):
            c3.add("%s-string-%d" % (asp, c), "str_main.cpp", ["-DHCAP=%d" % c] + deff, dict(scale=sc, runs=10, bigruns=4))
        groups += [(asp + "-seq", c1), (asp + "-assoc", c2), (asp + "-str", c3)]
    c4 = Conf(ctx, "StepEArr", dict(ASPECT="verdict"), project=verdict_only)
    for v in ("TI", "TN"):
        c4.add("earr-" + v, "earr_main.cpp", ["-DHVT=" + v], dict(scale=sc, bfs=800))
    groups.append(("earr", c4))
    sig1, _ = seq_models(ctx, SEQ_KINDS, maxcap=2)
    sig2, _ = assoc_models(ctx, ["map_lt", "map_gt", "set_lt", "set_hf", "umap_eq", "uset_eq", "emap", "eset"], maxcap=2, mincap=1)
    sig3, _ = models(ctx, "StrModel", ["str"], STR_INV, dict(MINCAP=0, MAXCAP=2))
    sig4, _ = models(ctx, "EArrModel", ["earr", "earn"], ["TypeOk", "Functional", "Independent"], dict(MINCAP=1, MAXCAP=3))
    ctx.log("models checked")
    for tag, c in groups:
        c.sigfile = {"StepSeq": sig1, "StepAssoc": sig2, "StepStr": sig3, "StepEArr": sig4}[c.mod]
        c.validate(c.execute(), tag=tag)
    return BASE_ASSUMPTIONS


def life_plan(ctx):
    """C14: the lifetime events of every element, recorded per call from every container and judged by LifeOps."""
    sc = ctx.scale(1, 8)
    conf = Conf(ctx, "StepLife", {})
    for k in SEQ_KINDS:
        for e in ("LG", "LM", "LC"):
            conf.add("%s-%s" % (k, e), "seq_main.cpp", ["-DHK=" + k, "-DHT=" + e],
                     dict(scale=sc, skip4=ctx.scale(1, 0), rounds=2, runs=ctx.scale(20, 60), bigruns=2, steps=250, bigsteps=300))
    aargs = dict(scale=sc, skip4=ctx.scale(1, 0), runs=ctx.scale(10, 30), bigruns=2, coreruns=6, bigsteps=300)
    cf = [("map1", ord_defs("LG", "LG")), ("map2", ord_defs("TI", "LM", "CmpGt", D_, Q_)), ("map3", ord_defs("LG", "LC", "CmpTr", E_, Q_)),
          ("set1", ord_defs("LG", "void")), ("set2", ord_defs("LM", "void", "CmpHf", D_, Q_)), ("set3", ord_defs("LC", "void", "CmpGt", E_, Q_)),
          ("umap1", hsh_defs("LG", "LG", 0)), ("umap2", hsh_defs("TI", "LM", 7, 1, 1)), ("umap3", hsh_defs("LG", "LC", 5, 1, 1)),
          ("uset1", hsh_defs("LG", "void", 0)), ("uset2", hsh_defs("LM", "void", 7, 1, 1)), ("uset3", hsh_defs("LC", "void", 5))]
    for n, d in cf:
        conf.add(n, "assoc_main.cpp", d, aargs)
    for v in ("LG", "LM", "LC"):
        conf.add("emap-" + v, "enum_main.cpp", ["-DHVT=" + v], dict(scale=sc, runs=10))
    for v in ("LG", "LC"):
        conf.add("earr-" + v, "earr_main.cpp", ["-DHVT=" + v], dict(scale=sc, runs=5))
    conf.add("assign-trivially-assignable", "lifeassign_main.cpp", [], {})
    s1, _ = seq_models(ctx, SEQ_KINDS, maxcap=1)
    s2, _ = assoc_models(ctx, ["map_lt", "map_gt", "map_tr", "set_lt", "set_hf", "set_gt", "umap_eq", "uset_eq", "emap"], maxcap=1, mincap=1)
    s3, _ = models(ctx, "EArrModel", ["earr", "earn"], ["TypeOk", "Functional", "Independent"], dict(MINCAP=1, MAXCAP=2))
    for off in (0, 2):
        run_model(ctx, "LifeModel", dict(CAP=4, OFF=off), ["EveryEventLegal", "Quiescent", "MovedIsLive"], tag="LifeModel-%d" % off)
    conf.sigfile = ctx.path("sigs-all.txt")
    with open(conf.sigfile, "w") as f:
        for s in (s1, s2, s3):
            f.write(open(s).read())
    ctx.log("models checked")
    conf.validate(conf.execute(), tag="life")
    return BASE_ASSUMPTIONS


PAIR_INV = ["InDomain", "EqLaws", "OrderLaws", "CopyLaw", "SwapLaw", "MoveLaw", "Observational"]
ALL_ASSOC = ["map_lt", "map_gt", "map_hf", "map_tr", "set_lt", "set_gt", "set_hf", "set_tr", "umap_eq", "umap_hf", "uset_eq", "uset_hf", "emap", "eset"]


def all_sigs(ctx, seq=SEQ_KINDS, assoc=ALL_ASSOC, maxcap=1, earr=True, string=True):
    """Signatures of every kind (and a small exhaustive run of its model)."""
    parts = [seq_models(ctx, seq, maxcap=maxcap)[0]] if seq else []
    if assoc:
        parts.append(assoc_models(ctx, assoc, maxcap=maxcap, mincap=1)[0])
    if earr:
        parts.append(models(ctx, "EArrModel", ["earr", "earn"], ["TypeOk", "Functional", "Independent"], dict(MINCAP=1, MAXCAP=2))[0])
    if string:
        parts.append(models(ctx, "StrModel", ["str"], STR_INV, dict(MINCAP=0, MAXCAP=1))[0])
    out = ctx.path("sigs-all.txt")
    with open(out, "w") as f:
        for x in parts:
            f.write(open(x).read())
    return out


def pair_plan(ctx):
    """C15: every pair of values, every two-container call."""
    conf = Conf(ctx, "StepPair", {})
    args = dict(scale=ctx.scale(1, 8), pairs=ctx.scale(170, 170), big=ctx.scale(12, 12))
    for k in SEQ_KINDS:
        for e in (("TI", "TN", "OB", "MO", "CO") if k in ("vector", "deque", "list") else ("TI", "OB", "MO")):
            conf.add("%s-%s" % (k, e), "pair_main.cpp", ["-DPSEQ", "-DHK=" + k, "-DHT=" + e], args)
    cf = [("map1", ord_defs("TI", "TI", "CmpGt", E_, P_)), ("map2", ord_defs("OB", "OB", "CmpHf", D_, P_)), ("map3", ord_defs("TI", "MO", "CmpGt", E_, Q_)),
          ("map4", ord_defs("OB", "CO", "CmpTr", D_, Q_)), ("map5", ord_defs("OB", "OB", "CmpLt", E_, P_)), ("map6", ord_defs("TN", "TI", "CmpHf", D_, Q_)),
          ("set1", ord_defs("TI", "void", "CmpGt", E_, P_)), ("set2", ord_defs("OB", "void", "CmpHf", D_, P_)), ("set3", ord_defs("MO", "void", "CmpGt", E_, Q_)),
          ("set4", ord_defs("CO", "void", "CmpTr", D_, Q_)), ("set5", ord_defs("OB", "void", "CmpLt", E_, P_)), ("set6", ord_defs("TN", "void", "CmpHf", D_, Q_)),
          ("umap1", hsh_defs("TI", "TI", 5)), ("umap2", hsh_defs("OB", "OB", 0, 1, 1)), ("umap3", hsh_defs("TI", "MO", 7)), ("umap4", hsh_defs("OB", "CO", 4, 2, 1)), ("umap5", hsh_defs("OB", "OB", 7)),
          ("uset1", hsh_defs("TI", "void", 5)), ("uset2", hsh_defs("OB", "void", 0, 1, 1)), ("uset3", hsh_defs("MO", "void", 7)), ("uset4", hsh_defs("CO", "void", 4, 2, 1)), ("uset5", hsh_defs("OB", "void", 6, 1, 1))]
    for n, d in cf:
        conf.add(n, "pair_main.cpp", d, args)
    for v in ("TI", "TN", "OB", "MO", "CO", "void"):
        conf.add("enum-" + v, "pair_main.cpp", ["-DPENUM", "-DHVT=" + v], args)
    for v in ("TI", "TN", "OB", "CO"):
        conf.add("earr-" + v, "pair_main.cpp", ["-DPEARR", "-DHVT=" + v], args)
    conf.add("string", "pair_main.cpp", ["-DPSTR"], args)
    conf.sigfile = all_sigs(ctx)
    futs = [ctx.pool.submit(run_model, ctx, "PairModel", dict(KIND=k, MINCAP=1, MAXCAP=2), PAIR_INV, tag="PairModel-" + k)
            for k in SEQ_KINDS[:4] + ["map_lt", "set_gt", "set_hf", "umap_eq", "uset_eq", "emap", "eset", "earr", "str"]]
    for f in futs:
        f.result()
    ctx.log("models checked")
    conf.validate(conf.execute(), tag="pair")
    return BASE_ASSUMPTIONS


def stab_plan(ctx):
    """C16: iterators and references taken when an element appeared, followed across every later call."""
    conf = Conf(ctx, "StepStab", {})
    args = dict(scale=ctx.scale(1, 8), runs=ctx.scale(20, 40))
    for k in ("list", "vector", "deque", "cdeque"):
        for e in ("TI", "OB", "MO"):
            conf.add("%s-%s" % (k, e), "stab_main.cpp", ["-DPSEQ", "-DHK=" + k, "-DHT=" + e], args)
    cf = [("map1", ord_defs("TI", "TI", "CmpLt", E_, P_)), ("map2", ord_defs("OB", "OB", "CmpHf", D_, P_)), ("map3", ord_defs("TI", "MO", "CmpGt", D_, P_)),
          ("set1", ord_defs("TI", "void", "CmpLt", E_, P_)), ("set2", ord_defs("OB", "void", "CmpGt", D_, P_)), ("set3", ord_defs("MO", "void", "CmpHf", E_, P_)),
          ("umap1", hsh_defs("TI", "TI", 5)), ("umap2", hsh_defs("OB", "OB", 0, 1, 1)), ("umap3", hsh_defs("TI", "MO", 7)),
          ("uset1", hsh_defs("TI", "void", 0, 1, 1)), ("uset2", hsh_defs("OB", "void", 6)), ("uset3", hsh_defs("MO", "void", 7))]
    for n, d in cf:
        conf.add(n, "stab_main.cpp", d, args)
    for v in ("TI", "OB", "MO", "void"):
        conf.add("enum-" + v, "stab_main.cpp", ["-DPENUM", "-DHVT=" + v], args)
    conf.sigfile = all_sigs(ctx, earr=False, string=False)
    futs = [ctx.pool.submit(run_model, ctx, "StabModel", dict(KIND=k, MINCAP=1, MAXCAP=2 if k[:2] in ("um", "us", "ma") else 3),
                            ["Sound", "Injective", "Complete"], tag="StabModel-" + k)
            for k in ["vector", "deque", "list", "cdeque", "map_lt", "set_hf", "umap_eq", "uset_eq", "emap", "eset"]]
    for f in futs:
        f.result()
    ctx.log("models checked")
    conf.validate(conf.execute(), tag="stab")
    return BASE_ASSUMPTIONS


ITER_INV = ["InRange", "One", "Identified", "Inverse", "Difference", "Subscript", "Mirror", "Conversion", "WriteLocal"]


def iter_plan(ctx):
    """C20: every iterator operation from every position of every reachable content, for every iterator kind."""
    conf = Conf(ctx, "StepIter", {})
    args = dict(scale=ctx.scale(1, 6), bigruns=2)
    for k in ("vector", "deque", "cdeque", "list"):
        for e in ("TI", "OB", "MO"):
            conf.add("%s-%s" % (k, e), "iter_main.cpp", ["-DPSEQ", "-DHK=" + k, "-DHT=" + e], args)
    cf = [("map1", ord_defs("TI", "TI", "CmpLt", E_, P_)), ("map2", ord_defs("OB", "OB", "CmpGt", D_, Q_)), ("map3", ord_defs("TI", "MO", "CmpTr", E_, Q_)),
          ("set1", ord_defs("TI", "void", "CmpLt", E_, P_)), ("set2", ord_defs("OB", "void", "CmpGt", D_, Q_)), ("set3", ord_defs("MO", "void", "CmpTr", D_, P_)),
          ("umap1", hsh_defs("TI", "TI", 5)), ("umap2", hsh_defs("OB", "OB", 0, 1, 1)), ("umap3", hsh_defs("TI", "MO", 7)),
          ("uset1", hsh_defs("TI", "void", 0, 1, 1)), ("uset2", hsh_defs("OB", "void", 6)), ("uset3", hsh_defs("MO", "void", 7))]
    for n, d in cf:
        conf.add(n, "iter_main.cpp", d, args)
    for v in ("TI", "OB", "MO", "void"):
        conf.add("enum-" + v, "iter_main.cpp", ["-DPENUM", "-DHVT=" + v], args)
    for v in ("TI", "OB"):
        conf.add("earr-" + v, "iter_main.cpp", ["-DPEARR", "-DHVT=" + v], args)
    conf.add("string", "iter_main.cpp", ["-DPSTR"], args)
    conf.add("ranges", "iter_main.cpp", ["-DPRANGE"], args)
    conf.sigfile = all_sigs(ctx, seq=["vector", "deque", "cdeque", "list"], assoc=["map_lt", "map_gt", "map_tr", "set_lt", "set_gt", "set_tr", "umap_eq", "uset_eq", "emap", "eset"])
    futs = [ctx.pool.submit(run_model, ctx, "IterModel", dict(KIND=k, MAXLEN=ctx.scale(3, 4), NVAL=3 if k != "map_lt" else 2), ITER_INV, tag="IterModel-" + k)
            for k in ("vector", "list", "map_lt", "set_lt", "umap_eq", "uset_eq")]
    for f in futs:
        f.result()
    ctx.log("models checked")
    conf.validate(conf.execute(), tag="iter")
    return BASE_ASSUMPTIONS


def ct_plan(ctx):
    ct.plan(ctx, all_sigs(ctx))
    return BASE_ASSUMPTIONS


WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=posix_memalign"]
BLOBS = ["Blob<1,1>", "Blob<2,2>", "Blob<3,1>", "Blob<6,2>", "TI", "Blob<8,8>", "Blob<12,4>", "Blob<20,4>", "Blob<16,16>", "Blob<24,8>", "Blob<9,1>"]


def self_plan(ctx):
    """C18: every call on relocated byte copies, heap use counted, raw views read after every call."""
    conf = Conf(ctx, "StepSelf", {})
    args = dict(scale=ctx.scale(1, 8), bfs=ctx.scale(40, 300), runs=ctx.scale(12, 40), steps=250)

    def add(n, defs):
        conf.add(n.replace("<", "").replace(">", "").replace(",", "_"), "self_main.cpp", defs, args, flags=WRAP)
    for k in SEQ_KINDS:
        for e in ("TI", "TN", "OB", "MO"):
            if not (k in ("stack", "queue", "cqueue") and e in ("TN", "MO")):
                add("%s-%s" % (k, e), ["-DPSEQ", "-DHK=" + k, "-DHT=" + e])
    for k in ("deque", "list"):
        for e in BLOBS:
            if e != "TI":
                add("%s-%s" % (k, e), ["-DPSEQ", "-DHK=" + k, "-DHT=" + e])
    B = lambda s, a: "Blob<%d,%d>" % (s, a)
    mp = [("TI", "TI"), (B(1, 1), B(8, 8)), (B(12, 4), B(1, 1)), (B(3, 1), B(2, 2)), (B(8, 8), B(3, 1)), (B(1, 1), B(12, 4)), (B(9, 1), B(6, 2)), (B(2, 2), B(20, 4))]
    for i, (k, v) in enumerate(mp):
        for j, (c, s) in enumerate(((E_, P_), (D_, P_), (E_, Q_), (D_, Q_))):
            if (i + j) % 2 == 0:
                add("map-%d-%d" % (i, j), ord_defs(k, v, ("CmpLt", "CmpGt", "CmpHf", "CmpTr")[i % 4], c, s))
        add("umap-%d" % i, hsh_defs(k, v, (7, 5, 0, 6)[i % 4], 1 + i % 2, i % 3))
    add("umap-16", hsh_defs(B(16, 16), B(4, 4), 7))
    add("umap-17", hsh_defs(B(1, 1), B(32, 16), 7, 1, 1))
    for i, k in enumerate(BLOBS):
        c, s = ((E_, P_), (D_, P_), (E_, Q_), (D_, Q_))[i % 4]
        add("set-%d" % i, ord_defs(k, "void", ("CmpLt", "CmpGt", "CmpHf", "CmpTr")[i % 4], c, s))
        add("uset-%d" % i, hsh_defs(k, "void", (7, 5, 0, 6)[i % 4], 1 + i % 2, i % 3))
    for e in ("OB", "MO"):
        add("map-" + e, ord_defs("TI" if e == "MO" else e, e))
        add("set-" + e, ord_defs(e, "void", "CmpGt", D_, Q_))
        add("umap-" + e, hsh_defs("TI" if e == "MO" else e, e, 7))
        add("uset-" + e, hsh_defs(e, "void", 5))
    for v in ("TI", "TN", "OB", "MO", "void"):
        add("enum-" + v, ["-DPENUM", "-DHVT=" + v])
    for v in ("TI", "OB"):
        add("earr-" + v, ["-DPEARR", "-DHVT=" + v])
    add("string", ["-DPSTR"])
    conf.sigfile = all_sigs(ctx)
    futs = [ctx.pool.submit(run_model, ctx, "SelfModel", dict(KIND=k, CAP=2, COPIES=2, DEPTH=3), ["OwnHistory", "SameHistory"], tag="SelfModel-" + k)
            for k in ["vector", "deque", "list", "cdeque", "stack", "queue", "cqueue", "map_lt", "set_hf", "umap_eq", "uset_eq", "emap", "eset", "earr", "str"]]
    for f in futs:
        f.result()
    ctx.log("models checked")
    conf.validate(conf.execute(), tag="self")
    return BASE_ASSUMPTIONS


def cost_plan(ctx):
    """C19: what single calls cost after adversarial histories."""
    conf = Conf(ctx, "StepCost", {}, timeout=ctx.scale(150, 900))
    args = dict(scale=ctx.scale(1, 12))
    for s in ([], ["-DSETK"]):
        n = "set" if s else "map"
        for i, (c, st) in enumerate(((E_, P_), (D_, P_), (E_, Q_), (D_, Q_))):
            conf.add("%s-%d" % (n, i), "cost_main.cpp", ["-DORD", "-DHCC=" + c, "-DHST=" + st] + s, args)
        for mode in (0, 1, 2, 3):
            for bm in (0, 1):
                conf.add("u%s-%d-%d" % (n, mode, bm), "cost_main.cpp", ["-DHSH", "-DHMODE=%d" % mode, "-DHBM=%d" % bm] + s, args)
    for k in SEQ_KINDS:
        conf.add(k, "cost_main.cpp", ["-DPSEQ", "-DHK=" + k], args)
    futs = [ctx.pool.submit(run_model, ctx, "RbModel", dict(NKEYS=ctx.scale(7, 8)), ["SearchTree", "Links", "NoRedRed", "EqualBlack", "Logarithmic", "Balanced", "SearchCost"]),
            ctx.pool.submit(run_model, ctx, "RhModel", dict(NKEYS=4, BUCKETS=ctx.scale(4, 5), CAP=3, FPS=2),
                            ["LookupRight", "Terminates", "Holds", "Distances", "RobinHood", "FewEqualities"]),
            ctx.pool.submit(run_model, ctx, "RhModel", dict(NKEYS=4, BUCKETS=4, CAP=4, FPS=2), ["LookupRight", "Terminates", "Holds", "Distances", "RobinHood", "FewEqualities"], tag="RhModel-full")]
    for f in futs:
        f.result()
    ctx.log("models checked")
    conf.validate(conf.execute(), tag="cost")
    return BASE_ASSUMPTIONS


RICH_INV = ["TypeOk", "One", "Distinct", "RoundTrip", "NoOther", "NoneIsNot", "Guarded", "Negation", "ConstantTime"]


def rich_plan(ctx):
    """C21: every call on every value of every kind of rich enum, obtained in every way; adapters; string literals."""
    conf = Conf(ctx, "StepRich", {})
    conf.add("clang", "rich_main.cpp")
    conf.add("gcc", "rich_main.cpp", compiler="g++", opt="-O2")
    run_model(ctx, "RichModel", {}, RICH_INV)
    ctx.log("models checked")
    conf.validate(conf.execute(), tag="rich")
    return BASE_ASSUMPTIONS


REF_INV = ["TypeOk", "One", "RebindOrWrite", "ErrorsOnlyNull", "Keeps", "Total"]


def ref_plan(ctx):
    """C22: rebinding and writing through optional references, pair views, in_out/out and maps of references."""
    conf = Conf(ctx, "StepRef", {})
    for comp in ("clang++-18", "g++") if ctx.scale(0, 1) else ("clang++-18",):
        for n, d in (("opt", ["-DPART=1"]), ("map-e", ["-DPART=2", "-DHCC=" + E_]), ("map-d", ["-DPART=2", "-DHCC=" + D_]), ("umap", ["-DPART=3", "-DHHASH=std::hash<int>"]),
                     ("umap-collide", ["-DPART=3", "-DHHASH=Same"]), ("emap", ["-DPART=4"])):
            conf.add(n + "-" + comp, "ref_main.cpp", d, compiler=comp)
    futs = [ctx.pool.submit(run_model, ctx, "RefModel", dict(KIND=k, NK=2 if k == "remap" else 3), REF_INV, tag="RefModel-" + k) for k in ("oref", "pview", "inout", "rmap", "remap")]
    for f in futs:
        f.result()
    ctx.log("models checked")
    conf.validate(conf.execute(), tag="ref")
    return BASE_ASSUMPTIONS


REFL_INV = ["WellNested", "OncePerPath", "ParentFirst", "ViewIsVisit", "Places", "Reach", "ViewItself", "Follows", "AbsentStaysAbsent"]


def refl_plan(ctx):
    """C24: every type tree TLC enumerates (and larger random ones) becomes a C++ type; every field count is decomposed."""
    fn = ctx.path("types.ndjson")
    run_model(ctx, "ReflModel", dict(LEAVES={"i4", "enum"}, DEEP=True, OUTFILE=fn), REFL_INV, tag="ReflModel", postcondition="EmitTypes")
    ctx.log("models checked")
    conf = Conf(ctx, "StepRefl", {})
    flags = ["-fbracket-depth=2048", "-fconstexpr-steps=100000000"]

    def unit(name, text):
        path = ctx.path(name + ".cpp")
        with open(path, "w") as f:
            f.write(text)
        conf.add(name, path, flags=flags, opt="-O0", context="reflection of generated structs")

    rnd = random.Random(ctx.seed)
    base = [json.loads(l)["t"] for l in open(fn)]
    todo = []
    for rep in range(ctx.scale(1, 3)):
        part = [reflgen.vary(t, rnd) for t in (rnd.sample(base, 170) if ctx.scale(1, 0) else base)]
        todo += part + [reflgen.rand_struct(rnd, rnd.choice([1, 2, 2, 3])) for _ in range(ctx.scale(38, 300))]
    todo = [t for t in todo if reflgen.small(t)]
    rnd.shuffle(todo)
    for i in range(0, len(todo), 9):
        unit("types-%d" % (i // 9), reflgen.types_unit(todo[i:i + 9], ctx.seed + i, 4))
    for i in range(8):
        unit("fields-%d" % i, reflgen.fields_unit(range(i, 129, 8)))
    for i in range(8):
        unit("unpack-%d" % i, reflgen.fields_unit(sorted(rnd.sample(range(129, 1025), ctx.scale(1, 30))), (1 + 128 * i, 128)))
    conf.validate(conf.execute(), tag="refl")
    return BASE_ASSUMPTIONS


def seq_of(*plans):
    def plan(ctx):
        for p in plans:
            p(ctx)
        return BASE_ASSUMPTIONS
    return plan


PLANS = {
    "C01": seq_plan(["vector"]),
    "C02": seq_plan(["deque"]),
    "C03": seq_plan(["list"]),
    "C04": seq_plan(["cdeque", "cqueue"], ["TI", "OB", "MO", "CO"]),
    "C05": seq_plan(["stack", "queue"], ["TI", "TN", "OB", "MO"]),
    "C06": ordered_plan(True),
    "C07": ordered_plan(False),
    "C08": hashed_plan(True),
    "C09": hashed_plan(False),
    "C10": enum_plan("emap", ["TI", "TN", "OB", "MO", "CO"]),
    "C12": str_plan,
    "C13": errors_plan,
    "C14": life_plan,
    "C15": pair_plan,
    "C16": stab_plan,
    "C17": ct_plan,
    "C18": self_plan,
    "C19": cost_plan,
    "C20": iter_plan,
    "C21": rich_plan,
    "C22": ref_plan,
    "C24": refl_plan,
    "C11": seq_of(enum_plan("eset", ["void"]), earr_group),
}

DEFAULT_NOTE = ("TLC checks the specification exhaustively for small capacities; the real container, rebuilt from /repo, is driven through every "
                "(abstract value, call) pair of that model, through every byte-level state reachable within bounds and through seeded random "
                "histories at larger capacity, and TLC accepts or rejects every recorded step. Trusted: TLC, clang, the adapter code in harness/.")
NOTES = {}
NOT_CLAIMED = {}
