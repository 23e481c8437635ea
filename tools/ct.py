"""C17: behaviours generated by TLC from the specifications are executed by the compiler (constant evaluation)."""
import json, os, random, re, threading
from engine import *

RC = "fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::"
E_, D_ = RC + "EMBEDDED_COLOR", RC + "DEDICATED_COLOR"
P_, Q_ = "fc::FixedIndexBasedPoolStorage", "fc::FixedIndexBasedContiguousStorage"
SUF = {"CmpLt": "lt", "CmpGt": "gt", "CmpHf": "hf", "CmpTr": "tr"}
# calls that rebuild the whole value: left out of the long histories
REBUILD = re.compile(r"^(ctor_|bld_|with_|all$|none$|clear|cassign|massign|assign|copy_of|complement|resize|make|pop_all|erase_range|erase_rng|erase_to)")
STREAMS = {"in", "in_w", "in_ws", "out"}


def types():
    r = []
    for k in ("vector", "deque", "list", "cdeque", "stack", "queue", "cqueue"):
        for e in ("TI", "OB", "MO") + (("TN",) if k in ("vector", "deque", "list") else ()):
            r.append(dict(name="%s-%s" % (k, e), fam="seq", kind=k, type="SeqA<Kind::%s, %s, %%d>" % (k, e), caps=(3, 7)))
    for k, v, c, cc, st in [("TI", "TI", "CmpLt", E_, P_), ("OB", "OB", "CmpHf", D_, P_), ("TN", "MO", "CmpGt", E_, Q_), ("OB", "TI", "CmpTr", D_, Q_),
                            ("TI", "void", "CmpLt", D_, P_), ("OB", "void", "CmpHf", E_, P_), ("MO", "void", "CmpGt", D_, Q_), ("TN", "void", "CmpTr", E_, Q_)]:
        kd = ("set_" if v == "void" else "map_") + SUF[c]
        r.append(dict(name="%s-%s-%s" % (kd, k, v), fam="assoc", kind=kd, type="AssocA<OrdCfg<%s, %s, %%d, %s, %s, %s>>" % (k, v, c, cc, st), caps=(3, 7)))
    for k, v, m, d, b in [("TI", "TI", 0, 1, 0), ("OB", "OB", 5, 1, 1), ("OB", "MO", 3, 2, 1), ("TN", "TI", 7, 1, 0),
                          ("TI", "void", 0, 1, 1), ("OB", "void", 6, 2, 0), ("MO", "void", 5, 1, 1), ("TN", "void", 4, 1, 0)]:
        kd = ("uset_" if v == "void" else "umap_") + ("hf" if d == 2 else "eq")
        bk = "default_buckets<%d>" if b == 0 else "%d"
        r.append(dict(name="%s-%s-%s-%d" % (kd, k, v, m), fam="assoc", kind=kd, type="AssocA<HashCfg<%s, %s, %%d, Hs<%d, %d>, %d, %s>>" % (k, v, m, d, d, bk), caps=(3, 7)))
    for e, n in (("E3", 3), ("R3", 3), ("X3", 3), ("E4", 4)):
        for v in (("TI", "OB", "MO", "void") if e in ("E3", "R3") else ("TN", "void")):
            r.append(dict(name="enum-%s-%s" % (e, v), fam="assoc", kind="eset" if v == "void" else "emap", type="AssocA<EnumCfg<%s, %s>>" % (e, v), caps=(n,)))
    for e, n in (("E3", 3), ("R2", 2), ("E4", 4)):
        for v in ("TI", "OB"):
            r.append(dict(name="earr-%s-%s" % (e, v), fam="earr", kind="earr", type="EArrA<%s, %s>" % (e, v), caps=(n,)))
    r.append(dict(name="string", fam="str", kind="str", type="StrA<%d>", caps=(4, 9)))
    return r


def inst(t, cap):
    return t["type"].replace("%d", str(cap)) if "%d" in t["type"] else t["type"]


PRE = '#include "ct.hpp"\n#include "assoc.hpp"\n#include "enums.hpp"\nusing namespace h;\n'


def supported(ctx, ts, sigfile):
    """{name: set of call names the element type offers}"""
    src = ctx.path("probe-sup.cpp")
    with open(src, "w") as f:
        f.write(PRE + "int main(int argc, char** argv) { g_conf = parse(argc, argv);\n")
        for t in ts:
            f.write('list_supported<%s>("%s");\n' % (inst(t, t["caps"][0]), t["name"]))
        f.write("return 0; }\n")
    exe = compile_bin(ctx, "probe-sup", src)
    r = run_bin(ctx, "probe-sup", exe, dict(sigs=sigfile))
    if r["rc"] != 0:
        raise CheckError("probe failed: " + r["err"][-500:])
    res = {}
    for l in r["out"].splitlines():
        w = l.split()
        if w and w[0] == "SUPPORTS":
            res.setdefault(w[1], [w[2], set()])
            if w[4] == "1":
                res[w[1]][1].add(w[3])
    return res


CACHE, LOCK = {}, threading.Lock()


def histories(ctx, fam, kind, cap, skip, depth, num, tag):
    """The same behaviours serve every element type that offers the same calls."""
    key = (fam, kind, cap, frozenset(skip), depth, num)
    with LOCK:
        ent = CACHE.setdefault(key, [threading.Lock(), None])
    with ent[0]:
        if ent[1] is None:
            ent[1] = generate(ctx, fam, kind, cap, skip, depth, num, tag)
    return ent[1]


def generate(ctx, fam, kind, cap, skip, depth, num, tag):
    r = run_tlc(ctx, "Gen", dict(FAMILY=fam, KIND=kind, CAP=cap, DEPTH=depth, SKIP=skip), invariants=["Emit"], workers=1, tag=tag,
                simulate="num=%d" % num, args=["-depth", str(4 * depth), "-seed", str(ctx.seed)], heap="1g")
    out = []
    for m in re.finditer(r'<<"HIST", "(.*?)">>', r["out"], re.S):
        out.append(json.loads(m.group(1).replace("\n", "").replace('\\"', '"')))
    if not out:
        raise CheckError("TLC generated no history for %s:\n%s" % (tag, r["out"][-1500:]))
    return out


def choose(ctx, hs, want, rnd):
    """Greedy: histories that add (call, call before it) and call names not seen yet."""
    seen, out = set(), []
    pool = list(hs)
    rnd.shuffle(pool)
    feats = [set([("1", h[i][0]) for i in range(len(h))] + [("2", h[i - 1][0], h[i][0]) for i in range(1, len(h))]) for h in pool]
    left = set(range(len(pool)))
    while left and len(out) < want:
        b = max(sorted(left), key=lambda i: sum(20 if x[0] == "1" else 1 for x in feats[i] - seen))
        out.append(pool[b])
        seen |= feats[b]
        left.remove(b)
    return out, {x[1] for x in seen if x[0] == "1"}


def one(ctx, t, sup, sigs):
    rnd = random.Random("%s-%d" % (t["name"], ctx.seed))
    kind, ok = sup
    skip0 = {n for n in sigs[kind] if n not in ok} | STREAMS
    body, main, names, nh, ncalls = [], [], set(), 0, 0
    for i, cap in enumerate(t["caps"]):
        plans = [("a", set(), 14, ctx.scale(180, 900), ctx.scale(45, 300))] if i == 0 else []
        if i == len(t["caps"]) - 1:
            plans.append(("b", {n for n in sigs[kind] if REBUILD.match(n) or n.endswith("_il")}, ctx.scale(40, 60), ctx.scale(30, 150), ctx.scale(10, 60)))
        for tag, extra, depth, num, want in plans:
            hs = histories(ctx, t["fam"], kind, cap, skip0 | extra, depth, num, "Gen-%s-%s" % (t["name"], tag))
            hs, nm = choose(ctx, hs, want, rnd)
            names |= nm
            for h in hs:
                ops = ", ".join('op_of("%s", {%s})' % (o[0], ", ".join(str(x) for x in o[1:])) for o in h)
                body.append("constexpr Op CP%d[] = {%s};\nconstexpr CtOut CT%d = replay<%s>(CP%d);\n" % (nh, ops, nh, inst(t, cap), nh))
                main.append("emit<%s>(CP%d, CT%d);\n" % (inst(t, cap), nh, nh))
                nh += 1
                ncalls += len(h)
    src = ctx.path("ct-%s.cpp" % t["name"])
    with open(src, "w") as f:
        f.write(PRE + "".join(body) + "int main(int argc, char** argv) { install_signals(); g_conf = parse(argc, argv); g_rec.open(g_conf.out);\n" + "".join(main) +
                "g_rec.report(); g_rec.out.flush(); g_rec.meta.flush(); std::fflush(stdout); _exit(0); }\n")
    exe = None
    try:
        exe = compile_bin(ctx, "ct-" + t["name"], src, flags=["-fconstexpr-steps=2000000000", "-fconstexpr-depth=4096"], opt="-O0", context="constant evaluation of a history the specification allows")
    except CheckError:
        if not ctx.violations:
            raise
    ctx.coverage.setdefault("constant_evaluation", {})[t["name"]] = dict(histories=nh, calls=ncalls, call_names=len(names), not_reached=sorted(set(ok) - names - skip0))
    return exe


def plan(ctx, sigfile):
    ts = types()
    sigs = {}
    for l in open(sigfile):
        w = l.split()
        sigs.setdefault(w[0], set()).add(w[1])
    sup = supported(ctx, ts, sigfile)
    ctx.log("histories and constant evaluation of %d container types" % len(ts))
    with ThreadPoolExecutor(8) as ex:
        exes = list(ex.map(lambda t: one(ctx, t, sup[t["name"]], sigs), ts))
    ctx.log("evaluated")
    groups = {}
    for t, e in zip(ts, exes):
        mod = {"seq": "StepSeq", "assoc": "StepAssoc", "str": "StepStr", "earr": "StepEArr"}[t["fam"]]
        c = groups.setdefault(mod, Conf(ctx, mod, dict(NV=3) if mod == "StepSeq" else {}, sigfile=sigfile))
        if e:
            c.add_exe(t["name"], e)
    for mod, c in groups.items():
        c.validate(c.execute(), tag="ct-" + mod)
