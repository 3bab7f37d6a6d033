"""Which functions of the library read differently under different features, and whether each reading is under contract.

For all choices of std, json, perf_memchr, perf_smallvec and perf_lexical (serde on), every function of crates/toon/src
is read with the cfg attributes of that choice resolved. A function with one reading needs nothing; one with several
readings, or one that only some choices have, has to be in the overlay under features that give each reading."""
import itertools, os, re
import rx, weave

OPT = ("std", "json", "perf_memchr", "perf_smallvec", "perf_lexical")
OUTSIDE = {"crates/toon/src/de/direct.rs"}  # the experimental direct deserializer


def reading(it, feats):
    ns = rx.cfg_strip(rx.parse(rx.show(it.nodes)), feats)
    return " ".join(t for t in rx.flat(ns) if t.strip())


def name_of(it):
    if it.impl is None:
        return it.name
    ty, tr = rx.impl_name(it.impl), rx.impl_trait(it.impl)
    return ("%s@%s::%s" % (tr, ty, it.name)) if tr else "%s::%s" % (ty, it.name)


def files(repo):
    top = os.path.join(repo, weave.CR)
    for d, _, fs in sorted(os.walk(top)):
        for f in sorted(fs):
            if f.endswith(".rs"):
                p = os.path.relpath(os.path.join(d, f), repo)
                if p not in OUTSIDE:
                    yield p


WORDS = ("Display", "Error", "Debug")  # what an error says


def gated(repo):
    """Files whose `mod` line needs the absence of a feature."""
    out = set()
    for p in files(repo):
        src = open(os.path.join(repo, p)).read()
        d = os.path.dirname(p) if os.path.basename(p) in ("mod.rs", "lib.rs") else p[:-3]
        for a, n in re.findall(r"#\[cfg\(([^\]]*)\)\]\s*(?:pub(?:\([a-z]+\))? )?mod (\w+);", src):
            if "not(feature" in a:
                out |= {q for q in (os.path.join(d, n + ".rs"), os.path.join(d, n, "mod.rs")) if os.path.exists(os.path.join(repo, q))}
    return out


def inventory(repo, ov, lost=()):
    under = {}
    for f in ov.fns:
        if not f.trusted and f.key not in lost:
            under.setdefault((f.file, f.name), []).append(frozenset(f.feats or weave.FEATS))
    out = {"functions": 0, "several_readings": [], "not_under_contract": []}
    weave.SRC.clear()  # rendering rewrites what it has read
    alone = gated(repo)
    for p in files(repo):
        src = open(os.path.join(repo, p)).read()
        opt = [o for o in OPT if '"%s"' % o in src]
        sets = [frozenset(c) | {"serde", "alloc"} for n in range(len(opt) + 1) for c in itertools.combinations(opt, n)]
        got = {}
        for fs in sets:
            for it in weave.source(repo, p, fs):
                if it.kind == "fn" and not (it.impl and rx.impl_trait(it.impl) in WORDS):
                    got.setdefault(name_of(it), {}).setdefault(reading(it, fs), []).append(fs)
        out["functions"] += len(got)
        for n, rs in sorted(got.items()):
            if p not in alone:
                if len(rs) == 1 and len(list(rs.values())[0]) == len(sets):
                    continue
                if len(rs) == 1 and any(all(o in fs for fs in list(rs.values())[0]) for o in ("json", "std")):
                    continue  # one reading, part of the builds with JSON or with std alone
            covered = set()
            for h in under.get((p, n), []):
                for it in weave.source(repo, p, h):
                    if it.kind == "fn" and name_of(it) == n:
                        covered.add(reading(it, h))
            out["several_readings"].append("%s %s" % (p[len(weave.CR):], n) + (": %d readings" % len(rs) if len(rs) > 1 else ""))
            out["not_under_contract"] += ["%s %s under %s" % (p, n, ",".join(sorted(rs[r][0]))) for r in rs if r not in covered]
    return out


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import prove, json
    print(json.dumps(inventory("/repo", prove.load()), indent=1))
