#!/usr/bin/env python3
"""check <ID> [--tier quick|thorough] | freeze [PREFIX...] | list

check  analyses the source in /repo (never importing or running it) and judges property ID.
freeze rewrites the contract files from the current tree (authoring time only; reviewed before commit).
"""
import argparse
import gzip
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("SA_REPO", "/repo")

from sa import rules, spec  # noqa: E402
from sa import iorules, props  # noqa: E402

NPROC = min(8, os.cpu_count() or 1)


def contract_path(group):
    return os.path.join(HERE, "contracts", group + ".json.gz")


def load_contracts():
    out = {}
    d = os.path.join(HERE, "contracts")
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.endswith(".json.gz"):
            with gzip.open(os.path.join(d, f), "rt") as fh:
                out.update(json.load(fh))
    return out


def known_findings():
    """lines: 'finding: property=<id> construct=<construct> -- text' and 'fixed: ...'"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, text = line[len("finding:"):].partition(" -- ")
                prop = head.split("property=")[1].split()[0]
                cons = head.split("construct=")[1].strip()
                out.setdefault(prop, {})[cons] = text
    return out


def jobs_for(prop, tier):
    p = props.PROPS[prop]
    js = []
    for e in spec.ENTRIES.values():
        if not p.select(e) or prop not in e.opts.get("only", (prop,)):
            continue
        cases = list(e.cases())
        if tier == "quick" and p.limit and len(cases) > p.limit:
            step = len(cases) / p.limit
            cases = [cases[int(i * step)] for i in range(p.limit)]
        for sc in cases:
            for fd in p.dtypes(e):
                js.append((e.name, sc, fd))
        if p.perturb:
            ks = {spec.case_key(sc, "float32"): sc for sc in cases}
            for key, rec in _K.get(e.name, {}).items():
                if "|" in key:
                    base, lab, kind = key.rsplit("|", 2)
                    if base in ks and (p.perturb is True or p.perturb(e)):
                        sc = dict(ks[base])
                        if lab == "option":
                            sc[kind] = "no_such_option"
                        js.append((e.name, (base, sc, (lab, kind)), "float32"))
        if p.sized:
            ks = {spec.case_key(sc, fd): (sc, fd) for sc in cases for fd in p.dtypes(e)}
            for key, rec in _K.get(e.name, {}).items():
                base, _, v = key.partition("@")
                if v and base in ks and prop in rec["props"]:
                    js.append((e.name, (base, ks[base][0], ("@", v)), ks[base][1]))
    return js


SIZED_CASES = 3


def freeze_sized(name):
    """cases with sizes 0 and 1 that the current tree accepts"""
    e = spec.ENTRIES[name]
    cases = list(e.cases())
    n = min(len(cases), SIZED_CASES)
    out = {}
    for i in range(n):
        sc = cases[int(i * len(cases) / n)]
        for fd in ["float32"] + ["float64"] * e.f64:
            c = spec.run_case(e, sc, fd, REPO)
            if c.error or c.stopped:
                continue
            k = rules.dump(c)
            for v, sizes in spec.degenerations(c).items():
                d = spec.run_case(e, sc, fd, REPO, sizes=sizes)
                if d.error or d.stopped:
                    continue
                rec = {"sizes": sizes, "over": rules.differing(k, d, sizes)}
                kd = rules.degenerate(k, rec)
                rec["props"] = [p for p in ("C05", "C06", "C10") if (p == "C06") == (fd == "float64") and not rules.Judge(p, e, kd).judge(d)]
                if rec["props"]:
                    out[f"{c.key}@{v}"] = rec
    return name, out


PERTURBED_CASES = 4


def tests_emptiness(loc):
    """is the statement at loc guarded by a test for an empty batch?"""
    f, n = loc.split(" ")[0].rsplit(":", 1)
    with open(os.path.join(REPO, f)) as fh:
        return any("isempty" in x for x in fh.read().split("\n")[int(n) - 3:int(n)])


def freeze_perturbed(name):
    """malformed inputs that the current tree rejects explicitly"""
    e = spec.ENTRIES[name]
    cases = list(e.cases())
    n = min(len(cases), PERTURBED_CASES)
    out = {}
    for i in range(n):
        sc = cases[int(i * len(cases) / n)]
        c = spec.run_case(e, sc, "float32", REPO, False)
        if c.error or c.stopped:
            continue
        sizes = spec.degenerations(c)
        for pt, s2 in list(spec.perturbations(c, e, sc)) + [(("size", v), sc) for v in sizes]:
            d = spec.run_case(e, s2, "float32", REPO, False, io=name.startswith("io."), **({"sizes": sizes[pt[1]]} if pt[0] == "size" else {"perturb": pt}))
            if d.rejected and d.raises and (all(r[3] for r in d.raises) or pt[0].startswith("const") and all(r[0] == "IndexError" for r in d.raises)):
                out[f"{c.key}|{pt[0]}|{pt[1]}"] = {"rej": sorted({r[0] for r in d.raises}), "what": f"{pt[0]}:{pt[1]}"}
                if pt[0] == "size":
                    if pt[1] in ("all empty", "no elements") and not all(tests_emptiness(r[2]) for r in d.raises):
                        del out[f"{c.key}|size|{pt[1]}"]
                        continue
                    out[f"{c.key}|size|{pt[1]}"]["sizes"] = sizes[pt[1]]
                if iorules.late(d):
                    out[f"{c.key}|{pt[0]}|{pt[1]}"]["late"] = 1
    return name, out


_K = {}
_LOCKED = {}


def work(job):
    name, sc, fd, mode = job
    e = spec.ENTRIES[name]
    t = time.time()
    pt = None
    if isinstance(sc, tuple):
        base, sc, pt = sc
    try:
        if mode[0] == "freeze":
            c = spec.run_case(e, sc, fd, REPO, True, True)
            if c.error:
                return name, spec.case_key(sc, fd), {"error": c.error}, time.time() - t
            return name, spec.case_key(sc, fd), rules.dump(c), time.time() - t
        prop = mode[1]
        p = props.PROPS[prop]
        if pt is not None and pt[0] == "@":
            key = f"{base}@{pt[1]}"
            v = _K[name][key]
            c = spec.run_case(e, sc, fd, REPO, p.observe, sizes=v["sizes"])
            c.key = key
            j = rules.Judge(prop, e, rules.degenerate(_K[name][base], v))
            f = j.judge(c)
            return name, key, f, {**j.n, "degenerate_sizes": 1}, c.called, c.error, dict(c.unknowns), time.time() - t
        if pt is not None and pt[0] == "size":
            c = spec.run_case(e, sc, fd, REPO, p.observe, p.inputs, p.io, sizes=_K[name][f"{base}|size|{pt[1]}"]["sizes"])
        else:
            c = spec.run_case(e, sc, fd, REPO, p.observe, p.inputs, p.io, pt, training=True if prop == "C16" else None, copies=prop == "C17")
        if pt is not None:
            c.key = f"{base}|{pt[0]}|{pt[1]}"
        k = _K.get(name, {}).get(c.key)
        if k is None or "error" in k:
            if e.rejects:
                k = {"stopped": True}
            else:
                return name, c.key, [], {"no_contract": 1}, c.called, c.error, dict(c.unknowns), time.time() - t
        j = rules.Judge(prop, e, k)
        if pt is not None and pt[0] == "size" and not c.rejected:
            j.usual = {(r[0], r[2]) for r in spec.run_case(e, sc, fd, REPO, False).raises if r[1]}
        f = j.judge(c)
        if prop == "C17" and c.copied:
            f = f + j.lost_writes(c, spec.run_case(e, sc, fd, REPO, p.observe, p.inputs, p.io, pt))
        if prop == "C16" and c.moded:
            f = f + j.judge(spec.run_case(e, sc, fd, REPO, p.observe, p.inputs, p.io, pt, training=False))
        if pt is not None:
            c.error = None
        return name, c.key, f, dict(j.n), c.called, c.error, dict(c.unknowns), time.time() - t
    except Exception:
        return name, spec.case_key(sc, fd), [], {"internal_error": 1}, {}, traceback.format_exc()[-1500:], {}, time.time() - t


def run_jobs(js, mode):
    js = [j + (mode,) for j in js]
    # group by entry so that module state stays warm; order by entry
    if NPROC == 1 or len(js) < 4:
        return [work(j) for j in js]
    with mp.get_context("fork").Pool(NPROC) as pool:
        return pool.map(work, js, chunksize=max(1, min(24, len(js) // (NPROC * 6) or 1)))


def warm():
    """load the analysed modules once, before forking"""
    for m in props.WARM:
        try:
            spec.interp(REPO).module(m)
        except Exception:
            pass


def freeze(prefixes):
    if not prefixes or "cxx" in prefixes:
        from sa import cxx
        cxx.freeze(REPO)
        if prefixes == ["cxx"]:
            return
    spec.load_specs()
    warm()
    js = []
    for e in spec.ENTRIES.values():
        if e.rejects or (prefixes and not any(e.name.startswith(p) for p in prefixes)):
            continue
        for sc in e.cases():
            for fd in (["float32", "float64"] if e.f64 else ["float32"]):
                js.append((e.name, sc, fd))
    t = time.time()
    groups = {}
    for name, key, rec, dt in run_jobs(js, ("freeze",)):
        groups.setdefault(name.split(".")[0], {}).setdefault(name, {})[key] = rec
        if "error" in rec:
            print("ERROR", name, key, rec["error"][-300:])
        elif rec["stopped"]:
            print("STOPPED", name, key)
    with mp.get_context("fork").Pool(NPROC) as pool:
        for name, out in pool.imap_unordered(freeze_perturbed, sorted({j[0] for j in js})):
            groups[name.split(".")[0]][name].update(out)
        for name, out in pool.imap_unordered(freeze_sized, sorted({j[0] for j in js})):
            groups[name.split(".")[0]][name].update(out)
    os.makedirs(os.path.join(HERE, "contracts"), exist_ok=True)
    for g, d in sorted(groups.items()):
        if prefixes and os.path.exists(contract_path(g)):
            with gzip.open(contract_path(g), "rt") as fh:
                old = json.load(fh)
            old = {k: v for k, v in old.items() if k in spec.ENTRIES and k not in d}
            old.update(d)
            d = old
        with open(contract_path(g), "wb") as raw:
            with gzip.GzipFile(filename="", mode="wb", fileobj=raw, mtime=0, compresslevel=9) as fh:
                fh.write(json.dumps(d, sort_keys=True, separators=(",", ":")).encode())
        print(g, len(d), "entries", sum(map(len, d.values())), "cases", os.path.getsize(contract_path(g)) // 1024, "KiB")
    print(f"{time.time() - t:.1f}s")


def check(prop, tier):
    global _K
    t0 = time.time()
    spec.load_specs()
    p = props.PROPS[prop]
    _K = load_contracts()
    findings, n, called, errors, unk = {}, Counter(), set(), [], Counter()
    ncases = 0
    slow = []
    entries = set()
    if p.select is not None:
        warm()
        js = jobs_for(prop, tier)
        for name, key, fs, cnt, cl, err, un, dt in run_jobs(js, ("check", prop)):
            ncases += 1
            entries.add(name)
            n.update(cnt)
            called |= set(cl)
            unk.update(un)
            slow.append((round(dt, 2), name, key))
            if err:
                errors.append(f"{name}[{key}]: {err[-200:]}")
            for pr, cons, msg in fs:
                findings.setdefault(cons, (msg, f"{name}[{key}]"))
    extra = {}
    if p.extra:
        try:
            fs, cnt, extra = p.extra(REPO)
        except Exception:  # noqa: BLE001
            fs, cnt, extra = [], {}, {}
            errors.append("c++ sources: " + traceback.format_exc()[-300:])
        n.update(cnt)
        for cons, msg in fs:
            findings.setdefault(cons, (msg, ""))
    known = known_findings().get(prop, {})
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    bad = {c: v for c, v in findings.items() if c not in known}
    for c in findings:
        if c in known:
            print(f"KNOWN-FINDING: property={prop} {c}: {known[c]}")
    decided = sum(n[k] for k in p.decides)
    wall = time.time() - t0
    slow.sort(reverse=True)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "wall_s": round(wall, 2), "violations": len(bad),
        "coverage": {
            "explanation": p.explain,
            "api_entries": len(entries), "cases_analysed": ncases, "cases_not_analysed": len(errors), "obligations_decided": decided,
            "counts": dict(n), "functions_analysed": len(called), "functions": sorted(str(c) for c in called)[:400],
            "unresolved_constructs": dict(unk.most_common(20)), "not_analysed": errors[:20], "slowest": slow[:5], **extra,
        },
        "assumptions": props.ASSUMPTIONS,
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{prop}: {len(entries)} entries, {ncases} cases, {len(called)} functions, {decided} obligations decided, {len(errors)} not analysed, {wall:.1f}s")
    if bad:
        rp = os.path.join(HERE, "evidence", prop + ".violations.json")
        with open(rp, "w") as fh:
            json.dump([{"construct": c, "message": m, "case": k} for c, (m, k) in sorted(bad.items())], fh, indent=1)
        for c, (m, k) in sorted(bad.items())[:40]:
            print(f"  {c}: {m}  (case {k})")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if decided < p.floor:
        print(f"analysis broken: {decided} obligations decided, at least {p.floor} expected; {errors[:3]}")
        return 2
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("args", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.cmd == "freeze":
        freeze(a.args)
    elif a.cmd == "check":
        sys.exit(check(a.args[0], a.tier))
    elif a.cmd == "list":
        spec.load_specs()
        for e in spec.ENTRIES.values():
            print(e.name, sum(1 for _ in e.cases()))


if __name__ == "__main__":
    main()
