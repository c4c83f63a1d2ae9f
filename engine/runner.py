"""Run the harnesses of one property: explore symbolically, decide, replay, report."""
import importlib
import json
import math
import multiprocessing as mp
import os
import pkgutil
import re
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "out")


# ------------------------------------------------------------------ symbolic run
def _funcs_monitor(store):
    mon = sys.monitoring
    tid = 4
    try:
        mon.use_tool_id(tid, "verif")
    except ValueError:
        return lambda: None
    root = os.path.join(REPO, "simpeg") + os.sep

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(root):
            store.add(os.path.relpath(fn, REPO) + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)

    def stop():
        mon.set_events(tid, 0)
        mon.free_tool_id(tid)
    return stop


def run_symbolic(h, tier, seed, budget):
    import numpy as np
    from . import ctx as C, linsys, patch, poly, smt, sparse
    from .sa import STATE
    t0 = time.time()
    res = dict(id=h.id, paths=0, infeasible=0, decisions=0, obligations=0, discharged=0, constants=0,
               problems=[], gaps=[], validate=[], truncated=False, notes=[], funcs=[], stats={}, samples=[],
               cross=[], max_terms=0)
    warnings.simplefilter("ignore")
    patch.install()
    funcs = set()
    stop = _funcs_monitor(funcs)
    tot = smt.Stats()
    work = [[]]
    max_paths = h.opts.get("max_paths", 64 if tier == "quick" else 400)
    tmo = h.opts.get("query_ms", 10000 if tier == "quick" else 60000)
    cross = [] if tier == "thorough" else None
    seen_bad = set()
    while work:
        if res["paths"] >= max_paths or time.time() - t0 > budget:
            res["truncated"] = True
            break
        prefix = work.pop()
        poly.reset()
        linsys.reset()
        STATE["active"] = False
        np.random.seed(seed)
        c = C.SymCtx(prefix, seed, h.opts)
        c.exact_sign = h.opts.get("exact_sign", False)
        poly._ctx[0] = c
        err = None
        try:
            h.fn(c, **h.kwargs)
        except C.Infeasible:
            res["infeasible"] += 1
            work.extend(c.alternatives)
            _acc(tot, c.stats)
            continue
        except C.StopPath:
            pass
        except Gap as e:
            err = ("gap", f"{e} @ {_where(e)}")
        except Exception as e:
            err = ("exception", f"{type(e).__name__}: {e} @ {_where(e)}")
        work.extend(c.alternatives)
        res["paths"] += 1
        res["decisions"] += len(c.trace)
        res["notes"].extend(c.notes)
        poly._ctx[0] = None
        STATE["active"] = False
        pts = c.sample_points(3)
        if not pts and c.path:
            r, mdl = smt.feasible(c.path, c.stats)
            if r == "unsat":
                res["infeasible"] += 1
                res["paths"] -= 1
                _acc(tot, c.stats)
                continue
            if mdl:
                env = c._env()
                env.update(mdl)
                pts = [env]
        poly._ctx[0] = None
        if err is not None:
            (res["gaps"] if err[0] == "gap" else res["problems"]).append(
                dict(kind=err[0], name=err[0], note=err[1], cands=[_cand(c, p, h) for p in pts[:3]]))
        for o in c.obls:
            res["obligations"] += 1
            path = c.path[:o.npath]
            verdict, mdl, note = "unsat", None, o.note
            try:
                if o.kind == "fail":
                    verdict = "sat"
                elif o.kind == "bool":
                    if o.cond is True:
                        res["constants"] += 1
                    else:
                        verdict, mdl = smt.decide_bool(o.cond, path, c.stats, tmo)
                else:
                    ents = []
                    for l, r in o.entries:
                        sc = max([abs(x) for x in l.t.values()] + [abs(x) for x in r.t.values()] + [1e-300])
                        ents.append((l, r, max(o.rtol, 1e-9) * sc))
                        res["max_terms"] = max(res["max_terms"], len(l.t), len(r.t))
                    verdict, mdl = smt.decide_eq(ents, path, c.stats, tmo, cross)
                    if verdict != "unsat":
                        bad = [k for k, (l, r) in enumerate(o.entries) if poly.residual(l, r)]
                        note = f"entries {bad[:6]} differ; e.g. {poly.show(o.entries[bad[0]][0])} vs {poly.show(o.entries[bad[0]][1])}" if bad else note
            except Gap as e:
                verdict, note = "unknown", f"gap: {e}"
            if verdict == "unsat":
                res["discharged"] += 1
            else:
                cands = []
                if mdl:
                    env = dict(pts[0]) if pts else c._env()
                    env.update(mdl)
                    cands.append(_cand(c, env, h))
                cands += [_cand(c, p, h) for p in pts[:3]]
                key = (o.name, verdict)
                if key in seen_bad and len(res["problems"]) > 12:
                    continue
                seen_bad.add(key)
                res["problems"].append(dict(kind=verdict, name=o.name, note=note, cands=cands))
        # encoder validation at a generic point of this path
        if pts and err is None and len(res["validate"]) < (2 if tier == "quick" else 6):
            vals = []
            ok = True
            try:
                cache = {}
                for o in c.obls:
                    if o.kind == "eq" and o.entries:
                        vals.append((o.name, [_cval(poly.evaluate(l, pts[0], cache)) for l, r in o.entries[:50]],
                                     len(o.entries), o.fd))
            except (Gap, ValueError, ZeroDivisionError, OverflowError, KeyError) as e:
                ok = False
            if ok:
                res["validate"].append(dict(cand=_cand(c, pts[0], h), vals=vals))
        if len(res["samples"]) < 2 and c.obls:
            o = c.obls[0]
            res["samples"].append(dict(
                harness=h.id, decisions=len(c.trace), obligations=[x.name for x in c.obls][:6],
                query=(f"exists inputs: |({poly.show(o.entries[0][0], 3)}) - ({poly.show(o.entries[0][1], 3)})| > tol"
                       if o.kind == "eq" and o.entries else f"{o.kind}:{o.name}")))
        _acc(tot, c.stats)
        if len(res["problems"]) > 30:
            res["truncated"] = True
            break
    stop()
    if cross:
        n = {"unsat": 0, "other": 0}
        for q in cross[:20]:
            if time.time() - t0 > budget:
                break
            try:
                r = smt.cvc5_check(q)
            except Exception as e:
                r = "error"
            n["unsat" if r == "unsat" else "other"] += 1
        res["cross"] = n
    res["funcs"] = sorted(funcs)
    res["stats"] = tot.as_dict()
    res["wall"] = time.time() - t0
    return res


class _G:
    pass


from .poly import Gap  # noqa: E402


def _cval(v):
    v = complex(v)
    return (v.real, v.imag)


def _acc(a, b):
    for k, v in b.__dict__.items():
        setattr(a, k, getattr(a, k) + v)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/simpeg/" in f.filename or "/harness/" in f.filename]
    s = []
    for f in fr[-3:]:
        s.append(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}")
    l = tb[-1] if tb else None
    if l is not None:
        s.append(f"{os.path.basename(l.filename)}:{l.lineno} {l.name}")
    return " < ".join(reversed(s))


def _cand(c, env, h):
    vals = {}
    for n, (shape, ids) in c.inputs.items():
        vals[n] = [float(env.get(i, 0.5)) if env.get(i) is not None else 0.5 for i in ids]
    return dict(harness=h.id, values=vals, choices=dict(c.choices))


# ------------------------------------------------------------------ concrete run
def run_concrete(h, cand, seed=1):
    import numpy as np
    from . import ctx as C
    warnings.simplefilter("ignore")
    np.random.seed(seed)
    c = C.ConcCtx(dict(cand["values"]), dict(cand["choices"]), seed)
    exc = None
    try:
        with np.errstate(all="ignore"):
            h.fn(c, **h.kwargs)
    except C.StopPath:
        pass
    except C.Infeasible:
        return dict(failures=[], exc=None, assume_failed=True, record=[])
    except Exception as e:
        exc = f"{type(e).__name__}: {e} @ {_where(e)}"
    rec = [(n, [(_x.real, _x.imag) for _x in a[:50].tolist()], len(a)) for n, a, b in c.record]
    return dict(failures=c.failures, exc=exc, assume_failed=False, record=rec, fd_err=c.fd_err)


# ------------------------------------------------------------------ process pool
def _child(conn, fn, args):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    try:
        r = fn(*args)
        conn.send(("ok", r))
    except BaseException as e:
        conn.send(("err", f"{type(e).__name__}: {e} @ {_where(e)}\n{traceback.format_exc()[-1500:]}"))
    conn.close()
    os._exit(0)


def pool(jobs, nproc, overall):
    """jobs: list of (fn, args, per-job timeout); returns list of ('ok',r)|('err',s)|('timeout',None).
    No job runs longer than `overall` seconds after the start of the pool."""
    ctx = mp.get_context("fork")
    end = time.time() + overall
    results = [None] * len(jobs)
    running = {}
    nxt = 0
    while nxt < len(jobs) or running:
        while nxt < len(jobs) and len(running) < nproc:
            if time.time() > end:
                results[nxt] = ("timeout", None)
                nxt += 1
                continue
            fn, args, tm = jobs[nxt]
            pr, pc = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(pc, fn, args))
            p.start()
            pc.close()
            running[nxt] = (p, pr, min(time.time() + tm, end))
            nxt += 1
        done = []
        conns = {v[1]: k for k, v in running.items()}
        for cn in mp.connection.wait(list(conns), timeout=0.2):
            k = conns[cn]
            try:
                results[k] = cn.recv()
            except EOFError:
                results[k] = ("err", "worker died")
            done.append(k)
        now = time.time()
        for k, (p, pr, dl) in running.items():
            if k not in done and now > dl:
                results[k] = ("timeout", None)
                done.append(k)
        for k in done:
            p, pr, dl = running.pop(k)
            if results[k][0] == "timeout":
                p.kill()
            p.join(5)
            if p.is_alive():
                p.kill()
            pr.close()
    return results


import multiprocessing.connection  # noqa: E402,F401


# -------------------------------------------------------------------------- main
def load(prop=None):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    import simpeg
    assert os.path.abspath(simpeg.__file__).startswith(REPO), simpeg.__file__
    import harness
    for m in sorted(x.name for x in pkgutil.iter_modules(harness.__path__)):
        if prop is None or prop.lower() in m.lower().split("_") or m.startswith("common"):
            importlib.import_module("harness." + m)
    from .registry import HARNESSES
    return HARNESSES


def known(prop):
    fn = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def main(prop, tier, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import numpy as np  # noqa
    hs = [h for h in load(prop) if h.prop == prop and (tier == "thorough" or h.tier == "quick")]
    if only:
        hs = [h for h in hs if re.search(only, h.id)]
    from . import ctx, patch, poly, smt, sparse  # noqa  (import before forking)
    import warnings as _w
    _w.simplefilter("ignore")
    total = 500 if tier == "quick" else 3 * 3600
    per = 240 if tier == "quick" else 1800
    nproc = int(os.environ.get("VERIF_PROCS", "8"))
    hs.sort(key=lambda h: -h.opts.get("cost", 1))
    jobs = [(run_symbolic, (h, tier, seed, h.opts.get("budget", per * 0.8)), h.opts.get("timeout", per)) for h in hs]
    sym = pool(jobs, nproc, total)
    by_id = {h.id: h for h in hs}
    # replay candidates and validation points on the unpatched code
    rj, meta = [], []
    fallback = []
    for h, (st, r) in zip(hs, sym):
        if st != "ok":
            fallback.append(h)
            rj.append((run_concrete, (h, dict(harness=h.id, values={}, choices={}), seed), 120))
            meta.append(("fallback", h, dict(name=st, note=str(r)[:600]), dict(harness=h.id, values={}, choices={})))
            continue
        for pb in r["problems"] + r["gaps"]:
            cands = pb["cands"] or [dict(harness=h.id, values={}, choices={})]
            for cd in cands[:4]:
                rj.append((run_concrete, (h, cd, seed), 120))
                meta.append(("problem", h, pb, cd))
        for v in r["validate"]:
            rj.append((run_concrete, (h, v["cand"], seed), 120))
            meta.append(("validate", h, v, v["cand"]))
    order = sorted(range(len(rj)), key=lambda i: meta[i][0] == "validate")   # candidates first
    rj, meta = [rj[i] for i in order], [meta[i] for i in order]
    rep = pool(rj, nproc, 330 if tier == "quick" else 3600)
    violations, inconcl, validated, mismatches = [], [], 0, []
    repro = {}
    for (kind, h, pb, cd), (st, r) in zip(meta, rep):
        if kind == "validate":
            if st != "ok" or r["assume_failed"]:
                continue
            bad = _compare(pb["vals"], r)
            if bad or r["exc"]:
                mismatches.append(f"{h.id}: {bad or r['exc']}")
            else:
                validated += 1
            if r["failures"]:
                # the real code fails the property at this point of the path
                repro[(h.id, "point", "concrete failure at a path witness")] = (
                    h, dict(name="point", kind="witness", note=str(bad)[:300]), cd, r)
            continue
        key = (h.id, pb["name"], pb.get("note"))
        if st == "ok" and (r["failures"] or (r["exc"] and kind in ("problem", "fallback"))):
            repro.setdefault(key, (h, pb, cd, r))
        else:
            repro.setdefault(key, None) if key not in repro else None
        if repro.get(key) is None and st == "ok" and (r["failures"] or r["exc"]):
            repro[key] = (h, pb, cd, r)
    kf = known(prop)
    known_hit = {}
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    seen = set()
    for key, val in repro.items():
        hid, name, note = key
        if val is None:
            inconcl.append(f"{hid}: {name}: {note}")
            continue
        h, pb, cd, r = val
        fails = r["failures"] or [("exception", r["exc"])]
        k = [d for d in kf if re.fullmatch(d["harness"], hid) and any(re.fullmatch(d["obligation"], f[0]) for f in fails)]
        fails2 = [f for f in fails if not any(re.fullmatch(d["harness"], hid) and re.fullmatch(d["obligation"], f[0]) for d in kf)]
        for d in k:
            known_hit[d["what"]] = d
        if not fails2:
            continue
        sig = (hid, fails2[0][0])
        if sig in seen:
            continue
        seen.add(sig)
        fn = os.path.join(OUT, "replay", re.sub(r"[^A-Za-z0-9_.-]", "_", f"{hid}__{fails2[0][0]}")[:120] + ".json")
        json.dump(dict(property=prop, cand=cd, failures=fails2, symbolic=dict(kind=pb.get("kind", "?"), note=pb.get("note")),
                       replay_cmd=f"/opt/venv/bin/python check.py {prop} --replay {fn}"), open(fn, "w"), indent=1, default=str)
        violations.append((fn, hid, fails2))
    res = [r for st, r in sym if st == "ok"]
    for h, (st, r) in zip(hs, sym):
        if st == "ok" and r["obligations"] == 0 and not r["problems"] and not r["gaps"]:
            inconcl.append(f"{h.id}: no obligation reached (vacuous)")
    wall = time.time() - t0
    tot = {}
    for r in res:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted({f for r in res for f in r["funcs"]})
    cov = dict(
        states=sum(r["paths"] for r in res),
        transitions=sum(r["decisions"] for r in res) + sum(r["obligations"] for r in res),
        traces_validated_against_impl=validated,
        samples=[s for r in res for s in r["samples"]][:6],
        explanation="states = symbolic execution paths of the real code; transitions = branch decisions plus "
                    "property assertions decided by the solver; traces_validated = symbolic values compared with an "
                    "unpatched run of the same harness at a point of the path",
        harnesses=len(hs),
        obligations=sum(r["obligations"] for r in res),
        discharged=sum(r["discharged"] for r in res),
        constant_obligations=sum(r["constants"] for r in res),
        solver_queries=tot.get("queries", 0), solver_time_s=round(tot.get("time", 0.0), 3),
        solver=dict(z3=smt.z3.get_version_string(), **{k: tot.get(k, 0) for k in ("unsat", "sat", "unknown", "linear", "nonlinear", "feas", "lemmas")}),
        cvc5_cross_checked=sum((r["cross"] or {}).get("unsat", 0) for r in res if isinstance(r["cross"], dict)),
        cvc5_not_confirmed=sum((r["cross"] or {}).get("other", 0) for r in res if isinstance(r["cross"], dict)),
        largest_polynomial_terms=max([r["max_terms"] for r in res] + [0]),
        paths_truncated=[r["id"] for r in res if r["truncated"]],
        inconclusive=inconcl, encoder_mismatches=mismatches,
        functions_encoded=funcs, functions_encoded_count=len(funcs),
        bounds={h.id: {k: str(v) for k, v in h.opts.items() if k in ("bounds", "max_paths")} for h in hs if "bounds" in h.opts},
        exhaustive=False,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=ASSUMPTIONS, wall_s=round(wall, 2), violations=len(violations))
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for w, d in known_hit.items():
        print(f"KNOWN-FINDING: property={prop} {w}")
    for m in mismatches:
        print("ENCODER-MISMATCH", m[:400])
    for m in inconcl:
        print("INCONCLUSIVE", m[:700])
    if verbose:
        for r in sorted(res, key=lambda r: -r["wall"])[:40]:
            print(f"  {r['wall']:7.2f}s paths={r['paths']:3d} obl={r['discharged']}/{r['obligations']} q={r['stats']['queries']} "
                  f"terms={r['max_terms']} trunc={r['truncated']} {r['id']}")
    print(f"{prop} [{tier}] harnesses={len(hs)} paths={cov['states']} obligations={cov['obligations']} "
          f"discharged={cov['discharged']} queries={cov['solver_queries']} solver={cov['solver_time_s']}s "
          f"functions={len(funcs)} validated={validated} inconclusive={len(inconcl)} mismatches={len(mismatches)} wall={wall:.1f}s")
    for fn, hid, fails in violations:
        print(f"VIOLATION property={prop} replay={fn}")
        print(f"   {hid}: {fails[0][0]}: {fails[0][1]}")
    sys.stdout.flush()
    if violations:
        return 1
    if len({i.split(':')[0] for i in inconcl}) * 2 > len(hs):
        print("ERROR more than half of the harnesses were inconclusive")
        return 2
    return 0


def _compare(vals, r):
    rec = r["record"]
    k = 0
    for name, sv, n, fd in vals:
        # entries that are numeric constants are dropped on the symbolic side, so align by name & length
        while k < len(rec) and rec[k][0] != name:
            k += 1
        if k >= len(rec):
            return None
        cn, cv, ln = rec[k]
        k += 1
        if ln != n:
            continue
        a = [complex(*x) for x in sv]
        b = [complex(*x) for x in cv]
        sc = max([abs(x) for x in a + b] + [1e-300])
        tol = 1e-6 * sc + 1e-12 + (100 * r.get("fd_err", 0.0) if fd else 0.0)
        for x, y in zip(a, b):
            if x != x or y != y:
                continue
            if abs(x - y) > tol:
                return f"{name}: symbolic {x} concrete {y}"
    return None


ASSUMPTIONS = [
    "floating-point numbers are interpreted as reals; coefficient differences below 1e-9 (relative) are treated as rounding",
    "inputs range over the boxes and sizes given by each harness; sizes outside them are not covered",
    "nonlinear functions other than polynomials are axiomatised (exp/log/sin/cos/sign/indicator/roots); "
    "comparisons are taken at the base point of a directional derivative",
    "numpy/scipy/discretize kernels are replaced by semantically equal symbolic versions; encodings are validated "
    "against an unpatched run on every execution",
    "a symbolic linear solve is an opaque exact inverse (numeric matrices: LU)",
    "violations are reported only after the counterexample was replayed on the unpatched code",
]


def replay(prop, fn):
    d = json.load(open(fn))
    hs = {h.id: h for h in load(prop)}
    h = hs[d["cand"]["harness"]]
    r = run_concrete(h, d["cand"])
    print(json.dumps(dict(failures=r["failures"], exc=r["exc"]), indent=1, default=str))
    return 1 if r["failures"] or r["exc"] else 0
