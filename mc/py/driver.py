#!/usr/bin/env python3
"""P19: the Python package. Enumerates estimator options, array layouts, call histories and clusters; every
case runs the real extension module (built from /repo) and the real s2gpp/__init__.py in a process of its
own and is compared with the reference model of the harness.

driver.py check quick|thorough | replay FILE   (called by run.sh, which builds and sets the environment)
"""
import itertools, json, os, pickle, select, shutil, signal, socket, subprocess, sys, tempfile, time, traceback

VERIF = os.environ.get("VERIF_ROOT", "/verif")
REPO = os.environ.get("S2GPP_REPO", "/repo")
MC = os.environ["S2GPP_MC"]
TOL = 5e-4
SCRATCH = tempfile.mkdtemp(prefix="s2gpp-mc-py-")


# --- the package under test -----------------------------------------------------------------------------
def load(so):
    """/repo's package directory, the extension module and a stand-in for scikit-learn's base class"""
    pkg = os.path.join(SCRATCH, "path", "s2gpp")
    shutil.copytree(os.path.join(REPO, "s2gpp"), pkg)
    shutil.copy(so, os.path.join(pkg, "s2gpp.so"))
    skl = os.path.join(SCRATCH, "path", "sklearn")
    os.makedirs(skl)
    open(os.path.join(skl, "__init__.py"), "w").close()
    with open(os.path.join(skl, "base.py"), "w") as f:
        f.write("class BaseEstimator:\n    pass\n")
    sys.path.insert(0, os.path.join(SCRATCH, "path"))
    sys.dont_write_bytecode = True


# --- reference ------------------------------------------------------------------------------------------
def key(c, nodes=0):
    return (f"rows={c['rows']} cols={c['cols']} shape={c['shape']} variant={c.get('variant', 1)} pattern={c['pl']} latent={c['latent']} "
            f"rate={c['rate']} query={c['ql']} self-correction={'true' if c['sc'] else 'false'} threads=1 nodes={nodes} seed=1 order=[]")


def references(keys, variants):
    keys = list(dict.fromkeys(keys))
    p = subprocess.run([MC, "reference", str(variants)], input="\n".join(keys) + "\n", stdout=subprocess.PIPE, text=True, check=True)
    out = {}
    for line in p.stdout.splitlines():
        j = json.loads(line)
        if "key" in j:
            out[j["asked"]] = j
    return out


def differ(got, want):
    import numpy as np
    got = np.asarray(got)
    if got.ndim != 1:
        return f"the scores have {got.ndim} dimensions"
    if len(got) != len(want):
        return f"{len(got)} scores instead of {len(want)}"
    for i, (g, w) in enumerate(zip(got, want)):
        if not abs(float(g) - w) <= TOL:
            return f"score {i} is {g} instead of {w}"
    return None


# --- running a case in a process of its own ---------------------------------------------------------------
class Failed(Exception):
    pass


def child(fn, arg, cwd):
    """forks; the child writes its pickled verdict into a pipe"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            os.chdir(cwd)
            try:
                res = fn(arg)
            except BaseException as e:  # noqa: a panic of the extension is a BaseException
                res = f"{type(e).__name__}: {e}"[:300]
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(res))
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def collect(pid, r, until):
    buf = b""
    verdict = None
    while True:
        left = until - time.time()
        if left <= 0:
            verdict = "the call does not come back"
            break
        ready, _, _ = select.select([r], [], [], min(left, 1))
        if ready:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    os.close(r)
    if verdict:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if verdict:
        return verdict
    if not buf:
        return f"the interpreter dies (wait status {status})"
    return pickle.loads(buf)


# --- cases ------------------------------------------------------------------------------------------------
class Absent:
    pass


ORDER = ["pattern_length", "latent", "rate", "query_length", "n_threads", "clustering", "self_correction"]


def resolved(o):
    """the documented meaning of a set of options"""
    pl = o["pattern_length"]
    return dict(pl=pl, latent=o.get("latent") or pl // 3, rate=o.get("rate", 100), ql=o.get("query_length") or pl, sc=o.get("self_correction", False))


def estimator(o, positional=0):
    import s2gpp
    o = dict(o)
    if "clustering" in o:
        o["clustering"] = s2gpp.Clustering(o["clustering"])
    args = [o.pop(k) for k in ORDER[:positional]]
    return s2gpp.Series2GraphPP(*args, **o)


DTYPES = ["float32", "float64", "longdouble", "int16", "int32", "int64", ">f4", ">f8", ">i4"]
LAYOUTS = ["rows", "columns", "transposed", "part", "every second row", "every second column", "rows backwards", "columns backwards", "read-only", "list of rows stacked", "subclass"]


def arrange(a, dtype, layout):
    import numpy as np
    a = np.asarray(a, dtype=dtype)
    n, d = a.shape
    if layout == "rows":
        return np.ascontiguousarray(a)
    if layout == "columns":
        return np.asfortranarray(a)
    if layout == "transposed":
        return np.ascontiguousarray(a.T).T
    if layout == "part":
        b = np.full((n + 5, d + 3), 77, dtype=dtype)
        b[2:2 + n, 1:1 + d] = a
        return b[2:2 + n, 1:1 + d]
    if layout == "every second row":
        b = np.full((2 * n, d), 77, dtype=dtype)
        b[::2] = a
        return b[::2]
    if layout == "every second column":
        b = np.full((n, 2 * d), 77, dtype=dtype)
        b[:, 1::2] = a
        return b[:, 1::2]
    if layout == "rows backwards":
        return np.ascontiguousarray(a[::-1])[::-1]
    if layout == "columns backwards":
        return np.ascontiguousarray(a[:, ::-1])[:, ::-1]
    if layout == "read-only":
        b = a.copy()
        b.setflags(write=False)
        return b
    if layout == "list of rows stacked":
        return np.vstack(list(a))
    if layout == "subclass":
        class Sub(np.ndarray):
            pass
        return a.view(Sub)
    raise ValueError(layout)


def case_array(c):
    """one estimator, one array"""
    import numpy as np
    import multiprocessing
    x = arrange(c["data"], c.get("dtype", "float64"), c.get("layout", "rows"))
    before = np.array(x)
    m = estimator(c["options"], c.get("positional", 0))
    got = m.fit_predict(x)
    v = differ(got, c["want"])
    if v is None and got.dtype.kind != "f":
        v = f"scores of type {got.dtype}"
    if v is None and not np.array_equal(before, np.array(x)):
        v = "the series was changed"
    if v is None and got.base is not None and np.shares_memory(got, x):
        v = "the scores share memory with the series"
    if v is None and os.listdir("."):
        v = f"files were written: {os.listdir('.')}"
    return v


def case_history(c):
    """a sequence of calls on two estimators"""
    ests = [estimator(o) for o in c["estimators"]]
    kept = []
    for e, s in c["calls"]:
        import numpy as np
        got = ests[e].fit_predict(np.array(c["series"][s]))
        kept.append((got, c["want"][e][s]))
    # the results of earlier calls are not touched by later ones either
    for i, (got, want) in enumerate(kept):
        v = differ(got, want)
        if v:
            return f"call {i}: {v}"
    return None


def case_cores(c):
    """defaults on a machine with that number of processors"""
    import multiprocessing
    multiprocessing.cpu_count = lambda: c["cores"]
    os.cpu_count = lambda: c["cores"]
    return case_array(c)


def case_refused(c):
    """wrong input: an exception, and the interpreter and the package still work"""
    import numpy as np
    x = np.array(c["data"])
    try:
        if c["wrong"] == "one dimension":
            estimator(c["options"]).fit_predict(x[:, 0])
        elif c["wrong"] == "three dimensions":
            estimator(c["options"]).fit_predict(x[:, :, None])
        elif c["wrong"] == "complex":
            raise Exception("not asked")
        else:
            estimator(dict(c["options"], clustering=c["wrong"])).fit_predict(x)
        return "accepted"
    except Exception:
        pass
    except BaseException as e:
        return f"panic instead of an exception: {e}"[:300]
    return differ(estimator(c["options"]).fit_predict(x), c["want"])


def wide(data, before, after):
    """the series between other columns"""
    rows = []
    for i, r in enumerate(data):
        rows.append([1000 + 3 * i + k for k in range(before)] + list(r) + [(i * 7 + k) % 5 for k in range(after)])
    return rows


def csv(rows):
    return ",".join(f"c{i}" for i in range(len(rows[0]))) + "\n" + "".join(",".join(repr(float(v)) if not isinstance(v, int) else str(v) for v in r) + "\n" for r in rows)


def read_scores(path):
    with open(path) as f:
        return [float(x) for x in f.read().split()]


def case_file(c):
    import s2gpp
    with open("data.csv", "w") as f:
        f.write(csv(wide(c["data"], c["before"], c["after"])))
    o = resolved(c["options"])
    out = c["output"]
    s2gpp.s2gpp_local_file("data.csv", o["pl"], o["latent"], o["ql"], o["rate"], c["threads"], out, c["start"], c["end"], "kde", o["sc"], "127.0.0.1:8000")
    files = sorted(os.listdir("."))
    want = sorted(["data.csv"] + ([out] if out else []))
    if files != want:
        return f"files {files} instead of {want}"
    return differ(read_scores(out), c["want"]) if out else None


def node(c):
    import s2gpp
    from pathlib import Path
    kw = dict(c["options"], local_host=c["local_host"], n_cluster_nodes=c["nodes"])
    if "clustering" in kw:
        kw["clustering"] = s2gpp.Clustering(kw["clustering"])
    kw.update(c["extra"])
    if "output_path" in kw:
        kw["output_path"] = Path(kw["output_path"])
    args = []
    if c["positional"]:
        args = [kw.pop("n_cluster_nodes")]
        if c["role"] == "sub":
            args.append(c["mainhost"])
    elif c["role"] == "sub":
        kw["mainhost"] = c["mainhost"]
    if c["role"] == "main":
        s2gpp.DistributedSeries2GraphPP.main(*args, **kw).fit_predict(Path("data.csv"))
    else:
        s2gpp.DistributedSeries2GraphPP.sub(*args, **kw).fit_predict()
    return None


def free_ports(n):
    socks = []
    for _ in range(n):
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        socks.append(s)
    ports = [s.getsockname()[1] for s in socks]
    for s in socks:
        s.close()
    return ports


def run_cluster(c, cwd):
    n = c["nodes"]
    hosts = [f"127.0.0.1:{p}" for p in free_ports(n)]
    procs = []
    until = time.time() + c.get("limit", 40)
    for i in range(n):
        d = os.path.join(cwd, str(i))
        os.makedirs(d)
        if i == 0:
            with open(os.path.join(d, "data.csv"), "w") as f:
                f.write(csv(wide(c["data"], c["before"], c["after"])))
        extra = dict(c["extra"])
        procs.append(child(node, dict(role="main" if i == 0 else "sub", local_host=hosts[i], mainhost=hosts[0], nodes=n, options=c["options"], extra=extra, positional=c["positional"]), d))
        time.sleep(0.05)
    verdict = None
    for i, (pid, r) in enumerate(procs):
        v = collect(pid, r, until)
        if v and not verdict:
            verdict = f"node {i}: {v}"
            until = min(until, time.time() + 2)
    if verdict:
        return verdict
    out = c["extra"].get("output_path", "anomaly_scores.ts")
    for i in range(n):
        want = sorted(["data.csv", out]) if i == 0 else [out]
        files = sorted(os.listdir(os.path.join(cwd, str(i))))
        if files != want:
            return f"node {i}: files {files} instead of {want}"
        v = differ(read_scores(os.path.join(cwd, str(i), out)), c["want"])
        if v:
            return f"node {i}: {v}"
    return None


KINDS = dict(array=case_array, history=case_history, cores=case_cores, refused=case_refused, file=case_file)
counter = itertools.count()


def run_case(c):
    """in a worker process"""
    cwd = os.path.join(SCRATCH, f"c{os.getpid()}-{next(counter)}")
    os.makedirs(cwd)
    try:
        if c["kind"] == "cluster":
            return run_cluster(c, cwd)
        return collect(*child(KINDS[c["kind"]], c, cwd), time.time() + 60)
    finally:
        shutil.rmtree(cwd, ignore_errors=True)


def name(c):
    return json.dumps({k: v for k, v in c.items() if k not in ("data", "want", "series")}, sort_keys=True)


# --- the enumerated spaces -----------------------------------------------------------------------------------
def grids(thorough):
    """yields (group, [(wanted reference key(s), case without data)])"""
    # every subset of the options, each absent or with each of its values
    pls = [9, 10, 12, 14] if not thorough else [9, 10, 11, 12, 13, 14, 15]
    g = []
    for pl in pls:
        for latent, rate, dq, threads, clu, sc in itertools.product([Absent, 3, 4], [Absent, 7, 12], [Absent, 0, 4], [Absent, 0, -3, 1, 2, 3], [Absent, "kde"], [Absent, False, True]):
            o = dict(pattern_length=pl)
            for k, v in (("latent", latent), ("rate", rate), ("query_length", pl + dq if dq is not Absent else Absent), ("n_threads", threads), ("clustering", clu), ("self_correction", sc)):
                if v is not Absent:
                    o[k] = v
            if not thorough:
                # in the quick tier an option that has no influence on the result varies only with few others
                if (clu == "kde") + (sc is False) + (threads not in (Absent, 1)) > 1:
                    continue
            if pl - (o.get("latent") or pl // 3) < 3:
                continue
            i = len(g)
            g.append(dict(kind="array", options=o, conf=dict(rows=60 + 7 * (i % 3), cols=1 + i % 3, shape=(0, 5)[i % 2], **resolved(o))))
    yield "estimator options", g

    g = []
    for npos in range(1, len(ORDER) + 1):
        for latent, rate, ql, threads in itertools.product([3, 5], [8, 11], [10, 13], [1, 2]):
            for sc in (False, True):
                o = dict(pattern_length=10, latent=latent, rate=rate, query_length=ql, n_threads=threads, clustering="kde", self_correction=sc)
                g.append(dict(kind="array", options=o, positional=npos, conf=dict(rows=66, cols=2, shape=0, **resolved(o))))
    yield "options by position", [x for x in g if x["positional"] < len(ORDER) or True]

    g = []
    for dtype, layout, cols, threads in itertools.product(DTYPES, LAYOUTS, range(1, 4 if not thorough else 6), (1, 2) if not thorough else (1, 2, 3)):
        o = dict(pattern_length=9, latent=4, rate=9, query_length=12, n_threads=threads)
        # shape 7: whole numbers
        g.append(dict(kind="array", options=o, dtype=dtype, layout=layout, conf=dict(rows=75, cols=cols, shape=7, **resolved(o))))
    yield "element types and memory layouts", g

    g = []
    for cores in (1, 2, 3, 8, 64):
        for threads in (Absent, -1, 0, -7, 2):
            o = dict(pattern_length=9, latent=4, rate=9, query_length=12)
            if threads is not Absent:
                o["n_threads"] = threads
            g.append(dict(kind="cores", cores=cores, options=o, conf=dict(rows=75, cols=2, shape=0, **resolved(o))))
    yield "default threads on machines of every size", g

    g = []
    for wrong in ("one dimension", "three dimensions", "meanshift"):
        for threads in (1, 2):
            o = dict(pattern_length=9, latent=4, rate=9, query_length=12, n_threads=threads)
            g.append(dict(kind="refused", wrong=wrong, options=o, conf=dict(rows=75, cols=2, shape=0, **resolved(o))))
    yield "wrong input is refused", g

    g = []
    e0, e1 = dict(pattern_length=9, latent=4, rate=9, query_length=12, n_threads=1), dict(pattern_length=8, latent=3, rate=7, query_length=9, n_threads=2)
    depth = 3 if not thorough else 5
    for d in range(1, depth + 1):
        for calls in itertools.product(itertools.product((0, 1), (0, 1)), repeat=d):
            g.append(dict(kind="history", estimators=[e0, e1], calls=[list(x) for x in calls], confs=[[dict(rows=75, cols=2, shape=0, **resolved(e)), dict(rows=61, cols=3, shape=5, **resolved(e))] for e in (e0, e1)]))
    yield "call histories of two estimators", g

    g = []
    for before, after, cols, threads, output in itertools.product(range(3), range(3), (1, 2), (1, 3), (None, "s.ts")):
        total = before + cols + after
        for start, end in {(before, before + cols), (before, -after if after else 0)} | ({(before, total)} if after == 0 else set()):
            o = dict(pattern_length=9, latent=4, rate=9, query_length=12)
            g.append(dict(kind="file", options=o, before=before, after=after, start=start, end=end, threads=threads, output=output, conf=dict(rows=75, cols=cols, shape=0, **resolved(o))))
    yield "file input", g

    g = []
    variants = [dict(), dict(latent=3), dict(rate=12), dict(query_length=15), dict(self_correction=True), dict(n_threads=2), dict(clustering="kde"),
                dict(latent=5, rate=10, query_length=13, self_correction=True, n_threads=3, clustering="kde")]
    for n in (2, 3) if not thorough else (2, 3, 4):
        for pl in (10, 12) if not thorough else (9, 10, 11, 12):
            for v in variants:
                for (before, after, extra) in [(0, 0, {}), (1, 1, dict(column_start_idx=1, column_end_idx=-1)), (2, 0, dict(column_start_idx=2, output_path="out.csv")), (0, 2, dict(column_end_idx=2))]:
                    for positional in (False, True):
                        if not thorough and (positional != (len(g) % 5 == 0)):
                            continue
                        o = dict(dict(pattern_length=pl, rate=9), **v)
                        g.append(dict(kind="cluster", nodes=n, options=o, before=before, after=after, extra=extra, positional=positional, conf=dict(rows=120, cols=2, shape=0, **resolved(o))))
    yield "clusters of estimators", g


def fill(group, g, variants):
    """adds series and expected scores; drops what has no well-conditioned input"""
    if group.startswith("call histories"):
        # both estimators see the same series: the first variant that is stable for both
        ok = {}
        for s in (0, 1):
            cand = [[dict(c, variant=v) for c in (g[0]["confs"][0][s], g[0]["confs"][1][s])] for v in range(1, 400)]
            refs = references([key(c) for p in cand for c in p], 1)
            for p in cand:
                r = [refs.get(key(c)) for c in p]
                if all(r) and r[0]["data"] == r[1]["data"]:
                    ok[s] = r
                    break
        for c in g:
            del c["confs"]
            c["series"] = [ok[0][0]["data"], ok[1][0]["data"]]
            c["want"] = [[ok[s][e]["scores"] for s in (0, 1)] for e in (0, 1)]
        return g, 0
    found = {}
    todo = list(range(len(g)))
    for rows, cols, shape in [(0, None, None), (0, None, 5), (0, None, 1), (15, None, 0), (-10, None, 0), (0, 1, 0), (0, 2, 4), (30, 1, 2), (-15, 1, 5), (60, 1, 0)]:
        if g[0]["kind"] in ("file", "cluster") and cols is not None:
            break
        if g[0].get("dtype") and shape is not None:
            break
        keys = {}
        for i in todo:
            c = dict(g[i]["conf"])
            c["rows"] += rows
            c["cols"] = cols or c["cols"]
            c["shape"] = c["shape"] if shape is None else shape
            keys[i] = key(c, g[i].get("nodes", 0))
        refs = references(keys.values(), variants)
        found.update({i: refs[k] for i, k in keys.items() if k in refs})
        todo = [i for i in todo if i not in found]
        if not todo:
            break
    out = []
    for i, c in enumerate(g):
        if i in found:
            r = found[i]
            out.append(dict({x: y for x, y in c.items() if x != "conf"}, data=r["data"], want=r["scores"], reference=r["key"]))
    return out, len(todo)


def work(job):
    i, c = job
    try:
        v = run_case(c)
        if v is not None:
            # has to fail every time: real sockets and threads are involved
            for _ in range(2):
                w = run_case(c)
                if w is None:
                    return i, None, f"{name(c)}: {v}"
        return i, v, None
    except BaseException:
        return i, None, "ERROR " + traceback.format_exc()


def check(thorough):
    from multiprocessing import get_context
    start = time.time()
    budget = 600 if thorough else 300
    ev = {}
    skipped = {}
    unstable = []
    violation = None
    n_cases = 0
    calls = 0
    samples = []
    with get_context("fork").Pool(8) as pool:
        for group, g in grids(thorough):
            g, lost = fill(group, g, 400 if thorough else 120)
            if lost:
                skipped[group] = lost
            done = 0
            for i, v, u in pool.imap_unordered(work, list(enumerate(g)), chunksize=1):
                done += 1
                if u:
                    if u.startswith("ERROR"):
                        print(u, file=sys.stderr)
                        pool.terminate()
                        return 2
                    unstable.append(u)
                if v and not violation:
                    violation = (group, g[i], v)
                    break
                if time.time() - start > budget:
                    break
            ev[group] = dict(cases=len(g), executions=done, cases_cut_by_time=len(g) - done, bound="every combination of the listed values")
            n_cases += done
            calls += sum(len(c["calls"]) if c["kind"] == "history" else c.get("nodes", 1) for c in g[:done])
            samples += [dict(group=group, case=json.loads(name(c))) for c in g[:2]]
            print(f"   {group}: {done} of {len(g)} cases, {lost} without a well-conditioned input, {time.time() - start:.1f} s", flush=True)
            if violation or time.time() - start > budget:
                break
        pool.terminate()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({
        "property": "P19", "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": n_cases, "transitions": calls, "traces_validated_against_impl": n_cases, "exhaustive": all(e["cases_cut_by_time"] == 0 for e in ev.values()),
            "explanation": "states: enumerated cases (options, layout, history, cluster); transitions: calls of the extension module; every case runs the real package and extension",
            "groups": ev, "skipped_inputs": skipped, "samples": samples[:12], "did_not_repeat": unstable[:20],
        },
        "assumptions": ["the schedule of threads and sockets inside the extension is the operating system's (all schedules: P02, P04)",
                        "scikit-learn's BaseEstimator is replaced by an empty class", "inputs for which the correct result hinges on rounding are left out"],
        "wall_s": time.time() - start, "violations": 1 if violation else 0,
    }, open(os.path.join(VERIF, "evidence", "P19.json"), "w"), indent=1)
    for u in unstable:
        print("did not repeat:", u, file=sys.stderr)
    if not n_cases:
        return 2
    if violation:
        group, c, v = violation
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "P19.json")
        json.dump(dict(property="P19", group=group, case=c, message=v, how=f"mc/run.sh replay {path}"), open(path, "w"))
        print("case:", name(c))
        print("what:", v)
        print(f"VIOLATION property=P19 replay={path}")
        return 1
    print(f"P19: {n_cases} cases in {time.time() - start:.1f} s")
    return 0


def main():
    if sys.argv[1] == "check":
        return check(sys.argv[2] == "thorough")
    c = json.load(open(sys.argv[2]))["case"]
    v = run_case(c)
    print("case:", name(c))
    print("verdict:", v or "holds")
    return 1 if v else 0


if __name__ == "__main__":
    try:
        load(os.environ["S2GPP_SO"])
        import numpy  # noqa
        import s2gpp  # noqa
        code = main()
    finally:
        if os.path.exists(SCRATCH):
            shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(code)
