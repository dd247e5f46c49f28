"""N04: enumerates feature combinations; builds the library and the probe program in each, with and
without debug assertions, runs the probe's exhaustive histories and compares the digests."""
import itertools, json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor

FLAGS = ["std", "libm", "micromath", "alloc", "fixed", "unsafe", "no_assert", "nalgebra"]
PROFILES = ["dev", "ship"]


def everything():
    return [tuple(f for f, b in zip(FLAGS, bits) if b) for bits in itertools.product([0, 1], repeat=len(FLAGS))]


def covering(strength=4):
    """None, all, one, all but one, then greedily until every choice of `strength` flags occurs in every on/off pattern."""
    todo = {(idx, pat) for idx in itertools.combinations(range(len(FLAGS)), strength) for pat in itertools.product([0, 1], repeat=strength)}
    cover = lambda v: {(idx, tuple(v[i] for i in idx)) for idx in itertools.combinations(range(len(FLAGS)), strength)}
    n = len(FLAGS)
    start = [(0,) * n, (1,) * n] + [tuple(int(i == j) for i in range(n)) for j in range(n)] + [tuple(int(i != j) for i in range(n)) for j in range(n)]
    out = []
    for v in start:
        out.append(v)
        todo -= cover(v)
    cand = list(itertools.product([0, 1], repeat=n))
    while todo:
        v = max(cand, key=lambda v: len(cover(v) & todo))
        out.append(v)
        todo -= cover(v)
    return [tuple(f for f, b in zip(FLAGS, v) if b) for v in out]


def group_dir(here, combo):
    g = "-".join(f for f in ("std", "libm", "nalgebra") if f in combo or (f == "libm" and "defaults" in combo)) or "bare"
    return os.path.join(here, "target", "n04", g)


class Broken(Exception):
    pass


def one(here, env, combo, profile):
    """-> (kind, detail): ok/{part: digest}, build/log, run/log"""
    target = group_dir(here, combo)
    cmd = ["cargo", "build", "--offline", "--profile", profile, "--target-dir", target, "--features", ",".join(combo), "-j", "2"]
    p = subprocess.run(cmd, cwd=os.path.join(here, "probe"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        ours = re.search(r"could not compile `(minikalman|probe)`", p.stdout) or re.search(r"minikalman.*(does not have|feature)", p.stdout)
        if not ours or "signal:" in p.stdout or "No space left" in p.stdout:
            raise Broken(p.stdout[-3000:])
        return "build", p.stdout
    exe = os.path.join(target, "debug" if profile == "dev" else profile, "probe")
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return "run", "the probe does not end"
    lines = r.stdout.split("\n")
    if r.returncode != 0 or "end" not in lines:
        return "run", f"the probe ended with {r.returncode}: {r.stderr[-1500:]}"
    return "ok", {l.split()[0]: (l.split()[1], int(l.split()[2])) for l in lines if len(l.split()) == 3}


def main(here, tier, env, replay):
    t0 = time.time()
    if replay:
        combos = [tuple(c.split(",")) if c else () for c in replay["combinations"]]
        profiles = {c: PROFILES for c in combos}
    else:
        combos = covering() if tier == "quick" else everything()
        combos.append(("defaults",))
    groups = {}
    for c in combos:
        g = tuple(f for f in ("std", "libm", "nalgebra") if f in c or (f == "libm" and "defaults" in c))
        groups.setdefault(g, []).append(c)
    res = {}

    def drop(c, pr):
        # the artifacts of this combination only, not those of the dependencies
        deps = os.path.join(group_dir(here, c), "debug" if pr == "dev" else pr, "deps")
        for f in os.listdir(deps):
            if re.match(r"(lib)?(probe|minikalman)-", f):
                os.unlink(os.path.join(deps, f))

    def work(cs):
        for pr in PROFILES:
            for c in cs:
                res[c, pr] = one(here, env, c, pr)
                if tier == "thorough":
                    drop(c, pr)

    # the groups with nalgebra take longest to start
    order = sorted(groups, key=lambda g: (-("nalgebra" in g), g))
    try:
        with ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(work, groups[g]) for g in order]:
                f.result()
    except Broken as e:
        print("N04: the sandbox cannot build a combination:", e, sep="\n")
        return 2
    name = lambda c, pr: f"features [{','.join(c)}], {'with' if pr == 'dev' else 'without'} debug assertions"
    bad = [(k, v) for k, v in sorted(res.items()) if v[0] != "ok"]
    if bad and all(v[0] == "build" for v in res.values()):
        print("N04: nothing builds at all:", bad[0][1][1][-3000:], sep="\n")
        return 2
    viol = None
    for (c, pr), (kind, log) in bad:
        what = "does not compile" if kind == "build" else "does not run"
        errs = "\n".join([l for l in log.splitlines() if l.startswith("error") or l.strip().startswith("-->")][:6]) if kind == "build" else log
        print(f"N04: {name(c, pr)}: {what}\n{errs}")
        viol = viol or dict(combinations=[",".join(c)], violation=f"{name(c, pr)}: {what}: {errs[:600]}")
    parts = {}
    for (c, pr), (kind, d) in sorted(res.items()):
        if kind == "ok":
            for part, (dig, n) in d.items():
                parts.setdefault(part, {}).setdefault(dig, []).append((c, pr))
    for part, by in sorted(parts.items()):
        if len(by) > 1:
            rank = sorted(by.values(), key=len)
            a, b = rank[0][0], rank[-1][0]
            text = f"{part}: results of {name(*a)} differ from those of {name(*b)} ({len(by)} different digests)"
            print("N04: " + text)
            viol = viol or dict(combinations=[",".join(a[0]), ",".join(b[0])], violation=text)
    ok = [d for k, d in res.values() if k == "ok"]
    steps = sum(n for d in ok for _, n in d.values())
    if not replay:
        ev = dict(property="N04", tier=tier, seed=int(os.environ.get("VERIF_SEED") or 1), level="model_checking",
                  coverage=dict(states=len(res), transitions=steps, traces_validated_against_impl=sum(len(d) for d in ok),
                                distinct_outcomes=sum(len(by) for by in parts.values()), exhaustive=not viol,
                                combinations=len(combos), combinations_possible=2 ** len(FLAGS), flags=FLAGS, profiles=PROFILES,
                                parts={p: dict(digest=list(by)[0], builds=sum(len(v) for v in by.values())) for p, by in sorted(parts.items())},
                                samples=[name(c, p) for c, p in list(res)[:: max(1, len(res) // 8)]]),
                  assumptions=["a combination is a subset of the eight flags or the crate's defaults, built for the host",
                               "parts of one name (number type and way of construction) must have one digest in all builds that have the part; "
                               "floating point of std and libm are one part, micromath its own"],
                  wall_s=round(time.time() - t0, 2), violations=int(bool(viol)))
        os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(here, "evidence", "N04.json"), "w"), indent=1)
    print(f"N04 {tier}: {len(combos)} combinations, {len(res)} builds, {len(parts)} parts, {steps} operations, {time.time()-t0:.1f} s, exit {int(bool(viol))}")
    if viol:
        rp = os.path.join(here, "evidence", "replay", "N04.json")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(dict(property="N04", variant="n04", job="", **viol), open(rp, "w"))
        print(f"VIOLATION property=N04 replay={rp}")
        return 1
    return 0
