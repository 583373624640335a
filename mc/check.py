#!/usr/bin/env python3
"""Runs the model checker for one property.

  check.py --property C05 [--tier quick|thorough] [--budget SECONDS] [--name SUBSTRING]
  check.py --replay FILE        shows the execution recorded in a replay file again
  check.py --build-only

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line.  Anything else: the check
itself could not be carried out."""
import argparse, collections, fcntl, glob, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
TARGET = "x86_64-unknown-linux-gnu"
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pool import Pool  # noqa: E402


def die(msg, code=3):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def build():
    """Compiles /repo's working tree with the checker; returns the executable."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        sysroot = subprocess.run(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        stamp = hashlib.sha256()
        for f in sorted(glob.glob(HERE + "/rt/*") + glob.glob(HERE + "/link/*.py")):
            stamp.update(open(f, "rb").read())
        rt = os.path.join(BUILD, "mcrt.o")
        r = subprocess.run(["g++", "-O2", "-fno-omit-frame-pointer", "-std=c++17", "-c", HERE + "/rt/mcrt.cpp", "-o", rt], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            die("the checker's runtime does not compile\n" + r.stdout)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("CARGO_") and k != "CARGO_HOME" or k in ("RUSTC_WRAPPER", "RUSTDOCFLAGS"):
                del env[k]
        env.update(
            MC_LLVM_BIN=f"{sysroot}/lib/rustlib/{TARGET}/bin",
            MC_RT_OBJ=rt,
            MC_STAMP=stamp.hexdigest()[:16],
            RUSTUP_TOOLCHAIN=TOOLCHAIN,
            CARGO_NET_OFFLINE="true",
            RUSTFLAGS=f"-Clinker={HERE}/link/mclink.py -Clinker-plugin-lto -Zshare-generics=no -Cforce-frame-pointers=yes -Cpanic=unwind",
        )
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--target", TARGET, "--target-dir", BUILD + "/target"], cwd=HERE + "/harness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-6000:])
            die("/repo does not compile with the checker")
    return f"{BUILD}/target/{TARGET}/debug/mch"


def symbolize(exe, main, trace):
    """Replaces '@addr,addr,..' by source positions inside /repo and the dependencies."""
    try:
        nm = subprocess.run(["nm", "-C", exe], stdout=subprocess.PIPE, text=True).stdout
        at = [l.split()[0] for l in nm.splitlines() if re.search(r" [tT] mch(\[[0-9a-f]+\])?::main(::h[0-9a-f]+)?$", l)]
        off = int(at[0], 16) - main
        addrs = sorted({a for g in re.findall(r"@([0-9a-f,]+)", trace) for a in g.split(",")})
        inp = "\n".join(f"{int(a, 16) + off:#x}" for a in addrs)
        out = subprocess.run(["addr2line", "-a", "-i", "-e", exe], input=inp, stdout=subprocess.PIPE, text=True).stdout
        names = {}
        for a, part in zip(addrs, re.split(r"^0x[0-9a-f]+\n", out, flags=re.M)[1:]):
            # the frames inlined at the address, innermost first
            names[a] = [re.sub(r" \(discriminator.*", "", o).replace(REPO + "/", "") for o in part.splitlines()]

        def sub(m):
            l = []
            for a in m.group(1).split(","):
                for n in names.get(a, []):
                    if "mc/harness" in n or "mcrt.cpp" in n or n.startswith("?") or "/rustlib/" in n or n.startswith("/rustc/"):
                        continue
                    n = re.sub(r".*/registry/src/[^/]*/", "", n)
                    if not l or l[-1] != n:
                        l.append(n)
            return ("  @ " + " < ".join(l[:4])) if l else ""

        return re.sub(r" @([0-9a-f,]+)", sub, trace)
    except Exception as e:  # noqa
        return f"(not symbolized: {e!r})\n" + trace


def known_findings():
    """`known: property=<id> scenario=<regex> text=<regex>` lines; `fixed:` lines suppress nothing."""
    res = []
    for l in open(os.path.join(ROOT, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) scenario=(\S+) text=(.*)", l)
        if m:
            res.append((m.group(1), re.compile(m.group(2)), re.compile(m.group(3)), l.strip()))
    return res


def replay(path):
    d = json.load(open(path))
    exe = build()
    sc = [json.loads(l) for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()]
    i = next(s["i"] for s in sc if s["name"] == d["scenario"])
    r = subprocess.run([exe, "replay", str(i), str(d["preemptions"]), str(d["stale_reads"]), d["choices"]], stdout=subprocess.PIPE, text=True)
    l = [json.loads(x) for x in r.stdout.splitlines() if x.startswith("{")]
    if len(l) < 2:
        die("the replay gave no answer: " + r.stdout)
    print(symbolize(exe, l[0]["main"], l[1].get("trace", "")))
    print("scenario:", d["scenario"])
    print("result:  ", l[1].get("text") or "no violation")
    return 1 if l[1]["violation"] else 0


# passes: (preemptions, weak reads); each scenario goes through them until nothing is cut off any more
QUICK = [(1, 1), (2, 2)]
THOROUGH = [(1, 1), (2, 2), (3, 2), (3, 3), (4, 3), (5, 4), (6, 4), (8, 6), (12, 8)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--name", default="")
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--exe")
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        sys.exit(replay(a.replay))
    exe = a.exe or build()
    if a.build_only:
        print("built", exe)
        return
    tb = time.time() - t0
    prop, tier = a.property, a.tier
    thorough = tier == "thorough"
    # the time after which no further optional job is started; the mandatory ones always run
    soft = a.budget or (740 if thorough else 100)
    hard = max(soft, 600 if not thorough else 780)
    r = subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True)
    if r.returncode:
        die("the checker does not start")
    sc = [json.loads(l) for l in r.stdout.splitlines()]
    sel = [s for s in sc if prop in s["props"].split() and (thorough or not s["deep"]) and a.name in s["name"]]
    if not sel:
        die(f"no scenario for property {prop}")
    known = [k for k in known_findings() if k[0] == prop]
    passes = THOROUGH if thorough else QUICK
    best, level, retry, found, told = {}, {}, collections.Counter(), [], set()
    t1 = time.time()
    work = collections.Counter()
    unfinished = collections.Counter()
    p = None

    def job(i, k, cost):
        """priority: mandatory jobs first, then by pass, then cheap before expensive"""
        if sc[i]["seq"]:
            mand = not sc[i]["deep"]
            return ((0 if mand else 2, 0, cost), (i, 0, 0, 0, hard))
        pm, sm = passes[k]
        return ((0 if k == 0 else 1 + k, k, cost), (i, 0 if k == 0 else pm, pm, sm, hard))

    def left():
        return soft - (time.time() - t1)

    def on(j, r):
        i = j[0]
        s = sc[i]
        work["executions"] += r["executions"]
        work["transitions"] += r["transitions"]
        if r["violation"]:
            for k in known:
                if k[1].search(s["name"]) and k[2].search(r["text"]):
                    if k[3] not in told:
                        told.add(k[3])
                        print(f"KNOWN-FINDING: property={prop} {k[3]}", flush=True)
                    return
            found.append((i, j, r))
            p.stop = True
            return
        if r["timeout"]:
            unfinished[i] += 1
            return
        best[i] = r
        k = 0
        if not s["seq"]:
            k = level.get(i, -1) + 1
            level[i] = k
            if r["limited"] and k + 1 < len(passes):
                pr, jb = job(i, k + 1, r["wall"])
                p.put(pr, jb)

    class P2(Pool):
        """drops optional jobs when the time is up, and limits those which are started"""

        def limit(self, prio, job):
            if prio[0] == 0:
                return job
            l = left()
            if l < 0.5:
                return None
            return job[:4] + (round(min(hard, l + 1), 2),)

    p = P2(exe, int(os.environ.get("MC_JOBS", os.cpu_count() or 8)), on)
    for s in sel:
        pr, jb = job(s["i"], 0, 0)
        p.put(pr, jb)
    while True:
        p.run()
        errs, p.errors = p.errors, []
        again = False
        for jb, rc, tail in errs:
            retry[jb[0]] += 1
            if retry[jb[0]] > 1 or rc == 3:
                die(f"scenario {sc[jb[0]]['name']} gave no answer ({rc}): {' / '.join(tail)}")
            p.put((0, 0, 0), jb)
            again = True
        if not again or found:
            break
    wall = time.time() - t0
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)

    missing = [s["name"] for s in sel if s["i"] not in best]
    mandatory_missing = [s["name"] for s in sel if s["i"] not in best and not s["deep"] and not (unfinished[s["i"]] == 0 and told)]
    conc = [(s, best[s["i"]]) for s in sel if s["i"] in best and not s["seq"]]
    seq = [(s, best[s["i"]]) for s in sel if s["i"] in best and s["seq"]]
    by = collections.Counter()
    for s, r in conc:
        if not r["limited"]:
            by["every schedule and every weak read of the scenario"] += 1
        else:
            pm, sm = passes[level[s["i"]]]
            by[f"up to {pm} preemptions and {sm} weak reads"] += 1
    samples = []
    pick = sorted(conc, key=lambda x: x[1]["executions"])
    for s, r in [pick[k] for k in sorted({0, len(pick) // 2, len(pick) - 1})] if pick else []:
        samples.append({"scenario": s["name"], **{k: r[k] for k in ("states", "transitions", "executions", "pruned", "outcomes", "limited")}})
    for s, r in sorted(seq, key=lambda x: x[1]["executions"])[-2:]:
        samples.append({"scenario": s["name"], "histories": r["executions"]})
    if not found and (pick or seq):
        # one execution written out
        i = (pick[len(pick) // 2][0] if pick else seq[0][0])["i"]
        r = subprocess.run([exe, "replay", str(i), "1", "1", ""], stdout=subprocess.PIPE, text=True)
        l = [json.loads(x) for x in r.stdout.splitlines() if x.startswith("{")]
        if len(l) > 1:
            samples.append({"scenario": sc[i]["name"], "first_execution": symbolize(exe, l[0]["main"], l[1].get("trace", ""))[-5000:].splitlines()})
    cov = {
        "states": sum(r["states"] for _, r in conc) + sum(r["executions"] for _, r in seq),
        "transitions": sum(r["transitions"] for _, r in conc + seq),
        "traces_validated_against_impl": work["executions"],
        "states_rule": "distinct states of the compiled code at scheduling points (threads' histories, memory, bounds left), plus one per sequential history",
        "traces_rule": "every explored trace is an execution of the compiled code of /repo; there is no separate model",
        "concurrent_scenarios": len(conc),
        "concurrent_scenarios_by_bound": dict(by),
        "distinct_outcomes": sum(r["outcomes"] for _, r in conc),
        "executions_cut_at_visited_states": sum(r["pruned"] for _, r in conc),
        "weak_reads_taken": sum(r["stale_reads"] for _, r in conc),
        "sequential_scenarios": len(seq),
        "sequential_histories": sum(r["executions"] for _, r in seq),
        "scenarios_not_completed": missing[:50],
        "exhaustive": not missing and not found,
        "samples": samples,
    }
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "model_checking",
        "coverage": cov,
        "assumptions": [
            "std and its allocator front end are not instrumented; the compiled code of /repo and of its dependencies is",
            "memory model: operational release/acquire with weak reads; no load buffering; modification order is execution order",
            "visited states are recognised by 64-bit hashes",
            "exhaustive within the listed scenarios (threads, operations, values, growth kinds) and their bounds",
        ],
        "wall_s": round(wall, 2),
        "violations": len(found),
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if found:
        i, j, r = found[0]
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        path = os.path.join(ROOT, "replay", f"{prop}.json")
        trace = symbolize(exe, r["main"], r["trace"])
        with open(path, "w") as f:
            json.dump({"property": prop, "scenario": sc[i]["name"], "preemptions": j[2], "stale_reads": j[3], "text": r["text"], "choices": r["choices"], "trace": trace.splitlines()}, f, indent=1)
        print(f"scenario {sc[i]['name']}: {r['text']}")
        print("\n".join(trace.splitlines()[-25:]))
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        sys.exit(1)
    if mandatory_missing:
        die(f"{len(mandatory_missing)} mandatory scenarios were not completed, such as {mandatory_missing[:3]}")
    print(f"{prop} {tier}: held on {cov['concurrent_scenarios']} concurrent scenarios {dict(by)} and {cov['sequential_histories']} sequential histories; {work['executions']} executions, {cov['states']} states; build {tb:.0f}s, total {time.time() - t0:.0f}s")


main()
