#!/usr/bin/env python3
"""Linker driver used by rustc (-Clinker) together with -Clinker-plugin-lto.

Every bitcode object among the inputs (our crates: the code under test, its dependencies and the
harness) is instrumented: each function gets the sanitize_thread attribute, the atomic operations the
ThreadSanitizer pass leaves alone (fetch_max/min) are turned into calls of the checker's runtime, and
LLVM's ThreadSanitizer pass is run.  Native objects (std) are passed through.  The runtime (MCRT_OBJ)
is added to the link."""
import os, re, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor

BIN = os.environ["MC_LLVM_BIN"]
RT = os.environ["MC_RT_OBJ"]
OPT = os.environ.get("MC_OPT", "")

RMW = re.compile(r'^(\s*)(%\S+ = )?atomicrmw (volatile )?(umax|umin|max|min) ptr (.+?), (i8|i16|i32|i64) (\S+) (?:syncscope\("[^"]*"\) )?(monotonic|acquire|release|acq_rel|seq_cst)(, align \d+)?(.*)$')
ORD = {"monotonic": 0, "acquire": 2, "release": 3, "acq_rel": 4, "seq_cst": 5}
EXCL = re.compile(r'^(mc_|__tsan|__mc)|5nosan')

def rewrite(text):
    out = []; used = set(); weak = False; infn = False; skip = False
    for line in text.split("\n"):
        if line.startswith("define "):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', line); name = m.group(1).strip('"') if m else ""
            skip = bool(EXCL.search(name)) or " naked" in line
            if not skip:
                # insert the attribute before the attribute group, or before the trailing keywords
                m = re.search(r' #\d+(?= |$)', line)
                if m: line = line[:m.start()] + " sanitize_thread" + line[m.start():]
                else:
                    k = re.search(r'( (section|comdat|align|gc|prefix|prologue|personality)\b.*| ![a-z].*| \{)$', line)
                    line = line[:k.start()] + " sanitize_thread" + line[k.start():]
        elif "atomicrmw " in line:
            m = RMW.match(line)
            if m:
                ind, dst, _, op, ptr, ty, v, mo, _al, rest = m.groups()
                v = v.rstrip(","); bits = ty[1:]; fn = f"__mc_{op}{bits}"; used.add((fn, ty))
                md = re.search(r', !dbg !\d+', rest or ""); md = md.group(0) if md else ""
                if md:
                    line = f"{ind}{dst or ''}call {ty} @{fn}(ptr {ptr}, {ty} {v}, i32 {ORD[mo]}){md}"
                else:
                    line = f"{ind}{dst or ''}call {ty} @{fn}(ptr {ptr}, {ty} {v}, i32 {ORD[mo]})"
        elif "cmpxchg weak" in line and not skip:
            weak = True
            md = re.search(r', !dbg !\d+', line); md = md.group(0) if md else ""
            out.append(f"  call void @__mc_weak(){md}")
        out.append(line)
    for fn, ty in sorted(used): out.append(f"declare {ty} @{fn}(ptr, {ty}, i32) nounwind")
    if weak: out.append("declare void @__mc_weak() nounwind")
    return "\n".join(out)

def run(*a): subprocess.run(a, check=True)

def is_bc(p):
    with open(p, "rb") as f: return f.read(4) in (b"BC\xc0\xde", b"\xde\xc0\x17\x0b")

def instrument(src, dst):
    ll = dst + ".ll"
    t = subprocess.run([f"{BIN}/llvm-dis", "-o", "-", src], check=True, stdout=subprocess.PIPE).stdout.decode()
    t = rewrite(t)
    with open(ll, "w") as f: f.write(t)
    run(f"{BIN}/opt", "-passes=function(tsan)", "-tsan-instrument-func-entry-exit=0", ll, "-o", dst + ".bc")
    run(f"{BIN}/llc", "-O1", "-filetype=obj", "-relocation-model=pic", "-frame-pointer=all", "-function-sections", dst + ".bc", "-o", dst)
    os.unlink(dst + ".bc")
    if not os.environ.get("MC_KEEP_LL"): os.unlink(ll)

def main():
    args = sys.argv[1:]
    if len(args) == 1 and args[0].startswith("@"):
        args = [a for a in open(args[0][1:]).read().split("\n") if a]
    outp = args[args.index("-o") + 1]
    wd = outp + ".mc"; os.makedirs(wd, exist_ok=True)
    jobs = []; new = []; n = 0
    for a in args:
        if a.startswith("-Wl,-plugin-opt") or a.startswith("-plugin-opt") or "plugin" in a and a.startswith("-Wl"): continue
        if a == "-fuse-ld=lld": new.append(a); continue
        if a.endswith(".o") and os.path.isfile(a) and is_bc(a):
            n += 1; d = f"{wd}/{n}_{os.path.basename(a)}"; jobs.append((a, d)); new.append(d); continue
        if a.endswith(".rlib") and os.path.isfile(a):
            ms = subprocess.run([f"{BIN}/llvm-ar", "t", a], check=True, stdout=subprocess.PIPE).stdout.decode().split()
            n += 1; ex = f"{wd}/x{n}"; os.makedirs(ex, exist_ok=True)
            subprocess.run([f"{BIN}/llvm-ar", "x", os.path.abspath(a)], check=True, cwd=ex)
            objs = [m for m in ms if m.endswith(".o")]
            if not any(is_bc(f"{ex}/{m}") for m in objs): new.append(a); continue
            for m in objs:
                src = f"{ex}/{m}"
                if is_bc(src): jobs.append((src, f"{ex}/i_{m}")); new.append(f"{ex}/i_{m}")
                else: new.append(src)
            continue
        new.append(a)
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: instrument(*j), jobs))
    k = new.index("-o")
    new[k:k] = RT.split() + ["-lstdc++"]
    r = subprocess.run(["cc"] + new)
    sys.exit(r.returncode)

main()
