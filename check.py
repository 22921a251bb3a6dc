#!/usr/bin/env python3
"""Build the code under test and one harness from /repo's working tree, explore, write evidence.

usage: check.py PROPERTY [--tier quick|thorough] [--only SCENARIO] [--bound N] [--time-cap S] [--harness NAME]
       check.py --replay FILE
"""
import glob
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

FLAVORS = {
    # name: (compiler, flags)
    "asan": (
        "g++",
        "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,shift-exponent,integer-divide-by-zero,bounds,null,return "
        "-fno-sanitize-recover=all -DNDEBUG -D_GLIBCXX_ASSERTIONS",
    ),
    "plain": ("g++", "-O2 -g1 -DNDEBUG -D_GLIBCXX_ASSERTIONS"),
    # Instrumented for our own race detector and scheduler: the runtime is in mc/sched.cpp, not libtsan
    "race": ("clang++", "-O1 -g1 -DNDEBUG -D_GLIBCXX_ASSERTIONS -fsanitize=thread"),
    "tsan": ("g++", "-O1 -g1 -DNDEBUG -fsanitize=thread"),
}
INCLUDES = "-I{r}/include -I{r}/src -I{r}/src/stun -I{root}/mc"
COMMON = "-std=gnu++17 -DHAVE_OPENSSL=1"


def lib_sources():
    out = []
    for d in ("src", "src/sctp", "src/stun"):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            b = os.path.basename(f)
            if b.endswith("_macos.cpp") or b.endswith("_win.cpp"):
                continue
            out.append(f)
    return out


def build(chk):
    """Returns the path of the harness binary."""
    flavor = chk.get("flavor", "asan")
    cxx, flags = FLAVORS[flavor]
    hflavor_cxx, hflags = FLAVORS[chk.get("harness_flavor", flavor)]
    bdir = os.path.join(ROOT, "build", flavor)
    os.makedirs(bdir, exist_ok=True)
    inc = INCLUDES.format(r=REPO, root=ROOT)
    name = chk["harness"]
    lines = [
        "ninja_required_version = 1.8",
        f"rule cc\n  command = {cxx} {COMMON} {flags} {inc} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
        f"rule hcc\n  command = {hflavor_cxx} {COMMON} {hflags} {chk.get('harness_flags', '')} {inc} -Wall -MMD -MF $out.d -c $in -o $out\n"
        "  depfile = $out.d\n  deps = gcc",
        "rule ar\n  command = rm -f $out && ar rcsT $out $in",
        f"rule link\n  command = {cxx} {chk.get('link_flags', flags)} {chk.get('extra_link', '')} -o $out $in {chk.get('libs', '-lssl -lcrypto -lpthread')}",
    ]
    objs = []
    for f in lib_sources():
        o = os.path.join(bdir, os.path.relpath(f, REPO).replace("/", "_") + ".o")
        lines.append(f"build {o}: cc {f}")
        objs.append(o)
    hobjs = []
    for f in chk["sources"]:
        src = os.path.join(ROOT, "mc", f)
        o = os.path.join(bdir, name + "_" + f.replace("/", "_") + ".o")
        lines.append(f"build {o}: hcc {src}")
        hobjs.append(o)
    exe = os.path.join(bdir, name)
    if chk.get("no_lib"):
        lines.append(f"build {exe}: link {' '.join(hobjs)}")
    else:
        lib = os.path.join(bdir, "libsrtc.a")
        lines.append(f"build {lib}: ar {' '.join(objs)}")
        if chk.get("lib_first"):
            # Instrumented instances of templates have to be chosen over the harness' own
            lines.append(f"build {exe}: link {' '.join(objs)} {' '.join(hobjs)}")
        else:
            lines.append(f"build {exe}: link {' '.join(hobjs)} {lib}")
    lines.append(f"default {exe}")
    nf = os.path.join(bdir, name + ".ninja")
    with open(nf, "w") as f:
        f.write("\n".join(lines) + "\n")
    # builddir holds the ninja log and deps; one per harness would rebuild the library, so share it
    r = subprocess.run(["ninja", "-C", bdir, "-f", nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("check error: build failed")
        sys.exit(3)
    return exe


def run_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = (
        "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=2000:"
        "hard_rss_limit_mb=2500:detect_stack_use_after_return=0:print_legend=0"
    )
    env["TSAN_OPTIONS"] = (
        "exitcode=77:halt_on_error=1:detect_deadlocks=0:report_signal_unsafe=0:report_thread_leaks=0:report_mutex_bugs=0:"
        "history_size=2:suppress_equal_stacks=0"
    )
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    return env


def read_known(prop):
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                parts = line[7:].strip().split(" ", 2)
                if parts[0] == "property=" + prop and len(parts) == 3 and parts[1].startswith("key="):
                    out.append((parts[1][4:], parts[2]))
    return out


def main():
    argv = sys.argv[1:]
    if argv and argv[0] == "--replay":
        info = {}
        for line in open(argv[1]):
            if ": " not in line and not line.startswith("trace:"):
                break
            k, _, v = line.partition(":")
            info[k.strip()] = v.strip()
        chk = CHECKS[info["property"]]
        for c in [chk] + chk.get("more", []):
            if c["harness"] == info.get("harness", chk["harness"]):
                chk = c
        exe = build(chk)
        cmd = [exe, "--property", info["property"], "--seed", info.get("seed", "1"), "--replay",
               f"{info['scenario']}:{info['bound']}:{info['trace']}"]
        if info.get("tier") == "thorough":
            cmd.append("--thorough")
        sys.exit(subprocess.run(cmd, env=run_env()).returncode)

    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    extra = []
    harness = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 2
        elif argv[i] == "--harness":
            harness = argv[i + 1]
            i += 2
        elif argv[i] in ("--only", "--bound", "--time-cap", "--jobs"):
            extra += [argv[i], argv[i + 1]]
            i += 2
        else:
            sys.exit("bad argument " + argv[i])
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chks = [CHECKS[prop]] + CHECKS[prop].get("more", [])
    if harness:
        chks = [c for c in chks if c["harness"] == harness]
    t0 = time.time()
    t_build = 0.0
    evdir = os.path.join(ROOT, "evidence")
    rdir = os.path.join(ROOT, "build", "replays")
    tmp = os.path.join(ROOT, "build", "tmp")
    for d in (evdir, rdir, tmp):
        os.makedirs(d, exist_ok=True)
    s = {"states": 0, "transitions": 0, "executions": 0, "samples": [], "outcomes": 0, "capped": False, "scenarios": [],
         "states_capped": False, "known_hits": {}, "violations": 0}
    rc = 0
    assumptions = []
    for chk in chks:
        tb = time.time()
        exe = build(chk)
        t_build += time.time() - tb
        stats = os.path.join(tmp, f"stats-{prop}-{os.getpid()}.json")
        cmd = [exe, "--property", prop, "--stats", stats, "--replay-dir", rdir, "--tmp-dir", tmp, "--seed", str(seed),
               "--known", os.path.join(ROOT, "known_findings.txt")]
        if "--time-cap" not in extra:
            cmd += ["--time-cap", str(chk.get("cap", 500 // len(chks))) if tier == "quick" else str(14400 // len(chks))]
        if tier == "thorough":
            cmd.append("--thorough")
        cmd += extra
        r = subprocess.run(cmd, env=run_env(), stdout=subprocess.PIPE, text=True)
        sys.stdout.write(r.stdout)
        sys.stdout.flush()
        if r.returncode not in (0, 1) or not os.path.exists(stats):
            print("check error: harness ended with", r.returncode)
            sys.exit(3)
        one = json.load(open(stats))
        os.unlink(stats)
        for k in ("states", "transitions", "executions", "outcomes", "violations"):
            s[k] += one[k]
        s["capped"] = s["capped"] or one["capped"]
        s["states_capped"] = s["states_capped"] or one["states_capped"]
        s["samples"] += one["samples"][:3]
        s["scenarios"] += one["scenarios"]
        for k, v in one["known_hits"].items():
            s["known_hits"][k] = s["known_hits"].get(k, 0) + v
        assumptions += chk.get("assumptions", [])
        if r.returncode == 1:
            rc = 1
            path = os.path.join(rdir, prop + ".replay")
            if os.path.exists(path):
                text = open(path).read()
                with open(path, "w") as f:
                    f.write("harness: " + chk["harness"] + "\n" + text)
            break
    cov = {
        "states": s["states"],
        "transitions": s["transitions"],
        "traces_validated_against_impl": s["executions"],
        "samples": s["samples"] or ["(no sample kept)"],
        "distinct_outcomes": s["outcomes"],
        "exhaustive": (not s["capped"]),
        "scenarios": s["scenarios"],
        "states_are": "distinct observed states (hash of everything the harness observes of the code under test and of "
        "the reference model after an operation)",
        "transitions_are": "operations executed on the real code over all explored executions",
        "traces_are": "complete executions explored; every one of them runs the real implementation, there is no "
        "separate model to bind",
        "build_s": round(t_build, 1),
    }
    if s["states_capped"]:
        cov["states_note"] = "the table of distinct states is full, the count is a lower bound"
    if s["known_hits"]:
        cov["known_finding_hits"] = s["known_hits"]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": s["violations"],
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key, text in read_known(prop):
        print(f"KNOWN-FINDING: property={prop} {text} (reached {s['known_hits'].get(key, 0)} times)")
    sys.exit(rc)


if __name__ == "__main__":
    main()
