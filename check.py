#!/usr/bin/env python3
"""Build and run one check against /repo's working tree.

usage: check.py ID [quick|thorough] [--replay FILE]

exit 0: the property held on everything explored
exit 1: violation (a line 'VIOLATION property=ID replay=PATH' is printed)
exit 2: no answer (the harness or /repo does not build, or the checker itself failed)
"""
import concurrent.futures
import glob
import json
import os
import resource
import shutil
import signal
import subprocess
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(ROOT, "mc")
MEM = 14 << 30


# `release`: with debug assertions and overflow checks; `plain`: without, as users ship it
BUILDS = ("release", "plain")


def build_one(prop, profile):
    # /repo's sources are tracked by modification time only; a restored or
    # replaced tree may carry older times, so cargo is made to look again.
    for d in glob.glob(os.path.join(MC, "target", profile, ".fingerprint", "ur20-*")):
        shutil.rmtree(d, ignore_errors=True)
    cmd = ["cargo", "build", "--offline", "--profile", profile, "--bin", prop.lower()]
    for attempt in range(2):
        r = subprocess.run(cmd, cwd=MC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return None
        if attempt == 0:
            # left-over build products of another machine: start again
            shutil.rmtree(os.path.join(MC, "target", profile), ignore_errors=True)
    return r.stdout[-4000:]


def build(prop):
    with concurrent.futures.ThreadPoolExecutor() as ex:
        for out in ex.map(lambda p: build_one(prop, p), BUILDS):
            if out is not None:
                print(out)
                print("check.py: the harness does not build against /repo")
                return False
    return True


def exe_of(prop, profile):
    return os.path.join(MC, "target", profile, prop.lower())


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(args):
    p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", preexec_fn=limits)
    out = p.communicate()[0]
    return p.returncode, out


def tell(out):
    sys.stdout.write(out[-20000:])
    sys.stdout.flush()


def crashed(prop, tier, exe, code, extra=()):
    """The checker was killed (abort, out of memory, stack overflow): find the
    case that does it and run that one alone."""
    why = f"ended by {signal.Signals(-code).name}" if code < 0 else f"ended with status {code}"
    print(f"check.py: the checker was {why}; looking for the case")
    journal = os.path.join(ROOT, "replays", f"{prop}.journal")
    os.makedirs(os.path.dirname(journal), exist_ok=True)
    base = [exe, "--root", ROOT, "--tier", tier, *extra]
    code2, out = run(base + ["--journal", journal])
    if code2 in (0, 1):
        tell(out)
        if code2 == 0:
            # did not happen again: nothing that can be shown
            print("check.py: the second run completed")
        return code2
    names = subprocess.run(base + ["--list"], capture_output=True, text=True).stdout.splitlines()
    seen = []
    with open(journal) as f:
        for line in f.read().replace("\0", " ").splitlines():
            w = line.split()
            if len(w) == 2 and w not in seen:
                seen.append(w)
    for fam, idx in seen:
        path = os.path.join(ROOT, "replays", f"{prop}.txt")
        with open(path, "w") as f:
            f.write(f"property: {prop}\ntier: {tier.capitalize()}\n"
                    f"build: {os.path.basename(os.path.dirname(exe))}\nfamily: {names[int(fam)]}\nindex: {idx}\n"
                    f"rerun: python3 {ROOT}/check.py {prop} --replay {path}\n\n"
                    "the process is ended by this case (abort, stack overflow or memory exhausted)\n")
        c, out = run([exe, "--root", ROOT, "--replay", path])
        if c not in (0,):
            tell(out)
            print(f"family {names[int(fam)]} case {idx}: "
                  + ("violation" if c == 1 else "the library ends the process or exhausts its memory"))
            if c != 1:
                print(f"VIOLATION property={prop} replay={path}")
            return 1
    print("check.py: no single case ends the process")
    return 2


def main():
    a = sys.argv[1:]
    prop = a[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) > 1 and a[1] in ("quick", "thorough"):
        tier = a[1]
    os.environ.setdefault("VERIF_SEED", "1")
    os.environ.setdefault("CARGO_NET_OFFLINE", "true")
    os.environ.pop("CARGO_TARGET_DIR", None)
    os.environ.pop("RUSTFLAGS", None)
    if not build(prop):
        return 2
    if "--replay" in a:
        f = a[a.index("--replay") + 1]
        with open(f) as h:
            profile = "plain" if "\nbuild: plain\n" in h.read() else "release"
        c, out = run([exe_of(prop, profile), "--root", ROOT, "--replay", f])
        tell(out)
        if c not in (0, 1):
            print(f"VIOLATION property={prop} replay={f}")
            return 1
        return c
    evidence = os.path.join(ROOT, "evidence", f"{prop}.json")
    code = 0
    for profile in BUILDS:
        exe = exe_of(prop, profile)
        second = os.path.join(MC, "target", f"{prop}.json")
        extra = []
        if profile == "plain":
            tier = "quick"
            extra = ["--evidence", second]
        code, out = run([exe, "--root", ROOT, "--tier", tier, *extra])
        tell(out)
        if code not in (0, 1):
            code = crashed(prop, tier, exe, code, extra)
        if profile == "plain" and os.path.exists(second):
            merge(evidence, second)
        if code != 0:
            return code
    return 0


def merge(evidence, second):
    """Add what was explored without debug assertions to the evidence."""
    with open(evidence) as f:
        e = json.load(f)
    with open(second) as f:
        p = json.load(f)
    c = p["coverage"]
    e["coverage"]["again_without_debug_assertions"] = {
        "tier": p["tier"],
        "executions": c.get("executions", c.get("evaluations")),
        "states": c.get("states", 0),
        "transitions": c.get("transitions", 0),
        "families": [f"{f['name']}: {f['cases']} of {f['of']}" for f in c["families"]],
    }
    e["violations"] += p["violations"]
    e["wall_s"] = round(e["wall_s"] + p["wall_s"], 3)
    with open(evidence, "w") as f:
        json.dump(e, f)
        f.write("\n")
    os.remove(second)


if __name__ == "__main__":
    sys.exit(main())
