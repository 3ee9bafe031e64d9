#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and runs one property's
check, or replays a recorded violation.

  check.py --prop C01              quick or thorough by VERIF_TIER
  check.py --replay FILE [--show]  one recorded run, exactly
  check.py --setup                 build every variant
"""
import argparse
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import time

V = os.path.dirname(os.path.realpath(__file__))
REPO = "/repo"
SIM = os.path.join(V, "sim")
BUILD = os.path.join(V, "build")
SHARDS = 8  # fixed, so that what is explored does not depend on the machine

# ---------------------------------------------------------------- variants
# name -> (target dir, cargo arguments, extra environment)
PC = "-fsanitize-coverage=trace-pc"
FINE = ("-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores "
        "-fsanitize=bounds,local-bounds,object-size -fsanitize-trap=all")

ASAN = ("-fsanitize=address -mllvm -asan-instrumentation-with-call-threshold=0 -mllvm -asan-use-after-return=never "
        "-mllvm -asan-instrument-dynamic-allocas=0 -fsanitize-coverage=trace-pc")


def c_variant(name, feature, flags=PC, **env):
    return (name, ["--release", "--no-default-features", "--features", feature], dict(CFLAGS=flags, **env))


VARIANTS = {
    "rel": ("rel", ["--release"], {}),
    "chk": ("chk", ["--profile", "checked"], {}),
    "seq": ("seq", ["--release", "--no-default-features"], {}),
    "fine": ("fine", ["--release"], {"SIM_FINE": "1"}),
    "noarch": ("noarch", ["--profile", "checked"], {"SIM_NOARCH": "1"}),
    "c_portable": c_variant("c_portable", "c_portable"),
    "c_sse41": c_variant("c_sse41", "c_sse41"),
    "c_avx2": c_variant("c_avx2", "c_avx2"),
    "c_avx512": c_variant("c_avx512", "c_avx512"),
    "c_avx512e": c_variant("c_avx512e", "c_avx512", SIM_EMUL512="1"),
    "c_neon": c_variant("c_neon", "c_neon"),
    "c_fine": c_variant("c_fine", "c_avx2", FINE, SIM_FINE="1"),
    "asan": ("asan", ["--release"], {"SIM_ASAN": "1"}),
    "c_asan": c_variant("c_asan", "c_avx2", ASAN, SIM_ASAN="1"),
    "c_asan1": c_variant("c_asan1", "c_portable", ASAN, SIM_ASAN="1"),
    "c_asan16": c_variant("c_asan16", "c_avx512", ASAN, SIM_ASAN="1"),
    "c_asan16e": c_variant("c_asan16e", "c_avx512", ASAN, SIM_ASAN="1", SIM_EMUL512="1"),
    "c_asann": c_variant("c_asann", "c_neon", ASAN, SIM_ASAN="1"),
    "cli": ("cli", ["--release"], {}),
    "cli_chk": ("cli_chk", ["--profile", "checked"], {}),
    "cli_noarch": ("cli_noarch", ["--release"], {"SIM_NOARCH": "1"}),
}


def has_avx512():
    try:
        flags = open("/proc/cpuinfo").read()
    except OSError:
        return False
    return " avx512f" in flags and " avx512vl" in flags


AVX512 = "c_avx512" if has_avx512() else "c_avx512e"
ASAN512 = "c_asan16" if has_avx512() else "c_asan16e"
C_ALL = ["c_portable", "c_sse41", "c_avx2", AVX512, "c_neon"]


# the library as processors other than x86 get it (see wrap.sh)
OPTIONAL = {"noarch", "cli_noarch"}

# other machines, interpreted: name -> (target, features)
FAR = {
    "far-be": ("s390x-unknown-linux-gnu", []),         # 64 bits, big-endian
    "far-32": ("armv7-unknown-linux-gnueabihf", []),   # 32 bits
    "far-be32": ("powerpc-unknown-linux-gnu", []),     # 32 bits, big-endian
    "far-i686": ("i686-unknown-linux-gnu", []),        # 32 bits, with the code for x86
    "far-arm": ("aarch64-unknown-linux-gnu", []),
    "far": ("x86_64-unknown-linux-gnu", []),
    "far-par": ("x86_64-unknown-linux-gnu", ["par"]),
}
OPTIONAL |= set(FAR)


class Trouble(Exception):
    """The check itself could not do its work."""


def tree_hash(root, skip):
    h = hashlib.sha256()
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in skip)
        for f in sorted(files):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build(name):
    """Builds a variant unless what is there was built from these sources.

    Cargo goes by modification times, which say nothing about whether a file
    was put back or swapped; contents decide here."""
    tdir, args, env = VARIANTS[name]
    target = os.path.join(BUILD, tdir)
    os.makedirs(target, exist_ok=True)
    is_cli = name.startswith("cli")
    exe = os.path.join(target, "checked" if "checked" in args else "release", "simcli" if is_cli else "sim")
    with open(target + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = {"repo": tree_hash(REPO, {".git", "target"}), "sim": tree_hash(SIM, {"target"}), "v": 2}
        stamp = os.path.join(target, "stamp.json")
        try:
            have = json.load(open(stamp))
        except (OSError, ValueError):
            have = None
        if have == want and os.path.exists(exe):
            return exe
        if have is None or have.get("sim") != want["sim"] or have.get("v") != want["v"]:
            shutil.rmtree(target, ignore_errors=True)
            os.makedirs(target, exist_ok=True)
        elif os.path.exists(stamp):
            os.remove(stamp)
        e = dict(os.environ)
        for k in list(e):
            if k.startswith(("CARGO_", "RUSTFLAGS", "CFLAGS", "SIM_")) and k not in ("CARGO_HOME",):
                e.pop(k)
        e.update(RUSTC_WRAPPER=os.path.join(SIM, "wrap.sh"), CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0",
                 CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **env)
        if "CFLAGS" in env:
            e["CC"] = os.path.join(SIM, "ccwrap.sh")
            n = c_hasher_size(target)
            if n:
                e["SIM_C_HASHER"] = n
        cwd = os.path.join(SIM, "cli") if is_cli else SIM
        if have is not None and have.get("repo") != want["repo"]:
            pk = ["baokeshed", "simcli"] if is_cli else ["baokeshed", "reference_impl", "probe", "sim"]
            prof = ["--profile", "checked"] if "checked" in args else ["--release"]
            subprocess.run(["cargo", "clean", "--offline", *prof] + [x for p in pk for x in ("-p", p)],
                           cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "-j", "4", *args], cwd=cwd, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(exe):
            raise Trouble("building %s failed:\n%s" % (name, r.stdout[-3000:]))
        with open(stamp, "w") as f:
            json.dump(want, f)
    return exe


def c_hasher_size(where):
    """What the C code takes for a hasher, from its own compiler; nothing if
    that cannot be found out."""
    src, obj = os.path.join(where, "size.c"), os.path.join(where, "size.o")
    try:
        with open(src, "w") as f:
            f.write('#include "%s/c/baokeshed.c"\nchar sim_size_of_hasher[sizeof(hasher)];\n' % REPO)
        subprocess.run(["gcc", "-w", "-c", "-O0", "-o", obj, src], check=True, stdin=subprocess.DEVNULL,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        r = subprocess.run(["nm", "-S", obj], check=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
        for l in r.stdout.splitlines():
            w = l.split()
            if len(w) == 4 and w[3] == "sim_size_of_hasher":
                return str(int(w[1], 16))
    except (OSError, subprocess.SubprocessError, ValueError):
        pass
    return ""


def build_far(name):
    """The crate in sim/far and the standard library for another target, and a
    script that runs a plan there: SEED PREEMPTION-RATE PLAN."""
    target, features = FAR[name]
    top = os.path.join(BUILD, name)
    os.makedirs(top, exist_ok=True)
    script = os.path.join(top, "run.sh")
    with open(top + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = {"repo": tree_hash(REPO, {".git", "target"}), "far": tree_hash(os.path.join(SIM, "far"), {"target"}), "v": 2}
        stamp = os.path.join(top, "stamp.json")
        try:
            have = json.load(open(stamp))
        except (OSError, ValueError):
            have = None
        if have == want:
            return script
        shutil.rmtree(os.path.join(top, "target"), ignore_errors=True)
        for f in (script, stamp):
            if os.path.exists(f):
                os.remove(f)
        e = {k: x for k, x in os.environ.items() if not k.startswith(("RUST", "CFLAGS", "SIM_", "MIRI")) and (k == "CARGO_HOME" or not k.startswith("CARGO_"))}
        e.update(MIRI_SYSROOT=os.path.join(top, "sysroot"), CARGO_TARGET_DIR=os.path.join(top, "target"), CARGO_NET_OFFLINE="true",
                 CARGO_TERM_COLOR="never")
        cwd = os.path.join(SIM, "far")
        for a in (["setup"], ["run", "-v", "--release", "--locked"] + (["--features", ",".join(features)] if features else [])):
            try:
                r = subprocess.run(["cargo", "+nightly", "miri", *a, "--offline", "--target", target], cwd=cwd, env=e, timeout=600,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            except (OSError, subprocess.TimeoutExpired) as x:
                raise Trouble("%s: %s" % (name, x))
            if r.returncode != 0:
                raise Trouble("%s: %s" % (name, r.stdout[-2000:]))
        m = re.findall(r"Running `([^`]*?cargo-miri) runner (\S+)`", r.stdout)
        if not m or "done" not in r.stdout:
            raise Trouble("%s: no way to start the interpreter: %s" % (name, r.stdout[-2000:]))
        with open(script, "w") as f:
            f.write("#!/bin/bash\n# plan $3 under seed $1\ncd %s\nexport MIRI_SYSROOT=%s CARGO_TARGET_DIR=%s\n"
                    'export MIRIFLAGS="-Zmiri-seed=$1 -Zmiri-preemption-rate=0.$(printf %%02d $2) -Zmiri-num-cpus=3 -Zmiri-ignore-leaks -Zmiri-permissive-provenance '
                    '-Zmiri-disable-stacked-borrows -Zmiri-disable-validation"\n'
                    'exec %s runner %s "$3"\n' % (cwd, e["MIRI_SYSROOT"], e["CARGO_TARGET_DIR"], m[-1][0], os.path.join(cwd, m[-1][1])))
        os.chmod(script, 0o755)
        with open(stamp, "w") as f:
            json.dump(want, f)
    return script


def build_all(names):
    names = list(dict.fromkeys(names))
    exes, notes = {}, []
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        futs = {n: ex.submit(build_far if n in FAR else build, n) for n in names}
        for n, f in futs.items():
            try:
                exes[n] = f.result()
            except Trouble as t:
                if n in OPTIONAL:
                    # what does not build for other processors may well do on this one
                    notes.append("%s could not be built and was left out: %s" % (n, str(t)[-300:]))
                    continue
                # the AVX-512 sources can be built for this CPU or emulated
                other = {"c_avx512": "c_avx512e", "c_avx512e": "c_avx512", "c_asan16": "c_asan16e", "c_asan16e": "c_asan16"}.get(n)
                if other is None or (not other.endswith("e") and not has_avx512()):
                    raise
                notes.append("%s could not be built here, %s stands in: %s" % (n, other, str(t)[-200:]))
                exes[n] = build(other)
    return exes, notes


# ---------------------------------------------------------------- workloads
# property -> [(variant, runs in quick)]; thorough multiplies.
RUNS = {
    "C01": [("rel", 40000), ("chk", 16000), ("seq", 4000), ("noarch", 4000)],
    "C02": [("rel", 40000), ("chk", 16000), ("noarch", 3000)],
    "C03": [("rel", 32000), ("fine", 8000), ("chk", 8000), ("seq", 4000), ("noarch", 4000), ("far-par", 96)],
    "C04": [("rel", 32000), ("chk", 12000), ("seq", 4000), ("noarch", 6000), ("far-be", 120), ("far-32", 80), ("far-i686", 80)],
    "C05": [(v, 11000) for v in C_ALL] + [("c_fine", 6000)],
    "C06": [("rel", 32000), ("chk", 12000), ("noarch", 3000)],
    "C07": [("rel", 60000), ("chk", 20000), ("noarch", 4000)],
    "C08": [("rel", 40000), ("chk", 16000), ("noarch", 3000)],
    "C09": [("rel", 16000), ("fine", 8000), ("chk", 6000), ("c_fine", 8000), ("c_avx2", 4000), (AVX512, 4000), ("c_neon", 2000),
            ("c_portable", 4000), ("noarch", 2000), ("far", 480)],
    "C10": [("rel", 20000), ("chk", 6000), ("seq", 3000), ("c_fine", 6000), ("asan", 16000), ("noarch", 3000)] + [(v, 6000) for v in C_ALL]
    + [(v, 6000) for v in ("c_asan", "c_asan1", ASAN512, "c_asann")],
    "C11": [("cli", 28000), ("cli_chk", 10000), ("cli_noarch", 3000)],
    "C12": [("cli", 36000), ("cli_chk", 10000), ("cli_noarch", 2000)],
    "C14": [("rel", 40000), ("chk", 16000), ("far-be", 80)],
    "C15": [("rel", 24000), ("fine", 6000), ("chk", 6000), ("seq", 2000), ("c_avx2", 2000), ("noarch", 2000)],
    "C16": [("cli", 24000), ("cli_chk", 10000)],
    "C17": [("rel", 20000), ("chk", 20000)],
    "C18": [("rel", 32000), ("chk", 12000), ("noarch", 1000), ("cli", 12000), ("cli_chk", 3000)],
    "C22": [("rel", 32000), ("chk", 12000)],
    "C24": [("cli", 20000), ("cli_chk", 6000), ("rel", 12000), ("seq", 3000)] + [(v, 4000) for v in C_ALL],
    "C23": [("rel", 1200), ("chk", 320), ("seq", 160), ("c_avx2", 240), ("c_portable", 160), ("c_sse41", 160), (AVX512, 160), ("c_neon", 160),
            ("cli", 2400), ("cli_chk", 400), ("noarch", 160)],
}
MODES = ["hash", "keyed", "derive"]


def big_tasks(seed, thorough):
    """(variant, args) for the runs beyond 4 GiB."""
    t = []
    pick = (lambda i: MODES) if thorough else (lambda i: [MODES[(seed + i) % 3]])
    n = 300 if thorough else 60
    for lvl in (0, 1, 2):
        for m in pick(lvl):
            t.append(("rel", dict(what="one", hkind="rust", mode=m, level=lvl, count=(12 if thorough else 3))))
    for lvl in (0, 1, 2):
        for m in pick(lvl + 1):
            t.append(("rel", dict(what="stream", hkind="rust", mode=m, level=lvl, count=3 * n)))
            t.append(("rel", dict(what="xof", hkind="rust", mode=m, level=lvl, count=3 * n)))
    for m in pick(0):
        t.append(("chk", dict(what="stream", hkind="rust", mode=m, level=2, count=n)))
        t.append(("chk", dict(what="xof", hkind="rust", mode=m, level=0, count=n)))
        t.append(("rel", dict(what="stream", hkind="ref", mode=m, level=2, count=n)))
    if thorough:
        for m in pick(0):
            for lvl in (0, 1):
                t.append(("chk", dict(what="stream", hkind="rust", mode=m, level=lvl, count=n)))
            t.append(("chk", dict(what="stream", hkind="ref", mode=m, level=2, count=n)))
    for i, v in enumerate(C_ALL):
        for m in pick(i):
            t.append((v, dict(what="stream", hkind="c", mode=m, level=2, count=2 * n)))
    return t


def deep_tasks(prop, seed, thorough):
    """(variant, args) for the other properties' runs on long messages: a
    hasher is brought to a mark, and histories are explored from there."""
    t = []

    def add(variants, what, kind, marks, count, levels=(2,)):
        for i, v in enumerate(variants):
            for j, m in enumerate(marks):
                lv = levels if thorough else (levels[(seed + i + j) % len(levels)],)
                for k in lv:
                    modes = MODES if thorough else [MODES[(seed + i + j + k) % 3]]
                    for mode in modes:
                        t.append((v, dict(what=what, hkind=kind, mode=mode, level=k, mark=m, count=count * (8 if thorough else 1))))

    marks = [1 << 19, 1 << 23, 1 << 24, 1 << 27, 3 << 26]
    odd = 2048 * (20_000 + 2741 * (seed % 19))
    far = [1 << 28, 1 << 29] if thorough else []
    top = [1 << 32]
    if prop in ("C01", "C02", "C08"):
        add(["rel"], "stream", "rust", marks + far + top + [odd], 40, (0, 1, 2))
        add(["chk"], "stream", "rust", [1 << 24, 1 << 27] + far, 20, (2, 0))
    elif prop == "C04":
        add(["rel"], "stream", "rust", [1 << 24, 1 << 27] + far, 30, (0, 1, 2))
        add(["rel"], "one", "rust", [1 << 24, 1 << 27] + far, 8, (0, 1, 2))
        add(["rel"], "stream", "rust", top, 20, (0, 1, 2))
    elif prop == "C03":
        add(["rel"], "one", "rust", [1 << 20, 1 << 22, 1 << 24, 1 << 27] + far + [odd], 12, (0, 1, 2))
        add(["rel"], "one", "rust", top, 2, (2, 1))
        add(["chk"], "one", "rust", [1 << 24, 1 << 27], 5, (2, 0))
    elif prop == "C05":
        add(C_ALL, "stream", "c", [1 << 19, 1 << 24, 1 << 27] + far, 30)
        add(["c_fine"], "stream", "c", [1 << 24], 20)
        add(C_ALL if thorough else [C_ALL[seed % len(C_ALL)]], "stream", "c", top, 30)
    elif prop == "C06":
        add(["rel"], "xof", "rust", [1 << 16, 1 << 22, 1 << 24, 1 << 27] + far + top, 40, (0, 1, 2))
        add(["chk"], "xof", "rust", [1 << 22], 20, (0, 2))
    elif prop == "C07":
        add(["rel"], "copy", "rust", [1 << 27, 1 << 31, 1 << 32], 3)
    elif prop == "C10":
        add(["rel"], "one", "rust", [1 << 27], 6, (0, 1, 2))
    elif prop == "C15":
        add(["rel"], "stream", "rust", [1 << 24, 1 << 27], 20, (0, 1, 2))
        add(["rel"], "one", "rust", [1 << 24, 1 << 27] + far, 5, (0, 1, 2))
        add(["rel"], "copy", "rust", [1 << 27], 3)
        add(["c_avx2"], "stream", "c", [1 << 24], 20)
    elif prop == "C11":
        for shape in range(6):
            for m in MODES if thorough else [MODES[(seed + shape) % 3]]:
                t.append(("cli", dict(what="cli", hkind="cli", mode=m, level=shape, count=(12 if thorough else 3))))
    elif prop == "C14":
        add(["rel"], "stream", "ref", marks + far + [odd], 40)
        add(["chk"], "stream", "ref", [1 << 24, 1 << 27], 20)
        add(["rel"], "refout", "ref", [1 << 22, 1 << 24, 1 << 26] + far, 2)
        add(["rel"], "stream", "ref", top, 20)
        add(["rel"], "refout", "ref", top, 1)
        add(["chk"], "refout", "ref", [1 << 22], 2)
    return t


TECH = "seeded deterministic simulation with fault injection, against an executable reference model"
REAL = {
    "lib": ["baokeshed library (src/*.rs, every CPU level)", "rayon, rayon-core, crossbeam", "Rust std threads, locks, channels"],
    "c": ["baokeshed C sources (c/*.c)", "src/c.rs binding"],
    "cli": ["baokeshed_bin/src/main.rs", "docopt, memmap, anyhow", "baokeshed library with rayon"],
}
STUB = {
    "lib": ["thread scheduler, futexes, clocks, sleep, randomness: simulated", "CPU feature detection: simulated through the cfg(baokeshed_sim) seam",
            "readers and writers: scripted, with faults"],
    "cli": ["open, statx, mmap, read, write: simulated file system with faults", "thread scheduler, futexes, clocks: simulated",
            "CPU feature detection: simulated"],
}


class Stop(Exception):
    pass


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.out = os.path.join(BUILD, "out", prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.replays = os.path.join(V, "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.procs = set()
        self.stopping = False
        self.stats = []
        self.notes = []
        self.known = []
        self.cpus = sorted(os.sched_getaffinity(0))

    def cmd(self, args, cpu):
        if self.stopping:
            return None
        p = subprocess.Popen(args + ["--pin", str(cpu)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             errors="replace", start_new_session=True)
        self.procs.add(p)
        out, _ = p.communicate()
        self.procs.discard(p)
        return p.returncode, out

    def stop(self):
        self.stopping = True
        for p in list(self.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass

    def run(self, tasks):
        """tasks: (variant, argv, out). Stops at the first violation."""
        free = list(self.cpus)
        violations = []
        t0 = time.time()

        def one(t):
            variant, argv, out = t
            cpu = free.pop()
            try:
                return t, self.cmd(argv, cpu)
            finally:
                free.append(cpu)

        with cf.ThreadPoolExecutor(max_workers=len(self.cpus)) as ex:
            for f in cf.as_completed([ex.submit(one, t) for t in tasks]):
                t, r = f.result()
                if r is None or (self.stopping and r[0] < 0):
                    continue
                code, text = r
                if code not in (0, 1) or not os.path.exists(t[2]):
                    try:
                        text += " ".join(json.load(open(t[2]))["harness"])
                    except (OSError, ValueError, KeyError):
                        pass
                    self.notes.append("task %s ended with %d: %s" % (" ".join(t[1][1:]), code, text[-1500:]))
                    continue
                s = json.load(open(t[2]))
                s["variant"] = t[0]
                s["file"] = t[2]
                self.known += s.get("known", [])
                self.stats.append(s)
                if code == 1:
                    violations += s["reports"]
                    self.stop()
        self.wall = time.time() - t0
        return violations


def u64s(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return ()
    return struct.unpack("<%dQ" % (len(b) // 8), b)


def known_findings():
    """finding: property=ID class=CLASS match=REGEX   (the rest describes it)"""
    out = []
    try:
        for l in open(os.path.join(V, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(\S+)\s*(.*)", l)
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def check(prop, tier, seed):
    t0 = time.time()
    r = Runner(prop, tier, seed)
    limit = 3000 if r.thorough else 400
    if prop == "C13":
        plan = big_tasks(seed, r.thorough)
        variants = [v for v, _ in plan]
    else:
        plan = RUNS[prop]
        if r.thorough and prop in ("C05", "C09", "C10") and AVX512 == "c_avx512":
            plan = plan + [("c_avx512e", 2000)]
        if r.thorough and prop == "C04":
            plan = plan + [("far-be32", 20), ("far-arm", 20)]
        variants = [v for v, _ in plan]
    deep = deep_tasks(prop, seed, r.thorough)
    variants = list(dict.fromkeys(variants + [v for v, _ in deep]))
    cliv = {"cli": "rel", "cli_chk": "rel", "cli_noarch": "rel", **{n: "rel" for n in FAR}}
    need = variants + ["rel"] + (["cli"] if prop == "C15" else [])
    exes, notes = build_all(need)
    build_s = time.time() - t0
    plan = [(v, a) for v, a in plan if v in exes]
    deep = [(v, a) for v, a in deep if v in exes]
    st = subprocess.run([exes["rel"], "selftest", os.path.join(SIM, "golden.txt")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if st.returncode != 0:
        raise Trouble("model self-test: " + st.stdout)
    tasks = []
    common = ["--seed", str(seed), "--replays", r.replays, "--minsecs", "60" if r.thorough else "15"]
    if prop == "C13":
        for m in MODES:
            out = subprocess.run([exes["rel"], "big", "--derive", m, "--check"] + ([] if r.thorough else ["--max", str(1 << 26)]),
                                 stdout=subprocess.PIPE, text=True)
            if out.returncode != 0:
                raise Trouble("golden table: " + out.stdout)
        for i, (v, a) in enumerate(plan):
            o = os.path.join(r.out, "%d.json" % i)
            argv = [exes[v], "big", "--variant", v, "--out", o, "--limit", str(limit)] + common
            for k, x in a.items():
                argv += ["--" + k, str(x)]
            tasks.append((v, argv, o))
    else:
        mult = 12 if r.thorough else 1
        for i, (v, a) in enumerate(deep):
            o = os.path.join(r.out, "deep%d.json" % i)
            argv = [exes[cliv.get(v, v)], "big", "--prop", prop, "--variant", v, "--cli", exes.get(v, ""), "--out", o, "--limit", str(limit)] + common
            for k, x in a.items():
                argv += ["--" + k, str(x)]
            tasks.append((v, argv, o))
        for v, n in plan:
            exe = exes[cliv.get(v, v)]
            n = n * mult
            for s in range(SHARDS):
                o = os.path.join(r.out, "%s-%d.json" % (v, s))
                argv = [exe, "batch", "--prop", prop, "--variant", v, "--start", str(s), "--stride", str(SHARDS),
                        "--count", str(n // SHARDS), "--out", o, "--limit", str(limit)] + common
                if v in cliv:
                    argv += ["--cli", exes[v]]
                elif prop == "C15":
                    argv += ["--cli", exes["cli"]]
                listed = [c for (p, c, _, _) in known_findings() if p == prop]
                if listed:
                    argv += ["--known", ",".join(listed)]
                if r.thorough:
                    argv.append("--thorough")
                tasks.append((v, argv, o))
    reports = r.run(tasks)
    # the same seeds once more, elsewhere: one seed is one execution
    recheck = determinism(r, prop, exes, plan, cliv, seed) if prop != "C13" and not reports else None
    known, new = [], []
    for rep in reports + r.known:
        path, _, what = rep.partition("\n")
        cls, _, detail = what.partition(": ")
        for (p, c, m, text) in known_findings():
            if p == prop and c == cls.replace(" ", "_") and re.search(m, detail):
                if (text or what) not in known:
                    known.append(text or what)
                break
        else:
            new.append((path, what))
    evidence(r, prop, tier, seed, build_s, notes, recheck, len(new), time.time() - t0)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if new:
        for path, what in new[:1]:
            print(what)
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for n in r.notes:
        print("harness: " + n)
    if r.notes:
        return 2
    ev = sum(s["runs"] for s in r.stats)
    print("%s held on %d simulated runs (%s, seed %d, %.1f s)" % (prop, ev, tier, seed, time.time() - t0))
    return 0


def determinism(r, prop, exes, plan, cliv, seed):
    runs = same = 0
    for v, count in [(plan[0][0], 60)] + [(v, 4) for v, _ in plan if v in FAR][-1:]:
        def once(k):
            log = os.path.join(r.out, "det-%s-%d.log" % (v, k))
            argv = [exes[cliv.get(v, v)], "batch", "--prop", prop, "--variant", v, "--start", "3", "--stride", "8", "--count", str(count),
                    "--seed", str(seed), "--out", os.path.join(r.out, "det-%s-%d.json" % (v, k)), "--log", log, "--replays", r.out]
            argv += ["--cli", exes[v] if v in cliv else exes.get("cli", "")]
            r.cmd(argv, r.cpus[k * (len(r.cpus) - 1)])
            try:
                return open(log).read().splitlines()
            except OSError:
                return []
        with cf.ThreadPoolExecutor(max_workers=2) as ex:
            logs = list(ex.map(once, range(2)))
        runs += len(logs[0])
        same += sum(a == b for a, b in zip(*logs))
    return {"runs_repeated_on_another_cpu": runs, "identical_traces_schedules_and_outcomes": same}


def evidence(r, prop, tier, seed, build_s, notes, recheck, nviol, wall):
    st = r.stats
    runs = sum(s["runs"] for s in st)
    counters, samples = {}, []
    traces, scheds = set(), set()
    cov = {}
    for s in st:
        for k, (n, w) in s["counters"].items():
            c = counters.setdefault(k, [0, 0])
            c[0] += n
            c[1] += w
        traces.update((s["variant"], x) for x in u64s(s["file"] + ".traces"))
        scheds.update((s["variant"], x) for x in u64s(s["file"] + ".scheds"))
        if len(samples) < 3 and s["samples"]:
            samples.append({"variant": s["variant"], "plan": s["samples"][0].splitlines()[:60]})
        cov[s["variant"]] = cov.get(s["variant"], 0) | int(s["cov"] or "0", 16)
    cpu_h = sum(s["wall"] for s in st) / 3600.0
    wall_h = max(getattr(r, "wall", 0), 1e-9) / 3600.0
    faults = {k: {"injected": n, "runs": w} for k, (n, w) in counters.items() if k.startswith("fault_")}
    work = {k: {"count": n, "runs": w} for k, (n, w) in counters.items() if not k.startswith("fault_")}
    byv = {}
    for s in st:
        byv[s["variant"]] = byv.get(s["variant"], 0) + s["runs"]
    cli = prop in ("C11", "C12", "C16")
    both = prop in ("C15", "C18", "C23", "C24")
    cov_all = {
        "evaluations": runs,
        "distinct_nontrivial": len(traces),
        "rule": "One case is one simulated run: seed -> plan (operations, sizes, contents, faults, CPU level, threads, pool sizes, "
                "scheduling strategy), executed in a fresh process. Non-trivial: at least one result of the code under test was compared "
                "with the model. Distinct: its trace hash (every result, every thread switch with its step number) differs from that of "
                "every other run of the same variant.",
        "samples": samples,
        "runs_by_variant": byv,
        "runs_per_hour": int(runs / wall_h),
        "seeds_per_hour": int(runs / wall_h),
        "runs_per_cpu_hour": int(runs / cpu_h) if cpu_h else 0,
        "simulated_steps": sum(s["ticks"] for s in st),
        "simulated_seconds": round(sum(s["sim_ns"] for s in st) / 1e9, 3),
        "simulated_time_note": "the simulated clock advances 1 ns per control-flow step, plus sleeps and injected delays",
        "distinct_interleavings": len(scheds),
        "distinct_interleavings_note": "distinct sequences of (step, thread switched to), among the %d non-trivial runs that had at least one switch"
                                       % sum(s["multi"] for s in st),
        "max_threads_in_a_run": max([s["threads_max"] for s in st] or [0]),
        "longest_run_steps": max([s["max_ticks"] for s in st] or [0]),
        "step_cap_reached_permille_max": max([s["max_cap_permille"] for s in st] or [0]),
        "control_flow_edges_reached": {v: bin(x).count("1") for v, x in cov.items()},
        "faults": faults,
        "work": work,
        "determinism_recheck": recheck,
        "real_components": REAL["cli"] if cli else REAL["cli"][:2] * both + REAL["lib"] + (REAL["c"] if any(v.startswith("c_") for v in byv) else []),
        "stubbed_components": STUB["cli"] if cli else STUB["cli"][:1] * both + STUB["lib"],
        "build_s": round(build_s, 1),
        "notes": notes + r.notes,
    }
    assume = ["the model in sim/src/model.rs is the specification (checked against vectors made with the Python implementation on every run)",
              "threads are preempted at control-flow edges (loads and stores in the fine variants) and see sequentially consistent memory"]
    if any(v in ("noarch", "cli_noarch") for v in byv):
        assume.append("the noarch variants are built from a copy of the crate in which conditions on x86 are false, and run on x86")
    if any(v in FAR for v in byv):
        assume.append("in the far variants the interpreter Miri stands in for the processor and the operating system, the real library is interpreted "
                      "(%s); its scheduler and its choice among the values weak memory allows are decided by the run's seed"
                      % ", ".join("%s: %s" % (v, FAR[v][0]) for v in sorted(byv) if v in FAR))
    if any(v == "c_neon" for v in byv):
        assume.append("NEON intrinsics are emulated by sim/emul/arm_neon.h")
    if any(v.endswith("asan") or v.startswith("c_asan") for v in byv):
        assume.append("the asan variants' bounds checks see every load and store the compiler's AddressSanitizer pass instruments")
    if any(v in ("c_avx512e", "c_asan16e") for v in byv):
        assume.append("AVX-512 intrinsics of the c_avx512e and c_asan16e variants are emulated by sim/emul/emul512.h")
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov_all, "assumptions": assume,
           "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = os.path.join(V, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(p + ".tmp", p)


def replay(path, show):
    lines = open(path).read().splitlines()
    get = lambda k: next((l.split(None, 1)[1] for l in lines if l.startswith(k + " ")), None)
    variant = get("variant") or "rel"
    exes, notes = build_all([variant, "rel", "cli"])
    if variant not in exes:
        raise Trouble(notes[-1])
    apart = variant.startswith("cli") or variant in FAR
    exe = exes["rel" if apart else variant]
    cli = exes[variant] if apart else exes["cli"]
    r = subprocess.run([exe, "run", path, "--cli", cli] + (["--show"] if show else []), stdout=subprocess.PIPE, text=True, errors="replace")
    print(r.stdout, end="")
    if r.returncode == 1:
        m = re.search(r"trace ([0-9a-f]{16})", r.stdout)
        if get("trace") and m:
            print("the recorded execution, exactly" if m.group(1) == get("trace") else "a violation, but not the recorded execution")
        print("VIOLATION property=%s replay=%s" % (get("prop"), path))
    return r.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--replay")
    ap.add_argument("--show", action="store_true")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) & (2**63 - 1)
    except ValueError:
        seed = 1
    try:
        if a.setup:
            names = [n for n in VARIANTS if n not in ("c_avx512", "c_asan16") or has_avx512()]
            build_all(names)
            return 0
        if a.replay:
            return replay(a.replay, a.show)
        return check(a.prop, tier, seed)
    except Trouble as t:
        print("harness: %s" % t)
        return 2


if __name__ == "__main__":
    sys.exit(main())
