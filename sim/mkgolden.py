#!/usr/bin/env python3
"""Makes golden.txt: vectors of /repo/python/baokeshed.py as committed at the
base revision, for the harness's own inputs. Run by hand, once; the checks
only read the result."""
import subprocess, sys
sys.path.insert(0, "/repo/python")
import baokeshed as b

SIM = sys.argv[1]
def data(*a): return subprocess.run([SIM, "bytes", *map(str, a)], capture_output=True, check=True).stdout

LENS = [0, 1, 2, 63, 64, 65, 127, 128, 129, 1000, 2047, 2048, 2049, 2112, 4095, 4096, 4097, 6144, 6145, 8191, 8192,
        8193, 10240, 12289, 14336, 16384, 16385, 18432, 24577, 31 * 2048, 32 * 2048, 33 * 2048 + 7, 63 * 2048 + 1]
print("# mode keykind keyseed pattern seed length output (first 200 bytes)")
i = 0
for n in LENS:
    for mode in ("hash", "keyed", "derive"):
        i += 1
        pat = ["rand", "ctr", "w32", "ff", "zero", "sparse"][i % 6]
        kk = ["rand", "iv", "ctr", "zero", "ff"][i % 5]
        d, k = data(pat, i, n), data("key", kk, i)
        h = b.hash(d, 200) if mode == "hash" else (b.keyed_hash if mode == "keyed" else b.derive_key)(k, d, 200)
        print(mode, kk, i, pat, i, n, bytes(h).hex())
