#!/usr/bin/env python3
"""development aid: build the harness crate of a property natively and run its contracts on pseudo-random inputs
usage: fuzz.py <property> [iterations] [seed] [tier]"""
import os, sys, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/vf")
import props, runner, engine
p = sys.argv[1]
n = sys.argv[2] if len(sys.argv) > 2 else "300"
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
us = props.SPECS[p].units(sys.argv[4] if len(sys.argv) > 4 else "quick", seed)
path = "/tmp/vfuzz/" + p
runner.write_crate(path, us)
print(len(us), "definitions", sum(len(u.harnesses) for u in us), "harnesses")
r = subprocess.run(["cargo", "+" + engine.pinned_toolchain(), "build", "--offline", "--target-dir", "/tmp/vfuzz/t"], cwd=path, env=engine.env(),
                   stdout=open(path + "/b.log", "w"), stderr=subprocess.STDOUT)
if r.returncode:
    print("\n".join(l for l in open(path + "/b.log").read().split("\n"))[-4000:])
    sys.exit(2)
sys.exit(subprocess.run(["/tmp/vfuzz/t/debug/replay", "fuzz", n, str(seed)]).returncode)
