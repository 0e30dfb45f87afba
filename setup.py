#!/usr/bin/env python3
"""Build everything the checks use, so that they only rebuild what changed."""
import glob, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
hs = sorted(os.path.splitext(os.path.basename(p))[0] for p in glob.glob(os.path.join(HERE, "harness/[hp]_*.cpp")))
build.build(["mocc"] + hs)
print("built", len(hs) + 1, "targets")
