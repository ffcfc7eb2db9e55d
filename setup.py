#!/usr/bin/env python3
"""Offline setup: checks the toolchain and parses every specification (SANY)."""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
subprocess.run(["/opt/venv/bin/python", "-c", "import numpy"], check=True)


def sany(f):
    p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", os.path.basename(f)], cwd=os.path.join(V, "spec"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return f, p.returncode == 0 and "*** Errors" not in p.stdout, p.stdout


with ThreadPoolExecutor(8) as ex:
    res = list(ex.map(sany, sorted(glob.glob(os.path.join(V, "spec", "*.tla")))))
bad = [r for r in res if not r[1]]
for f, _, out in bad:
    print(f, out)
print(f"{len(res) - len(bad)}/{len(res)} specifications parse")
sys.exit(1 if bad else 0)
