"""tools/prof.py PROP : time TLC on each driver part's sessions separately"""
import sys, os, json, time, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from harness import kv
from harness.registry import REG
p = sys.argv[1]; w = tempfile.mkdtemp()
gens = {}
for m in REG[p]["models"]:
    if "GEN" in m or "Chunks" in m: gens[m] = kv.model_check(m, w)[1]
S = kv.run_driver(p, "quick", 1, w, 900, gens)
by = {}
for s in S: by.setdefault((s.get("spec", REG[p]["trace"]), s["id"].split("/")[0] + ("/" + s["id"].split("/")[1] if len(sys.argv) > 2 else "")), []).append(s)
for (sp, k), ss in by.items():
    t = time.time(); r = kv.validate(sp, ss, w); print(k, len(ss), round(time.time() - t, 1), len(r[0]))
