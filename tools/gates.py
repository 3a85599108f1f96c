"""Records, on the current tree, the thresholds below which each entry treats values as degenerate (lib/gates.json).
Run by hand after adding entries; never run by a check."""
import os, sys, json, glob, subprocess, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(H + "/checks/P*.py"))
T = tempfile.mkdtemp()
out = os.path.join(H, "lib", "gates.json")
g = json.load(open(out)) if os.path.exists(out) else {}
for i in ids:
    for seed in (1, 2, 3, 4):
        subprocess.run([sys.executable, H + "/check.py", i], env=dict(os.environ, VERIF_GATES=T, VERIF_SEED=str(seed)), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
for f in glob.glob(T + "/*.json"):
    for k, v in json.load(open(f)).items():
        g[k] = max(g.get(k, 0), v)
    os.unlink(f)
os.rmdir(T)
json.dump(dict(sorted(g.items())), open(out, "w"), indent=0)
