"""Which check catches which planted change (a tool, not part of any check).

usage: seed_matrix.py [ids...]   runs the check of each change's property with
VERIF_SEED=1 against a scratch clone of /repo with the change applied, records
the outcome in seeded/matrix.json and writes the table into DESIGN.md.
"""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = f"{V}/seeded"
M = f"{V}/tools/seed_matrix.json"
res = json.load(open(M)) if os.path.exists(M) else {}
ids = sys.argv[1:] or sorted(os.listdir(S))
if ids == ["table"]:
    ids = []
for i in ids:
    prop = json.load(open(f"{S}/{i}/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="seedm-", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", f"{d}/r"], check=True)
        subprocess.run(["git", "-C", f"{d}/r", "apply", f"{S}/{i}/patch.diff"], check=True)
        env = dict(os.environ, DST_REPO=f"{d}/r", VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run(["./check", prop], cwd=V, env=env, capture_output=True, text=True, timeout=900)
        caught = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
        runs = next((w[5:] for w in r.stdout.split() if w.startswith("runs=")), "?")
        vs = next((w[11:] for w in r.stdout.split() if w.startswith("violations=")), "?")
        res[i] = {"property": prop, "caught": caught, "exit": r.returncode, "runs": runs, "violations": vs}
        print(i, res[i], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    json.dump(res, open(M, "w"), indent=1, sort_keys=True)
rows = ["| change | check | outcome (quick, seed 1) | needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(S)):
    m = json.load(open(f"{S}/{i}/meta.json"))
    r = res.get(i)
    o = "not run" if r is None else f"caught ({r['violations']} violating runs of {r['runs']})" if r["caught"] else "missed"
    rows.append(f"| {i} | {m['property']} | {o} | {m['needs']} |")
p = f"{V}/DESIGN.md"
t = open(p).read()
a, b = "<!-- seed matrix -->", "<!-- end of seed matrix -->"
if a not in t:
    t += f"\n{a}\n{b}\n"
t = t[: t.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + t[t.index(b) :]
open(p, "w").write(t)
