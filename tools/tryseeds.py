"""Run the quick check of each planted bug's property on a scratch copy with that bug: tryseeds.py [ids]"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
man = json.load(open(V + "/MANIFEST.json"))
for i in ids:
    d = "%s/seeded/%s" % (V, i)
    pid = json.load(open(d + "/meta.json"))["property"]
    wt = "/tmp/tryseed"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call("git clone -q /repo %s && git -C %s apply %s/patch.diff" % (wt, wt, d), shell=True)
    chk = [c for c in man["checks"] if c.get("property", c.get("property_id")) == pid]
    if not chk:
        print(i, pid, "no check"); continue
    cmd = chk[0].get("quick") or chk[0].get("quick_cmd")
    t = time.time()
    r = subprocess.run(cmd, shell=True, cwd=V, env=dict(os.environ, VP_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    print(i, pid, "exit", r.returncode, v[:1], "%.0fs" % (time.time() - t), flush=True)
