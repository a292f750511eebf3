#!/usr/bin/env python3
"""Development aid: dev.py harness.cc [-DX]... [-- symx args]; keeps IR in /tmp/vkdev."""
import sys, os, json, subprocess, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import build as B
args = sys.argv[1:]
sx = []
if "--" in args:
    k = args.index("--"); sx = args[k + 1:]; args = args[:k]
src = os.path.abspath(args[0]); defs = [a[2:] for a in args[1:] if a.startswith("-D")]
d = "/tmp/vkdev" + B.REPO.replace("/", "_"); os.makedirs(d, exist_ok=True)
B.engine()
bcs = []
newest = max(os.path.getmtime(p) for p in B.sources() + [B.VERIF + "/rt/rtc.cc", B.VERIF + "/rt/rtcxx.cc"] +
             [os.path.join(B.REPO, "src", f) for f in os.listdir(B.REPO + "/src")])
stamp = d + "/stamp"
if not os.path.exists(stamp) or os.path.getmtime(stamp) < newest or "-r" in args:
    outs = B.ir_repo(d); open(stamp, "w").write("\n".join(outs))
bcs = open(stamp).read().split("\n")
name = "h%d" % os.getpid()
h = B.ir_harness(d, src, defs, name)
apps = [a[2:] for a in args[1:] if a.startswith("-A")]
for a in apps:
    o = d + "/app_%s.bc" % a
    if os.path.exists(o): os.unlink(o)
apps = [B.ir_app(d, a) for a in apps]
out = d + "/" + name + ".jsonl"
open(out, "w").close()
t = time.time()
r = subprocess.run([B.SYMX] + [h] + apps + bcs + ["-o", out] + sx)
cov = set(); fn = 0; st = {}
for l in open(out):
    try: x = json.loads(l)
    except ValueError: print("BAD", l[:600]); continue
    if x["type"] == "cover": cov.add(x["msg"])
    elif x["type"] == "fn": fn += 1
    elif x["type"] == "stats":
        for k, v in x.items():
            if k != "type": st[k] = st.get(k, 0) + v
    elif x["type"] in ("violation", "incomplete", "done"): print(l.strip()[:1500])
print("cover", sorted(cov), "fns", fn, {k: round(v, 2) for k, v in st.items() if v}, "rc", r.returncode, "%.1fs" % (time.time() - t))
for f in (h, out):
    os.unlink(f)
