#!/usr/bin/env python3
"""mkseed.py FILE: each seed in FILE (python list SEEDS of dicts) becomes /verif/seeded/<id>/"""
import sys, os, json, subprocess, shutil
H = os.path.dirname(os.path.abspath(__file__))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    d = H + "/../seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    for f, old, new in s["edits"]:
        p = "/repo/src/" + f if not f.startswith("binaries") else "/repo/" + f
        t = open(p).read()
        n = s.get("nth", {}).get(f)
        if n is None:
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            t = t.replace(old, new)
        else:
            parts = t.split(old)
            assert len(parts) > n, (s["id"], len(parts))
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, "w").write(t)
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout)
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    shutil.copy(H + "/seedlib/demo.sh", d)
    shutil.copy(H + "/seedlib/demo.h", d)
    open(d + "/demo.cpp", "w").write('#include "demo.h"\n' + s.get("pre", "") + '\nint main(int ac, char** av)\n{\n    g_dir = av[1];\n    DB::SetLogLevel(0);\n' + s["demo"] + '\n    return 0;\n}\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
