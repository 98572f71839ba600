import sys, os, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs"))
import importlib, glob
import build, contract


def load_specs():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs")
    for f in sorted(glob.glob(d + "/s_*.py")):
        importlib.import_module(os.path.basename(f)[:-3])
    return contract.PROOFS


def load_module():
    import layout
    return build.load(layout.OFFS, layout.SIZES, layout.CONSTS, layout.HEADERS)


if __name__ == "__main__":
    prs = load_specs()
    pats = sys.argv[1:]
    prs = [p for p in prs if not pats or any(x in p.name or x in p.props for x in pats)]
    m, L = load_module()
    t = time.time()
    rs = contract.run_proofs(m, L, prs, 1 if len(prs) == 1 else 8)
    for r in rs:
        print("%-32s %-9s %d/%d  %.1fs paths=%d q=%d %s" % (r["proof"], r["status"], r["discharged"], r["obligations"], r["wall"], r["paths"], r["queries"], r["error"] or ""))
        for f in r["failed"][:6]:
            print("   FAILED", f["function"], "::", f["obligation"], "\n      goal", f["goal"][:300], "\n      ", f["model"][:600].replace("\n", " "))
            if os.environ.get("VERBOSE"):
                print("      path", f["path"])
        for f in r["unknown"][:6]:
            print("   UNKNOWN", f["function"], "::", f["obligation"])
        if os.environ.get("VERBOSE"):
            print("   inlined", r["inlined"], "contracts", r["contracts_used"], "trusted", r["trusted"], "notes", r["notes"])
    print("total %.1f" % (time.time() - t))
