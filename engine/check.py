import sys, os, json, time, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ctx as C, load

VERIF = C.VERIF
CHECKER = "python3 /verif/engine/check.py %s %s"
TRUST = ["rustc nightly front end (MIR and type resolution)", "stub crates for the git-only dependencies (stubs/)",
         "anchor/solana/std library models (engine/models.py)", "the abstract interpreter (engine/absint.py) and this property's rule"]


def known(pid):
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid) and " key=" in l:
                rest = l.split(" key=", 1)[1]
                k, _, txt = rest.partition(" :: ")
                r[k.strip()] = txt.strip()
    return r


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    c = C.Ctx(pid, tier)
    mod = None
    try:
        mod = importlib.import_module("props." + pid.lower())
        mod.check(c)
    except C.Fail as e:
        c.bad("anchor", str(e))
    except load.EngineError as e:
        c.bad("engine", "cannot analyse the tree: %s" % e)
    except Exception:
        c.bad("internal", traceback.format_exc()[-3000:])
    kn = known(pid)
    new, old = [], []
    seen = set()
    for k, m, w in c.viol:
        if (k, m) in seen:
            continue
        seen.add((k, m))
        (old if k in kn else new).append((k, m, w))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rep = os.path.join(VERIF, "evidence", pid + ".report.txt")
    keys = {}
    for k, o in c.obl:
        keys[k] = keys.get(k, True) and o
    cov = {"obligations": len(keys), "discharged": sum(1 for v in keys.values() if v) + len(set(k for k, _, _ in old)),
           "checker_cmd": CHECKER % (pid, tier), "trusted_base": TRUST,
           "explanation": getattr(mod, "RULE", "") if mod else ""}
    for k, v in c.cov.items():
        cov[k] = sorted(v) if isinstance(v, set) else v
    cov["obligation_list"] = sorted(keys)[:400]
    if c.notes:
        cov["notes"] = c.notes
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": getattr(mod, "LEVEL", "other") if mod else "other", "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    with open(rep, "w") as f:
        for k, m, w in new:
            f.write("VIOLATION %s\n  key: %s\n  at: %s\n  %s\n" % (pid, k, w, m))
    for k, m, w in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, (kn[k] or m).replace("\n", " ")))
    if new:
        for k, m, w in new[:20]:
            print("  [%s] %s  (%s)" % (k, m.strip().replace("\n", "\n      "), w))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("OK property=%s obligations=%d wall=%.1fs" % (pid, len(keys), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        print("VIOLATION property=%s replay=%s" % (sys.argv[1], "internal-error"))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
