"""Pretty printer for the MIR dump (development aid): pp.py DUMP name-substring..."""
import json, sys

def place(p):
    l, pr = p
    s = "_%d" % l
    for e in pr:
        if e == "*": s = "(*%s)" % s
        elif e[0] == "f": s += "." + str(e[2] if e[2] else e[1])
        elif e[0] == "v": s += " as " + str(e[2])
        elif e[0] == "i": s += "[_%d]" % e[1]
        else: s += str(e)
    return s

def op(o):
    if o[0] in "pm": return place(o[1])
    k = o[1]
    if "fn" in k: return "fn " + k["fn"] + (("{loc %s}" % k.get("loc")) if k.get("loc") else "") + ((" unres" ) if k.get("unres") else "")
    return json.dumps({a: b for a, b in k.items() if a != "ty"}) + ":" + str(k.get("ty"))

def rv(r):
    t = r[0]
    if t == "use": return op(r[1])
    if t == "ref": return "&%s%s" % (r[2] if len(r) > 2 else "", place(r[1]))
    if t == "disc": return "disc(%s)" % place(r[1])
    if t == "bin": return "%s(%s, %s)" % (r[1], op(r[2]), op(r[3]))
    if t == "un": return "%s(%s)" % (r[1], op(r[2]))
    if t == "cast": return "cast " + " ".join(op(x) if isinstance(x, list) and x and x[0] in ("p", "m", "k") else str(x) for x in r[1:])
    if t == "agg": return "agg " + " ".join(str(x) for x in r[1:-1]) + " [" + ", ".join(op(x) for x in r[-1]) + "]"
    return json.dumps(r)

def term(t):
    if t[0] == "call":
        return "%s = call %s(%s) -> %s" % (place(t[3]), op(t[1]), ", ".join(op(a) for a in t[2]), t[4])
    if t[0] == "sw": return "switch " + op(t[1]) + " " + json.dumps(t[2:])
    if t[0] == "assert": return "assert " + " ".join(op(x) if isinstance(x, list) and x and x[0] in ("p", "m", "k") else str(x) for x in t[1:])
    return json.dumps(t)

def show(f):
    print("fn", f["path"], f["file"], f["line"], {k: v for k, v in f.items() if k not in ("path", "file", "line", "locals", "dbg", "bbs")})
    for i, ty in enumerate(f["locals"]): print("   _%d: %s" % (i, ty))
    print("  dbg", [(n, place(p) if isinstance(p, list) and len(p) == 2 and isinstance(p[0], int) else p) for n, p in f["dbg"]])
    for i, b in enumerate(f["bbs"]):
        print(" bb%d:" % i)
        for s in b[0]: print("    %s = %s" % (place(s[0]), rv(s[1])))
        print("    ", term(b[1]), "  //", b[2])

if __name__ == "__main__":
    d = json.load(open(sys.argv[1]))
    for f in d["fns"]:
        if any(f["path"] == n or (n.startswith("~") and n[1:] in f["path"]) for n in sys.argv[2:]): show(f)
