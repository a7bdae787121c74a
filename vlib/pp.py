"""Pretty printer for dumped MIR: python3 -m vlib.pp CONFIG UNIT SUFFIX"""
import sys
def print_(*a):
    s=" ".join(str(x) for x in a)
    print(s[:240]+("…" if len(s)>240 else ""))
from . import dump
def place(p):
    s="_%d"%p[0]
    for e in p[1]:
        if e=="*": s="(*%s)"%s
        elif "f" in e: s+=".%s"%e["f"]
        elif "i" in e: s+="[_%s]"%e["i"]
        elif "d" in e: s="(%s as v%s)"%(s,e["d"])
        else: s+=str(e)
    return s
def op(o):
    if "cp" in o: return place(o["cp"])
    if "mv" in o: return "move "+place(o["mv"])
    if "c" in o: return "const %s: %s"%(str(o["c"].get("v"))[:100],o["c"]["ty"][:60])
    return str(o)
def rv(r):
    return str({k:(op(v) if isinstance(v,dict) and ("cp" in v or "mv" in v or "c" in v) else [op(x) if isinstance(x,dict) else x for x in v] if isinstance(v,list) and v and isinstance(v[0],dict) else v) for k,v in r.items()})
def show(f):
    print_("fn",f["name"],f["file"],f["line"],"nargs",f["nargs"])
    for i,l in enumerate(f["locals"]): print_("  _%d: %s"%(i,l))
    for v in f["vars"]: print_("  var",v[0],place(v[1]))
    for i,b in enumerate(f["blocks"]):
        print_(" bb%d:"%i)
        for s in b["s"]:
            if "p" in s: print_("    %s = %s"%(place(s["p"]),rv(s["r"])))
            else: print_("    ",s)
        t=b["t"]
        if t["k"]=="call":
            print_("    %s = %s(%s) -> %s   [%s] @%s"%(place(t["dest"]),t["f"].get("inst") or t["f"]["def"],", ".join(op(a) for a in t["args"]),t["to"],t["f"].get("kind"),t["l"]))
        elif t["k"]=="switch": print_("    switch %s %s else %s"%(op(t["on"]),t["br"],t["else"]))
        else: print_("   ",str({k:(op(v) if isinstance(v,dict) and ("cp" in v or "mv" in v or "c" in v) else v) for k,v in t.items()}))
if __name__=="__main__":
    p=dump.load(sys.argv[1],sys.argv[2])
    for s in sys.argv[3:]:
        for f in p.find(s): show(f)
