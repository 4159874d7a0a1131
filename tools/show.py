"""python3 tools/show.py FN [IMPL] [-f] [-s stop,stop]: results, calls (and facts with -f) of a flattened function (debugging aid)"""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import mir
from engine.flow import *
P = mir.Prog()
a = [x for x in sys.argv[1:] if not x.startswith("-")]
stop = ()
for x in sys.argv[1:]:
    if x.startswith("-s="):
        stop = x[3:].split(",")
b = P.fn(a[0], impl_of=a[1] if len(a) > 1 and a[1] != "." else None, trait=a[2] if len(a) > 2 else None)
t = time.time()
f = Flow(P, b, Policy(stop=stop))
print(b.spath, len(f.order), "nodes", f.steps, "steps %.2fs" % (time.time() - t), len(f.ctxs), "ctxs")
for p, r in f.results():
    print("RES", p and p.where, show(r, 14))
for n in f.order:
    if n.call is not None and not is_log(n.span):
        print(n.id, n.call, "->", show(n.call.dest, 5), n.span[1])
        if "-d" in sys.argv:
            print("      dom:", [(p, show(x, 6)) for p, x in f.facts_at(n)])
    if "-f" in sys.argv and n.facts:
        print("   ", n.id, "FACT", [(p, show(x, 7)) for p, x in n.facts])
    for pl, v in n.stores:
        if "-S" in sys.argv:
            print("   ", n.id, "STORE", show(pl, 6), ":=", show(v, 6), n.span and n.span[1])
