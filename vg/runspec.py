import sys, os, json, importlib, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs"))
from spec import Ctx
if __name__ == "__main__":
    data = json.load(open(sys.argv[1]))
    mod = importlib.import_module(sys.argv[2])
    for pid in sys.argv[3:] or mod.PROPS:
        c = Ctx(pid, data)
        c.trace = True
        t = time.time()
        [f(c) for f in (mod.PROPS[pid] if isinstance(mod.PROPS[pid],list) else [mod.PROPS[pid]])]
        print("==", pid, "%.1fs" % (time.time() - t))
        for o in c.obs:
            print(o["verdict"], o["id"], "" if o["verdict"] == "PROVED" else json.dumps(o.get("detail"))[:1200])
        for e in c.entries:
            if [x for x in e["notes"] if "SizedType" not in x]: print(e)
