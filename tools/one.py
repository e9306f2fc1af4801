import sys, os, faulthandler, tempfile, time
sys.path.insert(0, '/verif/engine')
faulthandler.dump_traceback_later(int(os.environ.get("LIM", "100")), exit=True)
import check
if os.environ.get("LOOPS"):
    import loops; loops.DEBUG = True
with tempfile.TemporaryDirectory() as t:
    p, ex, g, sp = check.load(t, sys.argv[1]); check.G.update(ex=ex, sp=sp, p=p, g=g)
    import terms; terms.FORKED[0] = True
    r = check.run_one(sys.argv[2])
    check.show(r)
    if os.environ.get("TIMES"):
        for o in sorted(r["obls"], key=lambda o: -o.get("time", 0))[:15]:
            print("%.1f %s %s %s" % (o.get("time", 0), o["res"], o["kind"], o["what"][:150]))
    for o in r["obls"]:
        if o["res"] != "proved" and os.environ.get("GOAL"):
            print(o["what"][:100]); print("   GOAL", o.get("goal", "")[:1500])
            for h in o.get("path", [])[-int(os.environ["GOAL"]):]:
                print("   HYP", h)
            break
