import sys, os, cProfile, pstats, tempfile
sys.path.insert(0, '/verif/engine')
import check
with tempfile.TemporaryDirectory() as t:
    p, ex, g, sp = check.load(t, sys.argv[1]); check.G.update(ex=ex, sp=sp, p=p, g=g)
    pr = cProfile.Profile(); pr.enable()
    r = check.run_one(sys.argv[2])
    pr.disable(); check.show(r)
    pstats.Stats(pr).sort_stats(os.environ.get("SORT", "cumulative")).print_stats(45)
