import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf


def body(c):
    exe = vf.build("mesh_hist")
    p = c.prop
    counts = 1 if p == "C02" else 0
    n = 16 if not c.thorough() else 64
    ev = (2500 if counts else 4000)
    if c.thorough():
        ev *= 3
    kinds = ""
    tree = [dict(mode="tree", depth=2, pct=3 if not c.thorough() else 40, shard=i, shards=8, seed=c.seed, counts=counts,
                 events=ev) for i in range(8)]
    rnd = [dict(mode="random", shard=i, shards=n, seed=c.seed, counts=counts, events=ev, len=30) for i in range(n - 8)]
    files = c.drive(exe, tree + rnd)
    c.tlc_trace("ManifoldTrace", files, dict(Prop='"%s"' % p))


if __name__ == "__main__":
    vf.main(sys.argv[1], body)
