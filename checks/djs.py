import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf


def body(c):
    exe = vf.build("djs_hist")
    c.tlc_model("DisjointSets", "DisjointSets" if c.thorough() else "DisjointSetsQ")
    deep = 3 if c.thorough() else 2
    files = c.drive(exe, [dict(mode="tree", n=3, depth=deep, shard=i, shards=27) for i in range(27)] +
                    [dict(mode="random", shard=i, seed=c.seed, events=2000) for i in range(8 if not c.thorough() else 80)])
    c.tlc_trace("DisjointSetsTrace", files)


if __name__ == "__main__":
    vf.main(sys.argv[1], body)
