import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf


def body(c):
    n = 16 if not c.thorough() else 160
    files = c.drive(vf.build("graph_hist"), [dict(shard=i, seed=c.seed, events=1000) for i in range(n)])
    c.tlc_trace("GraphTrace", files)


if __name__ == "__main__":
    vf.main(sys.argv[1], body)
