import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf


def body(c):
    exe = vf.build("sub_hist")
    T = c.thorough()
    n = 32 if T else 8
    sh = [dict(mode="random", shard=s, shards=n, seed=c.seed, iters=24000 if T else 5000, maxhe=76 if T else 50) for s in range(n)]
    files = c.drive(exe, sh)
    c.tlc_trace("SubdivisionTrace", files)


if __name__ == "__main__":
    vf.main(sys.argv[1], body)
