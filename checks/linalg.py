import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf


def body(c):
    exe = vf.build("linalg_hist")
    T = c.thorough()
    n = 16 if T else 8
    sh = [dict(shard=s, shards=n, seed=c.seed, iters=3000 if T else 120, maxn=9 if T else 7) for s in range(n)]
    files = c.drive(exe, sh)
    c.tlc_trace("BlocksTrace", files)


if __name__ == "__main__":
    vf.main(sys.argv[1], body)
