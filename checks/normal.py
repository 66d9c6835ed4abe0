import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf


def body(c):
    exe = vf.build("intri_hist")
    T = c.thorough()
    n = 16 if T else 8
    sh = [dict(shard=s, shards=n, seed=c.seed, iters=300 if T else 60, deep=1 if T else 0) for s in range(n)]
    files = c.drive(exe, sh)
    c.tlc_trace("NormalTrace", files)


if __name__ == "__main__":
    vf.main(sys.argv[1], body)
