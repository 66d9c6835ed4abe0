import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf


def body(c):
    exe = vf.build("rich_hist")
    T = c.thorough()
    n = 32 if T else 8
    sh = [dict(shard=s, seed=c.seed, events=2500 if T else 1800) for s in range(n)]
    files = c.drive(exe, sh)
    c.tlc_trace("BundleTrace", files, dict(Prop='"C11"'))


if __name__ == "__main__":
    vf.main(sys.argv[1], body)
