import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

TRI = ["tet", "oct", "fan6", "strip", "annulus", "torus", "grid2"]
POLY = ["cube", "prism", "grid3q", "mixed"]
CLOUD = ["cloud0", "cloud1", "cloud2"]


def body(c):
    exe = vf.build("quant_hist")
    T = c.thorough()
    sh = []
    ev = 3000 if T else 220
    for k, m in enumerate(TRI + POLY + CLOUD):
        for ln in ([0, 1] if m not in CLOUD else [0]):
            for r in range(4 if T else 1):
                sh.append(dict(mode="random", mesh=m, lengths=ln, seed=c.seed, shard=10 * k + r, events=ev))
    for m in ["tet", "fan6"]:
        sh.append(dict(mode="random", mesh=m, general=1, seed=c.seed, shard=77, events=ev))
    P = [("fan4", 0), ("tet", 1), ("cube", 0), ("cloud0", 0), ("cloud1", 0), ("cloud2", 0)]
    n = 16
    for m, ln in P:
        if m.startswith("cloud"):
            sh += [dict(mode="pairs", mesh=m, stride=2, off=i) for i in range(2)]
        else:
            st = n if T else 24 * n
            st = {"cube": n if not T else 4, "tet": 4 * n if not T else n, "fan4": 16 * n if not T else n}[m]
            for i in range(n if T else min(n, 8)):
                sh.append(dict(mode="pairs", mesh=m, lengths=ln, stride=st, off=i + c.seed))
    files = c.drive(exe, sh)
    c.tlc_trace("QuantityTrace", files)


if __name__ == "__main__":
    vf.main(sys.argv[1], body)
