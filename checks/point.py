import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

MESHES = ["tet", "tri", "quadtri", "fan4", "fan6", "oct", "pillow", "strip", "annulus", "grid2", "tube", "torus"]


def body(c):
    exe = vf.build("point_hist")
    T = c.thorough()
    sh = []
    for m in MESHES:
        n = {"grid2": 2, "tube": 3, "torus": 4, "annulus": 2}.get(m, 1)
        for s in range(n):
            sh.append(dict(mesh=m, shard=s, shards=n, seed=c.seed, vecs=(3000 if T else 500) // n, rounds=12 if T else 2))
    files = c.drive(exe, sh)
    c.tlc_trace("PointTrace", files)


if __name__ == "__main__":
    vf.main(sys.argv[1], body)
