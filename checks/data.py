import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf


def body(c):
    # C08 (lifetimes) needs the memory error detector; the others use it for part of the histories
    n = 8 if not c.thorough() else 40
    ev = 1500 if not c.thorough() else 4000
    files = []
    if c.prop == "C08":
        files += c.drive(vf.build("data_hist", san=True),
                         [dict(shard=i, seed=c.seed, events=ev, focus=c.prop, len=45) for i in range(n)])
    else:
        files += c.drive(vf.build("data_hist"), [dict(shard=i, seed=c.seed, events=ev, focus=c.prop, len=45) for i in range(2 * n)])
    c.tlc_trace("MeshDataTrace", files, dict(Prop='"%s"' % c.prop))


if __name__ == "__main__":
    vf.main(sys.argv[1], body)
