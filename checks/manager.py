import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf


def body(c):
    n = 16 if not c.thorough() else 96
    ev = 1500 if not c.thorough() else 4000
    files = c.drive(vf.build("manager_hist"), [dict(shard=i, seed=c.seed, events=ev, len=40) for i in range(n)])
    c.tlc_trace("ManagerTrace", files, dict(Prop='"%s"' % c.prop))


if __name__ == "__main__":
    vf.main(sys.argv[1], body)
