import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf


def body(c):
    exe = vf.build("gen_hist")
    k = 4 if c.thorough() else 1
    if c.prop == "C05":
        sh = [dict(mode="build", shard=i, shards=16 * k, seed=c.seed, events=1500, pct=100 if c.thorough() else 60) for i in range(16 * k)]
    elif c.prop == "C10":
        sh = [dict(mode="gen", nav=1, shard=i, seed=c.seed, events=700, len=10) for i in range(8 * k)] + \
             [dict(mode="man", nav=1, shard=i, seed=c.seed, events=700, len=16) for i in range(8 * k)]
    else:
        sh = [dict(mode="gen", shard=i, seed=c.seed, events=1500, len=12) for i in range(16 * k)]
    c.tlc_trace("GeneralTrace", c.drive(exe, sh), dict(Prop='"%s"' % c.prop))


if __name__ == "__main__":
    vf.main(sys.argv[1], body)
