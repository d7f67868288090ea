from vlib.common import *

FUNCTIONS = ["Image.good_fft_size"]
ASSUMPTIONS = [
    "requested size is a Python number up to 2^14 (quick) / 2^20 (thorough); the documented slight reduction of the request (1e-5 relative) "
    "is honoured, so requests within 2e-5 above an admissible size are excluded",
]


def sizes(top):
    s = sorted([2**i for i in range(1, 30)] + [3 * 2**i for i in range(1, 30)])
    return [x for x in s if x <= top]


def obligations(tier):
    obs = []
    S = sizes(2**14 if tier == "quick" else 2**20)

    def f(n, hi):
        r = jg.Image.good_fft_size(n)
        return {"size": (r, hi)}

    obs.append(Ob("upto2", lambda n: f(n, 2), [PF("n", 0.01, 2)]))
    obs.append(Ob("int-upto2", lambda n: f(n, 2), [PI_("n", 1, 2)]))
    for lo, hi in zip(S, S[1:]):
        obs.append(Ob("size-%d" % hi, lambda n, hi=hi: f(n, hi), [PF("n", lo * (1 + 2e-5), hi)]))
        if hi < 40000:
            obs.append(Ob("int-size-%d" % hi, lambda n, hi=hi: f(n, hi), [PI_("n", lo + 1, hi)]))
    return obs
