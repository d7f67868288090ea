#!/opt/venv/bin/python
"""setup: nothing to compile; checks that the interpreter, z3 and jax are usable offline"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
import check
os.environ.update(check.child_env())
check.setup_path()
import z3, jax, jax.numpy as jnp
from vlib import prove
from vlib.prove import F, Ob
r = prove.run_ob(Ob("selftest", lambda x: {"sq": ((x + 1) ** 2, x * x + 2 * x + 1)}, [F("x", -5, 5)]))
assert r.status == "ok", r.detail
r = prove.run_ob(Ob("selftest-neg", lambda x: {"sq": (jnp.where(x > 4.99, 0.0, x), x)}, [F("x", -5, 5)], validate=0))
assert r.status == "violation", (r.status, r.detail)
print("selftest ok: z3", z3.get_version_string(), "jax", jax.__version__)
