"""setup_cmd: the framework is plain Python, so there is nothing to build; this
checks that the interpreter, the code under test and the reference models load
and that the references agree with textbook values."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, refs  # noqa: E402

core.setup()
ok = True


def want(name, got, exp, tol):
    global ok
    if not abs(got - exp) <= tol:
        ok = False
        print(f"selftest: {name}: {got} != {exp}")


# Haug, The Complete Guide to Option Pricing Formulas
want("BS call", refs.gbs(60, 65, 0.25, 0.08, 0.08, 0.30), 2.1334, 5e-5)
want("Merton put", refs.gbs(100, 95, 0.5, 0.10, 0.05, 0.20, False), 2.4648, 5e-5)
want("Black 76", refs.gbs(19, 19, 0.75, 0.10, 0.0, 0.28), 1.7011, 5e-5)
want("RGW", refs.rgw_call(80, 82, 0.3333, 0.25, 0.06, 4.0, 0.30)[0], 4.3860, 2e-4)
want("BAW", refs.baw(90, 100, 0.1, 0.10, 0.0, 0.15)[0], 0.0206, 5e-5)
want("Kirk", refs.kirk(122 , 120, 3, 0.1, 0.1, 0.0, 0.0, 0.20, 0.20, -0.5), 4.7530, 5e-5)
sys.exit(0 if ok else 1)
