#!/opt/venv/bin/python
"""Re-run one counterexample on the unpatched code: replay.py FILE

Exit 1 if the assertion fails on the real code with these inputs, 0 if it does not.
"""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from vt import boot  # noqa: E402


def main():
    with open(sys.argv[1]) as f:
        r = json.load(f)
    boot.use_repo()
    from vt import stubs

    stubs.install_solver()
    importlib.import_module(f"checks.{r['property'].lower()}")
    from vt.harness import REGISTRY, run_concrete

    h = REGISTRY[r["harness"]]
    status, c = run_concrete(h, r["inputs"], r.get("thorough", False))
    print(f"property {r['property']} harness {r['harness']} inputs {r['inputs']}")
    if status in ("violated", "raised"):
        for label, why in c.failures[:5]:
            print(f"  FAILS: {label}: {why}")
        return 1
    print(f"  {status}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
