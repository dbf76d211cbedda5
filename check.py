#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree."""
import importlib
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from mc import core, sut
    prop = sys.argv[1]
    mod = importlib.import_module("mc." + prop.lower())
    chk = core.Check(prop, mod.LEVEL)
    chk.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    chk.rule = getattr(mod, "RULE", "")
    sut.RUN = tempfile.mkdtemp(prefix="vmc", dir=sut.scratch_base())
    try:
        try:
            sut.load()
        except BaseException as e:
            raise core.Violation(f"the converter cannot be imported: {type(e).__name__}: {e}")
        mod.run(chk)
    except core.Violation as v:
        chk.violation = v
    finally:
        shutil.rmtree(sut.RUN, ignore_errors=True)
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
