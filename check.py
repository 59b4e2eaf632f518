"""Registered check: check.py <property> (tier and seed from VERIF_TIER and VERIF_SEED)"""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import core  # noqa: E402


def main():
    # the real code is compiled from its source, never from a byte code cache
    sys.pycache_prefix = os.path.join(core.scratch(), 'pycache')
    prop = sys.argv[1]
    code = 3
    try:
        core.import_repo()
        mod = importlib.import_module('vlib.props.' + prop.lower())
        rep = core.Report(prop)
        mod.check(rep)
        code = rep.finish()
    except core.MachineryError as exc:
        print(f'MACHINERY ERROR property={prop}: {exc}')
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
    finally:
        core.cleanup()
    sys.stdout.flush()
    os._exit(code)


main()
