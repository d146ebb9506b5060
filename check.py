#!/usr/bin/env python3
"""check.py <property> --tier quick|thorough"""
import os, sys, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import vp

MODULE = {"C21": "safe", "C19": "repo", "C20": "repo", "C10": "vis", "C11": "vis", 'C05': 'docs', 'C06': 'docs', 'C01': 'sky', 'C02': 'sky', 'C04': 'sky', 'C14': 'sky', 'C15': 'sky', 'C03': 'sky', 'C18': 'c18', 'C17': 'c17', 'C12': 'c12', 'C13': 'c12', 'C22': 'c12', 'C23': 'c12', 'C07': 'c07', 'C08': 'c07', 'C09': 'c09', 'C16': 'c09'}


def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    ctx = vp.Ctx(prop, tier)
    try:
        m = importlib.import_module(MODULE[prop])
        getattr(m, 'run_' + prop.lower())(ctx)
        return ctx.finish()
    except vp.CheckError as e:
        print('CHECK ERROR:', e, file=sys.stderr)
        if ctx.violations:
            return ctx.finish()
        return 2
    finally:
        ctx.cleanup()


sys.exit(main())
