#!/usr/bin/env python3
"""python3 check.py Cxx: decide property Cxx from /repo's current source.  Exit 0 held, 1 violated, 2 the check itself failed."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    from sa.core import Ctx, finish
    from sa.front import AnalysisBroken
    mod = importlib.import_module(f'sa.rules.{pid.lower()}')
    ctx = Ctx(pid)
    try:
        mod.check(ctx)
    except AnalysisBroken as e:
        if not ctx.findings:
            print(f'{pid}: ANALYSIS BROKEN: {e}')
            return 2
        print(f'{pid}: analysis incomplete: {e}')
    except SyntaxError as e:
        print(f'{pid}: {e.filename}:{e.lineno}: does not parse: {e.msg}')
        return 2
    return finish(ctx, mod.EXPLAIN, mod.ASSUME)


if __name__ == '__main__':
    sys.dont_write_bytecode = True
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
