#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough]"""
import sys, os, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
sys.dont_write_bytecode = True
import common

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import registry
    meta = registry.CHECKS[prop]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ctx = common.Ctx(prop, tier)
    try:
        mod = importlib.import_module(meta['module'])
        getattr(mod, meta.get('func', 'run'))(ctx)
        if not ctx.oblig and not ctx.viol:
            raise common.AnalysisError('no obligation was generated')
    except common.AnalysisError as e:
        print(f'ANALYSIS-ERROR property={prop}: {e}', file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    return common.finish(ctx, meta)

sys.exit(main())
