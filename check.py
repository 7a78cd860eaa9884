#!/usr/bin/env python3
# Entry point: check.py <property> [--tier quick|thorough] [--record]
import sys, os, argparse, tempfile, shutil, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import stage as st, report, registry

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--record', action='store_true')
    ap.add_argument('--tree', help='use an already staged tree (development)')
    a = ap.parse_args()
    tree = work = None
    try:
        fn, expl, rule = registry.CHECKS[a.property]
        rep = report.Report(a.property, a.tier, expl, rule)
        tree = a.tree or st.stage()
        work = tempfile.mkdtemp(prefix='nsimd-work-')
        fn(rep, tree, work)
        return rep.finish(record=a.record)
    except st.CheckError as e:
        print('CHECK ERROR: %s' % e); return 2
    except Exception:
        traceback.print_exc(); return 2
    finally:
        if not a.tree: st.cleanup(tree)
        st.cleanup(work)

if __name__ == '__main__': sys.exit(main())
