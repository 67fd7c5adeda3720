#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property on /repo's current tree."""
import sys, os, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier')
    a = ap.parse_args()
    if a.tier: os.environ['VERIF_TIER'] = a.tier
    import importlib, threading
    m = importlib.import_module('mxv.checks.' + a.id.lower())
    rc = [2]
    def go():
        import traceback
        try: rc[0] = m.main()
        except Exception as e:
            traceback.print_exc(); print('error: %s' % e)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush()
    os._exit(rc[0])
main()
