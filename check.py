#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of the current tree of /repo."""
import json, os, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import report, props


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' else 'quick'
    r = report.Report(prop, tier)
    try:
        kind = props.CHECKS[prop]
        kind.run(r) if hasattr(kind, 'run') else __import__('behave').check(r, kind)
    except report.CannotAnalyse as e:
        print('cannot analyse the current tree: %s' % e)
        r.write()
        sys.exit(2)
    sys.exit(r.finish())


main()
