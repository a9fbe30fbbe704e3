#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough]   |   check.py --replay FILE"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lsx import runner
import props


def main():
    if sys.argv[1] == '--replay':
        return runner.replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    p = props.PROPS[pid]
    kf = os.path.join(runner.VERIF, 'known_findings.json')
    known = json.load(open(kf))['findings'] if os.path.exists(kf) else []
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    tasks = [t for t in p['tasks'] if not only or only in t.name]
    return runner.run_property(pid, tasks, 'model_checking', tier, seed, p['assumptions'], p['bounds'], known)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
