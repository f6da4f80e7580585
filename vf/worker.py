"""Worker: reads contract indices on stdin, decides them, prints one JSON line each."""
import json
import os
import sys
import time
import traceback
import warnings

warnings.filterwarnings('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    prop, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)               # keep prints of the code under contract off the protocol channel
    try:
        from vf import registry
        from vf.decide import decide
        cs, missing = registry.load(prop)
    except Exception:
        out.write(json.dumps({'fatal': traceback.format_exc()[-1500:]}) + '\n')
        out.flush()
        return
    out.write(json.dumps({'ready': [c.name for c in cs], 'missing': missing}) + '\n')
    out.flush()
    for line in sys.stdin:
        i, mode = line.split()
        i = int(i)
        t0 = time.time()
        try:
            o = decide(cs[i], tier, seed, deduce=mode == 'full')
            j = o.to_json()
            j['refuted_no_input'] = getattr(o, 'refuted_no_input', None)
            j['lost'] = getattr(o, 'lost', None)
        except Exception:
            j = {'contract': cs[i].name, 'level': 'undecided', 'obligations': 0, 'discharged': 0, 'by_backend': {}, 'solver_s': 0,
                 'undischarged': [], 'notes': ['contract error: ' + traceback.format_exc()[-600:]], 'executions': 0, 'sizes_deduced': 0,
                 'axioms': [], 'targets': list(cs[i].targets), 'violation': None, 'wall_s': round(time.time() - t0, 2),
                 'refuted_no_input': None}
        out.write(json.dumps(j, default=str) + '\n')
        out.flush()


main()
