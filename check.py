#!/usr/bin/env python3
"""check.py <PROPERTY> quick|thorough      run one check
   check.py --replay <FILE>                replay one recorded violation"""
import importlib, json, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core          # noqa: E402

CHECKS = {
    'C01': 'codec', 'C02': 'codec', 'C03': 'codec', 'C04': 'hostile', 'C09': 'nested', 'C05': 'codec', 'C06': 'codec', 'C21': 'codec',
    'C08': 'objects', 'C22': 'objects', 'C23': 'objects',
    'C12': 'frontend', 'C13': 'enums', 'C11': 'imports', 'C18': 'names', 'C19': 'options', 'C14': 'total', 'C15': 'projects', 'C07': 'variants', 'C10': 'accessors', 'C16': 'output', 'C17': 'output',
}


def main(a):
    if a == ['--setup']:
        # nothing is kept: this only warms the Go build cache and proves the tree builds
        core.bubbler()
        return 0
    if a[:1] == ['--replay']:
        with open(a[1]) as f:
            r = json.load(f)
        print(r['what'])
        m = importlib.import_module('checks.' + CHECKS[r['property']])
        res = m.replay(r['replay'], r['property'])
        for x in res:
            print('reproduced:', x)
        return 1 if res else 0
    prop, tier = a[0], (a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    m = importlib.import_module('checks.' + CHECKS[prop])
    rep = core.Report(prop, tier)
    try:
        core.bubbler()
        getattr(m, prop)(rep)
    except core.Infra as e:
        rep.infra(str(e))
    except Exception:
        rep.infra(traceback.format_exc()[-3000:])
    return rep.finish()


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
