"""Runs harnesses on recorded inputs against the untouched code with the real NumPy (JSON lines on stdin/stdout)."""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True


def run(api, reg, stubs, Scratch, loader, prop, name, cfg, inputs, tier):
    h = [x for x in reg.HARNESSES[prop] if x.name == name][0]
    S = api.set_s(api.RealS(inputs, cfg, tier))
    S.findings = api.listed_findings(prop)
    stubs.LOG[:] = []
    stubs.HOOKS.clear()
    stubs.STORE.clear()
    S.scratch = Scratch()
    out = {'exc': None, 'in_repo': False, 'msg': '', 'invalid': False, 'ambiguous': False}
    try:
        h.fn(S, **cfg)
    except api.ReplayInvalid as e:
        out['invalid'] = True
        out['msg'] = str(e)
    except api.ReplayAmbiguous:
        out['ambiguous'] = True
    except Exception as e:
        tb = sys.exc_info()[2]
        out['exc'] = type(e).__name__
        out['in_repo'] = api.in_repo(tb, loader.REPO)
        out['in_harness'] = api.in_harness(tb, loader.REPO)
        out['msg'] = str(e)[:300]
        out['tb'] = ''.join(traceback.format_tb(tb)[-3:])[:1500]
    finally:
        S.scratch.close()
    out['checks'] = S.results
    out['observed'] = S.observed
    out['missing'] = S.missing
    out['hits'] = S.hits
    return out


def main():
    out = os.fdopen(os.dup(1), 'w')
    sys.stdout = sys.stderr
    os.dup2(2, 1)
    from symx import loader
    loader.install_real()
    from symx import api, reg, stubs
    from symx.scratch import Scratch
    prop = sys.argv[1]
    reg.load(prop)
    out.write('ready\n')
    out.flush()
    for line in sys.stdin:
        q = json.loads(line)
        r = run(api, reg, stubs, Scratch, loader, prop, q['harness'], q['cfg'], q['inputs'], q.get('tier', 'quick'))
        out.write(json.dumps(r, default=repr) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
