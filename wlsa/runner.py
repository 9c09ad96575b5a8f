"""Registry of checks, the verdict of one run, and its evidence."""
import importlib
import json
import os
import pkgutil
import subprocess
import sys
import time
import traceback

from . import terms as tm
from . import interp
from .harness import Lab, Enough

REGISTRY = {}


class Check(object):
    def __init__(self, pid, fn, floor, rule):
        self.pid, self.fn, self.floor, self.rule = pid, fn, floor, rule


def prop(pid, floor, rule):
    """Register fn(lab) as the decision procedure of property pid; floor: obligations it must at least produce."""
    def deco(fn):
        if pid in REGISTRY:
            raise ValueError(pid)
        REGISTRY[pid] = Check(pid, fn, floor, rule)
        return fn
    return deco


def load_checks(here):
    import checks
    for m in sorted(x.name for x in pkgutil.iter_modules(checks.__path__)):
        importlib.import_module('checks.' + m)


def known_findings(here):
    out = {}
    p = os.path.join(here, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property='):
                pid, _, rest = line[len('finding: property='):].partition(' ')
                key, _, text = rest.partition(' ')
                out.setdefault(pid, {})[key] = text
    return out


ASSUMPTIONS = [
    'Python 3 semantics as modelled by /verif/wlsa (integers and Decimals exact; binary rounding of float and Decimal '
    'arithmetic not modelled)',
    'library calls (struct, datetime, decimal, pytz, socket, threading, requests, MySQL connector) behave as their '
    'documentation says; their models are part of the trusted base',
    'methods are not rebound at run time from outside the package',
]


def run(pid, root, tier, here, verbose=False, evidence=True):
    load_checks(here)
    if pid not in REGISTRY:
        print('unknown property %s (have: %s)' % (pid, ' '.join(sorted(REGISTRY))))
        return 3
    c = REGISTRY[pid]
    lab = Lab(root)
    lab.tier = tier
    lab.pid = pid
    lab.known_ids = known_findings(here).get(pid, {})
    broken = None
    try:
        c.fn(lab)
    except Enough:
        pass
    except (tm.AnalysisError, RecursionError, MemoryError) as e:
        broken = '%s: %s' % (type(e).__name__, str(e)[:400])
        if verbose:
            traceback.print_exc()
    except Exception as e:
        broken = 'internal: %s: %s' % (type(e).__name__, str(e)[:400])
        traceback.print_exc()
    n = len(lab.obligations)
    discharged = sum(1 for o in lab.obligations if o[2])
    if not broken and not lab.failures and n < c.floor:
        broken = 'only %d obligations, at least %d expected' % (n, c.floor)
    rc = 0
    for key, text in lab.known:
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if lab.failures:
        rc = 1
        d = os.path.join(here, 'evidence')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + '.violation.txt')
        with open(path, 'w') as f:
            f.write('property %s, source %s\nrule: %s\n\n' % (pid, root, c.rule))
            for entry, text in lab.failures:
                f.write('%s\n    %s\n' % (entry, text))
        for entry, text in lab.failures[:20]:
            print('%s: %s' % (entry, text))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    elif broken:
        rc = 3
        print('ANALYSIS-BROKEN property=%s %s' % (pid, broken))
    wall = time.time() - lab.t0
    if evidence:
        write_evidence(lab, c, tier, here, wall, broken, rc)
    print('%s: %d obligations, %d discharged, %d known, %d functions, %d call sites, %.1fs' % (
        pid, n, discharged, len(lab.known), len(lab.functions), lab.call_sites, wall))
    if verbose:
        for e, w, ok in lab.obligations:
            print('  %s %s: %s' % ('ok ' if ok else 'BAD', e, w))
    return rc


def write_evidence(lab, c, tier, here, wall, broken, rc):
    n = len(lab.obligations)
    explanation = (
        'Static analysis of the source under %s by abstract interpretation into gated value-flow graphs (nothing of '
        'the repository is imported or executed). Rule: %s. %d functions of the package were analysed through %d '
        'resolved call sites; %d obligations were formed and %d discharged.' % (
            lab.root, c.rule, len(lab.functions), lab.call_sites, n, sum(1 for o in lab.obligations if o[2])))
    if broken:
        explanation += ' The analysis did not complete: ' + broken
    ev = {
        'property': c.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED') or 0), 'level': 'other',
        'coverage': {
            'explanation': explanation,
            'rule': c.rule,
            'obligations': n,
            'discharged': sum(1 for o in lab.obligations if o[2]),
            'functions_analysed': sorted(lab.functions),
            'call_sites': lab.call_sites,
            'abstract_terms': lab.terms,
            'known_findings': [t for k, t in lab.known],
            'samples': ['%s: %s' % (e, w) for e, w, ok in lab.obligations][:60],
        },
        'assumptions': ASSUMPTIONS + lab.assumptions,
        'wall_s': round(wall, 3),
        'violations': len(lab.failures),
    }
    d = os.path.join(here, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, c.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')


def run_all(root, tier, here):
    load_checks(here)
    from concurrent.futures import ThreadPoolExecutor

    def one(pid):
        t = time.time()
        p = subprocess.run([sys.executable, os.path.join(here, 'check.py'), pid, '--tier', tier, '--repo', root,
                            '--no-evidence'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return pid, p.returncode, p.stdout, time.time() - t
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for pid, rc, out, dt in ex.map(one, sorted(REGISTRY)):
            lines = [x for x in out.splitlines() if x.strip()]
            last = lines[-1] if lines else ''
            print('%-4s rc=%d %s' % (pid, rc, last))
            if rc:
                bad = 1
                for x in lines[:-1][:6]:
                    print('      ' + x[:500])
    return bad
