#!/usr/bin/env python3
"""
check.py <property id> [--tier quick|thorough] [--repo DIR]

Static analysis of the source under DIR (never imported, never run).  Exit 0: every obligation of the property was
discharged.  Exit 1 and `VIOLATION property=<id> replay=<path>`: a construct of the source breaks it.  Exit 3: the
analysis could not reach a verdict (vanished anchor, unsupported construct, budget).
"""
import argparse
import os
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from wlsa import runner  # noqa: E402


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property', nargs='?')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=('quick', 'thorough'))
    p.add_argument('--repo', default='/repo')
    p.add_argument('--all', action='store_true')
    p.add_argument('--verbose', action='store_true')
    p.add_argument('--no-evidence', action='store_true')
    a = p.parse_args()
    if a.all:
        return runner.run_all(a.repo, a.tier, HERE)
    return runner.run(a.property, a.repo, a.tier, HERE, verbose=a.verbose, evidence=not a.no_evidence)


if __name__ == '__main__':
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 30)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 3)
