"""Command line: main.py CNN [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import env          # noqa

env.ensure()


def cli():
    if sys.argv[1:2] == ['digest10']:
        from dst.checks import c10
        c10.child(sys.argv[2])
        return
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--digests', help='write the digest of every case to this file')
    a = ap.parse_args()
    from dst import runner
    sys.exit(runner.main(a.id.upper(), a.tier, a.seed, a.replay, a.cases, a.workers, a.v, a.only, a.all, a.digests))


if __name__ == '__main__':
    cli()
