"""Entry point of every check: ./check <property> [--tier T] [--seed N] [--replay FILE]."""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from rtm import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    args = ap.parse_args()
    code = core.run_property(args.property, args.tier, args.seed, args.replay)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)      # no lingering thread may change the verdict


if __name__ == '__main__':
    main()
