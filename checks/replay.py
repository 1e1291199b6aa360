"""Replays of counterexamples on the real, unpatched code.  exit 17: the violation shows; exit 0: it does not; anything
else: the replay itself failed.  An exception raised inside the code under check is a violation, one raised anywhere else
is a failed replay."""
import json
import os
import sys
import traceback

SHOWN = 17


def inside(e):
    """was the exception raised by, or on behalf of, the code under check?"""
    root = os.path.realpath(os.environ.get('FBS_REPO', '/repo')) + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(e.__traceback__))


def ours(e):
    """exceptions of the harness itself are failed replays, not violations"""
    if not inside(e):
        raise e


def main():
    rec = json.load(open(sys.argv[1]))
    sys.path.insert(0, os.environ.get('FBS_REPO', '/repo'))
    import jax
    jax.config.update('jax_enable_x64', True)
    from . import replays
    try:
        bad, text = getattr(replays, rec['kind'])(rec['data'])
    except Exception as e:
        ours(e)
        bad, text = True, f'the code raises {type(e).__name__}: {str(e)[:200]}'
    print(('REPRODUCED ' if bad else 'not reproduced ') + text)
    sys.exit(SHOWN if bad else 0)


if __name__ == '__main__':
    main()
