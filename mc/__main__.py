import importlib
import os
import re
import sys
import tempfile


def main() -> int:
    args = sys.argv[1:]
    if not args or not re.fullmatch(r'C\d\d', args[0]):
        print('usage: check.sh C01..C31 [--replay FILE]')
        return 2
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.dont_write_bytecode = True
    with tempfile.TemporaryDirectory(prefix='mc-pyc-') as pyc:
        # never read a stale .pyc, never write into /repo
        sys.pycache_prefix = pyc
        sys.path.insert(0, repo)
        try:
            import oelint_parser.cls_stash
            import oelint_parser.parser  # noqa: F401
        except BaseException as e:  # noqa: B902
            sys.stderr.write(f'cannot import the library from {repo}: {e!r}\n')
            return 2
        assert oelint_parser.__path__[0].startswith(repo), oelint_parser.__path__
        mod = importlib.import_module(f'mc.{args[0].lower()}')
        from mc.engine import run_check
        replay = args[args.index('--replay') + 1] if '--replay' in args else None
        return run_check(mod, os.environ.get('VERIF_TIER', 'quick'), replay)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
