"""A few seconds of a check over shuffled cases: triage.py Cnn SCRATCH (used by mutate.py only)."""
import importlib
import os
import random
import sys

sys.path[:0] = [os.environ['VERIF_REPO'], os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
import mc.engine as engine  # noqa: E402

mod = importlib.import_module(f'mc.{sys.argv[1].lower()}')
engine.EVIDENCE = engine.REPLAYS = sys.argv[2]
allc = list(mod.cases('quick'))
random.Random(1).shuffle(allc)
mod.cases = lambda tier: iter(allc)
rc = engine.run_check(mod, 'quick')
sys.stdout.flush()
os._exit(rc)
