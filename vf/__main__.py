import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import engine
a = sys.argv[1:]
if a[0] == "replay":
    sys.exit(engine.replay(a[1]))
tier = a[1] if len(a) > 1 else None
seed = a[2] if len(a) > 2 else None
scale = float(a[3]) if len(a) > 3 else 1.0
sys.exit(engine.main(a[0].lower(), tier, seed, scale))
