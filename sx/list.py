"""Print a property's harness list as JSON (loads the harness natively)."""
import sys
sys.dont_write_bytecode = True
import json, os, importlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
mod = importlib.import_module('props.' + sys.argv[1].lower())
hs = []
for h in mod.harnesses(sys.argv[2]):
    d = {k: v for k, v in h.items() if k != 'fn'}
    d.setdefault('variants', ['pure'])
    hs.append(d)
print(json.dumps(dict(harnesses=hs, outside=getattr(mod, 'OUTSIDE', []), assumptions=getattr(mod, 'ASSUMPTIONS', []))))
