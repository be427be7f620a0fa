#!/opt/venv/bin/python
"""replay.py FILE : run a recorded counterexample against the real package.
Exit 1 if the property is violated on it, 0 if not."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symex import runner
runner.setup_paths()
from symex import harness

d = json.load(open(sys.argv[1]))
inputs = {k: (float(v) if k in d['floats'] else v) for k, v in d['inputs'].items()}
mod = importlib.import_module(d['module'])
fn = getattr(mod, d['harness'])
st, txt = harness.run_concrete(fn, inputs, d['params'], d.get('expect'))
print('%s %s inputs=%s -> %s: %s' % (d['property'], d['harness'], inputs, st, txt))
sys.exit(1 if st in ('fail', 'exc') else 0)
