"""Child process of C14: stock random module, runs the specifications on stdin and prints one digest per line."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.load_repo(tap=False)
import random
import world as w

for line in sys.stdin:
    s = json.loads(line)
    random.seed(os.urandom(8))
    random.random()
    try:
        t = w.run(s)
        print('D', t.digest(), core.digest(w.freeze(t.result.best_solution)), flush=True)
    except Exception as e:
        print('E', type(e).__name__, str(e)[:200].replace('\n', ' '), 'repo' if core.from_repo(e) else 'harness', flush=True)
