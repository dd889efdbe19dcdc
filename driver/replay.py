#!/usr/bin/env python3
"""replay.py FILE: builds the current /repo with plain double arithmetic and runs the harness of a replay file on its recorded inputs.
Prints every checked value (CHK), every violated assertion (FAIL) and exits 1 if one is violated."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
rec = json.load(open(sys.argv[1]))
os.execv(sys.executable, [sys.executable, os.path.join(here, "check.py"), rec["property"], "--replay", os.path.abspath(sys.argv[1])] + sys.argv[2:])
