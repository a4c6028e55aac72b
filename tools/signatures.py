"""Writes mc/signatures.json, the documented signature of every library function, from the library: run by hand, and the difference reviewed, when a signature changes on purpose."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import sigs
json.dump(sigs.current(), open(os.path.join(os.path.dirname(sigs.__file__), "signatures.json"), "w"), indent=0, sort_keys=True)
