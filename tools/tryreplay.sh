#!/bin/bash
# run the replay harness of a property on the current tree (expects no failure)
cd "$(dirname "$0")/.." && python3-vt - "$1" "${2:-10}" <<'P'
import sys, importlib
sys.path.insert(0, '.'); sys.setrecursionlimit(20000)
from eniv import driver, build
mod = importlib.import_module('specs.' + sys.argv[1].lower())
log = []
print(driver.replay_search(sys.argv[1].upper(), mod, int(sys.argv[2]), 1, log)); print('\n'.join(log))
P
