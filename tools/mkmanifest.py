import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
    'C23': 'the operation delegates tokenising to the external jsmn library, a source-less dependency here (empty submodule, header-only Debian copy as build workaround); its contract cannot be stated without verifying jsmn itself, and deep recursion over its token array is outside the generator\'s reach',
}
notes = json.load(open(V + '/tools/notes.json')) if os.path.exists(V + '/tools/notes.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(V + '/specs/%s.py' % i.lower()) and i not in NA:
        checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                       'technique': 'contract-based deductive verification of the compiled code (LLVM IR of the real source, VC generation, z3)',
                       'level': 'proof', 'level_note': notes.get(i, 'all obligations generated from the current source are discharged by z3; trusted contracts and assumptions are listed in the evidence')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && clang++-18 --version >/dev/null && opt-18 --version >/dev/null',
     'hooks': {'guard': 'LIBENI_VERIFY', 'enable': 'the checks compile with -DLIBENI_VERIFY', 'source_commits': ['39a69a9']},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
