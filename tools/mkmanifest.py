#!/usr/bin/env python3
"""writes MANIFEST.json from configs.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import configs
NA = {
 'C27': 'the browser store and its worker need wasm-bindgen, web-sys and a browser cache; the crate does not build here and is not part of the library target, so there is no compiled code to execute symbolically',
}
PENDING = 'no check for it yet'
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in configs.PROPS:
        c = configs.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the compiled code (LLVM IR of /repo and a harness), every branch and assertion decided by Z3, counterexamples replayed natively',
            level='model_checking',
            level_note='Bounded: ' + c['bounds'] + ('. Outside: ' + c['outside'] if c.get('outside') else '') + '. Trusted: the executor\'s reading of LLVM IR (every explored path is replayed natively with a solver model and must show the same observations), Z3, rustc.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
m = dict(version=1, setup_cmd='python3 setup.py',
         hooks=dict(guard='none: the checks use only the public interface, no hooks were added to /repo', enable='nothing to enable', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
