#!/usr/bin/env python3
"""stability.py [UNIT...] : run every proof unit with several solver seeds and list the functions that are not accepted by all of them (development aid)"""
import os, sys, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/vtool')
os.environ['RK_THREADS'] = '1'
import prove
units = sys.argv[1:] or sorted(os.path.basename(f)[:-5] for f in glob.glob(V + '/contracts/*.unit'))
for u in units:
    w = tempfile.mkdtemp(prefix='rkstab_')
    try: prove.get_ast(os.path.join(prove.CON, 'tu', prove.Unit(u).d['tu']))
    except Exception: pass
    with ThreadPoolExecutor(6) as ex: rs = list(ex.map(lambda s: prove.prove(u, w, seed=s), range(1, 7)))
    bad = {}
    for r in rs:
        for f in r.get('failed_fns', [r['status']] if r['status'] != 'accepted' else []): bad[f.split('::')[-1]] = bad.get(f.split('::')[-1], 0) + 1
    print(u, [r['status'] for r in rs], bad, 'slowest %.0f s' % max(r['wall'] for r in rs), flush=True)
    shutil.rmtree(w, ignore_errors=True)
