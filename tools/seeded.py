"""Run the check of each planted bug against a scratch copy of the source with the bug applied.
python3 tools/seeded.py [--seed S] [--table] [--checks own|all] [ID...]   (--table rewrites the table of DESIGN.md)"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('--seed', default='1')
ap.add_argument('--workers', type=int, default=3)
ap.add_argument('--table', action='store_true')
ap.add_argument('ids', nargs='*')
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(f'{V}/seeded'))


def run(i):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    d = tempfile.mkdtemp(prefix='pyhipp_seeded_')
    try:
        shutil.copytree('/repo/src', f'{d}/src')
        r = subprocess.run(['git', 'apply', '--directory', d.lstrip('/'), '--unsafe-paths', f'{V}/seeded/{i}/patch.diff'], cwd='/', capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run(['patch', '-p1', '-s', '-d', d, '-i', f'{V}/seeded/{i}/patch.diff'], capture_output=True, text=True)
        if r.returncode:
            return i, m, 'patch does not apply: ' + r.stderr + r.stdout, []
        r = subprocess.run(['bash', f'{V}/run.sh', m['property'], '--no-evidence', '--jobs', '3'], capture_output=True, text=True,
                           env={**os.environ, 'PYHIPP_SRC': f'{d}/src', 'VERIF_SEED': a.seed}, timeout=2000)
        subs = re.findall(r'^VIOLATION property=\S+ replay=\S*/\w+?_(\w+)\.json', r.stdout, re.M)
        return i, m, r.returncode, subs
    finally:
        shutil.rmtree(d, ignore_errors=True)


out = {}
with ThreadPoolExecutor(a.workers) as ex:
    for i, m, rc, subs in ex.map(run, ids):
        print(i, 'caught' if rc == 1 and subs else f'MISSED ({rc})', ','.join(subs), flush=True)
        out[i] = (m, subs)
if a.table:
    t = ['| bug | breaks | needs | caught by |', '|---|---|---|---|']
    for i, (m, subs) in out.items():
        c = lambda s: ' '.join(s.split()).replace('|', '\\|')
        t.append(f'| {i} | {c(m["what_it_breaks"])} | {c(m["needs"])} | {m["property"] + ": " + ", ".join(subs) if subs else "missed"} |')
    s = open(f'{V}/DESIGN.md').read()
    head = s.split('<!-- seeded -->')[0]
    open(f'{V}/DESIGN.md', 'w').write(head + '<!-- seeded -->\n' + '\n'.join(t) + '\n')
