"""plant.py FILE: reads a bug description (python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO),
builds seeded/<ID>, confirms in scratch copies that the demo passes without and fails with the change and that the existing
tests still pass. Options: --notest; --check runs the property's check against the changed copy."""
import json, os, runpy, shutil, subprocess, sys, tempfile, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3', MPLCONFIGDIR='/opt/venv/mplconfig')
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken. Run with the repository as working directory.
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 MPLCONFIGDIR=/opt/venv/mplconfig
S=$(mktemp -d); export DATA_FOLDER="$S/data" SCRATCH="$S"; mkdir -p "$DATA_FOLDER"
trap 'rm -rf "$S"' EXIT
PYTHONPATH="$PWD" timeout 200 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def main(path, opts):
    b = runpy.run_path(path)
    d = os.path.join(ROOT, 'seeded', b['ID'])
    s = tempfile.mkdtemp(prefix='plant_')
    try:
        repo = os.path.join(s, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        base = '617756f'
        for f, old, new in b['EDITS']:
            p = os.path.join(repo, f)
            t = open(p).read()
            assert t.count(old) == 1, '%s: %d occurrences of %r' % (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        os.makedirs(d, exist_ok=True)
        patch = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(textwrap.dedent(b['DEMO']).lstrip())
        json.dump(dict(property=b['PROPERTY'], needs=b['NEEDS'], what_it_breaks=b['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        # removed lines have to be lines of the original repository
        for f in sorted({e[0] for e in b['EDITS']}):
            orig = subprocess.run(['git', 'show', base + ':' + f], cwd=repo, capture_output=True, text=True).stdout.split('\n')
            rem = [l[1:] for l in subprocess.run(['git', 'diff', f], cwd=repo, capture_output=True, text=True).stdout.split('\n') if l.startswith('-') and not l.startswith('---')]
            new = [l for l in rem if l not in orig]
            if new or not rem:
                print('  note %s: removed lines not in the original repository: %s (of %d)' % (f, new, len(rem)))
        demo = os.path.join(d, 'demo.sh')
        a = subprocess.run(['bash', demo], cwd='/repo', env=ENV, capture_output=True, text=True)
        c = subprocess.run(['bash', demo], cwd=repo, env=ENV, capture_output=True, text=True)
        print('%s demo: clean %d, patched %d' % (b['ID'], a.returncode, c.returncode), (a.stderr[-1500:] if a.returncode else ''), '|', c.stderr.strip().split('\n')[-1][:200])
        if '--notest' not in opts:
            e = dict(ENV, DATA_FOLDER=os.path.join(s, 'data'))
            os.makedirs(e['DATA_FOLDER'])
            r = subprocess.run('/opt/venv/bin/python -m pytest tests -q --tb=short -W ignore -p no:cacheprovider -p no:xdist --timeout=300 '
                               '--ignore=tests/Dataset/test_integrated_datasets.py --ignore=tests/Recommender/Baseline/test_item_cf.py '
                               '--ignore=tests/Recommender/Baseline/test_user_cf.py', shell=True, cwd=repo, env=e, capture_output=True, text=True)
            print(b['ID'], 'tests:', r.stdout.strip().split('\n')[-1], '' if r.returncode == 0 else r.stdout[-1500:])
        if '--check' in opts:
            r = subprocess.run(['./check', b['PROPERTY'], 'quick'], cwd=ROOT, env=dict(os.environ, VERIF_REPO=repo), capture_output=True, text=True)
            print(b['ID'], 'check %s exit %d: %s' % (b['PROPERTY'], r.returncode, r.stdout[:400] + r.stderr[-200:]*(r.returncode>1)))
    finally:
        shutil.rmtree(s, ignore_errors=True)


main(sys.argv[1], sys.argv[2:])
