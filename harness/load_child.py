"""Child process of the C26 check: loads saved models and answers queries."""
import json, os, sys
sys.path.insert(0, os.environ['VERIF_REPO_PATH'])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.environ['DATA_FOLDER'], exist_ok=True)
from models import TableModel  # noqa: E402
from p_recommender import answer  # noqa: E402

out = []
for j in json.load(open(sys.argv[1])):
    r = dict(err=False, answers=[])
    try:
        mdl = TableModel.load(j['file'])
        r['answers'] = [[k, answer(mdl, q)] for k, q in j['qs']]
    except Exception as ex:
        r.update(err=True, why=repr(ex)[:300])
    out.append(r)
json.dump(out, open(sys.argv[2], 'w'))
