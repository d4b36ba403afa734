import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

MODULES = {}
for mod, ids in dict(p_dataset='C01 C02 C03 C04 C05 C20', p_persist='C06 C07 C25', p_splits='C08 C09', p_sampler='C10 C11 C21',
                     p_recommender='C12 C13 C26', p_training='C14 C15', p_eval='C16 C17 C18', p_metrics='C19 C22', p_neural='C27',
                     p_loading='C23 C24').items():
    for i in ids.split():
        MODULES[i] = mod


def main(argv):
    replay = None
    if argv and argv[0] == '--replay':
        replay = json.load(open(argv[1]))
        prop, tier, seed = replay['property'], replay['tier'], replay['seed']
    else:
        prop = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    core.setup_env()
    try:
        mod = importlib.import_module(MODULES[prop])
        chk = core.Check(prop, tier, seed)
        chk.replay = replay
        getattr(mod, prop)(chk)
        return chk.finish()
    finally:
        core.cleanup_env()


if __name__ == '__main__':
    started = time.time()
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        if time.time() - started < 330 and not os.environ.get('VERIF_AGAIN'):  # e.g. a moment without memory
            sys.stderr.flush()
            os.environ['VERIF_AGAIN'] = '1'
            os.execv(sys.executable, [sys.executable] + sys.argv)
        print('CHECK-ERROR (machinery failure, no verdict)')
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
