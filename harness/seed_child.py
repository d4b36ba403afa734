import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.setup_env()
try:
    import p_sampler
    p_sampler.child_main(*sys.argv[1:4])
finally:
    core.cleanup_env()
sys.stdout.flush()
os._exit(0)
