import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
try:
    import importlib, check
    sys.modules['check'] = check
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    importlib.import_module(pid.lower()).run(tier)
except SystemExit: raise
except BaseException:
    traceback.print_exc(); sys.exit(3)
