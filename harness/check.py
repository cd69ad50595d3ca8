import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
pid = sys.argv[1]
mod = importlib.import_module(pid.lower())
sys.exit(vlib.main(pid, mod.check, getattr(mod, "LEVEL", "model_checking")))
