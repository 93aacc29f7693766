import importlib, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))
from mc import core
sys.path.insert(0, core.REPO)
import contextlib, io, warnings
warnings.simplefilter("ignore")
import logging
logging.disable(logging.WARNING)
if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module("mc.checks." + prop.lower())
    import torchdyn
    assert os.path.realpath(torchdyn.__file__).startswith(os.path.realpath(core.REPO)), torchdyn.__file__
    sys.exit(core.main(mod, sys.argv[2:]))
