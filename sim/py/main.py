"""Entry point of the Python simulations; see rt.py."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tempfile
tempfile.tempdir = os.getcwd()
import rt
import world


def load(name, args):
  world.install(args.repo, args.gen)
  return importlib.import_module('props.' + name.lower()).setup(args)


if __name__ == '__main__':
  rc = rt.main(load, sys.argv[1:])
  sys.stdout.flush()
  os._exit(rc)
