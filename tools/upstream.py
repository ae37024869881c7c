"""Runs the repository's own TensorFlow tests on the stub kernels of sim/py: how faithful the stub is, and whether a fix keeps them passing.

  upstream.py GEN REPO_SRC MODULE...   (GEN: generated protos as built by sim/build.py)
"""
import importlib, os, sys, types, unittest
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'sim', 'py'))
gen, repo = sys.argv[1:3]
import numpy as np
import world, rt
world.install(repo, gen)
import tfsim, tfeager
tf = tfsim.module()
tfeager.extend(tf)
import simagents
simagents.extend(tf)
np.seterr(all='ignore')


def arr(x):
  if isinstance(x, (list, tuple)):
    return np.array([arr(y) for y in x])
  return np.asarray(x.numpy() if hasattr(x, 'numpy') else x)


class TestCase(unittest.TestCase):

  def assertAllClose(self, a, b, rtol=1e-6, atol=1e-6, msg=None):
    if isinstance(a, dict):
      assert a.keys() == b.keys()
      for k in a:
        self.assertAllClose(a[k], b[k], rtol, atol)
      return
    a, b = arr(a), arr(b)
    self.assertEqual(a.shape, b.shape)
    np.testing.assert_allclose(a, b, rtol, atol)

  def assertAllEqual(self, a, b, msg=None):
    a, b = arr(a), arr(b)
    self.assertEqual(a.shape, b.shape)
    np.testing.assert_array_equal(a, b)

  def assertAllInSet(self, a, s):
    assert set(arr(a).reshape(-1).tolist()) <= set(s)

  def assertAllLess(self, a, v): assert (arr(a) < v).all()
  def assertAllGreater(self, a, v): assert (arr(a) > v).all()
  def assertAllLessEqual(self, a, v): assert (arr(a) <= v).all()
  def assertAllGreaterEqual(self, a, v): assert (arr(a) >= v).all()
  def assertAllInRange(self, a, lo, hi): assert ((arr(a) >= lo) & (arr(a) <= hi)).all()
  def assertNotAllClose(self, a, b, **k): assert not np.allclose(arr(a), arr(b))
  def assertNotAllEqual(self, a, b): assert not np.array_equal(arr(a), arr(b))
  def assertAllTrue(self, a): assert arr(a).all()
  def assertAllFalse(self, a): assert not arr(a).any()
  def assertNear(self, a, b, err, msg=None): assert abs(arr(a) - arr(b)) <= err
  def assertShapeEqual(self, a, b): self.assertEqual(arr(a).shape, arr(b).shape)
  def assertDTypeEqual(self, a, d): self.assertEqual(arr(a).dtype, np.dtype(getattr(d, "as_numpy_dtype", d)))
  def evaluate(self, x): return arr(x)
  def assertProtoEquals(self, a, b): self.assertEqual(a, b)


tf.test = types.SimpleNamespace(TestCase=TestCase, main=lambda: None)


class Records:
  """The records of a TFRecord file."""

  def __init__(self, path, *_, **__):
    d, self.rows, k = open(path, 'rb').read(), [], 0
    while k < len(d):
      n = int.from_bytes(d[k:k + 8], 'little')
      self.rows.append(d[k + 12:k + 12 + n])
      k += 16 + n

  def take(self, n): self.rows = self.rows[:n]; return self
  def map(self, f): self.rows = [f(x) for x in self.rows]; return self
  def batch(self, n): return self
  def repeat(self, *_): return self
  def get_single_element(self): return types.SimpleNamespace(numpy=lambda: self.rows[0])
  def as_numpy_iterator(self): return iter(self.rows)
  def __iter__(self): return (types.SimpleNamespace(numpy=lambda r=r: r) for r in self.rows)


tf.random = types.SimpleNamespace(uniform=lambda s: tf.convert_to_tensor(np.random.RandomState(0).rand(*s).astype('float32')))
tf.data = types.SimpleNamespace(TFRecordDataset=Records)
os.chdir(repo)
suite = unittest.TestSuite()
for m in sys.argv[3:]:
  suite.addTests(unittest.defaultTestLoader.loadTestsFromModule(importlib.import_module('waymo_open_dataset.' + m)))
r = unittest.TextTestRunner(verbosity=1).run(suite)
sys.stdout.flush()
os._exit(0 if r.wasSuccessful() else 1)
