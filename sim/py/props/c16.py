"""C16: delta encoding of range images under concurrent, failing and repeated use."""
import numpy as np
import rt, world
from rt import W, WP, F, FP, S, pick, probe, fault, check

enc = None


def gen_image(k):
  r = np.random.RandomState(k * 7919 + W(1 << 16))
  shape = (1 + W(5), 1 + W(6), 1 + W(4))
  kind = W(6)
  if kind == 0:
    a = r.uniform(0, 75, shape)
  elif kind == 1:
    a = r.uniform(-10, 10, shape) * (r.rand(*shape) < 0.5)
  elif kind == 2:
    a = np.zeros(shape)
    if W(2):
      a[tuple(W(n) for n in shape)] = 3.25
  elif kind == 3:
    a = np.round(r.uniform(-4, 4, shape)) * 0.5  # halves, zeros, repeats
  elif kind == 4:
    a = r.uniform(-1, 1, shape) * 10.0**r.randint(-3, 6, shape)
  else:
    a = np.repeat(r.uniform(0, 5, shape[:2] + (1,)), shape[2], 2)
  dt = pick([np.float64, np.float32, np.float32, np.int32])
  a = a.astype(dt)
  lay = W(5)
  if lay == 1:
    a = np.asfortranarray(a)
  elif lay == 2:
    b = np.zeros(tuple(2 * n for n in shape), dt)
    b[::2, ::2, ::2] = a
    a = b[::2, ::2, ::2]
  elif lay == 3:
    a = a[::-1, :, ::-1]
  elif lay == 4:
    a.setflags(write=False)
  if W(2):
    p = pick([0.1, 1, 0.005, 0.5, 0.25, 2.0])
    ps = [p] * shape[2]
  else:
    p = ps = [pick([0.1, 1, 0.005, 0.5, 0.25, 2.0]) for _ in range(shape[2])]
  return dict(a=a, p=p, ps=ps, keep=a.copy())


def close(im, got, where):
  check(isinstance(got, np.ndarray) and got.shape == im['keep'].shape, 'shape', '%s: shape %r, encoded %r', where,
        getattr(got, 'shape', None), im['keep'].shape)
  x = im['keep'].astype(np.float64)
  tol = np.array(im['ps']) * 0.5001 + np.abs(x) * 5e-7
  bad = np.abs(got.astype(np.float64) - x) > tol
  if bad.any():
    i = tuple(int(v) for v in np.argwhere(bad)[0])
    rt.violation('value', '%s: value %r at %r came back as %r (precision %r)', where, float(x[i]), i, float(got[i]),
                 im['ps'][i[2]])
  if got.flags.writeable and WP(1, 2):
    got[...] = -7  # the caller goes on working with its array


def intact(im, where):
  a = im['a']
  check(a.shape == im['keep'].shape and (a == im['keep']).all(), 'input-changed', '%s: the image given to compress '
        'was changed', where)


def big():
  """Dimensions around what the format can hold."""
  at = W(3)
  over = bool(W(2))
  shape = [1, 1, 1]
  shape[at] = 65535 + (1 + W(2) if over else 0)
  a = np.zeros(shape, np.float32)
  for _ in range(W(4)):
    i = [0, 0, 0]
    i[at] = pick([0, shape[at] - 1, W(shape[at])])
    a[tuple(i)] = 1 + W(100) / 4
  im = dict(a=a, ps=[0.5] * shape[2], keep=a.copy())
  if over:
    fault('image too large')
  try:
    c = enc.compress(a, 0.5)
  except ValueError:
    check(over, 'size-refused', 'an image of shape %r is refused', shape)
    probe('too large, refused')
    return
  # Whatever was accepted has to come back.
  if over:
    rt.violation('size-accepted', 'an image of shape %r, more than the format holds, is accepted', shape)
  close(im, enc.decompress(c), 'large image %r' % (shape,))
  probe('largest image')


def run():
  if WP(1, 150):
    big()
  n = 1 + W(3)
  images = [gen_image(i) for i in range(n)]
  nt = 1 + W(3)
  for im in images:
    rt.note(im['keep'].tobytes(), str(im['keep'].dtype), im['keep'].shape, im['ps'])
  # What each image is encoded to, alone and first.
  base = world.Threads(1 << 30)
  plan = []
  for t in range(nt):
    plan.append([(pick(['round', 'round', 'decode', 'damage', 'refuse']), W(n)) for _ in range(1 + W(3))])
  rt.note(plan)
  rt.log('images %r plan %r', [(im['keep'].shape, str(im['keep'].dtype), im['p']) for im in images], plan)
  alone = []
  first = WP(1, 2)
  pristine = [(dict(im, a=im['keep'].copy())) for im in images]
  for im in pristine:
    c = enc.compress(im['a'], im['p'])
    check(isinstance(c, bytes), 'type', 'compress returned %s', type(c).__name__)
    intact(im, 'compress alone')
    check(enc.compress(im['a'], im['p']) == c, 'repeat', 'encoding the same image again gave other bytes')
    close(im, enc.decompress(c), 'alone')
    alone.append(c)
  if nt > 1 or n > 1:
    rt.nontrivial()
  th = world.Threads(pick_rate(), opcodes=bool(S(2)))
  oom = F(3) == 2

  def encode(i, where):
    im = images[i]
    c = enc.compress(im['a'], im['p'])
    check(c == alone[i], 'bytes-differ', '%s: image %d was encoded to other bytes than alone', where, i)
    intact(im, where)
    return c

  def op(t, k, what, i):
    where = 'thread %d operation %d (%s %d)' % (t, k, what, i)
    if what == 'round':
      close(images[i], enc.decompress(encode(i, where)), where)
    elif what == 'decode':
      close(images[i], enc.decompress(alone[i]), where)
    elif what == 'damage':
      damaged(i, where)
    else:
      refuse(i, where)

  def damaged(i, where):
    b = bytearray(alone[i])
    kind = F(4)
    if kind == 0:
      b = b[:F(len(b))]
      fault('stream truncated')
    elif kind == 1:
      x = F(len(b) * 8)
      b[x // 8] ^= 1 << x % 8
      fault('stream bit flipped')
    elif kind == 2:
      # The tail comes from another write.
      o = alone[F(len(alone))]
      x = F(len(b))
      b = b[:x] + o[x:]
      fault('stream torn')
    else:
      x = F(len(b))
      y = min(len(b), x + 1 + (F(8) or len(b)))
      b[x:y] = bytes(y - x)
      fault('stream block lost')
    try:
      got = enc.decompress(bytes(b))
    except MemoryError:
      raise
    except Exception as e:
      probe('damage noticed')
      return
    if bytes(b) != alone[i]:
      probe('damage harmless')
    for j, im in enumerate(images):
      if bytes(b) == alone[j]:
        return close(im, got, where)
    close(images[i], got, where)

  def refuse(i, where):
    im = images[i]
    c = im['keep'].shape[2]
    p = [0, -0.1, [0.1] * (c + 1), [0.1] * (c - 1) + [0], [-1.0] + [0.1] * (c - 1)][F(5)]
    fault('invalid precision')
    try:
      enc.compress(im['a'], p)
    except ValueError:
      intact(im, where)
    else:
      rt.violation('precision-accepted', '%s: precision %r for %d channels was accepted', where, p, c)

  def body(t):
    def go():
      for k, (what, i) in enumerate(plan[t]):
        if oom and F(3) == 2:
          th.fail[t] = F(300)
        try:
          op(t, k, what, i)
        except MemoryError:
          probe('operation repeated after a failed allocation')
          intact(images[i], 'after a failed allocation')
          th.retrace()
          op(t, k, what, i)
        th.fail.pop(t, None)
    return go
  errors = th.run([body(t) for t in range(nt)])
  for t, e in errors:
    rt.violation('error', 'thread %d: %s: %s', t, type(e).__name__, str(e)[:300])
  for i, im in enumerate(images):
    intact(im, 'afterwards')
    encode(i, 'afterwards')
    close(im, enc.decompress(alone[i]), 'afterwards')


def pick_rate():
  return (3, 8, 30, 100)[S(4)]


def setup(args):
  global enc
  from waymo_open_dataset.utils.compression import delta_encoder
  enc = delta_encoder
  return run
