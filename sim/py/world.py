"""The simulated world: imports, files, clocks, scripts and threads."""
import builtins, errno, importlib.abc, importlib.machinery, importlib.util, io, os, shutil, sys, tempfile, threading, time, types
import rt

REPO = GEN = None


class _Pb2Finder(importlib.abc.MetaPathFinder):
  """Generated protobuf modules come from this check's own protoc output."""

  def find_spec(self, fullname, path, target=None):
    if not fullname.endswith('_pb2') or not fullname.startswith('waymo_open_dataset.'):
      return None
    f = GEN + '/' + fullname.replace('.', '/') + '.py'
    return importlib.util.spec_from_file_location(fullname, f) if os.path.exists(f) else None


def install(repo, gen):
  global REPO, GEN
  REPO, GEN = os.path.abspath(repo), os.path.abspath(gen)
  sys.meta_path.insert(0, _Pb2Finder())
  sys.path.insert(0, REPO)


# ---------------------------------------------------------------- files

_real = dict(open=io.open, listdir=os.listdir, scandir=os.scandir, mkdir=os.mkdir, replace=os.replace, rename=os.rename,
             remove=os.remove, unlink=os.unlink, rmdir=os.rmdir, fsync=os.fsync)


class _Raw(io.RawIOBase):
  """An unbuffered file of the simulated file system."""

  def __init__(self, fs, path, mode):
    super().__init__()
    self.fs, self.path, self.mode_ = fs, path, mode
    flags = os.O_RDONLY if mode[0] == 'r' else os.O_WRONLY | os.O_CREAT
    if '+' in mode:
      flags = flags & ~3 | os.O_RDWR
    if mode[0] == 'w':
      flags |= os.O_TRUNC
    elif mode[0] == 'a':
      flags |= os.O_APPEND
    elif mode[0] == 'x':
      flags |= os.O_EXCL
    self.fd = os.open(path, flags | os.O_CLOEXEC, 0o666)
    self.name = path
    self.written = False
    self.before = os.fstat(self.fd).st_size

  def readable(self):
    return self.mode_[0] == 'r' or '+' in self.mode_

  def writable(self):
    return self.mode_[0] != 'r' or '+' in self.mode_

  def seekable(self):
    return True

  def fileno(self):
    raise io.UnsupportedOperation('fileno')

  def seek(self, off, whence=0):
    return os.lseek(self.fd, off, whence)

  def truncate(self, size=None):
    if self.fs.dead:
      return 0
    size = self.tell() if size is None else size
    os.ftruncate(self.fd, size)
    return size

  def readinto(self, b):
    self.fs.op('read', self.path)
    n = len(b)
    kind = self.fs.fault('read', self.path, ('short', 'eio'))
    if kind == 'eio':
      raise OSError(errno.EIO, os.strerror(errno.EIO), self.path)
    if kind == 'short' and n > 1:
      n = 1 + rt.F(min(n - 1, 4096))
    d = os.read(self.fd, n)
    b[:len(d)] = d
    return len(d)

  def write(self, b):
    if self.fs.dead:
      return len(b)
    b = bytes(b)
    self.fs.op('write', self.path)
    kind = self.fs.fault('write', self.path, ('short', 'enospc', 'eio', 'crash'))
    if kind in ('enospc', 'eio', 'crash'):
      # Part of the data may have arrived.
      part = rt.F(len(b) + 1) if len(b) < 1 << 20 else 0
      os.write(self.fd, b[:part])
      if kind == 'crash':
        self.fs.crash()
      self.fs.hard += 1
      e = errno.ENOSPC if kind == 'enospc' else errno.EIO
      raise OSError(e, os.strerror(e), self.path)
    n = len(b)
    if kind == 'short' and n > 1:
      n = 1 + rt.F(min(n - 1, 4096))
    self.written = True
    return os.write(self.fd, b[:n])

  def close(self):
    if self.closed:
      return
    lost = False
    if self.written and not self.fs.dead and self.fs.active:
      self.fs.op('close', self.path)
      kind = self.fs.fault('close', self.path, ('close-eio', 'crash'))
      if kind == 'crash':
        os.close(self.fd)
        super().close()
        self.fs.crash()
      if kind == 'close-eio':
        # Delayed write-back failed (NFS, quota): the tail never got there.
        size = os.fstat(self.fd).st_size
        os.ftruncate(self.fd, rt.F(size) if size else 0)
        lost = True
        self.fs.hard += 1
    os.close(self.fd)
    super().close()
    if lost:
      raise OSError(errno.EIO, os.strerror(errno.EIO), self.path)


class _Entry:

  def __init__(self, e):
    self._e = e
    self.name, self.path = e.name, e.path

  def __getattr__(self, k):
    return getattr(self._e, k)

  def __fspath__(self):
    return self.path


class _Scan:

  def __init__(self, entries):
    self._it = iter(entries)

  def __iter__(self):
    return self

  def __next__(self):
    return next(self._it)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()

  def close(self):
    self._it = iter(())


class FS:
  """A scratch directory seen through faulty system calls.

  rate: one fault in about `rate` operations; 0 for none. `hard` counts the
  injected faults which really lose or refuse something.
  """

  def __init__(self):
    # The path is the same in every run: it may show in event logs and hashes.
    self.root = tempfile.mkdtemp(prefix='wodfs-')
    self.rate = 0
    self.kinds = ()
    self.hard = 0
    self.dead = False
    self.active = False

  def path(self, *parts):
    return os.path.join(self.root, *parts)

  def inside(self, p):
    try:
      p = os.fspath(p)
    except TypeError:
      return False
    return isinstance(p, str) and os.path.abspath(p).startswith(self.root + '/')

  def rel(self, p):
    return os.path.relpath(os.fspath(p), self.root)

  def op(self, what, p):
    if self.dead:
      raise rt.SimCrash()
    rt.event('%s %s' % (what, self.rel(p)))
    rt.C.clock += 1000 + 20000 * rt.S(8)  # I/O takes simulated time

  def fault(self, what, p, kinds):
    kinds = [k for k in kinds if k in self.kinds]
    if not self.active or not self.rate or not kinds or not rt.FP(1, self.rate):
      return None
    k = kinds[rt.F(len(kinds))]
    rt.fault('%s: %s' % (what, {'short': 'short transfer', 'eio': 'I/O error', 'enospc': 'disk full', 'crash': 'process killed',
                                'close-eio': 'error at close, data lost', 'emfile': 'too many open files'}[k]))
    if k in ('eio', 'emfile') and what != 'write':
      self.hard += 1
    return k

  def crash(self):
    self.dead = True
    raise rt.SimCrash()

  # -- the patched calls
  def _open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not self.active or not self.inside(file):
      return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    p = os.path.abspath(os.fspath(file))
    self.op('open-' + mode.replace('b', '').replace('t', ''), p)
    k = self.fault('open', p, ('emfile', 'eio', 'crash'))
    if k == 'crash':
      self.crash()
    if k:
      e = errno.EMFILE if k == 'emfile' else errno.EIO
      raise OSError(e, os.strerror(e), p)
    base = mode.replace('b', '').replace('t', '')
    raw = _Raw(self, p, base)
    if 'b' in mode and buffering == 0:
      return raw
    size = buffering if buffering > 1 else 8192
    if '+' in base:
      buf = io.BufferedRandom(raw, size)
    elif base[0] == 'r':
      buf = io.BufferedReader(raw, size)
    else:
      buf = io.BufferedWriter(raw, size)
    if 'b' in mode:
      return buf
    t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=buffering == 1)
    t.mode = mode
    return t

  def _order(self, p, names):
    self.op('list', p)
    if self.fault('list', p, ('eio',)):
      raise OSError(errno.EIO, os.strerror(errno.EIO), str(p))
    names = sorted(names)
    perm = rt.permutation(rt.SCHED, len(names))
    return [names[i] for i in perm]

  def _listdir(self, path='.'):
    if not self.active or not (self.inside(path)):
      return _real['listdir'](path)
    return self._order(path, _real['listdir'](path))

  def _scandir(self, path='.'):
    if not self.active or not self.inside(path):
      return _real['scandir'](path)
    with _real['scandir'](path) as it:
      by = {e.name: e for e in it}
    return _Scan([by[n] for n in self._order(path, list(by))])

  def _meta(self, name):
    real = _real[name]

    def call(p, *a, **k):
      if not self.active or not self.inside(p):
        return real(p, *a, **k)
      if self.dead:
        raise rt.SimCrash()
      self.op(name, p)
      kind = self.fault(name, p, ('enospc', 'crash') if name == 'mkdir' else ('eio', 'crash'))
      if kind == 'crash':
        if rt.F(2):
          real(p, *a, **k)
        self.crash()
      if kind:
        self.hard += 1
        e = errno.ENOSPC if kind == 'enospc' else errno.EIO
        raise OSError(e, os.strerror(e), str(p))
      return real(p, *a, **k)
    return call

  def patch(self):
    builtins.open = io.open = self._open
    os.listdir, os.scandir = self._listdir, self._scandir
    for n in ('mkdir', 'replace', 'rename', 'remove', 'unlink', 'rmdir'):
      setattr(os, n, self._meta(n))
    os.fsync = lambda fd: None
    try:
      import numpy.lib.format, numpy.compat.py3k, numpy.compat, numpy.lib.npyio
      for m in (numpy.lib.format, numpy.compat.py3k, numpy.compat):
        if hasattr(m, 'isfileobj'):
          m.isfileobj = lambda f: False  # read() and write() instead of the descriptor
    except ImportError:
      pass

  def unpatch(self):
    builtins.open = io.open = _real['open']
    for n in ('listdir', 'scandir', 'mkdir', 'replace', 'rename', 'remove', 'unlink', 'rmdir', 'fsync'):
      setattr(os, n, _real[n])

  def start(self, rate, kinds):
    self.rate, self.kinds, self.active, self.dead = rate, kinds, True, False

  def stop(self):
    self.active = False

  def remove(self):
    self.stop()
    self.unpatch()
    shutil.rmtree(self.root, ignore_errors=True)


# ---------------------------------------------------------------- clocks


class Clock:
  """Simulated clocks. The wall clock jumps; CPU time does not pass while waiting."""

  def __init__(self):
    self.base = 1700000000 * 10**9
    self.mono = 5 * 10**9 + rt.W(1000) * 12345
    self.wall_offset = 0
    self.cpu = 0
    self.jumps = 0

  def wait(self, ns, cpu=0):
    rt.C.clock += ns
    self.cpu += cpu

  def maybe_jump(self):
    if rt.FP(1, 4):
      self.wall_offset += (rt.F(7200) - 3600) * 10**9
      self.jumps += 1
      rt.fault('wall clock jumps')

  def patch(self):
    mono = lambda: self.mono + rt.C.clock
    wall = lambda: self.base + rt.C.clock + self.wall_offset
    cpu = lambda: self.cpu
    for names, f in ((('perf_counter', 'monotonic'), mono), (('time',), wall), (('process_time', 'thread_time'), cpu)):
      for n in names:
        setattr(time, n, lambda f=f: f() / 1e9)
        setattr(time, n + '_ns', lambda f=f: f())
    time.sleep = lambda s: self.wait(int(s * 1e9))
    real_gettime = {time.CLOCK_REALTIME: wall, time.CLOCK_MONOTONIC: mono, time.CLOCK_PROCESS_CPUTIME_ID: cpu}
    time.clock_gettime = lambda c: real_gettime.get(c, mono)() / 1e9
    time.clock_gettime_ns = lambda c: real_gettime.get(c, mono)()


# ---------------------------------------------------------------- scripts


def compile_script(rel):
  path = REPO + '/' + rel
  return compile(_real['open'](path, encoding='utf-8').read(), path, 'exec')


def run_script(code, argv):
  """Runs a script as a process of its own. Returns 'ok', 'crash' or what it failed with."""
  m = types.ModuleType('__main__')
  m.__file__ = code.co_filename
  old_main, old_argv = sys.modules['__main__'], sys.argv
  sys.modules['__main__'], sys.argv = m, [code.co_filename] + argv
  try:
    exec(code, m.__dict__)
    return 'ok'
  except rt.SimCrash:
    return 'crash'
  except rt.End:
    raise
  except SystemExit as e:
    return 'ok' if e.code in (None, 0) else 'exit %r' % (e.code,)
  except BaseException as e:
    return 'error %s: %s' % (type(e).__name__, str(e)[:300])
  finally:
    sys.modules['__main__'], sys.argv = old_main, old_argv


# ---------------------------------------------------------------- threads


class Threads:
  """Runs functions as threads of which one moves at a time.

  A switch may happen before every line (or every instruction) of the
  repository's code; who goes on is drawn.
  """

  def __init__(self, rate, opcodes=False):
    self.rate, self.opcodes = rate, opcodes
    self.ready, self.current = [], None
    self.sems = {}
    self.errors = []
    self.fail = {}  # thread -> steps until an allocation fails

  def _trace(self, frame, event, arg):
    if not frame.f_code.co_filename.startswith(REPO):
      return None
    frame.f_trace_opcodes = self.opcodes
    return self._local

  def _local(self, frame, event, arg):
    if event == ('opcode' if self.opcodes else 'line'):
      rt.C.steps += 1
      rt.C.clock += 100
      me = self.current
      if me in self.fail:
        self.fail[me] -= 1
        if self.fail[me] < 0:
          del self.fail[me]
          rt.fault('allocation fails')
          raise MemoryError()  # also ends tracing in this thread, see retrace()
      if len(self.ready) > 1 and rt.draw(rt.SCHED, self.rate) == self.rate - 1:
        self._switch()
    return self._local

  def retrace(self):
    sys.settrace(self._trace)

  def _switch(self):
    me = self.current
    others = [t for t in self.ready if t != me]
    to = others[rt.S(len(others))]
    rt.C.switches += 1
    rt.event('switch %d' % to)
    self.current = to
    self.sems[to].release()
    self.sems[me].acquire()

  def _body(self, i, fn):
    self.sems[i].acquire()
    sys.settrace(self._trace)
    try:
      fn()
    except BaseException as e:  # pylint: disable=broad-except
      self.errors.append((i, e))
    finally:
      sys.settrace(None)
      self.ready.remove(i)
      if self.ready:
        to = self.ready[rt.S(len(self.ready))]
        self.current = to
        self.sems[to].release()
      else:
        self.done.release()

  def run(self, fns):
    self.done = threading.Semaphore(0)
    self.ready = list(range(len(fns)))
    ts = []
    for i, fn in enumerate(fns):
      self.sems[i] = threading.Semaphore(0)
      t = threading.Thread(target=self._body, args=(i, fn), daemon=True)
      ts.append(t)
      t.start()
    first = rt.S(len(fns))
    self.current = first
    self.sems[first].release()
    self.done.acquire()
    for t in ts:
      t.join()
    for i, e in self.errors:
      if isinstance(e, (rt.End, rt.Unsupported)):
        raise e
    return self.errors
