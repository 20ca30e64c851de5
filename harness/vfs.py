"""A gated in-memory fsspec filesystem: every operation is a step the schedule
grants, fails, or never resumes.  Writes become visible piecewise; only mv is
atomic (copy is not), and it refuses to replace a file unless told to."""
import threading
import fsspec
from fsspec.spec import AbstractFileSystem


class Fault(OSError):
  pass


class HardFault(BaseException):
  """Stands for a worker interruption that is not an Exception."""


class Killed(BaseException):
  pass


class World:
  def __init__(self):
    self.files, self.dirs = {}, {''}
    self.owner = {}            # path -> set of writers that opened it for writing
    self.closed = False
    self.tls = threading.local()
    self.gates = {}            # writer -> Gate

  def gate(self, op, path):
    w = getattr(self.tls, 'w', None)
    if w is None:
      return None
    return self.gates[w].request(op, path)


class Gate:
  """Hand-over point between the scheduler and one writer thread."""

  def __init__(self):
    self.want = threading.Semaphore(0)
    self.grant = threading.Semaphore(0)
    self.op = None
    self.decision = None
    self.kill = False
    self.finished = False

  def request(self, op, path):
    if self.kill:
      raise Killed()
    self.op = (op, path)
    self.want.release()
    self.grant.acquire()
    if self.kill:
      raise Killed()
    d, self.decision = self.decision, None
    return d

  def finish(self):
    self.finished = True
    self.op = None
    self.want.release()


WORLD = None


def boom(kind, what):
  raise (HardFault if kind == 'hard' else Fault)(f'injected failure in {what}')


class VFS(AbstractFileSystem):
  protocol = 'vfs'
  cachable = False
  root_marker = ''

  @classmethod
  def _strip_protocol(cls, path):
    path = path if isinstance(path, str) else str(path)
    if path.startswith('vfs://'):
      path = path[6:]
    return path.strip('/')

  def _parents(self, p):
    parts = p.split('/')
    return ['/'.join(parts[:i]) for i in range(1, len(parts) + 1)]

  def makedirs(self, path, exist_ok=False):
    path = self._strip_protocol(path)
    d = WORLD.gate('makedirs', path)
    if d:
      boom(d, 'makedirs')
    if path in WORLD.dirs and not exist_ok:
      raise FileExistsError(path)
    WORLD.dirs.update(self._parents(path))

  def mkdir(self, path, create_parents=True, **kw):
    self.makedirs(path, exist_ok=False)

  def exists(self, path, **kw):
    path = self._strip_protocol(path)
    WORLD.gate('exists', path)
    return path in WORLD.files or path in WORLD.dirs

  def isdir(self, path):
    return self._strip_protocol(path) in WORLD.dirs

  def isfile(self, path):
    return self._strip_protocol(path) in WORLD.files

  def info(self, path, **kw):
    path = self._strip_protocol(path)
    if path in WORLD.files:
      return dict(name=path, size=len(WORLD.files[path]), type='file')
    if path in WORLD.dirs:
      return dict(name=path, size=0, type='directory')
    raise FileNotFoundError(path)

  def ls(self, path, detail=True, **kw):
    path = self._strip_protocol(path)
    WORLD.gate('ls', path)
    pre = path + '/' if path else ''
    if path in WORLD.files:
      r = [self.info(path)]
    else:
      names = [p for p in list(WORLD.files) + list(WORLD.dirs) if p.startswith(pre) and p != path and '/' not in p[len(pre):] and p]
      r = [self.info(p) for p in names]
    return r if detail else [x['name'] for x in r]

  def _open(self, path, mode='rb', **kw):
    path = self._strip_protocol(path)
    if 'r' in mode and '+' not in mode:
      import io
      WORLD.gate('open_r', path)
      return io.BytesIO(WORLD.files[path])
    d = WORLD.gate('open', path)
    if d:
      boom(d, 'open')
    if path.rpartition('/')[0] not in WORLD.dirs:
      raise FileNotFoundError(path)
    if 'x' in mode and path in WORLD.files:
      raise FileExistsError(path)
    WORLD.owner.setdefault(path, set()).add(WORLD.tls.w)
    if 'a' not in mode:
      WORLD.files[path] = b''
    return Writer(path)

  def open(self, path, mode='rb', block_size=None, cache_options=None, compression=None, **kw):
    if 'b' not in mode:
      return super().open(path, mode=mode, compression=compression, **kw)
    return self._open(path, mode=mode)

  def rm_file(self, path):
    path = self._strip_protocol(path)
    d = WORLD.gate('rm', path)
    if d:
      boom(d, 'rm')
    if path not in WORLD.files:
      raise FileNotFoundError(path)
    del WORLD.files[path]

  _rm = rm_file

  def rm(self, path, recursive=False, maxdepth=None):
    for p in (path if isinstance(path, list) else [path]):
      self.rm_file(p)

  delete = rm

  def mv(self, path1, path2, overwrite=False, **kw):
    a, b = self._strip_protocol(path1), self._strip_protocol(path2)
    d = WORLD.gate('mv', b)
    if d:
      boom(d, 'mv')
    if a not in WORLD.files:
      raise FileNotFoundError(a)
    if b in WORLD.files and not overwrite:
      raise FileExistsError(b)
    WORLD.files[b] = WORLD.files.pop(a)

  def move(self, path1, path2, **kw):
    self.mv(path1, path2, **kw)

  def rename(self, path1, path2, **kw):
    self.mv(path1, path2, **kw)

  def cp_file(self, path1, path2, **kw):
    a, b = self._strip_protocol(path1), self._strip_protocol(path2)
    data = WORLD.files.get(a)
    if data is None:
      raise FileNotFoundError(a)
    with self._open(b, 'wb') as f:
      f.write(data)

  def copy(self, path1, path2, **kw):
    self.cp_file(path1, path2)

  def touch(self, path, truncate=True, **kw):
    with self._open(path, 'wb'):
      pass


class Writer:
  """A file being written: half of each piece becomes visible at a time."""

  def __init__(self, path):
    self.path, self.closed = path, False
    self.mine = WORLD.files[path]

  def put(self, piece):
    # the writer extends its own view of the file; whoever else writes the
    # same path overwrites it (two independent file offsets)
    self.mine = self.mine + piece
    cur = WORLD.files.get(self.path)
    if cur is None:          # unlinked while open
      return
    WORLD.files[self.path] = self.mine + cur[len(self.mine):]

  def write(self, data):
    data = bytes(data)
    h = len(data) // 2
    for name, piece in (('write1', data[:h]), ('write2', data[h:])):
      d = WORLD.gate(name, self.path)
      if d:
        self.put(piece[:len(piece) // 2])
        boom(d, name)
      self.put(piece)
    return len(data)

  def writelines(self, ls):
    for x in ls:
      self.write(x)

  def flush(self, *a, **k):
    pass

  def tell(self):
    return len(self.mine)

  def writable(self):
    return True

  def readable(self):
    return False

  def seekable(self):
    return False

  def close(self):
    if self.closed:
      return
    self.closed = True
    d = WORLD.gate('close', self.path)
    if d:
      boom(d, 'close')

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()

  def __del__(self):
    self.closed = True


fsspec.register_implementation('vfs', VFS, clobber=True)
