"""SimDisk: every file the library opens below a scratch directory goes through
a raw layer that the plan controls.

The files are real (so renames, temporary files and the like work), only their
raw reads, writes and closes are intercepted:

* short reads and writes: each raw call moves at most `chunk` bytes, the sizes
  being taken from a list in the plan, in turn;
* buffer sizes and the text layer's chunk size are set by the plan;
* the n-th open / read / write / close can fail with ENOSPC, EIO or EINTR-like
  OSErrors, or crash the process: bytes handed over so far stay, a prefix of
  the current write may stay, nothing is written by that process afterwards;
* the machine's own text encoding, which files opened without naming one get,
  is set by the plan and can change between two calls.
"""
import builtins
import errno
import io
import os

_real_open = builtins.open
_real_io_open = io.open


class Crash(BaseException):
    """The simulated process died."""


ERRNO = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES,
         'EMFILE': errno.EMFILE, 'EDQUOT': errno.EDQUOT}


class SimRaw(io.FileIO):
    _disk = None

    def _bind(self, disk, path):
        self._disk = disk
        self._path = path
        self._gen = disk.generation
        disk.open_files.append(self)

    def readinto(self, buf):
        d = self._disk
        fault = d.event('read', self)
        if fault is not None and fault[0] == 'eof':
            return 0
        n = d.next_chunk(d.read_chunks, len(buf))
        if n < len(buf):
            view = memoryview(buf)[:n]
            got = super().readinto(view)
        else:
            got = super().readinto(buf)
        d.bytes_read += got or 0
        return got

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def readall(self):
        out = bytearray()
        while True:
            b = bytearray(4096)
            n = self.readinto(b)
            if not n:
                return bytes(out)
            out += b[:n]

    def write(self, data):
        d = self._disk
        if d.crashed or self._gen != d.generation:
            # a dead process writes nothing; what is left of its file objects
            # may still be flushed by the garbage collector of the simulator
            return len(data)
        if self._path in d.sealed:
            d.late_writes.append((self._path, bytes(data)[:40]))
        data = bytes(data)
        fault = d.event('write', self)
        if fault is not None and fault[0] == 'crash':
            keep = int(len(data) * fault[1])
            if keep:
                super().write(data[:keep])
            d.crash()
        if fault is not None and fault[0] == 'torn':
            keep = int(len(data) * fault[1])
            if keep:
                super().write(data[:keep])
            raise OSError(errno.ENOSPC, 'simulated: disk full')
        n = d.next_chunk(d.write_chunks, len(data))
        got = super().write(data[:n])
        d.bytes_written += got
        return got

    def close(self):
        d = self._disk
        if d is None or self.closed:
            return super().close()
        dead = d.crashed or self._gen != d.generation
        fault = None if dead else d.peek('close', self)
        super().close()
        if self in d.open_files:
            d.open_files.remove(self)
        d.closed += 1
        if fault is not None:
            if fault[0] == 'crash':
                d.crash()
            raise OSError(ERRNO.get(fault[0], errno.EIO),
                          'simulated: close failed')


class SimDisk:
    """cfg: {'read_chunks': [..], 'write_chunks': [..], 'buffer': n,
    'text_chunk': n}.  faults: list of [op, n, kind, fraction]: the n-th (from
    1, counted since arm()) event of that op fails."""

    def __init__(self, root, env, cfg=None):
        cfg = cfg or {}
        self.root = os.path.realpath(root) + os.sep
        self.env = env
        self.read_chunks = list(cfg.get('read_chunks') or [])
        self.write_chunks = list(cfg.get('write_chunks') or [])
        self.buffer = cfg.get('buffer')
        self.text_chunk = cfg.get('text_chunk')
        self.locale = cfg.get('locale') or 'utf-8'
        self.ci = {}
        self.faults = []
        self.counts = {}
        self.fired = []
        self.open_files = []
        self.sealed = set()
        self.late_writes = []
        self.generation = 0
        self.crashed = False
        self.closed = 0
        self.opened = 0
        self.bytes_read = self.bytes_written = 0
        self.on_event = None        # called before every raw event

    # -- plan driven decisions
    def arm(self, faults):
        self.faults = [list(f) for f in faults]
        self.counts = {}
        self.fired = []

    def next_chunk(self, chunks, n):
        if not chunks:
            return n
        k = self.ci.get(id(chunks), 0)
        self.ci[id(chunks)] = k + 1
        c = max(1, int(chunks[k % len(chunks)]))
        if c < n:
            self.env.fault('short read' if chunks is self.read_chunks
                           else 'short write')
            return c
        return n

    def peek(self, op, f):
        """Count an event; return the fault to apply to it, if any."""
        if self.on_event is not None:
            self.on_event()
        self.counts[op] = self.counts.get(op, 0) + 1
        self.env.ticks += 1
        for fault in self.faults:
            if fault[0] == op and fault[1] == self.counts[op]:
                self.fired.append(fault)
                self.env.fault('%s: %s' % (op, fault[2]))
                return (fault[2], fault[3] if len(fault) > 3 else 0)
            # 'stuck': every event from the n-th on fails
            if fault[0] == op + '+' and fault[1] <= self.counts[op]:
                self.fired.append(fault)
                self.env.fault('%s: %s, persistent' % (op, fault[2]))
                return (fault[2], fault[3] if len(fault) > 3 else 0)
        return None

    def event(self, op, f):
        fault = self.peek(op, f)
        if fault is None:
            return None
        if fault[0] in ('crash', 'torn', 'eof'):
            return fault
        raise OSError(ERRNO[fault[0]], 'simulated: ' + fault[0])

    def crash(self):
        self.crashed = True
        raise Crash()

    def restart(self):
        """The machine is up again; nothing of the old process lives."""
        self.crashed = False
        self.generation += 1
        self.open_files = []
        self.faults = []

    # -- the seam
    def _mine(self, file):
        try:
            p = os.path.realpath(os.fspath(file))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p if p.startswith(self.root) else None

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        path = self._mine(file) if not isinstance(file, int) else None
        if path is None:
            return _real_open(file, mode, buffering, encoding, errors,
                              newline, closefd, opener)
        fault = self.event('open', None)
        if fault is not None:
            if fault[1] < .5 and any(c in mode for c in 'wx'):
                _real_open(path, mode).close()      # truncated, then died
            self.crash()
        binary = 'b' in mode
        if binary and (encoding or newline is not None):
            raise ValueError('binary mode takes no encoding/newline')
        rawmode = mode.replace('b', '').replace('t', '').replace('U', '')
        raw = SimRaw(path, rawmode, opener=opener)
        raw._bind(self, path)
        self.opened += 1
        size = buffering if buffering > 1 else \
            (self.buffer or io.DEFAULT_BUFFER_SIZE)
        if '+' in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif any(c in rawmode for c in 'wax'):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            if buffering == 0:
                return raw
            return buf
        if encoding in (None, 'locale'):
            encoding = self.locale
            if encoding != 'utf-8':
                self.env.fault('other text encoding')
        text = io.TextIOWrapper(buf, encoding, errors, newline,
                                line_buffering=(buffering == 1))
        text.mode = mode
        if self.text_chunk:
            text._CHUNK_SIZE = max(1, int(self.text_chunk))
        return text

    def __enter__(self):
        builtins.open = self.open
        io.open = self.open
        return self

    def __exit__(self, *exc):
        builtins.open = _real_open
        io.open = _real_io_open
        return False

    def leaked(self):
        return [os.path.basename(f._path) for f in self.open_files
                if not f.closed]


def draw_disk(rng):
    """Disk configuration: how the operating system splits the I/O."""
    def chunks():
        k = rng.random()
        if k < .25:
            return []
        if k < .5:
            return [1]
        return [rng.randint(1, rng.choice([3, 17, 200]))
                for _ in range(rng.randint(1, 6))]
    return {'read_chunks': chunks(), 'write_chunks': chunks(),
            'buffer': rng.choice([None, 1, 2, 7, 16, 64, 512]),
            'text_chunk': rng.choice([None, None, 1, 3, 16, 100])}


def draw_disk_for(rng, *data):
    """The same, with larger pieces for data drawn huge."""
    d = draw_disk(rng)
    if any(x.get('huge') for x in data if x):
        for k in ('read_chunks', 'write_chunks'):
            d[k] = [c * 509 for c in d[k]]
        d['buffer'] = d['buffer'] and d['buffer'] * 100
        d['text_chunk'] = d['text_chunk'] and d['text_chunk'] * 400
    return d
