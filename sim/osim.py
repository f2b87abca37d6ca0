"""Simulated operating system around the external partitioner.

Files live in a private scratch directory; every open, write, flush, close, dup, unlink and process start goes through
this module while a simulation is active, so that each of them can be made to fail by the fault plan:
  disk quota (short and torn writes, ENOSPC at write, flush or close), EIO on read, EMFILE/EACCES/ENOSPC on open and dup,
  EACCES on unlink, program missing, fork failure, non-zero exit, killed by a signal, interrupt while waiting,
  missing/empty/short/torn/duplicated/garbled result file.
The program itself is a stand-in that parses the graph file as strictly as ndmetis does and answers with a permutation
chosen by the seed.  Leaks are read from the real directory and the real descriptor table.
"""
import builtins
import errno
import gc
import io
import os
import shutil
import signal
import subprocess
import tempfile

_open = io.open
REAL = dict(open=os.open, dup=os.dup, unlink=os.unlink, remove=os.remove, popen=subprocess.Popen, fdopen=os.fdopen)
ACTIVE = None


def fds():
    out = set()
    for n in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        out.add((int(n), t))
    return out


class Interrupt(KeyboardInterrupt):
    pass


class WFile(object):
    """text writer with its own buffer in front of a disk that may be full"""
    def __init__(self, sim, f, name):
        self._sim, self._f, self._name = sim, f, name
        self._buf = ''
        self.closed = False
        self.name = name

    def _drain(self):
        data, self._buf = self._buf, ''
        q = self._sim.quota
        if q is not None and self._sim.used + len(data) > q:
            part = data[:max(0, q - self._sim.used)]
            self._f.write(part)
            self._f.flush()
            self._sim.used += len(part)
            self._sim.hit('disk-full')
            raise OSError(errno.ENOSPC, 'No space left on device')
        self._f.write(data)
        self._f.flush()
        self._sim.used += len(data)

    def write(self, s):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        self._sim.point('write')
        self._buf += s
        if len(self._buf) >= self._sim.bufsize:
            self._drain()
        return len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        self._drain()

    def fileno(self):
        return self._f.fileno()

    def seek(self, *a):
        self._drain()
        return self._f.seek(*a)

    def close(self):
        if self.closed:
            return
        self.closed = True
        try:
            self._sim.point('close')
            self._drain()
        finally:
            self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        # an abandoned file object: the interpreter flushes it and drops any error
        try:
            if not self.closed:
                self.closed = True
                try:
                    self._drain()
                finally:
                    self._f.close()
        except Exception:
            pass


class RFile(object):
    def __init__(self, sim, f):
        self._sim, self._f = sim, f

    def _pt(self):
        self._sim.point('read')

    def read(self, *a):
        self._pt()
        return self._f.read(*a)

    def readline(self, *a):
        self._pt()
        return self._f.readline(*a)

    def readlines(self, *a):
        self._pt()
        return self._f.readlines(*a)

    def __iter__(self):
        for l in self._f:
            self._pt()
            yield l

    def __next__(self):
        self._pt()
        return next(self._f)

    def close(self):
        self._f.close()

    @property
    def closed(self):
        return self._f.closed

    def fileno(self):
        return self._f.fileno()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


ERR = dict(EMFILE=errno.EMFILE, EACCES=errno.EACCES, ENOSPC=errno.ENOSPC, EIO=errno.EIO, ENOENT=errno.ENOENT, ENOMEM=errno.ENOMEM)


class Sim(object):
    """plan: dict(quota=None|int, faults=[{op, n, err}], procs=[{...} per process start])"""
    def __init__(self, plan, env, rng):
        self.plan, self.env, self.rng = plan, env, rng
        self.quota = plan.get('quota')
        self.bufsize = plan.get('bufsize', 8192)
        self.used = 0
        self.n = {}
        self.starts = 0
        self.hits = []
        self.exempt = set()
        self.problems = []
        self.graphs = []

    def hit(self, what):
        self.hits.append(what)
        self.env.fault(what)

    def point(self, op, path=None):
        k = self.n.get(op, 0)
        self.n[op] = k + 1
        for f in self.plan.get('faults', ()):
            if f['op'] == op and f['n'] == k:
                self.hit(op + ':' + f['err'])
                if path is not None and op == 'unlink':
                    self.exempt.add(os.path.basename(path))
                if f['err'] == 'KeyboardInterrupt':
                    raise Interrupt()
                if f['err'] == 'MemoryError':
                    raise MemoryError()
                raise OSError(ERR[f['err']], os.strerror(ERR[f['err']]), path)

    # ---- seams ------------------------------------------------------------------------------
    def mine(self, file):
        if isinstance(file, int):
            try:
                file = os.readlink('/proc/self/fd/%d' % file)
            except OSError:
                return False
        try:
            return os.path.abspath(os.fspath(file)).startswith(self.dir + os.sep)
        except TypeError:
            return False

    def open(self, file, mode='r', *a, **k):
        if not self.mine(file):
            return _open(file, mode, *a, **k)
        w = any(c in mode for c in 'wax+')
        if not isinstance(file, int):
            self.point('open')
        f = _open(file, mode, *a, **k)
        if 'b' in mode:
            return f
        return WFile(self, f, file) if w else RFile(self, f)

    def os_open(self, path, *a, **k):
        if self.mine(path):
            self.point('open')
        return REAL['open'](path, *a, **k)

    def os_dup(self, fd):
        self.point('dup')
        return REAL['dup'](fd)

    def os_unlink(self, path, *a, **k):
        if self.mine(path):
            self.point('unlink', path)
        return REAL['unlink'](path, *a, **k)

    def __enter__(self):
        global ACTIVE
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='verif-osim-'))
        self.savedtmp = (tempfile.tempdir, tempfile._name_sequence)
        tempfile.tempdir = self.dir
        names = ('t%06d' % self.rng.randrange(10 ** 6) for _ in iter(int, 1))
        tempfile._name_sequence = names
        gc.collect()
        self.fds0 = fds()
        io.open = self.open
        os.open, os.dup = self.os_open, self.os_dup
        os.unlink = os.remove = self.os_unlink
        sim = self

        class Popen(SimPopen):
            _sim = sim
        subprocess.Popen = Popen
        ACTIVE = self
        return self

    def stop(self):
        global ACTIVE
        ACTIVE = None
        io.open = _open
        os.open, os.dup, os.unlink, os.remove = REAL['open'], REAL['dup'], REAL['unlink'], REAL['remove']
        subprocess.Popen = REAL['popen']
        tempfile.tempdir, tempfile._name_sequence = self.savedtmp

    def __exit__(self, *a):
        self.stop()
        shutil.rmtree(self.dir, ignore_errors=True)

    def leaks(self):
        """-> (files, descriptors) still there"""
        self.stop()
        gc.collect()
        files = sorted(os.listdir(self.dir))
        new = sorted(fds() - self.fds0)
        return [f for f in files if f not in self.exempt], [t for n, t in new if '/proc/' not in t and not t.endswith('/fd')]


def inject_open(file, *a, **k):
    if ACTIVE is not None:
        return ACTIVE.open(file, *a, **k)
    return _open(file, *a, **k)


# ---- the simulated program ---------------------------------------------------------------------

def parse_metis(text):
    """strict reading of a METIS graph file; -> (n, adjacency) or raises ValueError"""
    lines = [l for l in text.split('\n') if not l.startswith('%')]
    head = lines[0].split()
    if len(head) != 3 or head[2] != '001':
        raise ValueError('bad header %r' % lines[0])
    n, m = int(head[0]), int(head[1])
    if text and not text.endswith('\n'):
        raise ValueError('truncated')
    rows = lines[1:]
    if rows and rows[-1] == '':
        rows = rows[:-1]
    if len(rows) != n:
        raise ValueError('%d vertex lines, %d vertices' % (len(rows), n))
    adj = []
    for i, r in enumerate(rows):
        xs = [int(x) for x in r.split()]
        if len(xs) % 2:
            raise ValueError('vertex %d: odd number of fields' % (i + 1))
        d = {}
        for j, w in zip(xs[::2], xs[1::2]):
            if not 1 <= j <= n or w <= 0 or j == i + 1:
                raise ValueError('vertex %d: bad edge %d %d' % (i + 1, j, w))
            d[j - 1] = w
        adj.append(d)
    for i, d in enumerate(adj):
        for j, w in d.items():
            if adj[j].get(i) != w:
                raise ValueError('edge %d %d is not symmetric' % (i, j))
    if sum(len(d) for d in adj) != 2 * m:
        raise ValueError('%d edges declared' % m)
    return n, adj


class SimPopen(object):
    _sim = None

    def __init__(self, args, *a, **kw):
        s = self._sim
        k = s.starts
        s.starts += 1
        procs = s.plan.get('procs') or [{}]
        p = self.p = procs[min(k, len(procs) - 1)]
        self.args = args
        self.kw = kw
        self.returncode = None
        self.pid = 100000 + k
        self.stdin = self.stdout = self.stderr = None
        start = p.get('start')
        if start:
            s.hit('start:' + start)
            if start == 'ENOENT':
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', args[0])
            if start == 'EACCES':
                raise PermissionError(errno.EACCES, 'Permission denied', args[0])
            raise OSError(ERR[start], os.strerror(ERR[start]))
        if kw.get('shell') or not isinstance(args, (list, tuple)):
            args = str(args).split()
        self.argv = list(map(str, args))
        if os.path.basename(self.argv[0]) != 'ndmetis' or len(self.argv) < 2:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', self.argv[0])

    def _exec(self):
        s, p = self._sim, self.p
        fname = self.argv[-1]
        try:
            with _open(fname) as f:
                n, adj = parse_metis(f.read())
        except (OSError, ValueError, IndexError) as e:
            s.env.count('partitioner_rejects_input')
            s.graphs.append(str(e))
            return 1, b'***Failed to read the graph: ' + str(e).encode()
        s.graphs.append(None)
        if n == 0:
            s.env.count('empty_graph')
            return 1, b'The graph is empty'
        mode = p.get('perm', 'random')
        perm = list(range(n))
        if mode == 'reverse':
            perm.reverse()
        elif mode == 'random':
            s.rng.shuffle(perm)
        text = ''.join('%d\n' % i for i in perm)
        out = p.get('out', 'ok')
        if out != 'ok':
            s.hit('result:' + out)
        cut = p.get('cut', .5)
        if out == 'missing':
            text = None
        elif out == 'empty':
            text = ''
        elif out == 'short':
            text = ''.join(text.splitlines(True)[:int(cut * n)])
        elif out == 'torn':
            text = text[:int(cut * len(text))]
        elif out == 'dup':
            if n > 1:
                perm[0] = perm[-1]
            text = ''.join('%d\n' % i for i in perm)
        elif out == 'garbage':
            text = text[:int(cut * len(text))] + '\0\0x?\n'
        elif out == 'range':
            perm[0] = n + 3
            text = ''.join('%d\n' % i for i in perm)
        elif out == 'extra':
            text += '%d\n0\n' % n
        elif out == 'blank':
            text = '\n' + text
        elif out == 'one-based':
            text = ''.join('%d\n' % (i + 1) for i in perm)
        if text is not None:
            with _open(fname + '.iperm', 'w') as f:
                f.write(text)
        rc = p.get('rc', 0)
        if rc:
            s.hit('exit:%d' % rc)
        return rc, b'ndmetis simulated\n'

    def communicate(self, input=None, timeout=None):
        s = self._sim
        if self.p.get('wait') == 'KeyboardInterrupt':
            s.hit('wait:KeyboardInterrupt')
            self.p = dict(self.p, wait=None)
            if self.p.get('ran'):
                self._exec()
            self.returncode = -signal.SIGINT
            raise Interrupt()
        if self.p.get('wait') == 'timeout' and timeout is not None:
            s.hit('wait:timeout')
            self.p = dict(self.p, wait=None)
            raise subprocess.TimeoutExpired(self.args, timeout)
        if self.returncode is None:
            self.returncode, out = self._exec()
        else:
            out = b''
        if self.kw.get('text') or self.kw.get('universal_newlines') or self.kw.get('encoding'):
            out = out.decode()
        return out, (b'' if self.kw.get('stderr') == subprocess.PIPE else None)

    def wait(self, timeout=None):
        self.communicate(timeout=timeout)
        return self.returncode

    def poll(self):
        if self.returncode is None:
            self.returncode = self._exec()[0]
        return self.returncode

    def kill(self):
        if self.returncode is None:
            self.returncode = -9

    terminate = kill

    def send_signal(self, sig):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.returncode is None:
            self.returncode = -9
