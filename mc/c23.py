"""C23: interrupted downloads.

Systematic fault injection on the real download code.  A scripted server takes
the place of the network (socket.create_connection), so that every request
can be refused, cut off after any number of bytes, truncated or answered with
an error; besides, the process is killed, or interrupted, at every single
source line of the download code, in a forked child, and the file system can
be full at any size.  After every run the directory is compared with the model
(name -> complete content), and after the faults a run without any."""
import contextlib
import io
import itertools
import os
import resource
import signal
import socket
import sys
import urllib.parse
from mc.core import Space

PROP = 'C23'
ASSUME = [
    'the transport lets the receiver see that content was cut short '
    '(Content-Length or chunked encoding)',
    'a crash ends the process; data it had handed to the operating system is '
    'kept (no loss of power)',
    'files that are not listed (partial downloads under another name) may be '
    'left behind',
    'the listing has one "command ... URL" per line and no blank lines; the '
    'source does not change between the runs',
]
HOST = 'http://data.example'
SIZES = {'0': 0, 's': 10, 'b': 8192, 'c': 8193, 'm': 20000, 'l': 70001,
         'h': 3000001, 'g': 17 * 2 ** 20 + 5}


def body_of(name, size):
    unit = (name + '|').encode()
    return (unit * (size // len(unit) + 1))[:size]


# ------------------------------------------------------------ scripted server
class Raw(io.RawIOBase):
    """The bytes of one response, followed by `end`."""

    def __init__(self, data, end):
        self.data, self.end, self.pos = data, end, 0

    def readable(self):
        return True

    def readinto(self, b):
        if self.pos >= len(self.data):
            if self.end == 'eof':
                return 0
            if self.end == 'kill':
                os._exit(77)
            raise self.end()
        n = min(len(b), len(self.data) - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Sock:
    def __init__(self, net):
        self.net, self.req = net, b''

    def sendall(self, data):
        self.req += bytes(data)

    send = sendall

    def makefile(self, mode='rb', buffering=None, **kw):
        path = self.req.split(b' ')[1].decode()
        return io.BufferedReader(self.net.respond(path))

    def __getattr__(self, name):
        if name in ('setsockopt', 'settimeout', 'close', 'shutdown'):
            return lambda *a, **k: None
        raise AttributeError(name)


class Net:
    """files: name -> content.  fault: None or (path, kind, after)"""

    def __init__(self, files, listing, log, encoding='length'):
        self.paths = {'/d/' + n: c for n, c in files.items()}
        self.paths['/wget.sh'] = listing
        self.log, self.encoding = log, encoding
        self.fault = None

    def connect(self, *a, **k):
        return Sock(self)

    def note(self, path):
        fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (path + '\n').encode())
        os.close(fd)

    def respond(self, path):
        path = urllib.parse.unquote(path)
        self.note(path)
        if path not in self.paths:
            return Raw(b'HTTP/1.1 404 Not Found\r\nContent-Length: 3\r\n\r\nno!',
                       'eof')
        kind = after = None
        if self.fault and self.fault[0] == path:
            _, kind, after = self.fault
        c = self.paths[path]
        if kind == 'refused':
            raise ConnectionRefusedError('refused')
        if kind in ('404', '503'):
            return Raw(f'HTTP/1.1 {kind} Error\r\nContent-Length: {len(c)}'
                       '\r\n\r\n'.encode() + b'x' * len(c), 'eof')
        if self.encoding == 'length' or path == '/wget.sh':
            head = f'HTTP/1.1 200 OK\r\nContent-Length: {len(c)}\r\n\r\n'
            data = c
        else:
            head = 'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n'
            data = b''.join(b'%x\r\n%s\r\n' % (len(c[i:i + 5000]),
                                               c[i:i + 5000])
                            for i in range(0, len(c), 5000)) + b'0\r\n\r\n'
        data = head.encode() + data
        end = 'eof'
        if kind is not None:
            n = len(head) + after if after >= 0 else len(head) + 1 + after
            data = data[:max(n, 0)]
            end = {'reset': ConnectionResetError, 'timeout': socket.timeout,
                   'interrupt': KeyboardInterrupt, 'memory': MemoryError,
                   'truncated': 'eof', 'kill': 'kill'}[kind]
        return Raw(data, end)

    @contextlib.contextmanager
    def up(self, fault=None):
        self.fault = fault
        old = socket.create_connection
        socket.create_connection = self.connect
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                yield
        finally:
            socket.create_connection = old


# --------------------------------------------------------------------- driver
LIST = {'plain': '{u}\n', 'wget': 'wget -c {u}\n',
        'long': 'wget  --no-check-certificate -N {u}  \n',
        'crlf': 'wget -c {u}\r\n'}


class Batch:
    def __init__(self, rec, sizes, pre=(), encoding='length', form='wget',
                 verbose=True, last_newline=True):
        self.rec = rec
        self.root = rec.tmp()
        self.dir = os.path.join(self.root, 'target')
        os.mkdir(self.dir)
        names = ['b-2013.nc', 'a.nc', 'c d.tar.gz'.replace(' ', '_')]
        names += [f'f{i}.nc' for i in range(3, len(sizes))]
        self.files = {n: body_of(n, SIZES[s]) for n, s in zip(names, sizes)}
        text = ''.join(LIST[form].format(u=f'{HOST}/d/{n}')
                       for n in self.files)
        if not last_newline:
            text = text.rstrip()
        self.text = text.encode()
        self.net = Net(self.files, self.text, os.path.join(self.root, 'log'),
                       encoding)
        self.have = {}
        self.verbose = verbose
        for i in pre:
            n = list(self.files)[i]
            self.have[n] = b'kept: ' + n.encode()     # the user's own version
            with open(os.path.join(self.dir, n), 'wb') as f:
                f.write(self.have[n])

    def call(self):
        from solarspatialtools.dataio import iotools
        if self.verbose:
            iotools.wget_fromurl(HOST + '/wget.sh', self.dir)
        else:
            iotools.wget_fromurl(HOST + '/wget.sh', self.dir, verbose=False)

    def stats(self):
        return {n: (s.st_ino, s.st_mtime_ns) for n, s in
                ((n, os.stat(os.path.join(self.dir, n))) for n in self.have)}

    def requested(self):
        try:
            with open(self.net.log) as f:
                return f.read().split('\n')[:-1]
        except FileNotFoundError:
            return []

    def forked(self, fn):
        """fn in a child process -> exit status (None: killed)"""
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                signal.alarm(60)
                code = fn()
            except BaseException:
                code = 98
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        return os.WEXITSTATUS(st) if os.WIFEXITED(st) else None

    def run(self, fault=None, how='here', k=None):
        """One run with a fault -> True when it ended normally"""
        rec = self.rec
        before, st = dict(self.have), self.stats()
        log0 = len(self.requested())
        rec.step()
        ok = None
        if how == 'here':
            with self.net.up(fault):
                try:
                    self.call()
                    ok = True
                except KeyboardInterrupt:
                    ok = False
                except Exception as e:
                    ok = False
                    rec.true(fault is not None,
                             f'undisturbed run: {type(e).__name__} {e}')
        elif how == 'interrupt':
            with self.net.up(fault):
                ok = line_fault(self.call, k, KeyboardInterrupt)
        else:
            def child():
                with self.net.up(fault):
                    if how == 'full':
                        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                        resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
                        try:
                            self.call()
                        except Exception:
                            return 3
                        return 0
                    if how == 'lines':
                        return 0 if line_fault(self.call, k, None) else 5
                    self.call()
                    return 0
            r = self.forked(child)
            rec.true(r in (0, 3, 77), f'child ended with {r}')
            ok = r == 0
        # nothing that was there is touched
        rec.same(st, self.stats(), 'files present are not altered')
        got = self.requested()[log0:]
        rec.true(not [p for p in got if p[3:] in before],
                 f'files present are not fetched: {got}')
        for n, want in self.files.items():
            p = os.path.join(self.dir, n)
            if not os.path.exists(p):
                rec.true(n not in before, f'{n} is gone')
                continue
            with open(p, 'rb') as f:
                c = f.read()
            want = before.get(n, want)
            rec.true(c == want, lambda: f'{n} has {len(c)} bytes that are not '
                     f'its content of {len(want)} bytes')
            self.have[n] = c
        rec.state()
        rec.outcome((fault, how, ok, sorted(self.have)))
        if how != 'here' or fault:
            rec.extra['faulty_runs'] += 1
        return ok

    def finish(self):
        """Undisturbed: everything is complete and stays so."""
        self.rec.true(self.run(), 'undisturbed run')
        self.rec.same(set(self.have), set(self.files), 'all files are there')
        left = [n for n in os.listdir(self.dir) if n not in self.files]
        self.rec.extra['left_behind'] += len(left)
        log0 = len(self.requested())
        self.run()
        self.rec.same(self.requested()[log0:], ['/wget.sh'],
                      'requests of a run that has nothing to do')


TRACED = ('iotools.py', 'urllib/request.py', 'shutil.py', 'tempfile.py',
          'contextlib.py', 'pathlib.py')
COUNT = [0]


def line_fault(call, k, exc):
    """Run call and end the process (exc None) or raise exc before the k-th
    executed source line of the download code -> True if there was no k-th."""
    COUNT[0] = 0

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.endswith(TRACED):
            return None
        if event == 'line':
            COUNT[0] += 1
            if COUNT[0] == k:
                if exc is None:
                    os._exit(77)
                raise exc()
        return tracer

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        call()
        return True
    except BaseException:
        if COUNT[0] >= k:
            return False
        raise
    finally:
        sys.settrace(old)


def run_faults(case, rec):
    """History: (fault,)*, then undisturbed."""
    sizes, pre, enc, form, faults = case
    b = Batch(rec, sizes, pre, enc, form)
    for i, kind, after in faults:
        path = '/wget.sh' if i < 0 else '/d/' + list(b.files)[i]
        how = 'fork' if kind == 'kill' else 'here'
        b.run((path, kind, after), how)
    b.finish()


def run_form(case, rec):
    sizes, pre, enc, form, verbose, nl = case
    b = Batch(rec, sizes, pre, enc, form, verbose, nl)
    b.finish()
    for n in b.files:
        rec.true(b.have[n] == (b'kept: ' + n.encode()
                               if list(b.files).index(n) in pre
                               else b.files[n]), f'content of {n}')


def run_lines(case, rec):
    """The process ends (or is interrupted) before the k-th line, for all
    k of one residue class; then an undisturbed run."""
    how, sizes, pre, enc, r, mod, second = case
    k = r
    while True:
        b = Batch(rec, sizes, pre, enc, 'wget')
        over = b.run(None, how, k + 1)
        if second and not over:
            b.run(None, how, second)
        b.finish()
        rec.state()
        if over:
            break
        k += mod
    rec.extra['crash_points'] += (k - r) // mod


def run_full(case, rec):
    sizes, pre, enc, limits = case
    b = Batch(rec, sizes, pre, enc)
    for lim in limits:
        b.run(None, 'full', lim)
    b.finish()


def run_download(case, rec):
    """download() of one file, on top of nothing or of an older version."""
    size, old, enc, kind, after = case
    from solarspatialtools.dataio import iotools
    b = Batch(rec, [size], (), enc)
    n, c = list(b.files.items())[0]
    p = os.path.join(b.dir, 'sub.xml')
    if old:
        with open(p, 'wb') as f:
            f.write(b'old')
    b.call = lambda: iotools.download(f'{HOST}/d/{n}', p)
    if kind:
        b.run(('/d/' + n, kind, after), 'fork' if kind == 'kill' else 'here')
        if os.path.exists(p):
            with open(p, 'rb') as f:
                got = f.read()
            rec.true(got == c or (old and got == b'old'),
                     f'{len(got)} of {len(c)} bytes under the final name')
        else:
            rec.true(not old, 'the older version is gone')
    b.run()
    with open(p, 'rb') as f:
        rec.true(f.read() == c, 'content after an undisturbed download')
    rec.outcome((size, old, kind))


def run_again(case, rec):
    """History: a file that is present is fetched once more by download(),
    which is disturbed; then the batch, disturbed or not."""
    from solarspatialtools.dataio import iotools
    sizes, pre, enc, i, kind, after, fault = case
    b = Batch(rec, sizes, pre, enc)
    n = list(b.files)[i]
    p = os.path.join(b.dir, n)
    old = b.have.pop(n, None)
    batch = b.call
    b.call = lambda: iotools.download(f'{HOST}/d/{n}', p)
    files, b.files = b.files, {}
    b.run(('/d/' + n, kind, after), 'fork' if kind == 'kill' else 'here')
    b.call, b.files = batch, files
    rec.true(old is None or os.path.exists(p), 'the older version is gone')
    if os.path.exists(p):
        with open(p, 'rb') as f:
            got = f.read()
        rec.true(got in (old, files[n]), 'content under the final name')
        b.have[n] = got
    if fault:
        j, kind, after = fault
        path = '/wget.sh' if j < 0 else '/d/' + list(b.files)[j]
        b.run((path, kind, after), 'fork' if kind == 'kill' else 'here')
    b.finish()


def offsets(n, q):
    o = {0, 1, n // 2, n - 1, -1, -10}
    o |= {8191, 8192, 8193, 16384} if n > 8192 else set()
    if not q:
        o |= {2, 100, 4999, 5000, 5006, 12000, 65536, n}
    return sorted(x for x in o if x < n or (not q and x == n))


def faults_of(sizes, q, kinds=('reset', 'truncated', 'interrupt', 'timeout',
                               'kill')):
    for i, s in enumerate(sizes):
        n = SIZES[s]
        for kind in ('refused', '404', '503'):
            yield (i, kind, 0)
        for kind in kinds:
            for o in offsets(n, q):
                if kind == 'truncated' and (o >= n or o < 0):
                    continue
                yield (i, kind, o)
    # the listing
    for kind in ('refused', '404', 'reset', 'truncated', 'interrupt'):
        for o in ((0,) if kind in ('refused', '404') else
                  (0, 5, 20, 33, 40, 60)):
            yield (-1, kind, o)


def spaces(tier):
    q = tier == 'quick'
    single = []
    seqs = [('m', 's', 'b'), ('s', 'm', '0'), ('l',), ('0', 'c')]
    if not q:
        seqs += list(itertools.product('0smc', repeat=2))
        seqs = list(dict.fromkeys(seqs))
    for s in seqs:
        for pre in [()] + [(i,) for i in range(len(s))]:
            for enc in ('length', 'chunked'):
                for f in faults_of(s, q):
                    if enc == 'chunked' and f[0] < 0:
                        continue
                    single.append((s, pre, enc, 'wget', [f]))
    double = []
    fk = [(i, k, o) for i in (0, 1) for k, o in (
        ('refused', 0), ('reset', 0), ('reset', 9000), ('truncated', 5),
        ('truncated', 8192), ('kill', 8200), ('interrupt', 12000),
        ('503', 0))] + [(-1, 'truncated', 40), (-1, 'reset', 10)]
    for a, b in itertools.product(fk, repeat=2):
        for enc in ('length',) if q else ('length', 'chunked'):
            for pre in ((),) if q else ((), (0,), (1,)):
                double.append((('m', 'm'), pre, enc, 'plain', [a, b]))
    if not q:
        for t in itertools.product(fk, repeat=3):
            double.append((('m', 'm'), (), 'length', 'plain', list(t)))
    forms = [(s, pre, enc, form, v, nl)
             for s in (('s', 'm', '0'), ('b',), ('l', 's'), ())
             for pre in [()] + [(i,) for i in range(len(s))] +
             ([tuple(range(len(s)))] if len(s) > 1 else [])
             for enc in ('length', 'chunked') for form in LIST
             for v in (True, False) for nl in (True, False) if s or nl]
    # many files, files of megabytes
    many = ('s', 'c', '0', 'm') * 10
    forms += [(many, pre, 'length', 'wget', False, True)
              for pre in ((), (0, 7, 39))]
    forms += [(('g', 's', 'h'), (), enc, 'wget', False, True)
              for enc in ('length', 'chunked')]
    single += [(many, (3,), 'length', 'wget', [(i, k, 5), (33, 'kill', 6)])
               for i in (1, 20, 39) for k in ('reset', 'truncated')]
    single += [(('h', 'g'), (), enc, 'wget', [(i, k, o)])
               for enc in ('length', 'chunked') for i in (0, 1)
               for k in ('reset', 'truncated', 'kill')
               for o in (2 ** 20, 2999999)]
    lines = []
    for how in ('lines', 'interrupt'):
        for s, pre in [(('m', 's'), ()), (('s', 'c', 's'), (1,))] + \
                ([] if q else [(('l', 'l', '0'), (2,)), (('0',), ())]):
            for enc in ('length',) if q else ('length', 'chunked'):
                for r in range(32):
                    lines.append((how, s, pre, enc, r, 32, 0))
                if not q:
                    for sec in range(20, 320, 30):
                        for r in range(8):
                            lines.append((how, s, pre, enc, r, 8, sec))
    full = [(s, pre, enc, lim) for s in (('m', 's'), ('s', 'l'), ('c', 'b'))
            for pre in ((), (0,)) for enc in ('length', 'chunked')
            for lim in [(n,) for n in (0, 1, 9, 10, 100, 8191, 8192, 8193,
                                       16384, 19999, 20000, 70000)] +
            [(a, c) for a in (1, 9000) for c in (5, 12000)]]
    dl = [(s, old, enc, kind, o) for s in '0smcl' for old in (False, True)
          for enc in ('length', 'chunked')
          for kind in (None, 'refused', '404', 'reset', 'truncated', 'kill',
                       'interrupt', 'timeout', 'memory')
          for o in ((0,) if kind in (None, 'refused', '404')
                    else [x for x in offsets(SIZES[s], q) if x < SIZES[s]
                          and (x >= 0 or kind != 'truncated')])]
    again = [(('m', 's'), pre, enc, i, *f, g) for pre in ((), (0,), (1,), (0, 1))
             for enc in ('length', 'chunked') for i in (0, 1)
             for f in (('refused', 0), ('503', 0), ('reset', 0), ('reset', 5),
                       ('truncated', 8), ('kill', 7), ('interrupt', 9),
                       ('timeout', 1), ('memory', 3))
             for g in (None, (0, 'reset', 9000), (1, 'kill', 3),
                       (0, 'truncated', 4), (-1, 'reset', 10))]
    return [
        Space('again', again, run_again,
              'a disturbed download() of a file that may be present, before '
              'the batch'),
        Space('single-fault', single, run_faults,
              'batches of 1-3 files x pre-existing file x transport x every '
              'kind of fault x offsets at block borders, then undisturbed'),
        Space('fault-sequences', double, run_faults,
              'all sequences of 2 (3) disturbed runs over 18 faults, then '
              'undisturbed'),
        Space('crash-lines', lines, run_lines,
              'process killed / interrupted before every executed line of the '
              'download code (thorough: twice), then undisturbed'),
        Space('disk-full', full, run_full,
              'files limited to sizes around the block borders'),
        Space('no-fault', forms, run_form,
              'listing forms x pre-existing files x transports'),
        Space('download', dl, run_download,
              'single files over nothing or an older version x faults'),
    ]
