"""The simulated git child process (seam: subprocess.Popen)."""
import io
import subprocess

_real_Popen = subprocess.Popen
GIT = None       # the script in force, or None for a healthy default

DEFAULT = {'describe': ('out', b'0.5.2-3-g0123abc\n', 0),
           'rev-parse': ('out', b'0123abc456789def0123abc456789def01234567\n', 0),
           'rev-list': ('out', b'42\n', 0)}


class Script(object):
    """answers: {subcommand: (kind, data, returncode)}; kinds:
    'out' (bytes, rc), 'spawn' (exception), 'comm' (exception while reading),
    'signal' (bytes, -sig)."""

    def __init__(self, answers=None):
        self.answers = dict(DEFAULT if answers is None else answers)
        self.calls = []
        self.fired = []

    def answer(self, args):
        args = [a.decode() if isinstance(a, bytes) else str(a) for a in args]
        sub = next((a for a in args[1:] if not a.startswith('-')), '')
        self.calls.append(args)
        a = self.answers.get(sub)
        if a is None:
            a = ('out', b'', 129)
        return sub, a


class GitHangs(BaseException):
    """Parent and child wait for each other: a pipe is full and nobody reads it."""


PIPE = 65536


class Pipe(io.BytesIO):
    """What the parent reads; `full` is the number of bytes waiting in the other pipe."""
    owner = None

    def block(self):
        p = self.owner
        if p is not None and not p._draining and p.stderr is not None and p.stdout is not None and \
                p._raw[0] is self and len(p._raw[1].getbuffer()) - p._raw[1].tell() > PIPE:
            raise GitHangs('reading stdout while stderr is full')

    def read(self, *a):
        self.block()
        return io.BytesIO.read(self, *a)

    def read1(self, *a):
        self.block()
        return io.BytesIO.read1(self, *a)

    def readinto(self, *a):
        self.block()
        return io.BytesIO.readinto(self, *a)


class FakePopen(object):
    _draining = False
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), text=None, encoding=None, errors=None, **kw):
        import os
        script = GIT or Script()
        if isinstance(args, (str, bytes)):
            args = args.split()
        args = [os.fsdecode(a) if not isinstance(a, str) else a for a in args]
        self.args = args
        self.pid = 4242
        self.returncode = None
        self._text = bool(text or encoding or universal_newlines or errors)
        self._enc = encoding or 'utf-8'
        self._err = errors or 'strict'
        name = os.path.basename(args[0])
        if name != 'git':
            raise FileNotFoundError(2, 'No such file or directory', args[0])
        sub, a = script.answer(args)
        self._kind, self._data, self._rc = (a + (None, None))[:3]
        said = a[3] if len(a) > 3 and self._kind != 'comm' else b''
        if self._kind == 'spawn':
            script.fired.append('spawn:%s:%s' % (sub, type(self._data).__name__))
            raise self._data
        if self._rc or self._kind == 'comm':
            script.fired.append('%s:%s' % (self._kind, sub))
        if self._kind == 'comm':
            data = b''
        else:
            data = self._data or b''
        if said:
            script.fired.append('stderr:%s' % sub)
            if stderr == subprocess.STDOUT:
                data = said + data              # unbuffered, so ahead of the answer
        self._bytes = data
        self._raw = [None, None]
        self.stdout = self._stream(data, 0) if stdout == subprocess.PIPE else None
        self.stderr = self._stream(said, 1) if stderr == subprocess.PIPE else None
        for f, d in ((stdout, data), (stderr, said)):
            if hasattr(f, 'write') and d:
                try:
                    f.write(d)
                except TypeError:
                    f.buffer.write(d)
                f.flush()
            elif isinstance(f, int) and f >= 0 and d:
                os.write(f, d)
        self.stdin = io.BytesIO() if stdin == subprocess.PIPE else None

    def _stream(self, data, which):
        b = self._raw[which] = Pipe(data)
        b.owner = self
        if self._kind == 'comm':
            exc = self._data

            class Bad(io.BytesIO):
                def read(self, *a):
                    raise exc
                readline = readlines = read1 = readinto = __next__ = read
            b = Bad()
        if self._text:
            return io.TextIOWrapper(b, self._enc, self._err)
        return b

    def communicate(self, input=None, timeout=None):
        if self._kind == 'comm':
            self.returncode = -9 if self.returncode is None else self.returncode
            raise self._data
        self._draining = True
        out = self.stdout.read() if self.stdout is not None else None
        err = self.stderr.read() if self.stderr is not None else None
        self.returncode = self._rc or 0
        return out, err

    def poll(self):
        if self.returncode is None:
            self.returncode = self._rc or 0
        return self.returncode

    def wait(self, timeout=None):
        for b in self._raw:
            if b is not None and not b.closed and len(b.getbuffer()) - b.tell() > PIPE:
                raise GitHangs('waiting for the child while a pipe is full')
        return self.poll()

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, sig):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.poll()


def patch():
    subprocess.Popen = FakePopen
