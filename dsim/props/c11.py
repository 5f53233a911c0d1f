"""C11: importing the package survives any behaviour of git."""
import errno
import os
import re
import shutil
import tempfile
from random import Random

from .. import fp as _fp
from .. import git
from ..worker import H, Outcome
from .base import Base, short

SPAWN = {'ENOENT': (FileNotFoundError, errno.ENOENT), 'EACCES': (PermissionError, errno.EACCES), 'ENOEXEC': (OSError, errno.ENOEXEC),
         'EMFILE': (OSError, errno.EMFILE), 'EAGAIN': (BlockingIOError, errno.EAGAIN), 'ENOMEM': (OSError, errno.ENOMEM),
         'ENOTDIR': (NotADirectoryError, errno.ENOTDIR), 'ELOOP': (OSError, errno.ELOOP), 'EIO': (OSError, errno.EIO)}
TAGS = ['0.5.2', 'v1.0', '1.0-rc-1', '0.5+local', 'release/1.0', '1.0-3-gabc1234', 'x-dirty', '2.0+a.b-c', '\u7248-1', '0', 'g', '-', 'a-0-g0', '+', '0.5.2.dev0+3.gabc']
HEXES = ['0123abc', 'deadbee', '1234567', 'abcdef0123', '0000000', '1e5f00d']
FULLS = ['0123abc456789def0123abc456789def01234567', 'deadbeef' * 5, '1234567890' * 4, '1e5f00d' + '0' * 33]
GARBAGE = [b'1' * 70000, b'', b'\n', b' ', b'\xff\xfe\x80\n', b'fatal: not a git repository\n', b'0.5.2-3-g', b'0.5.2-x-gabc\n', b'-', b'-dirty\n', b'\x00', b'a\nb\n', b'\xe7', b'0.5-99999-gzz\n',
           b'warning: x\n0.5.2-3-g0123abc\n', b'1' * 5000, b'0.5-' + b'9' * 5000 + b'-gabc\n', b'\xc3(-1-gabc', b'None', b'-1', b'1.5\n', b'\xef\xbb\xbf0.5-1-gabc\n', b'%d%s', b'{}', b'HEAD\n']
STDERR = [b'', b'', b'', b'warning: x\n', b'warning: unable to access /root/.config/git/attributes: Permission denied\n', b'\xff\xfe\n', b'fatal: not a git repository (or any of the parent directories): .git\n',
          b"fatal: detected dubious ownership in repository at '/x'\n", b'e' * 70000, b'error: %s %d\n', b'0.1-9-gdeadbee\n', b'hint: \xc3\xa9\n']
DIRS = ['src', 'datashape-0.4.7', 'datashape-1.0-rc', 'datashape', 'Datashape-3', 'x-datashape-3', 'datashape-0+unknown']


def answer(r, sub, untagged):
    """A healthy answer of a git command."""
    end = r.choice((b'\n', b'\n', b'\n', b'', b'\r\n', b'  \n'))
    if sub == 'describe':
        if untagged:
            s = r.choice(HEXES)
        else:
            s = '%s-%d-g%s' % (r.choice(TAGS), r.choice((0, 0, 1, 3, 42, 12345)), r.choice(HEXES))
        if r.random() < 0.4:
            s += '-dirty'
        return s.encode() + end
    if sub == 'rev-parse':
        return r.choice(FULLS).encode() + end
    return str(r.choice((0, 1, 3, 42, 99999))).encode() + end


class Prop(Base):
    CHUNK = 60

    def begin_chunk(self, ch):
        pass

    def plan(self, rs, ch, i):
        r = Random(rs)
        return {'ops': [self.start(r) for _ in range(r.choice((1, 2, 4)))]}

    def start(self, r):
        untagged = r.random() < 0.45
        a = {}
        for sub in ('describe', 'rev-parse', 'rev-list'):
            data = answer(r, sub, untagged)
            k = r.random() if r.random() < 0.45 else 0
            if k < 0.05:
                a[sub] = ['out', data.hex(), 0]
            elif k < 0.2:
                a[sub] = ['spawn', r.choice(sorted(SPAWN)), 0]
            elif k < 0.4:                      # fails, with or without output
                a[sub] = ['out', r.choice([data, b'', r.choice(GARBAGE)]).hex(), r.choice((1, 2, 127, 128, 129, 255))]
            elif k < 0.55:                     # killed half way
                cut = r.randrange(len(data) + 1)
                a[sub] = ['out', data[:cut].hex(), -r.choice((2, 9, 11, 13, 15))]
            elif k < 0.63:
                a[sub] = ['comm', r.choice(('EIO', 'EMFILE', 'ENOMEM')), 0]
            elif k < 0.75:                     # truncated, yet claims success
                a[sub] = ['out', data[:r.randrange(len(data) + 1)].hex(), 0]
            else:
                a[sub] = ['out', r.choice(GARBAGE).hex(), 0]
            if a[sub][0] == 'out' and r.random() < 0.3:
                a[sub].append(r.choice(STDERR).hex())
        return [a, r.choice(('dir', 'dir', 'dir', 'file', 'none')), r.choice(DIRS), r.random() < 0.3]

    def execute(self, plan):
        out = Outcome()
        dig = []
        for n, (a, vcs, dirname, again) in enumerate(plan['ops']):
            scratch = tempfile.mkdtemp(prefix='dsim-tree-')
            try:
                root = os.path.join(scratch, dirname)
                os.makedirs(os.path.join(root, 'datashape'))
                if vcs == 'dir':
                    os.mkdir(os.path.join(root, '.git'))
                elif vcs == 'file':
                    open(os.path.join(root, '.git'), 'w').close()
                got = self.import_under(a, root, again, out)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
            want, accept = expected(a, vcs, dirname)
            dig.append(got)
            if got[0] == 'E':
                out.bad('import-fails', step=n, got=short(got), git=readable(a), vcs=vcs, expected=want)
                break
            v = got[1]
            if not isinstance(v, str) or not v.strip():
                out.bad('no-version', step=n, got=short(v), git=readable(a), vcs=vcs)
                break
            if want is not None and v not in accept:
                out.bad('wrong-version', step=n, got=short(v), expected=want, git=readable(a), vcs=vcs, dirname=dirname)
                break
            if got[2] != self.ctx.ref("[D.dshape('3 * {a: ?int32}'), D.discover([1])]"):
                out.bad('package-unusable', step=n, got=short(got[2]), git=readable(a))
                break
            out.bump('imports')
            if want is None:
                out.bump('malformed but successful output')
            elif '0+unknown' in accept and want == '0+unknown':
                out.bump('fallback 0+unknown')
            elif '0+untagged' in want:
                out.bump('untagged version')
            elif want == dirname[10:] and dirname.startswith('datashape-'):
                out.bump('fallback to directory name')
            else:
                out.bump('tag version')
        out.key = H(repr(plan))
        out.nontrivial = any(x[1] != 'none' for x in plan['ops'])
        out.digest = H(repr(dig))
        return out

    def import_under(self, a, root, again, out):
        script = git.Script(dict((k, real(v)) for k, v in a.items()))
        node = self.ctx.node(load=False, git=script, fileroot=root)
        node.install()
        try:
            try:
                D = node.load(extra=False)
                v = D.__version__
                if again:
                    import sys
                    v2 = sys.modules['datashape._version'].get_versions()['version']
                    if v2 != v:
                        return 'R', 'second reading %r, first %r' % (v2, v), None
            except BaseException as e:
                return _fp.exc(e)
            for f in script.fired:
                out.bump('fault ' + f)
            try:
                w = ('R', _fp.fp([D.dshape('3 * {a: ?int32}'), D.discover([1])]))
            except Exception as e:
                w = _fp.exc(e)
            return 'R', v, w
        finally:
            node.uninstall()


def real(v):
    kind, data, rc = v[:3]
    if kind == 'out':
        return kind, bytes.fromhex(data), rc, bytes.fromhex(v[3]) if len(v) > 3 else b''
    cls, no = SPAWN[data]
    return kind, cls(no, os.strerror(no), 'git' if kind == 'spawn' else None), rc


def readable(a):
    return dict((k, [v[0], bytes.fromhex(v[1])[:80].decode('latin-1') if v[0] == 'out' else v[1], v[2]] + ([bytes.fromhex(v[3])[:80].decode('latin-1')] if len(v) > 3 else [])) for k, v in a.items())


def output(v):
    """The text a command delivered; None when it failed; False when not text."""
    kind, data, rc = v[:3]
    if kind != 'out' or rc != 0:
        return None
    try:
        return bytes.fromhex(data).decode().strip()
    except UnicodeDecodeError:
        return False


def expected(a, vcs, dirname):
    """(version, acceptable versions) by the documented scheme; version None: any text."""
    fallback = dirname[len('datashape-'):] if dirname.startswith('datashape-') else '0+unknown'
    fb = (fallback, (fallback,))
    if vcs == 'none':
        return fb
    d, full, count = (output(a[k]) for k in ('describe', 'rev-parse', 'rev-list'))
    if d is None or full is None:
        return fb
    if d is False or full is False or not re.match(r'^[0-9a-f]{40}$', full):
        return None, None
    m = re.match(r'^([^\s]+)-([0-9]{1,9})-g([0-9a-f]{7,40})(-dirty)?$', d)
    if m:
        tag, dist, hex, dirty = m.group(1), int(m.group(2)), m.group(3), bool(m.group(4))
        v = tag
        if dist or dirty:
            v += ('.' if '+' in tag else '+') + '%d.g%s' % (dist, hex) + ('.dirty' if dirty else '')
        return v, (v,) if count is not None else (v, fallback)
    m = re.match(r'^([0-9a-f]{7,40})(-dirty)?$', d)
    if m:
        if count is None:
            return fb
        if count is False or not re.match(r'^[0-9]{1,9}$', count):
            return None, None
        v = '0+untagged.%d.g%s' % (int(count), full[:7]) + ('.dirty' if m.group(2) else '')
        return v, (v, '0+untagged.%d.g%s' % (int(count), m.group(1)) + ('.dirty' if m.group(2) else ''))
    return None, None
