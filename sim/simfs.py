"""Simulated storage: the real files of a scratch directory behind a raw I/O layer that can misbehave.

builtins.open / io.open (and with them pathlib, codecs.open, tempfile's wrappers) are replaced for paths below
the scratch root by the standard Python I/O stack on top of FaultyRaw; os.open, os.read, os.write, os.close and
os.fdopen likewise for descriptors of such files.  Faults are chosen by operation number:
the k-th storage operation (open, read, write, close, replace, rename, fsync) of the run fails.
Reads and writes may also be split arbitrarily (short reads, short writes), by a seeded PRNG.
"""
from __future__ import annotations

import builtins
import errno
import io
import os
import random
import shutil

_real_open = io.open
_real = {n: getattr(os, n) for n in ('replace', 'rename', 'fsync', 'open', 'read', 'write', 'close')}

ERRNO = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES, 'EDQUOT': errno.EDQUOT, 'EINTR': errno.EINTR,
         'EMFILE': errno.EMFILE, 'EROFS': errno.EROFS}


class Storage:
    def __init__(self, root, seed=0, short=False, locale_encoding='utf-8'):
        self.root = os.path.realpath(root) + os.sep
        self.rng = random.Random(seed)
        self.short = short
        self.locale_encoding = locale_encoding
        self.n = 0
        self.fault_at = None          # operation number
        self.fault_kinds = None       # only count these kinds
        self.fault_err = 'EIO'
        self.fired = None             # (kind, n)
        self.fired_path = None
        self.spare = None             # paths that never fail
        self.crash = None             # called instead of failing
        self.dead = False             # after a crash nothing reaches the disk any more
        self.exc = None
        self.events: list = []
        self.opened: list = []
        self.default_encoding_used = False
        self.fds: dict = {}           # descriptors from os.open -> path

    # -- bookkeeping ----------------------------------------------------------------
    def op(self, kind, detail='', path=None):
        """Every storage operation passes here; raises if it is the chosen one."""
        self.events.append(f'{kind} {detail}')
        if self.fault_kinds is not None and kind not in self.fault_kinds:
            return
        if path is not None and self.spare is not None and self.spare(path):
            return
        k = self.n
        self.n += 1
        if self.fault_at is not None and k == self.fault_at and self.fired is None:
            self.fired = (kind, k)
            self.fired_path = path
            if self.crash is not None:
                self.crash()
            self.exc = OSError(ERRNO[self.fault_err], f'simulated {self.fault_err} in {kind}')
            raise self.exc

    def inside(self, file):
        try:
            p = os.fspath(file)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        rp = os.path.realpath(p)
        return rp if (rp + os.sep).startswith(self.root) else None

    # -- the replacement of open() -----------------------------------------------------
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        path = self._fd(file) if isinstance(file, int) and not isinstance(file, bool) else self.inside(file)
        if path is None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        binary = 'b' in mode
        rawmode = ''.join(c for c in mode if c in 'rwax+')
        if not isinstance(file, int):
            self.op('open', f'{rawmode} {os.path.basename(path)}', path)
        if isinstance(file, int):
            if closefd:
                del self.fds[file]
            raw = FaultyRaw(self, path, rawmode, None, file, closefd)
        else:
            raw = FaultyRaw(self, path, rawmode, opener, file)
        self.opened.append(raw)
        if binary and buffering == 0:
            return raw
        try:
            if '+' in rawmode:
                buf = io.BufferedRandom(raw)
            elif rawmode[0] in 'wax':
                buf = io.BufferedWriter(raw)
            else:
                buf = io.BufferedReader(raw)
            if binary:
                return buf
            if encoding is None or encoding == 'locale':
                self.default_encoding_used = True
                encoding = self.locale_encoding
            text = io.TextIOWrapper(buf, encoding, errors, newline)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise

    # -- descriptors
    def _fd(self, fd):
        """The path of a descriptor opened here, if it is still that file (whoever took it over may have closed it)."""
        path = self.fds.get(fd)
        if path is not None:
            try:
                if os.readlink(f'/proc/self/fd/{fd}') != path:
                    path = None
            except OSError:
                path = None
            if path is None:
                del self.fds[fd]
        return path

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self.inside(path) if dir_fd is None else None
        if p is None or os.path.isdir(p):
            return _real['open'](path, flags, mode, dir_fd=dir_fd)
        self.op('open', f'os {os.path.basename(p)}', p)
        fd = _real['open'](path, flags, mode)
        self.fds[fd] = p
        return fd

    def os_read(self, fd, n):
        if self._fd(fd):
            self.op('read', f'{n}', self.fds[fd])
            if self.short and n > 1:
                n = min(n, self.rng.choice([1, 2, 3, 7, 64, 511, 1000, n]))
        return _real['read'](fd, n)

    def os_write(self, fd, data):
        if self._fd(fd):
            if self.dead:
                return len(data)
            self.op('write', f'{len(data)}', self.fds[fd])
            if self.short and len(data) > 1:
                data = bytes(data)[:self.rng.choice([1, 2, 3, 7, 64, 511, 1000, len(data)])]
        return _real['write'](fd, data)

    def os_close(self, fd):
        path = self._fd(fd)
        self.fds.pop(fd, None)
        _real['close'](fd)
        if path is not None:
            self.op('close', '', path)

    def patched(self, name):
        if hasattr(self, f'os_{name}'):
            return getattr(self, f'os_{name}')

        def f(*a, **k):
            if a and self.inside(a[0]) is not None if name != 'fsync' else True:
                self.op(name)
            return _real[name](*a, **k)
        return f

    def __enter__(self):
        builtins.open = self.open
        io.open = self.open
        for n in _real:
            setattr(os, n, self.patched(n))
        self.sendfile = shutil._USE_CP_SENDFILE
        shutil._USE_CP_SENDFILE = False                       # copies go through read and write
        return self

    def __exit__(self, *e):
        builtins.open = _real_open
        io.open = _real_open
        for n, f in _real.items():
            setattr(os, n, f)
        shutil._USE_CP_SENDFILE = self.sendfile
        return False

    def still_open(self):
        return [os.path.basename(r.path) for r in self.opened if not r.really_closed] + [os.path.basename(self.fds[fd]) for fd in list(self.fds) if self._fd(fd)]


class FaultyRaw(io.RawIOBase):
    def __init__(self, st: Storage, path, mode, opener=None, file=None, closefd=True):
        self.st = st
        self.path = path
        self.really_closed = False
        self.mode_w = mode[0] != 'r' or '+' in mode
        self.f = io.FileIO(path, mode) if file is None else io.FileIO(file, mode, closefd=closefd) if isinstance(file, int) else io.FileIO(file if opener else path, mode, opener=opener)
        self.name = path

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return self.f.seekable()

    def fileno(self):
        return self.f.fileno()

    def isatty(self):
        return False

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, *a):
        return self.f.truncate(*a)

    def readinto(self, b):
        self.st.op('read', f'{len(b)}', self.path)
        n = len(b)
        if self.st.short and n > 1:
            n = self.st.rng.choice([1, 2, 3, 7, 64, 511, 1000, n])
            n = min(n, len(b))
        data = self.f.read(n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        if self.st.dead:
            return len(b)
        self.st.op('write', f'{len(b)}', self.path)
        n = len(b)
        if self.st.short and n > 1:
            n = min(len(b), self.st.rng.choice([1, 2, 3, 7, 64, 511, 1000, n]))
        return self.f.write(bytes(b[:n]))

    def close(self):
        if self.closed:
            return
        self.really_closed = True
        try:
            super().close()
        finally:
            self.f.close()
        if self.f.mode != 'rb':
            self.st.op('close', '', self.path)


def listing(root) -> dict:
    out = {}
    for d, _dirs, files in os.walk(root):
        for n in files:
            p = os.path.join(d, n)
            with _real_open(p, 'rb') as f:
                out[os.path.relpath(p, root)] = f.read()
    return out


def in_chain(e: BaseException, want: BaseException) -> bool:
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        if x is want:
            return True
        seen.add(id(x))
        todo += [x.__cause__, x.__context__]
    return False
