"""Pristine interpreters with a chosen environment (hash seed, locale, time zone, clock, home, ...), one fork per request.

A zygote is started with an environment spec (plain JSON), imports converter21 from /repo and then serves
requests on a Unix socket; every request runs in a fresh fork of it.
"""
from __future__ import annotations

import importlib
import json
import os
import pickle
import random
import select
import signal
import socket
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _recv_exact(s, n):
    buf = bytearray()
    while len(buf) < n:
        c = s.recv(min(1 << 20, n - len(buf)))
        if not c:
            raise EOFError
        buf += c
    return bytes(buf)


# ------------------------------------------------------------------ client side

_zygotes: dict = {}
_seq = [0]


def scratch():
    return os.environ['VERIF_SCRATCH']


def shim():
    """The clock shim, built into the scratch directory; '' if it cannot be built."""
    so = os.path.join(scratch(), 'simclock.so')
    if not os.path.exists(so):
        try:
            tmp = f'{so}.{os.getpid()}'
            subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, os.path.join(HERE, 'sim', 'c', 'simclock.c')],
                           check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.replace(tmp, so)
        except (OSError, subprocess.CalledProcessError):
            return ''
    return so


LOCALES = {'de_DE.UTF-8': ('de_DE', 'UTF-8'), 'tr_TR.ISO-8859-9': ('tr_TR', 'ISO-8859-9'), 'ar_EG.UTF-8': ('ar_EG', 'UTF-8')}


def locales():
    """Locales with other decimal signs, digits, names and encodings, built into the scratch directory; {} if they cannot be."""
    d = os.path.join(scratch(), 'locale')
    if not os.path.isdir(d):
        tmp = f'{d}.{os.getpid()}'
        os.makedirs(tmp)
        for name, (src, charmap) in LOCALES.items():
            try:
                subprocess.run(['localedef', '-c', '-i', src, '-f', charmap, os.path.join(tmp, name)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            except (OSError, subprocess.SubprocessError):
                pass
        try:
            os.rename(tmp, d)
        except OSError:
            import shutil
            shutil.rmtree(tmp)
    return sorted(n for n in LOCALES if os.path.isdir(os.path.join(d, n)))


def start(spec: dict, register=True):
    """Start (or find) the zygote for this spec; returns its key."""
    key = json.dumps([spec, register], sort_keys=True)
    z = _zygotes.get(key)
    if z is not None:
        return key
    _seq[0] += 1
    n = _seq[0]
    base = os.path.join(scratch(), f'z{os.getpid()}_{n}')
    os.makedirs(base)
    home = os.path.join(base, spec.get('home', 'home'))
    tmpd = os.path.join(base, 'tmp')
    cwd = os.path.join(base, spec.get('cwd', 'cwd'))
    for d in (home, tmpd, cwd):
        os.makedirs(d, exist_ok=True)
    env = {'PATH': '/usr/bin:/bin', 'HOME': home, 'TMPDIR': tmpd, 'PYTHONHASHSEED': str(spec.get('hashseed', 0)),
           'VERIF_SCRATCH': scratch(), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': HERE,
           'VERIF_REPO': os.environ.get('VERIF_REPO', '/repo')}
    if 'PYTHONPYCACHEPREFIX' in os.environ:
        env['PYTHONPYCACHEPREFIX'] = os.environ['PYTHONPYCACHEPREFIX']
    env.update(spec.get('env', {}))
    if env.get('LC_ALL') in LOCALES:
        locales()
        env['LOCPATH'] = os.path.join(scratch(), 'locale')
    so = shim()
    if so:
        env['LD_PRELOAD'] = so
    sock = os.path.join(base, 's')
    cmd = [sys.executable, '-m', 'sim.zygote', sock, 'r' if register else '-']
    if spec.get('fixed_addresses'):
        # addresses are part of the seed: no address space randomisation
        try:
            if subprocess.run(['setarch', '-R', 'true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
                cmd = ['setarch', '-R'] + cmd
        except OSError:
            pass
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                         stderr=open(os.path.join(base, 'err'), 'wb'))
    _zygotes[key] = (p, sock, base)
    return key


def call(spec: dict, fn: str, *args, timeout=120.0, register=True):
    """fn = 'module:function', run in a fresh fork of that zygote."""
    from . import core
    key = start(spec, register)
    p, sock, base = _zygotes[key]
    deadline = time.monotonic() + timeout
    s = socket.socket(socket.AF_UNIX)
    boot_deadline = time.monotonic() + 120
    while True:
        try:
            s.connect(sock)
            break
        except (FileNotFoundError, ConnectionRefusedError):
            if p.returncode is not None or _dead(p.pid) or time.monotonic() > boot_deadline:
                with open(os.path.join(base, 'err'), errors='replace') as f:
                    raise core.HarnessError(f'zygote {spec} did not start: {f.read()[-1500:]}')
            time.sleep(0.02)
            deadline = time.monotonic() + timeout
    try:
        data = json.dumps([fn, args]).encode()
        s.sendall(struct.pack('>Q', len(data)) + data)
        s.settimeout(max(1.0, deadline - time.monotonic()))
        try:
            n = struct.unpack('>Q', _recv_exact(s, 8))[0]
            kind, val = pickle.loads(_recv_exact(s, n))
        except EOFError:
            raise core.ChildDied(f'zygote child died in {fn}')
        except (TimeoutError, socket.timeout):
            raise core.ChildTimeout(f'{fn} {args!r:.200} in {spec}')
    finally:
        s.close()
    if kind == 'exc':
        raise core.HarnessError(val)
    return val


def _dead(pid):
    try:
        with open(f'/proc/{pid}/stat') as f:
            return f.read().rsplit(')', 1)[1].split()[0] == 'Z'
    except OSError:
        return True


# ------------------------------------------------------------------ server side

def _child(conn):
    from . import core
    n = struct.unpack('>Q', _recv_exact(conn, 8))[0]
    fn, args = json.loads(_recv_exact(conn, n))
    mod, name = fn.split(':')
    random.seed(20240229)
    try:
        res = ('ok', getattr(importlib.import_module(mod), name)(*args))
    except BaseException as e:                               # noqa: BLE001
        import traceback
        res = ('exc', f'{type(e).__name__}: {e}\n{traceback.format_exc()}')
    data = pickle.dumps(res)
    conn.sendall(struct.pack('>Q', len(data)) + data)


def _watch(conn, pid):
    """Ends the child if the client went away (timeout)."""


def serve(sock, register):
    from . import core
    core.boot(register=register)
    for m in ('sim.props.c05', 'sim.props.c07', 'sim.hist', 'sim.ops', 'sim.dump'):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    core.pristine()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(sock + '.t')
    srv.listen(64)
    os.rename(sock + '.t', sock)
    while True:
        r, _, _ = select.select([srv, 0], [], [])
        if 0 in r and not os.read(0, 1):
            os._exit(0)
        if srv not in r:
            continue
        conn, _ = srv.accept()
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            srv.close()
            signal.alarm(900)
            try:
                _child(conn)
            finally:
                os._exit(0)
        conn.close()


if __name__ == '__main__':
    serve(sys.argv[1], sys.argv[2] == 'r')
