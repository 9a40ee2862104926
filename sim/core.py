"""Simulator core: seeded randomness, run isolation (fork), event log, nondeterminism seams.

Every choice of a run is drawn from one PRNG derived from (VERIF_SEED, property, run index); the
choices are written out as an explicit scenario (plain JSON), and executing a scenario is a pure
function of that JSON and of the code under test.  A run executes in a freshly forked copy of a
pristine interpreter (the "zygote": converter21 imported from /repo, nothing converted yet).
"""
from __future__ import annotations

import gc
import hashlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import threading
import time
import traceback
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORPUS = os.path.join(VERIF, 'corpus')


class HarnessError(Exception):
    """The harness itself failed: never a verdict about the code under test."""


def derive_rng(*parts) -> random.Random:
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def digest(obj) -> str:
    if isinstance(obj, str):
        b = obj.encode('utf-8', 'surrogatepass')
    elif isinstance(obj, bytes):
        b = obj
    else:
        b = json.dumps(obj, sort_keys=True, default=repr).encode()
    return hashlib.sha256(b).hexdigest()[:20]


# --------------------------------------------------------------------------------------
# bringing the system under test into this interpreter

_booted = False


def boot(register: bool = True):
    """Import the real system from /repo's working tree (no stubs)."""
    global _booted
    if _booted:
        return
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import music21  # noqa: F401
    import converter21
    here = os.path.realpath(os.path.dirname(converter21.__file__))
    want = os.path.realpath(os.path.join(REPO, 'converter21'))
    if here != want:
        raise HarnessError(f'converter21 imported from {here}, not from {want}')
    if register:
        converter21.register()
    _install_seams()
    _booted = True


def converter21_modules():
    return [m for n, m in sorted(sys.modules.items())
            if (n == 'converter21' or n.startswith('converter21.')) and m is not None
            and '.test' not in n]


def converter21_codes() -> list[types.CodeType]:
    """Every code object of the converter21 package (functions, methods, nested functions)."""
    root = os.path.realpath(os.path.join(REPO, 'converter21')) + os.sep
    seen: set[int] = set()
    out: list[types.CodeType] = []

    def walk(c):
        if id(c) in seen:
            return
        seen.add(id(c))
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            fn = o.__code__.co_filename
            if os.path.realpath(fn).startswith(root):
                walk(o.__code__)
    out.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    return out


# --------------------------------------------------------------------------------------
# nondeterminism seams: object hash values (set iteration order), os.urandom/uuid4

class _Stream:
    __slots__ = ('rng', 'hash_mode', 'counter')

    def __init__(self, seed, hash_mode):
        self.rng = random.Random(seed)
        self.hash_mode = hash_mode
        self.counter = 0


class _Entropy:
    """Hash values and random bytes: one seeded stream per thread."""

    def __init__(self):
        self.tl = threading.local()

    def cur(self) -> _Stream:
        try:
            return self.tl.s
        except AttributeError:
            self.tl.s = _Stream(0, 'scramble')
            return self.tl.s

    def reseed(self, seed, hash_mode: str = 'scramble'):
        self.tl.s = _Stream(seed, hash_mode)

    @property
    def rng(self):
        return self.cur().rng

    def next_hash(self) -> int:
        s = self.cur()
        s.counter += 1
        if s.hash_mode == 'up':
            return s.counter
        if s.hash_mode == 'down':
            return (1 << 60) - s.counter
        return s.rng.getrandbits(60)


ENTROPY = _Entropy()


def _sim_hash(self):
    try:
        d = object.__getattribute__(self, '__dict__')
    except AttributeError:
        return object.__hash__(self)
    h = d.get('_simhash')
    if h is None:
        h = ENTROPY.next_hash()
        d['_simhash'] = h
        # remembered together with the owner, so that a copied __dict__ gets its own value
        d['_simhash_owner'] = id(self)
    elif d.get('_simhash_owner') != id(self):
        h = ENTROPY.next_hash()
        d['_simhash'] = h
        d['_simhash_owner'] = id(self)
    return h


def _install_seams():
    import random as _random
    import music21.base
    import music21.stream.base
    import music21.prebase

    def sim_urandom(n):
        return ENTROPY.rng.getrandbits(8 * n).to_bytes(n, 'big') if n else b''

    os.urandom = sim_urandom
    _random.seed(20240229)

    # hash values of objects: iteration order of sets / membership of dicts
    patched = set()
    for mod in [music21.base, music21.stream.base]:
        for v in list(vars(mod).values()):
            if isinstance(v, type) and '__hash__' in v.__dict__ and v.__dict__['__hash__'] is not None \
                    and issubclass(v, music21.prebase.ProtoM21Object):
                v.__hash__ = _sim_hash
                patched.add(v)
    music21.prebase.ProtoM21Object.__hash__ = _sim_hash if (
        music21.prebase.ProtoM21Object.__hash__ is object.__hash__) else music21.prebase.ProtoM21Object.__hash__
    import enum
    for mod in converter21_modules():
        for v in list(vars(mod).values()):
            if not isinstance(v, type) or not getattr(v, '__module__', '').startswith('converter21'):
                continue
            if issubclass(v, (enum.Enum, BaseException, tuple, str, int, float, dict, list)):
                continue
            if v.__hash__ is object.__hash__ and v.__dictoffset__:
                try:
                    v.__hash__ = _sim_hash
                except TypeError:
                    pass


# --------------------------------------------------------------------------------------
# fork-per-run isolation

def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


class ChildTimeout(Exception):
    pass


class ChildDied(Exception):
    pass


def in_child(fn, *args, timeout: float = 300.0):
    """Run fn(*args) in a forked child and return its (picklable) result."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            random.seed(20240229)            # the random module reseeds itself after a fork
            try:
                res = ('ok', fn(*args))
            except BaseException as e:                       # noqa: BLE001
                res = ('exc', f'{type(e).__name__}: {e}\n{traceback.format_exc()}')
            data = pickle.dumps(res)
            _write_all(w, struct.pack('>Q', len(data)) + data)
        except BaseException:                                # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = time.monotonic() + timeout
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                raise ChildTimeout(f'{fn.__name__} {args!r:.200}')
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                continue
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
            if len(buf) >= 8 and len(buf) >= 8 + struct.unpack('>Q', buf[:8])[0]:
                break
    except BaseException:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        raise
    finally:
        os.close(r)
        try:
            _, status = os.waitpid(pid, 0)
        except ChildProcessError:
            status = 0
    if len(buf) < 8:
        raise ChildDied(f'child died (status {status}) in {fn.__name__}')
    kind, val = pickle.loads(bytes(buf[8:]))
    if kind == 'exc':
        raise HarnessError(val)
    return val


def silence():
    """Detach this (child) process from the terminal; converter21 prints warnings."""
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    import warnings
    warnings.simplefilter('ignore')


# --------------------------------------------------------------------------------------
# step-indexed hooks into converter21 code (sys.monitoring, local to converter21's code objects)

_TOOL = 4
_codes_cache: list | None = None


class Monitor:
    """LINE and CALL events from converter21 code only; the callback may raise (a fault)."""

    def __init__(self, on_line=None, on_call=None, on_jump=None):
        self.on_line = on_line
        self.on_call = on_call
        self.on_jump = on_jump

    def __enter__(self):
        global _codes_cache
        mon = sys.monitoring
        if _codes_cache is None:
            _codes_cache = converter21_codes()
        mon.use_tool_id(_TOOL, 'converter21-sim')
        ev = 0
        if self.on_line is not None:
            ev |= mon.events.LINE
            mon.register_callback(_TOOL, mon.events.LINE, self.on_line)
        if self.on_call is not None:
            ev |= mon.events.CALL
            mon.register_callback(_TOOL, mon.events.CALL, self.on_call)
        if self.on_jump is not None:
            ev |= mon.events.JUMP
            mon.register_callback(_TOOL, mon.events.JUMP, self.on_jump)
        self.ev = ev
        for c in _codes_cache:
            mon.set_local_events(_TOOL, c, ev)
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        for c in _codes_cache:
            mon.set_local_events(_TOOL, c, 0)
        for e in (mon.events.LINE, mon.events.CALL, mon.events.JUMP):
            mon.register_callback(_TOOL, e, None)
        mon.free_tool_id(_TOOL)
        return False


def is_music21_callable(c) -> bool:
    m = getattr(c, '__module__', None)
    if m is None:
        f = getattr(c, '__func__', None)
        m = getattr(f, '__module__', None)
    return isinstance(m, str) and (m == 'music21' or m.startswith('music21.'))


def quiet_gc():
    """No collection happens by itself (when one would happen is not part of a schedule), but collection is on, as users have it."""
    gc.enable()
    gc.set_threshold(1 << 30, 10, 10)


def pristine():
    """Called once in the zygote, after boot: warm caches that are pure, then freeze the heap."""
    global _codes_cache
    _codes_cache = converter21_codes()
    gc.collect()
    gc.freeze()
