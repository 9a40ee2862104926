"""C12: nothing of a finished conversion stays behind in the process."""
from __future__ import annotations

import atexit
import gc
import io
import json
import os
import sys
import threading
import weakref

from .. import core, decor, hist, ops
from ..driver import PropBase


class SimInterrupt(KeyboardInterrupt):
    pass


REPS = 6
GROW = 4            # so many increases in a row are a leak


def held() -> int:
    """Entries of the containers that converter21's modules, classes and functions hold."""
    seen: set = set()
    total = 0
    stack = []
    for mn, m in list(sys.modules.items()):
        if mn.split('.')[0] == 'converter21' and m is not None:
            stack.append(vars(m))
    while stack:
        v = stack.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, (dict,)) or type(v).__name__ == 'mappingproxy':
            total += len(v)
            stack.extend(list(v.values()))
        elif isinstance(v, (list, tuple, set, frozenset)) or type(v).__name__ == 'deque':
            total += len(v)
            stack.extend(list(v))
        elif isinstance(v, type):
            if v.__module__.startswith('converter21'):
                stack.append(vars(v))
        elif isinstance(v, (staticmethod, classmethod)):
            stack.append(v.__func__)
        elif hasattr(v, 'cache_info'):
            total += v.cache_info().currsize
        elif hasattr(v, '__code__'):
            stack += [v.__defaults__, v.__kwdefaults__, v.__dict__]
            for c in v.__closure__ or ():
                try:
                    stack.append(c.cell_contents)
                except ValueError:
                    pass
        elif type(v).__module__.startswith('converter21') and hasattr(v, '__dict__'):
            stack.append(vars(v))
    return total


def measure() -> str:
    """What there is in the process, as text (so that measuring leaves nothing to measure)."""
    counts: dict = {}
    size = 0
    for o in gc.get_objects():
        t = type(o)
        if t is dict or t is list or t is set:
            size += len(o)
        n = f'{t.__module__}.{t.__qualname__}' if isinstance(t.__module__, str) else t.__qualname__
        counts[n] = counts.get(n, 0) + 1
    out = {f'live {k}': v for k, v in counts.items() if k.startswith(('converter21', 'music21', 'xml', 'fractions', '_io'))}
    out['live objects'] = sum(counts.values())
    out['entries of live containers'] = size
    out['entries kept by converter21'] = held()
    out['threads'] = threading.active_count()
    out['open descriptors'] = len(os.listdir('/proc/self/fd'))
    out['exit callbacks'] = atexit._ncallbacks()
    tmp = os.environ.get('TMPDIR')
    out['temporary files'] = sum(len(fs) for _, _, fs in os.walk(tmp)) if tmp and os.path.isdir(tmp) else 0
    return json.dumps(out)


def _watch(s, into):
    """weak references to the objects of a score"""
    try:
        into.append((weakref.ref(s), type(s).__name__))
        for i, e in enumerate(s.recurse()):
            if i < 400:
                into.append((weakref.ref(e), type(e).__name__))
    except (AttributeError, TypeError):
        pass


def _perform(op, score, sink=None):
    if op['op'] != 'freeze':
        return hist.perform(op, score=score, sink=sink, dumped=False)
    from converter21 import StreamFreezer, StreamThawer
    try:
        t = StreamThawer()
        t.open(StreamFreezer(score).write(fmt=op['pfmt'], zipType=op['zip']), zipType=op['zip'])
        return hist.Result(None, t.stream)
    except core.HarnessError:
        raise
    except Exception as e:                                   # noqa: BLE001
        return hist.Result(None, None, e)


def _rep(sc, refs, res, watch, fired):
    """The history once; the caller of it then lets go of everything."""
    fk, cnt = res['stats']['faults'], res['stats']['counters']
    scores: dict = {}
    for n, (op, ref) in enumerate(zip(sc['ops'], refs)):
        cnt['conversions'] += 1
        fault = op.get('fault')
        lf = sink = r = None
        what = ''
        score = scores.get(op.get('ref'))
        if op['op'] == 'freeze' and score is None:
            continue
        try:
            if fault and fault['kind'] == 'interrupt':
                exc = SimInterrupt('simulated') if fault['exc'] == 'interrupt' else MemoryError('simulated')
                lf = hist.SiteFault(hist.pick_site(ref, fault) or 0, exc)
                del exc
                with core.Monitor(on_line=lf.on_line):
                    r = _perform(op, score)
            elif fault and fault['kind'] == 'sink':
                sink = ops.Sink(int(fault['u'] * 30), OSError(28, 'simulated'))
                r = _perform(op, score, sink)
            else:
                r = _perform(op, score)
        except SimInterrupt:
            pass
        if lf is not None and lf.where:
            what = f'interrupt:{fault["exc"]}'
            res['stats']['sets']['interrupt sites (converter21 functions)'].add(lf.where)
            lf.exc.__traceback__ = None
        elif sink is not None and sink.fired:
            what = 'sink:ENOSPC'
        elif r is not None and r.exc is not None:
            what = 'failed conversion'
        if what:
            fk[what] = fk.get(what, 0) + 1
            fired.add(n)
        if r is not None:
            if r.exc is not None:
                r.exc.__traceback__ = None
            if r.obj is not None:
                _watch(r.obj, watch)
                if op['op'] in ('import', 'freeze'):
                    scores[n] = r.obj
        r = score = lf = sink = None


def run(sc, refs):
    core.silence()
    sys.stdout = io.StringIO()
    res = {'violations': [], 'stats': {'faults': {}, 'counters': {'conversions': 0, 'scores watched': 0},
                                       'sets': {'interrupt sites (converter21 functions)': set()}}, 'log': [], 'nontrivial': False}
    core.quiet_gc()
    names = '; '.join(hist.brief_op(o) for o in sc['ops'])[:260]

    def bad(cls, key, msg):
        res['violations'].append({'class': cls, 'key': f'{cls}:{key}', 'msg': msg})

    seen: list = [''] * REPS
    fired: set = set()
    for rep in range(REPS):
        watch: list = []
        _rep(sc, refs, res, watch, fired)
        hist._reused.clear()
        hist._touched.clear()
        sys.stdout.seek(0)
        sys.stdout.truncate()
        gc.collect()
        gc.collect()
        res['stats']['counters']['scores watched'] += len(watch)
        alive: dict = {}
        for w, t in watch:
            if w() is not None:
                alive[t] = alive.get(t, 0) + 1
        if alive:
            bad('kept', sorted(alive)[0], f'after ({names}), the caller having let go of everything, these objects of its scores are still alive: {alive}')
            break
        del watch
        seen[rep] = measure()
    if not res['violations']:
        ms = [json.loads(x) for x in seen]
        for k in sorted(ms[-1]):
            v = [m.get(k, 0) for m in ms][-GROW - 1:]
            if all(a < b for a, b in zip(v, v[1:])):
                bad('grows', k, f'each repetition of ({names}) leaves more behind: {k}: {[m.get(k, 0) for m in ms]}')
                break
        res['log'].append([names, ms[-1]['threads'], ms[-1]['exit callbacks'], len(fired)])
    res['nontrivial'] = True
    res['sig'] = core.digest(sc)
    return res


class C12(PropBase):
    ID = 'C12'
    RUNS = {'quick': 500, 'thorough': 20000}
    TECHNIQUE = 'seeded deterministic simulation: histories of conversions with failures and interrupts, repeated; what is left alive in the process afterwards'
    LEVEL_NOTE = ('Sampled histories (1-4 imports, exports, conversions and freezings, with damaged inputs, interrupts at a chosen converter21 line, failing outputs), each repeated 6 times in one process. Oracle: weak references '
                  'to the objects of every score die once the client lets go of scores, converters and errors and garbage is collected; live objects (by type), entries of containers, threads, '
                  'descriptors, exit callbacks and temporary files do not grow with every repetition.')
    RULE = 'one run = one history of 1-4 conversions repeated 6 times in one process; distinct by the scenario'
    STUB = ['object hash values and os.urandom (seeded)', 'output streams', 'garbage collection happens at points chosen by the simulator']
    ASSUMPTIONS = ['a client lets go of an error together with its traceback', 'caches that stop growing when the same history is repeated are allowed']

    def prepare(self, ctx, seed, tier):
        hist.write_docs()

    def gen(self, rng, tier, index):
        names = ops.docs()
        light = ops.light(names)
        pool = [light[(index * 7) % len(light)], rng.choice(light), rng.choice(light)]
        out = []
        swarm = rng.choice([0.0, 0.3, 0.7])
        dmg = rng.choice([0.0, 0.0, 0.5])
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            refs = [k for k, o in enumerate(out) if o['op'] == 'import' and not o.get('fault')]
            if refs and rng.random() < 0.4:
                k = rng.choice(refs)
                fmt = rng.choice(['humdrum', 'mei'])
                if rng.random() < 0.3:
                    out.append({'op': 'freeze', 'doc': out[k]['doc'], 'ref': k, 'pfmt': rng.choice(['pickle', 'jsonpickle']), 'zip': rng.choice([None, 'zlib']), 'fmt': '', 'opts': ''})
                    continue
                op = dict(out[k], op='export', ref=k, fmt=fmt, opts=ops.gen_opts(rng, fmt, direct=True))
            else:
                op = hist.gen_op(rng, pool, damage_rate=dmg, decor_rate=0.3)
            if rng.random() < swarm:
                if op['op'] != 'import' and rng.random() < 0.35:
                    op['fault'] = {'kind': 'sink', 'u': rng.random()}
                else:
                    op['fault'] = {'kind': 'interrupt', 'u': rng.random(), 'exc': rng.choice(['interrupt', 'interrupt', 'memory'])}
                    op['fault'].update(hist.gen_site(rng))
            out.append(op)
        return {'ops': out}

    def execute(self, ctx, sc, timeout):
        refs = []
        for op in sc['ops']:
            if op.get('fault', {}).get('kind') == 'interrupt':
                key = {k: v for k, v in op.items() if k not in ('fault', 'reuse', 'ref')}
                refs.append(ctx.baseline(hist.solo_sites, key, timeout=timeout))
            else:
                refs.append(None)
        return core.in_child(run, sc, refs, timeout=timeout * 2)

    def shrink(self, sc):
        o = sc['ops']
        for i in range(len(o)):
            if len(o) > 1:
                m = {old: new for new, old in enumerate(k for k in range(len(o)) if k != i)}
                out = []
                for j, op in enumerate(o):
                    if j == i:
                        continue
                    op = dict(op)
                    if 'ref' in op:
                        if op['ref'] in m:
                            op['ref'] = m[op['ref']]
                        else:
                            del op['ref']
                    out.append(op)
                yield {'ops': out}
        for i, op in enumerate(o):
            for k in ('fault', 'edit', 'damage', 'decor', 'reuse', 'lenient'):
                if op.get(k):
                    yield {'ops': o[:i] + [{a: b for a, b in op.items() if a != k}] + o[i + 1:]}

    def brief(self, sc):
        return '; '.join(hist.brief_op(op) for op in sc['ops'])


PROP = C12()
