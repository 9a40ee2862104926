"""C03: a conversion does not depend on what was converted before it in the same process."""
from __future__ import annotations

import decimal
import gc
import io
import locale
import os
import signal
import sys
import warnings

from .. import core, decor, dump, hist, ops
from ..driver import PropBase


class SimInterrupt(KeyboardInterrupt):
    pass


def process_state():
    import xml.etree.ElementTree as ET
    return {
        'working directory': os.getcwd(),
        'environment': dict(os.environ),
        'locale': locale.setlocale(locale.LC_ALL),
        'recursion limit': sys.getrecursionlimit(),
        'warning filters': repr(warnings.filters),
        'module search path': list(sys.path),
        'decimal context': repr(decimal.getcontext()),
        'signal handlers': repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)]),
        'umask': _umask(),
        'stdin/stdout/stderr': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'garbage collection': (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        'excepthook': id(sys.excepthook),
        'trace/profile': (id(sys.gettrace()), id(sys.getprofile())),
        'switch interval': sys.getswitchinterval(),
    }


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def run(sc, refs):
    core.silence()
    captured = sys.stdout = io.StringIO()
    res = {'violations': [], 'stats': {'faults': {}, 'counters': {'conversions': 0, 'steps': 0}, 'sets': {}}, 'log': [], 'nontrivial': False}
    fk, cnt = res['stats']['faults'], res['stats']['counters']
    sites = res['stats']['sets'].setdefault('interrupt sites (converter21 functions)', set())
    kept = []       # (op number, score, dump when it was handed out)
    scores = {}
    core.quiet_gc()

    def bad(cls, op, msg):
        res['violations'].append({'class': cls, 'key': f'{cls}:{op["doc"]}:{op.get("fmt", "import")}', 'msg': msg})

    state = process_state()
    for n, (op, ref) in enumerate(zip(sc['ops'], refs)):
        if op['op'] == 'gc':
            kept.clear()
            scores.clear()
            hist._reused.clear()
            hist._touched.clear()
            gc.collect()
            continue
        cnt['conversions'] += 1
        fault = op.get('fault')
        sink = None
        score = scores.get(op.get('ref'))
        what = ''
        try:
            if fault and fault['kind'] == 'interrupt':
                exc = SimInterrupt('simulated') if fault['exc'] == 'interrupt' else MemoryError('simulated')
                if 'by' in fault:
                    lf = hist.SiteFault(hist.pick_site(ref, fault) or 0, exc)
                else:
                    lf = hist.LineFault(int(fault['u'] * max(1, ref['lines'])), exc)
                with core.Monitor(on_line=lf.on_line):
                    r = hist.perform(op, score=score)
                what = f'interrupt:{fault["exc"]}' if lf.where else ''
                if lf.where:
                    sites.add(lf.where)
            elif fault and fault['kind'] == 'sink':
                sink = ops.Sink(int(fault['u'] * 30), OSError(28, 'simulated'))
                r = hist.perform(op, sink=sink, score=score)
                what = 'sink:ENOSPC' if sink.fired else ''
            else:
                r = hist.perform(op, score=score)
        except SimInterrupt as e:
            r = hist.Result({'kind': 'interrupted'})
            what = 'interrupt:KeyboardInterrupt'
            sites.add(lf.where)
            e.__traceback__ = None
        if r.exc is not None:
            r.exc.__traceback__ = None
        if what:
            fk[what] = fk.get(what, 0) + 1
        elif r.out['kind'] == 'err' or r.out.get('perr') not in (None, 'None', ''):
            k = 'invalid or damaged input' if op.get('damage') else 'natural failure'
            fk[k] = fk.get(k, 0) + 1
        res['log'].append([n, hist.brief_op(op)[:160], what, r.out.get('digest') or r.out.get('text') or r.out['kind']])
        if not what:
            if n:
                res['nontrivial'] = True
            if not ops.same(ref['out'], r.out):
                bad('history-dependent', op, f'op {n} ({hist.brief_op(op)}) after {n} earlier conversions gives something else than in a fresh process: {ops.explain(ref["out"], r.out)}')
                break
        if score is not None:
            # what an export does to its own input, interrupted or not, is C01's business
            kept[:] = [k for k in kept if k[1] is not score]
            if what:
                scores.pop(op['ref'], None)
            score = None
        if op['op'] == 'import' and r.obj is not None and not what:
            scores[n] = r.obj
            if len(kept) < 4:
                kept.append((n, r.obj, dump.score_dump(r.obj, True)))
        r = None
        now = process_state()
        if now != state:
            diff = sorted(k for k in now if now[k] != state[k])
            bad('process-state', op, f'op {n} ({hist.brief_op(op)}) changed shared process state: {diff}: {str(state[diff[0]])[:100]} -> {str(now[diff[0]])[:100]}')
            break
        if captured.getvalue():
            bad('stdout', op, f'op {n} ({hist.brief_op(op)}) wrote to standard output: {captured.getvalue()[:120]!r}')
            break
    if not res['violations']:
        for n, s, d0 in kept:
            d1 = dump.score_dump(s, True)
            if d1 != d0:
                bad('earlier-result-changed', sc['ops'][n], f'the score from op {n} ({hist.brief_op(sc["ops"][n])}) was changed by later conversions: '
                    + ' | '.join(x[:160] for x in dump.diff_lines(d0, d1, 4)))
                break
    res['sig'] = core.digest(res['log'])
    return res


LONG = 60       # one run in so many is a long history


class C03(PropBase):
    ID = 'C03'
    RUNS = {'quick': 900, 'thorough': 40000}
    TECHNIQUE = 'seeded deterministic simulation: random conversion histories with failures and interrupts, each step compared with a fresh process'
    LEVEL_NOTE = ('Sampled histories (3-12 conversions, some of 26 imports, twins of the same document, damaged inputs, interrupts at a chosen converter21 line, failing output, reused converters, '
                  'garbage collection). Oracle: the same conversion as the first one in a forked pristine process; plus dumps of earlier results and of shared process state.')
    RULE = ('one run = one history of 3-26 imports/exports in one process; non-trivial = at least one compared conversion has a predecessor; distinct by the full sequence of '
            '(operation, fault, result)')
    STUB = ['object hash values and os.urandom (seeded)', 'output streams']
    ASSUMPTIONS = ['the result of a conversion in a freshly forked process that has only imported and registered converter21 is the reference']

    def prepare(self, ctx, seed, tier):
        hist.write_docs()

    def gen(self, rng, tier, index):
        names = ops.docs()
        light = ops.light(names)
        if index % LONG == 5:
            # many documents of one format in one process, in random order: of n imports, n(n-1)/2 ordered pairs
            ext = '.mei' if index // LONG % 2 == 0 else '.krn'
            docs = [n for n in light if n.endswith(ext)]
            return {'ops': [{'op': 'import', 'doc': n, 'entropy': 7, 'via': 'data'} for n in rng.sample(docs, min(len(docs), 26))]}
        heavy = tier != 'quick' and rng.random() < 0.02
        pool = []
        anchor = light[(index * 7) % len(light)]
        pool += [n for n in light if hist.stem(n) == hist.stem(anchor)]
        while len(pool) < 4:
            pool.append(rng.choice(light))
        if rng.random() < 0.3:
            pool.append(rng.choice([n for n in light if n.startswith(('illegal', 'hand_krn1_bad', '23d', 'notes_in'))]))
        if heavy:
            pool.append(rng.choice([n for n in names if n.startswith(ops.HEAVY)]))
        n = rng.choice([3, 4, 5, 6, 8, 10, 12])
        out = []
        swarm_fault = rng.choice([0.0, 0.25, 0.5])
        dmg = rng.choice([0.0, 0.0, 0.3])
        for i in range(n):
            if out and rng.random() < 0.08:
                out.append({'op': 'gc', 'doc': '-'})
                continue
            refs = [k for k, o in enumerate(out) if o['op'] == 'import' and not o.get('fault') and 'gc' not in [x['op'] for x in out[k:]]]
            if refs and rng.random() < 0.3:
                k = rng.choice(refs)
                fmt = rng.choice(['humdrum', 'mei'])
                op = dict(out[k], op='export', ref=k, fmt=fmt, opts=ops.gen_opts(rng, fmt, direct=True))
                last = [o for o in out if o.get('ref') == k]
                if last and rng.random() < 0.5:
                    op['fmt'], op['opts'] = last[-1]['fmt'], last[-1]['opts']
                op['touch'] = (last[-1]['touch'] if last else []) + [[rng.choice(decor.TOUCH), rng.random(), rng.random()]
                                                                    for _ in range(rng.choice([0, 1, 1, 2]) if last else 0)]
            elif out and rng.random() < 0.15:
                src = rng.choice(out)
                if src['op'] == 'gc':
                    continue
                op = {k: v for k, v in src.items() if k not in ('fault', 'ref', 'touch')}       # exactly the same again
            elif rng.random() < 0.16:
                # a document with damaged or unusual details, then the document itself
                op = hist.gen_op(rng, pool, kinds=('import',))
                f = ops.doc_fmt(op['doc'])
                if f == 'humdrum' and rng.random() < 0.6:
                    out.append(dict(op, damage=[[rng.choice(['chord', 'chord', 'mark', 'dots', 'token']), rng.random(), rng.random()]
                                                for _ in range(rng.choice([2, 4, 8, 12]))]))
                elif f != 'musicxml':
                    out.append(dict(op, damage=hist.gen_damage(rng, f)))
            else:
                op = hist.gen_op(rng, pool, damage_rate=dmg, decor_rate=0.2)
            if rng.random() < swarm_fault:
                if op['op'] != 'import' and rng.random() < 0.25:
                    op['fault'] = {'kind': 'sink', 'u': rng.random()}
                else:
                    op['fault'] = {'kind': 'interrupt', 'u': rng.random(), 'exc': rng.choice(['interrupt', 'interrupt', 'memory'])}
                    if rng.random() < 0.6:
                        op['fault'].update(hist.gen_site(rng, 5 if not any(o.get('fault') for o in out) else 0, 3))
                    if op['fault'].get('by') == 'cold' and rng.random() < 0.7:
                        if op['op'] != 'import' and 'ref' not in op:
                            op['decor'] = decor.gen_cold(rng)
                        out.append(op)
                        op = {k: v for k, v in op.items() if k not in ('fault', 'ref', 'touch')}
            out.append(op)
        if out[-1]['op'] == 'gc' or out[-1].get('fault'):
            out.append(hist.gen_op(rng, pool, decor_rate=0.2))
        return {'ops': out}

    def execute(self, ctx, sc, timeout):
        refs = []
        for op in sc['ops']:
            if op['op'] == 'gc':
                refs.append(None)
                continue
            key = {k: v for k, v in op.items() if k not in ('fault', 'reuse', 'ref')}
            if op.get('fault', {}).get('kind') == 'interrupt':
                how = hist.sites_ref([op['fault']]) if 'by' in op['fault'] else hist.solo_counted
                refs.append(ctx.baseline(how, key, timeout=timeout))
            else:
                refs.append({'out': ctx.baseline(hist.solo, key, timeout=timeout)})
        return core.in_child(run, sc, refs, timeout=timeout * 2)

    def shrink(self, sc):
        o = sc['ops']

        def without(lst):
            keep = [i for i in range(len(o)) if i not in lst]
            m = {old: new for new, old in enumerate(keep)}
            out = []
            for i in keep:
                op = dict(o[i])
                if 'ref' in op:
                    if op['ref'] not in m:
                        del op['ref']
                    else:
                        op['ref'] = m[op['ref']]
                out.append(op)
            return {'ops': out}
        n = len(o)
        if n > 3:
            yield without(set(range(n // 2)))
            yield without(set(range(n // 2, n)))
        for i in range(n):
            if n > 1:
                yield without({i})
        for i, op in enumerate(o):
            for k in ('fault', 'edit', 'damage', 'decor', 'reuse', 'lenient', 'touch'):
                if op.get(k):
                    yield {'ops': o[:i] + [{a: b for a, b in op.items() if a != k}] + o[i + 1:]}

    def brief(self, sc):
        return '; '.join(hist.brief_op(op) for op in sc['ops'])


PROP = C03()
