"""C04: conversions in concurrent threads give what each gives alone, under every interleaving."""
from __future__ import annotations

import io
import sys
import threading

from .. import core, decor, hist, ops, sched
from ..driver import PropBase


def run(sc, refs):
    core.silence()
    captured = sys.stdout = io.StringIO()
    core.quiet_gc()
    res = {'violations': [], 'stats': {'faults': {}, 'counters': {}, 'sets': {}}, 'log': [], 'nontrivial': False}
    outs = [[] for _ in sc['threads']]
    keep = []

    def body(t):
        def go():
            for op in sc['threads'][t]:
                r = hist.perform(op)
                keep.append(r.obj)
                outs[t].append(r.out)
            return True
        return go

    aborts = {int(k): v for k, v in sc.get('aborts', {}).items()}
    threading.stack_size(64 << 20)
    s = sched.Scheduler([body(t) for t in range(len(sc['threads']))], sc['sched'], aborts)
    results = s.run(calls=sc.get('calls', False))
    cnt, fk = res['stats']['counters'], res['stats']['faults']
    cnt['thread switches'] = len(s.switches)
    cnt['steps'] = s.lines
    cnt['conversions'] = sum(len(o) for o in outs)
    res['stats']['sets']['switch sites (converter21 functions)'] = s.sites
    if s.fired:
        fk['thread died mid-conversion'] = len(s.fired)
    if sc['sched']['mode'] != 'explicit':
        fk[f'schedule:{sc["sched"]["mode"]}'] = 1
    res['switches'] = s.switches if len(s.switches) < 20000 else s.switches[:20000]
    res['nontrivial'] = bool(s.switches)
    res['log'] = [[t, [o.get('digest') or o.get('text') for o in outs[t]]] for t in range(len(outs))] + [core.digest(s.switches), s.lines]
    res['sig'] = core.digest([sc['threads'], s.switches])

    def bad(cls, key, msg):
        res['violations'].append({'class': cls, 'key': f'{cls}:{key}', 'msg': msg})

    for t, ops_ in enumerate(sc['threads']):
        kind = results[t][0] if results[t] else 'deadlock'
        if kind == 'exc' and 'HarnessError' in results[t][1]:
            raise core.HarnessError(results[t])
        if kind == 'deadlock':
            bad('deadlock', ops_[0]['doc'], f'thread {t} never finishes: {s.deadlock}')
            continue
        for n, o in enumerate(outs[t]):
            ref = refs[t][n]
            if not ops.same(ref, o):
                bad('interference', f'{ops_[n]["doc"]}:{ops_[n].get("fmt", "import")}',
                    f'thread {t}, op {n} ({hist.brief_op(ops_[n])}), {len(s.switches)} switches: {ops.explain(ref, o)}')
                break
        else:
            if kind == 'exc':
                n = len(outs[t])
                bad('escaped', f'{ops_[n]["doc"]}', f'thread {t}, op {n} ({hist.brief_op(ops_[n])}) raised {results[t][1]}')
    if captured.getvalue():
        bad('stdout', sc['threads'][0][0]['doc'], f'wrote to standard output: {captured.getvalue()[:120]!r}')
    return res


class C04(PropBase):
    ID = 'C04'
    RUNS = {'quick': 420, 'thorough': 20000}
    TECHNIQUE = 'seeded deterministic simulation: baton scheduler over real threads, switch points at every converter21 line or call, cooperative locks'
    LEVEL_NOTE = ('Sampled schedules: 2-4 threads, 1-3 conversions each, switching at converter21 line (or call) granularity - dense (mean gap 1-30 lines), bursts, sparse; '
                  'threads may die mid-conversion. Oracle: each conversion alone in a fresh process. Preemption inside music21 or inside one line is not simulated.')
    RULE = ('one run = one schedule of 2-4 threads; non-trivial = at least one switch; distinct by (operations, exact list of switch points)')
    STUB = ['thread scheduler and threading.Lock/RLock', 'object hash values and os.urandom (seeded, per thread)']
    ASSUMPTIONS = ['music21 and CPython primitives called by converter21 are atomic at the simulated granularity']

    def pre_boot(self):
        sched.install()

    def prepare(self, ctx, seed, tier):
        hist.write_docs()
        ctx.memo_budget = 3000

    def gen(self, rng, tier, index):
        light = ops.light(ops.docs())
        nt = rng.choice([2, 2, 2, 3, 3, 4])
        style = rng.choice(['any', 'import', 'export', 'same'])
        kinds = {'any': ('import', 'export', 'convert'), 'import': ('import',), 'export': ('export', 'convert'), 'same': ('import', 'convert')}[style]
        base = rng.choice(light) if index % 3 else light[(index // 3) % len(light)]
        pool = [base] + [n for n in light if hist.stem(n) == hist.stem(base)] + rng.sample(light, 3)
        if style == 'same':
            pool = [n for n in light if ops.doc_fmt(n) == ops.doc_fmt(base)]
            pool = [base] + rng.sample(pool, min(3, len(pool)))
        threads = []
        for t in range(nt):
            lst = []
            for _ in range(rng.choice([1, 1, 2, 3] if nt < 4 else [1, 1, 2])):
                op = hist.gen_op(rng, pool if t else [base] + pool[:2], kinds, damage_rate=0.08, decor_rate=0.2)
                op.pop('reuse', None)
                lst.append(op)
            threads.append(lst)
        sc = {'threads': threads,
              'sched': {'mode': rng.choice(['dense', 'dense', 'dense', 'window', 'sparse']), 'gap': rng.choice([1, 2, 5, 12, 30]), 'seed': rng.getrandbits(32)},
              'calls': rng.random() < 0.25}
        if index % 2 == 1:
            # one thread stops somewhere in its first conversion until the others are done (or blocked)
            sc['sched'] = {'mode': 'pause', 'seed': 0}
            sc['calls'] = False
            sc['pause'] = [dict(hist.gen_site(rng, 10, 25), t=t) for t in ([0] if rng.random() < 0.7 else [0, 1])]
            if rng.random() < 0.7:
                if rng.random() < 0.4 and ops.doc_fmt(base) != 'musicxml':
                    threads[0][0] = hist.gen_op(rng, pool, ('convert',))
                if rng.random() < 0.7 and threads[0][0]['op'] != 'import':
                    threads[0][0]['decor'] = decor.gen_cold(rng)
                r = rng.random()
                if r < 0.4:
                    threads[1][0] = dict(threads[0][0])
                elif r < 0.7:
                    # the same kind of conversion of something else
                    doc = rng.choice([n for n in light if ops.doc_fmt(n) == ops.doc_fmt(threads[0][0]['doc'])])
                    threads[1][0] = {k: v for k, v in threads[0][0].items() if k not in ('edit', 'damage', 'decor')} | {'doc': doc}
                elif ops.doc_fmt(threads[0][0]['doc']) == 'humdrum':
                    threads[1][0] = {'op': 'import', 'doc': 'hand_many.krn', 'via': 'data', 'entropy': 7}      # lots of different values
        if rng.random() < 0.2:
            sc['aborts'] = {str(rng.randrange(nt)): int(10 ** rng.uniform(1, 5))}
        return sc

    def execute(self, ctx, sc, timeout):
        refs = [[ctx.baseline(hist.solo, op, timeout=timeout) for op in t] for t in sc['threads']]
        if sc.get('pause'):
            ps = []
            for p in sc['pause']:
                if p['t'] < len(sc['threads']):
                    at = hist.pick_site(ctx.baseline(hist.sites_ref([p]), sc['threads'][p['t']][0], timeout=timeout), dict(p, by='line') if p['by'] == 'time' else p)
                    if at is not None:
                        ps.append([p['t'], at])
            sc = dict(sc, sched=dict(sc['sched'], pauses=ps))
        return core.in_child(run, sc, refs, timeout=timeout * 2)

    def explicit(self, sc, res):
        """The same run with its schedule written out."""
        if sc['sched']['mode'] in ('explicit', 'pause') or 'switches' not in res:
            return sc
        return dict(sc, sched={'mode': 'explicit', 'switches': res['switches']})

    def shrink(self, sc):
        th = sc['threads']
        if sc.get('aborts'):
            yield {k: v for k, v in sc.items() if k != 'aborts'}
        if len(sc.get('pause', ())) > 1:
            for p in sc['pause']:
                yield dict(sc, pause=[p])
        if sc['sched']['mode'] == 'pause':
            for i, t in enumerate(th):
                for j, op in enumerate(t):
                    if op.get('decor'):
                        for k in range(len(op['decor'])):
                            yield dict(sc, threads=th[:i] + [t[:j] + [dict(op, decor=op['decor'][:k] + op['decor'][k + 1:])] + t[j + 1:]] + th[i + 1:])
        if sc['sched']['mode'] != 'explicit':
            # schedules cannot be kept while the operations change: these are tried with the seeded one
            if len(th) > 2:
                for i in range(len(th)):
                    yield dict(sc, threads=th[:i] + th[i + 1:], aborts={})
            for i, t in enumerate(th):
                if len(t) > 1:
                    for j in range(len(t)):
                        yield dict(sc, threads=th[:i] + [t[:j] + t[j + 1:]] + th[i + 1:])
            return
        sw = sc['sched']['switches']
        n = len(sw)
        chunk = max(1, n // 2)
        while chunk >= 1:
            for i in range(0, n, chunk):
                rest = sw[:i] + sw[i + chunk:]
                yield dict(sc, sched={'mode': 'explicit', 'switches': rest})
            if chunk == 1:
                break
            chunk = max(1, chunk // 4)

    def brief(self, sc):
        s = sc['sched']
        how = f'{len(s["switches"])} explicit switches' if s['mode'] == 'explicit' else f'{s["mode"]} gap {s.get("gap")} seed {s["seed"]} {sc.get("pause", "")}'
        return ' || '.join('; '.join(hist.brief_op(o) for o in t) for t in sc['threads']) + f' [{how}]'


PROP = C04()
