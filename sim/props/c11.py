"""C11: interrupts are never swallowed."""
from __future__ import annotations


from .. import core, decor, hist, ops
from ..driver import PropBase


class ClientStop(BaseException):
    """A client's own way of stopping a conversion (as gevent's or trio's timeouts are)."""


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'ClientStop': ClientStop}


def run(sc, ref):
    core.silence()
    core.quiet_gc()
    res = {'violations': [], 'stats': {'faults': {}, 'counters': {'conversions': 0, 'lines after the interrupt': 0}, 'sets': {}}, 'log': [], 'nontrivial': False}
    fk, cnt = res['stats']['faults'], res['stats']['counters']
    lines = res['stats']['sets'].setdefault('interrupted source lines', set())
    op = sc['op']

    def bad(cls, msg):
        res['violations'].append({'class': cls, 'key': f'{cls}:{op["doc"]}:{op.get("fmt", "import")}', 'msg': f'{hist.brief_op(op)}: {msg}'})

    for n, fault in enumerate(sc['faults']):
        target = hist.pick_site(ref, fault)
        if target is None:
            break
        exc = EXC[fault['exc']]('simulated')
        sf = hist.SiteFault(target, exc)
        got = None
        cnt['conversions'] += 1
        with core.Monitor(on_line=sf.on_line):
            try:
                r = hist.perform(op)
            except BaseException as e:                       # noqa: BLE001
                if isinstance(e, core.HarnessError):
                    raise
                got, r = e, None
        if sf.where is None:
            res['log'].append([n, 'not reached'])
            continue
        res['nontrivial'] = True
        fk[fault['exc']] = fk.get(fault['exc'], 0) + 1
        lines.add(sf.where)
        cnt['lines after the interrupt'] += sf.after
        res['log'].append([n, fault['exc'], sf.where, 'reached the caller' if got is exc else 'lost'])
        if got is None:
            bad('swallowed', f'{fault["exc"]} raised at {sf.where} was swallowed; the caller got {ops.brief(r.out)}')
            return res
        if got is not exc:
            bad('replaced', f'{fault["exc"]} raised at {sf.where} reached the caller as {type(got).__name__}: {str(got)[:120]}')
            return res
        got.__traceback__ = None
    cnt['conversions'] += 1
    r = hist.perform(op)
    res['log'].append(['again', r.out.get('digest') or r.out.get('text')])
    if not ops.same(ref['out'], r.out):
        bad('not-repeatable', f'after the interrupts {res["log"][:-1]} the same conversion gives something else: expected {ops.brief(ref["out"])}, got {ops.brief(r.out)}')
    res['sig'] = core.digest([sc['op'], res['log']])
    return res


class C11(PropBase):
    ID = 'C11'
    RUNS = {'quick': 1200, 'thorough': 60000}
    TECHNIQUE = 'seeded deterministic simulation: conversions interrupted at chosen lines of converter21, then repeated'
    LEVEL_NOTE = ('Sampled interrupt points, drawn per executed function, per executed source line and per executed step of each conversion, and aimed at one-time set-up, at state shared by '
                  'conversions and at lines inside try and with blocks (swept over the corpus). Oracle: identity of the exception seen by the '
                  'caller, and the result of the same conversion in a fresh process.')
    RULE = 'one run = one conversion interrupted one to eight times at chosen source lines, then repeated; non-trivial = an interrupt fired; distinct by conversion, lines and results'
    STUB = ['arrival of asynchronous exceptions (raised by sys.monitoring before the chosen line)', 'object hash values and os.urandom (seeded)']
    ASSUMPTIONS = ['interrupts arrive between lines of converter21 (as if music21 and the standard library let them through)']

    def prepare(self, ctx, seed, tier):
        hist.write_docs()

    def gen(self, rng, tier, index):
        names = ops.light(ops.docs())
        op = hist.gen_op(rng, [names[index % len(names)]] if index < len(names) else names, damage_rate=0.2, decor_rate=0.25)
        if op['op'] == 'import' and ops.doc_fmt(op['doc']) == 'humdrum' and rng.random() < 0.4:
            op['lenient'] = True
        faults = []
        cold = rng.choice([0, 0, 0, 6])
        shared = rng.choice([0, 0, 2, 4])
        guarded = 0
        if not cold and not shared and rng.random() < 0.8:
            guarded = rng.choice([5, 20])                    # (one kind of aimed site per run: each has its own reference)
        if cold and rng.random() < 0.7:
            op = hist.gen_op(rng, names, ('import', 'convert', 'convert'))
        if cold and op['op'] != 'import':
            op['decor'] = decor.gen_cold(rng)
        sweep = index < 2 * len(names)
        if sweep:
            # every document, aimed at the lines that run inside try and with blocks
            op = hist.gen_op(rng, [names[index % len(names)]], ('import',) if index < len(names) else ('import', 'export', 'convert'))
            cold, shared, guarded = 0, 0, 90
        if op['op'] == 'import':
            if op.get('via') == 'file' and rng.random() < 0.4:
                op['enc'] = 'other'
                op.pop('edit', None)
                op.pop('damage', None)
        elif not cold:
            if rng.random() < 0.25:
                op['tofile'] = True
            if rng.random() < 0.15:
                op['subject'], op['su'] = rng.choice(['part', 'part', 'voice', 'measure', 'note']), rng.random()
                op['opts']['makeNotation'] = True
        for _ in range(8 if sweep else rng.choice([1, 3, 5, 8])):
            f = hist.gen_site(rng, cold, shared, guarded)
            f['exc'] = rng.choice(sorted(EXC))
            faults.append(f)
        faults.sort(key=lambda f: f['by'] != 'cold')         # only the first conversion sets things up
        return {'op': op, 'faults': faults}

    def execute(self, ctx, sc, timeout):
        ref = ctx.baseline(hist.sites_ref(sc["faults"]), sc['op'], timeout=timeout)
        return core.in_child(run, sc, ref, timeout=timeout)

    def shrink(self, sc):
        f = sc['faults']
        for i in range(len(f)):
            if len(f) > 1:
                yield dict(sc, faults=f[:i] + f[i + 1:])
        for k in ('damage', 'edit', 'decor', 'lenient', 'reuse', 'enc', 'tofile', 'subject'):
            if sc['op'].get(k):
                yield dict(sc, op={a: b for a, b in sc['op'].items() if a != k})

    def brief(self, sc):
        return f'{hist.brief_op(sc["op"])}; interrupts {sc["faults"]}'


PROP = C11()
