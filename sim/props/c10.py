"""C10: damaged input is reported, never hangs, and lenient import never raises."""
from __future__ import annotations

import gc
import os
import sys

from .. import core, hist, ops
from ..driver import PropBase


class StepLimit(BaseException):
    pass


INNER = {'MemoryError': MemoryError, 'RecursionError': lambda: RecursionError('maximum recursion depth exceeded'), 'ZeroDivisionError': lambda: ZeroDivisionError('division by zero'),
         'AssertionError': AssertionError, 'StopIteration': StopIteration, 'KeyError': lambda: KeyError('')}


def attempt(op, limit, entropy=7, mode='scramble', fault=None):
    """One import; returns (outcome, executed lines, parts, notes).  fault: [line count, exception] makes converter21 fail there."""
    import converter21
    import music21 as m21
    n, where, fired = [0], [], []

    def on_line(code, line):
        n[0] += 1
        if fault and not fired and n[0] >= fault[0] and '/converter21/humdrum/' in code.co_filename and sys.exception() is None:
            fired.append(n[0])
            where.append(f'{os.path.basename(code.co_filename)}:{code.co_qualname}')
            raise INNER[fault[1]]()
        if n[0] > limit:
            if not where or fault:
                f, names = sys._getframe(1), []
                while f is not None and len(names) < 12:
                    if '/converter21/' in f.f_code.co_filename:
                        names.append(f'{f.f_code.co_name}:{f.f_lineno}')
                    f = f.f_back
                where.append(' < '.join(names))
            raise StepLimit(where[-1])
    gc.disable()
    core.ENTROPY.reseed(entropy, mode)
    fmt = ops.doc_fmt(op['doc'])
    kw = {'acceptSyntaxErrors': True} if op.get('lenient') else {}
    path = None
    try:
        with core.Monitor(on_line=on_line):
            try:
                if op['via'] in ('file', 'm21file'):
                    path = os.path.join(os.environ['VERIF_SCRATCH'], f'damaged.{os.getpid()}.{ops.EXT[fmt]}')
                    with open(path, 'wb') as f:
                        f.write(data_of(op))
                    if op['via'] == 'm21file':
                        s = m21.converter.parse(path, format=fmt, forceSource=True, **kw)
                    else:
                        s = (converter21.HumdrumConverter() if fmt == 'humdrum' else converter21.MEIConverter()).parseFile(path, **kw)
                else:
                    s = (converter21.HumdrumConverter() if fmt == 'humdrum' else converter21.MEIConverter()).parseData(text_of(op), **kw)
            except StepLimit as e:
                return {'out': {'kind': 'hang', 'text': str(e)}, 'lines': n[0], 'parts': None}
            except Exception as e:                           # noqa: BLE001
                return {'out': ops.outcome_of_exception(e), 'lines': n[0], 'parts': None}
    finally:
        if path:
            try:
                os.remove(path)
            except OSError:
                pass
    if not isinstance(s, m21.stream.Stream):
        return {'out': {'kind': 'nothing', 'text': repr(s)[:80]}, 'lines': n[0], 'parts': None}
    perr = getattr(s, 'c21_parse_err', None)
    if isinstance(s, m21.stream.Opus):
        parts = sum(len(x.parts) for x in s.scores)
    else:
        parts = len(s.parts) if isinstance(s, m21.stream.Score) else 1
    if path and perr:
        s.c21_parse_err = str(perr).replace(path, 'PATH')
    if op['via'] == 'm21file':                               # music21 notes where the file was
        s.filePath = s.fileNumber = s.fileFormat = None
        if s.metadata is not None:
            md = s.metadata
            md.filePath = md.fileNumber = md.fileFormat = None
    return {'out': ops.outcome_of_score(s), 'lines': n[0], 'parts': parts, 'perr': bool(perr), 'score': isinstance(s, m21.stream.Score), 'where': where}


def text_of(op):
    return hist.op_text(op)


def data_of(op):
    b = hist.op_text(op).encode('utf-8', 'surrogatepass')
    for kind, u, v in op.get('bytes', ()):
        if not b:
            break
        i = int(u * len(b))
        if kind == 'bit':
            b = b[:i] + bytes([b[i] ^ (1 << int(v * 8))]) + b[i + 1:]
        elif kind == 'cut':
            b = b[:i]
        elif kind == 'zero':
            j = min(len(b), i + 1 + int(v * 512))
            b = b[:i] + bytes(j - i) + b[j:]
        elif kind == 'lose':
            b = b[:i] + b[i + 1 + int(v * 512):]
    return b


def run(sc, limit):
    core.silence()
    op = sc['op']
    fmt = ops.doc_fmt(op['doc'])
    res = {'violations': [], 'stats': {'faults': {}, 'counters': {}, 'sets': {}}, 'log': [], 'nontrivial': True}
    fk, cnt = res['stats']['faults'], res['stats']['counters']
    for d in op.get('damage', ()):
        fk[d[0]] = fk.get(d[0], 0) + 1
    for d in op.get('bytes', ()):
        fk[f'bytes:{d[0]}'] = fk.get(f'bytes:{d[0]}', 0) + 1

    def bad(cls, msg):
        res['violations'].append({'class': cls, 'key': f'{cls}:{op["doc"]}', 'msg': f'{hist.brief_op(op)} {op.get("bytes", "")}: {msg}'})

    strict = core.in_child(_quiet_attempt, dict(op, lenient=False), limit, 7, 'scramble', timeout=120)
    again = core.in_child(_quiet_attempt, dict(op, lenient=False), limit, sc['entropy'], sc['mode'], timeout=120)
    both = [('strict', strict, again)]
    if fmt == 'humdrum':
        lenient = core.in_child(_quiet_attempt, dict(op, lenient=True), limit, 7, 'scramble', timeout=120)
        again = core.in_child(_quiet_attempt, dict(op, lenient=True), limit, sc['entropy'], sc['mode'], timeout=120)
        both.append(('lenient', lenient, again))
    for name, a, b in both:
        o = a['out']
        kind = o['kind'] if o['kind'] != 'score' else ('score, error reported' if a.get('perr') else 'score')
        cnt[f'{name}: {kind}'] = cnt.get(f'{name}: {kind}', 0) + 1
        cnt['steps'] = cnt.get('steps', 0) + a['lines']
        res['log'].append([name, kind, o.get('digest') or o.get('text'), a['lines']])
        if o['kind'] == 'hang':
            bad('hang', f'{name} import executed more than {limit} lines of converter21 without ending; last in {o["text"]}')
            return res
        if o['kind'] == 'nothing':
            bad('no-score', f'{name} import returned {o["text"]}')
            return res
        if not ops.same(o, b['out']):
            bad('not-deterministic', f'{name} import of the same data gave {ops.brief(o)} and then {ops.brief(b["out"])}')
            return res
    if fmt == 'humdrum':
        o = lenient['out']
        if o['kind'] == 'err':
            bad('lenient-raised', f'import with acceptSyntaxErrors=True raised {ops.brief(o)}')
        elif not lenient['score']:
            bad('no-score', 'lenient import did not return a Score')
        elif not lenient['parts'] and not lenient['perr']:
            # nothing came out: either it says so, or there was nothing wrong with the data
            # (a structural error that lenient import repairs is not one any more)
            if strict['out']['kind'] == 'err' or strict['parts']:
                bad('silent-loss', f'lenient import returned a score without parts and reported nothing; strict import: {ops.brief(strict["out"])}, parts {strict["parts"]}')
        if not res['violations'] and sc.get('equal') and strict['out']['kind'] == 'score' and not strict['perr'] and not ops.same(o, strict['out']):
            bad('lenient-differs', f'there is no syntax error, but lenient import gives {ops.brief(o)} (reported {lenient["perr"]}) instead of {ops.brief(strict["out"])}')
        if not res['violations'] and sc.get('fault') and lenient['lines'] > 1:
            u, exc = sc['fault']
            k = 1 + int(u * lenient['lines'])
            a = core.in_child(_quiet_attempt, dict(op, lenient=True), limit, 7, 'scramble', [k, exc], timeout=120)
            kind = a['out']['kind'] if a['out']['kind'] != 'score' else ('score, error reported' if a.get('perr') else 'score')
            fk[f'failure inside the converter: {exc}'] = fk.get(f'failure inside the converter: {exc}', 0) + 1
            res['log'].append(['lenient with failure', exc, k, kind])
            at = f'{exc} inside the converter (line {k} of the import, {(a.get("where") or ["?"])[0]})'
            if a['out']['kind'] == 'hang':
                bad('hang', f'after {at} lenient import executed more than {limit} lines of converter21 without ending; last in {a["out"]["text"]}')
            elif a['out']['kind'] == 'err' and exc != 'StopIteration':
                bad('lenient-raised', f'after {at} import with acceptSyntaxErrors=True raised {ops.brief(a["out"])}')
            elif a['out']['kind'] == 'score' and not a['parts'] and lenient['parts'] and not a['perr']:
                bad('silent-loss', f'after {at} lenient import returned a score without parts and reported nothing')
    res['sig'] = core.digest([op, res['log']])
    return res


def _quiet_attempt(*a):
    core.silence()
    return attempt(*a)


class C10(PropBase):
    ID = 'C10'
    RUNS = {'quick': 1200, 'thorough': 60000}
    TECHNIQUE = 'seeded deterministic simulation: stored documents damaged (torn, lost, duplicated, swapped, flipped) before every import, with a step bound and a second run under other hashes'
    LEVEL_NOTE = ('Sampled damage. Oracle: lenient import raises nothing and reports what it gave up on; every import ends within a step bound (30 times the undamaged import plus two million '
                  'executed lines of converter21) and gives the same outcome again in another process with other object hashes.')
    RULE = 'one run = one damaged document, imported strictly and leniently, twice each, and (half of the runs) once more with a failure at a chosen line of converter21; distinct by damage and outcomes'
    STUB = ['the storage medium (the damage)', 'failing allocations and calls inside the converter (raised by sys.monitoring before the chosen line)', 'object hash values and os.urandom (seeded)']
    ASSUMPTIONS = ['damage is applied to the documents of the corpus']

    def gen(self, rng, tier, index):
        names = ops.light(ops.docs('krn', 'mei'))
        if rng.random() < 0.75:
            names = [n for n in names if n.endswith('.krn')]
        op = {'op': 'import', 'doc': rng.choice(names), 'via': rng.choices(['data', 'file', 'm21file'], weights=[5, 3, 1])[0]}
        if index < len(names):
            op['doc'] = names[index]
        fmt = ops.doc_fmt(op['doc'])
        op['damage'] = hist.gen_damage(rng, fmt)
        if rng.random() < 0.15:
            op['damage'] += hist.gen_damage(rng, fmt) + hist.gen_damage(rng, fmt)
        if op['via'] != 'data' and rng.random() < 0.7:
            if rng.random() < 0.6:
                op['damage'] = []
            op['bytes'] = [[rng.choice(['bit', 'bit', 'cut', 'zero', 'lose']), rng.random(), rng.random()] for _ in range(rng.choice([1, 1, 2]))]
        equal = {}
        if index % 9 == 8:                                   # undamaged: lenient import must make no difference
            op['damage'], op['bytes'], equal = [], [], {'equal': True}
        if ops.doc_fmt(op['doc']) == 'humdrum' and rng.random() < 0.5:
            equal['fault'] = [rng.random() if rng.random() < 0.7 else rng.random() ** 4, rng.choice(sorted(INNER))]
        return {**equal, 'op': op, 'entropy': rng.getrandbits(30), 'mode': rng.choice(['scramble', 'up', 'down'])}

    def execute(self, ctx, sc, timeout):
        base = ctx.baseline(attempt, {'op': 'import', 'doc': sc['op']['doc'], 'via': 'data'}, 10 ** 9, timeout=timeout)
        return core.in_child(run, sc, 30 * base['lines'] + 2_000_000, timeout=timeout * 4)

    def shrink(self, sc):
        op = sc['op']
        if sc.get('fault'):
            yield {k: v for k, v in sc.items() if k != 'fault'}
        for k in ('damage', 'bytes'):
            d = op.get(k) or []
            for i in range(len(d)):
                yield dict(sc, op=dict(op, **{k: d[:i] + d[i + 1:]}))
        if op['via'] != 'data' and not op.get('bytes'):
            yield dict(sc, op=dict(op, via='data'))

    def brief(self, sc):
        return f'{hist.brief_op(sc["op"])} {sc["op"].get("bytes", "")}' + (f' failure {sc["fault"]}' if sc.get('fault') else '')


PROP = C10()
