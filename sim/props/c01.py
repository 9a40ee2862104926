"""C01: exporting never changes the caller's score, whatever happens during the export."""
from __future__ import annotations

import copy
import gc
import json
import sys

from .. import core, dump, ops
from ..decor import ALL as DECOR, decorate
from ..driver import PropBase

EXCS = {
    'OSError': lambda: OSError(28, 'No space left on device'),
    'BrokenPipeError': lambda: BrokenPipeError(32, 'Broken pipe'),
    'MemoryError': lambda: MemoryError('simulated'),
    'KeyboardInterrupt': lambda: KeyboardInterrupt('simulated'),
    'ValueError': lambda: ValueError('simulated: I/O operation on closed file'),
    'Music21Exception': None,
}


def make_exc(name):
    if name == 'Music21Exception':
        import music21 as m21
        return m21.exceptions21.Music21Exception('simulated')
    return EXCS[name]()


# ---------------------------------------------------------------------- decorating the input score

def decorated(sc):
    s = ops.make_score(sc['doc'], sc.get('edit'))
    decorate(s, sc.get('decor', ()))
    return ops.observe(s)


def has_hidden_complex_rest(score) -> bool:
    import music21 as m21
    for r in score.recurse().getElementsByClass(m21.note.Rest):
        if r.hasStyleInformation and r.style.hideObjectOnPrint and copy.deepcopy(r.duration).type == 'complex':
            return True
    return False


def subject_of(score, sc):
    obj = ops.make_subject(score, sc['subject'], sc.get('su', 0.0))
    if sc.get('later') and sc['subject'] in ('voice', 'note', 'chord') and obj.activeSite is not None:
        obj.activeSite.setElementOffset(obj, obj.offset + 1.0)
    return obj


# ---------------------------------------------------------------------- dry run (fault-free reference)

class CallFault:
    """Counts music21 calls made by converter21 code; makes the k-th one fail."""

    def __init__(self, sink, k=None, exc=None):
        self.n = 0
        self.k = k
        self.exc = exc
        self.sink = sink
        self.before_write = None
        self.where = None
        self.fired = False

    def on_call(self, code, offset, callable_, arg0):
        if core.is_music21_callable(callable_):
            if self.sink.n == 0 and sys.exception() is None:      # not while the export cleans up after an error
                if self.k is not None and self.n == self.k and not self.fired:
                    self.fired = True
                    self.where = (code.co_qualname, getattr(callable_, '__qualname__', '?'))
                    raise self.exc
                self.n += 1


def dry_all(sc, oplist):
    return [dry_run(sc, op) for op in oplist]


def dry_run(sc, op):
    """The op on a separate, identical score, with nothing injected: document or error, and counts."""
    core.ENTROPY.reseed(0)
    try:
        score = decorated(sc)
    except Exception as e:                                   # noqa: BLE001
        return {'unusable': f'{type(e).__name__}'}
    obj = subject_of(score, sc)
    exempt = has_hidden_complex_rest(score)
    sink = ops.Sink()
    cf = CallFault(sink)
    # a first export fills music21's own lazy caches, so that the counted one is what a second score sees
    with core.Monitor(on_call=cf.on_call):
        try:
            text = ops.export_text(obj, op['fmt'], op['opts'], sink)
            out = ops.outcome_of_doc(op['fmt'], text)
        except Exception as e:                               # noqa: BLE001
            out = ops.outcome_of_exception(e)
    return {'out': out, 'writes': sink.n, 'calls': cf.n, 'exempt': exempt}


# ---------------------------------------------------------------------- the run

def spanned(root):
    """Which spanners each note, rest or chord says it is in."""
    out = []
    own = {id(s) for s in root.recurse().getElementsByClass('Spanner')}
    for n in root.recurse().notesAndRests:
        for x in [n, *getattr(n, 'notes', ())]:
            sp = [s for s in x.getSpannerSites() if id(s) in own or type(s).__module__.startswith('converter21')]     # (music21 may add copies it made)
            if sp:
                out.append(f'spanners of {type(x).__name__} {x.id if isinstance(x.id, str) else "-"} @{id(x)}: {sorted((type(s).__name__, id(s)) for s in sp)}')
    return out


def run(sc, dry):
    import music21 as m21
    core.silence()
    core.ENTROPY.reseed(sc['entropy'])
    gc.disable()
    score = decorated(sc)
    obj = subject_of(score, sc)
    roots = [score] if sc['subject'] not in ('flat', 'opus', 'stream') else [score, obj]

    def snap():
        where = [f'exported object: offset {obj.offset}' + (f', active site @{id(obj.activeSite)}' if placed else '')] if isinstance(obj, m21.base.Music21Object) else []
        return where + [ln for r in roots for ln in dump.score_dump(r, True) + spanned(r)]

    # where the exported object itself is (music21 only sets the active sites of what is inside it)
    placed = isinstance(obj, m21.base.Music21Object) and any(obj.activeSite is x for x in (score, *score.recurse().getElementsByClass(m21.stream.Stream)))

    before = snap()
    res = {'violations': [], 'stats': {'faults': {}, 'counters': {}, 'sets': {}}, 'log': [], 'nontrivial': False}
    fk = res['stats']['faults']
    cnt = res['stats']['counters']
    wheres = res['stats']['sets'].setdefault('fault sites (converter21 function, failing music21 call)', set())
    for n, (op, d) in enumerate(zip(sc['ops'], dry)):
        fault = op.get('fault')
        sink = ops.Sink()
        cf = None
        if fault:
            exc = make_exc(fault['exc'])
            if fault['kind'] == 'sink':
                sink.fail_at = int(fault['u'] * max(1, d['writes']))
                sink.exc = exc
            else:
                cf = CallFault(sink, int(fault['u'] * max(1, d['calls'])), exc)
        try:
            if cf is not None:
                with core.Monitor(on_call=cf.on_call):
                    text = ops.export_text(obj, op['fmt'], op['opts'], sink)
            else:
                text = ops.export_text(obj, op['fmt'], op['opts'], sink)
            out = ops.outcome_of_doc(op['fmt'], text)
        except BaseException as e:                           # noqa: BLE001
            out = ops.outcome_of_exception(e)
            e.__traceback__ = None
        fired = sink.fired or (cf is not None and cf.fired)
        what = 'clean'
        if fired:
            what = f'{fault["kind"]}:{fault["exc"]}'
            fk[what] = fk.get(what, 0) + 1
            if cf is not None:
                wheres.add(cf.where)
        elif out['kind'] == 'err':
            what = 'natural failure'
            fk[what] = fk.get(what, 0) + 1
        cnt['exports'] = cnt.get('exports', 0) + 1
        res['nontrivial'] = True
        after = snap()
        res['log'].append([n, op['fmt'], what, cf.where if cf is not None and cf.fired else sink.fail_at, ops.brief(out), core.digest('\n'.join(
            ln.split(' @')[0] for ln in after))])
        if after != before:
            res['violations'].append({
                'class': 'score-changed', 'key': f'score-changed:{sc["doc"]}:{op["fmt"]}:{what}',
                'msg': f'export {n} of {sc["doc"]} ({sc["subject"]}) to {op["fmt"]} {op["opts"]} [{what}] changed the caller\'s score: '
                       + ' | '.join(x[:160] for x in dump.diff_lines(before, after, 4))})
            break
        if not fired and not ops.same(d['out'], out):
            # an identical score, never exported before, gives something else: a trace of the earlier exports
            res['violations'].append({
                'class': 're-export-differs', 'key': f're-export-differs:{sc["doc"]}:{op["fmt"]}',
                'msg': f'export {n} of {sc["doc"]} ({sc["subject"]}) to {op["fmt"]} {op["opts"]} differs from the first export of an identical score: '
                       f'expected {ops.brief(d["out"])}, got {ops.brief(out)}'})
            break
    res['sig'] = core.digest([sc['doc'], sc['subject'], [x[1:4] for x in res['log']]])
    return res


class C01(PropBase):
    ID = 'C01'
    RUNS = {'quick': 1100, 'thorough': 60000}
    RULE = ('one run = one caller\'s object (a corpus score, optionally decorated with extra spanners/marks, or a part/measure/voice/note/flat stream/opus of it) '
            'exported 2-6 times with random writer options; each export is clean, fails naturally, fails at a chosen write of the output stream, or fails at a chosen '
            'music21 call made by converter21 before the first write; non-trivial = at least one export ran; distinct by (document, subject, per export: format, '
            'fault kind and site)')
    TECHNIQUE = 'seeded deterministic simulation: exports with injected stream, interrupt and library faults, before/after oracle'
    LEVEL_NOTE = ('Sampled: every corpus document is exported in every mode without faults, then seeded fault points. Oracle: an attribute-by-attribute, '
                  'identity-preserving dump of the caller\'s object before and after each export, and equality of later exports with a never-exported twin. '
                  'Trusts the dump to see what a client can see; interrupts inside the clean-up code are not injected.')
    STUB = ['output stream (in-memory text stream that fails on demand)']
    ASSUMPTIONS = ['the interrupt does not strike inside the clean-up code itself',
                   'object attributes that music21 rewrites when a stream is merely read (caches, sites order, active site) are not part of the score']

    def gen(self, rng, tier, index):
        names = ops.docs()
        if index < 2 * len(names):
            doc = names[index % len(names)]
            subject = 'score'
        else:
            pool = ops.light(names) if rng.random() < 0.97 or tier == 'quick' else names
            doc = rng.choice(pool)
            subject = rng.choices(ops.SUBJECTS, weights=[12, 3, 3, 2, 1, 1, 1, 1, 1.5, 1.5])[0]
        sc = {'doc': doc, 'subject': subject, 'su': rng.random(), 'entropy': rng.getrandbits(32),
              'decor': [[rng.choice(DECOR), rng.random(), rng.random()] for _ in range(rng.choice([0, 0, 1, 2, 4, 7]))]}
        if index < 2 * len(names):
            sc['decor'] = sc['decor'] if index >= len(names) else []
        if subject in ('voice', 'note', 'chord') and rng.random() < 0.5:
            sc['later'] = True
        heavy = doc.startswith(ops.HEAVY)
        nops = 4 if index < 2 * len(names) and not heavy else rng.randint(1 if heavy else 2, 2 if heavy else 5)
        sc['ops'] = []
        for k in range(nops):
            fmt = rng.choice(['humdrum', 'mei', 'mei'])
            if index < 2 * len(names):
                fmt = ['humdrum', 'mei'][k % 2]
            opts = ops.gen_opts(rng, fmt, subject, direct=True)
            if index < 2 * len(names):
                opts['makeNotation'] = k >= 2
            op = {'fmt': fmt, 'opts': opts}
            r = rng.random()
            if index < len(names):
                r = 1.0
            if r < 0.2:
                op['fault'] = {'kind': 'sink', 'u': rng.random(), 'exc': rng.choice(['OSError', 'BrokenPipeError', 'MemoryError', 'KeyboardInterrupt', 'ValueError'])}
            elif r < 0.62:
                op['fault'] = {'kind': 'call', 'u': rng.random(), 'exc': rng.choice(['Music21Exception', 'MemoryError', 'KeyboardInterrupt'])}
            sc['ops'].append(op)
        return sc

    def execute(self, ctx, sc, timeout):
        key = {k: sc.get(k) for k in ('doc', 'edit', 'subject', 'su', 'decor', 'later')}
        dry = ctx.baseline(dry_all, key, [{'fmt': op['fmt'], 'opts': op['opts']} for op in sc['ops']], timeout=timeout)
        if any('unusable' in d for d in dry):
            return {'violations': [], 'stats': {'counters': {'document does not parse': 1}}, 'sig': None, 'nontrivial': False}
        keep = [i for i, (op, d) in enumerate(zip(sc['ops'], dry)) if not (d['exempt'] and op['fmt'] == 'humdrum' and not op['opts'].get('makeNotation'))]
        sc2 = dict(sc, ops=[sc['ops'][i] for i in keep])
        return core.in_child(run, sc2, [dry[i] for i in keep], timeout=timeout)

    def shrink(self, sc):
        o = sc['ops']
        for i in range(len(o)):
            if len(o) > 1:
                yield dict(sc, ops=o[:i] + o[i + 1:])
        for i in range(len(sc.get('decor', ()))):
            yield dict(sc, decor=sc['decor'][:i] + sc['decor'][i + 1:])
        for i, op in enumerate(o):
            if op.get('fault'):
                yield dict(sc, ops=o[:i] + [{k: v for k, v in op.items() if k != 'fault'}] + o[i + 1:])
            plain = {'makeNotation': op['opts'].get('makeNotation', True)}
            if op['opts'] != plain:
                yield dict(sc, ops=o[:i] + [dict(op, opts=plain)] + o[i + 1:])

    def brief(self, sc):
        return f'{sc["doc"]} {sc["subject"]} decor={[d[0] for d in sc.get("decor", ())]} ' + ', '.join(
            f'{o["fmt"]}{json.dumps(o["opts"])}' + (f' fault={o["fault"]["kind"]}:{o["fault"]["exc"]}@{o["fault"]["u"]:.4f}' if o.get('fault') else '')
            for o in sc['ops'])


PROP = C01()
