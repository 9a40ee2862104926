"""C09: register() leaves exactly the requested converters installed, whatever the history."""
from __future__ import annotations

import os
import threading
from pathlib import Path

from .. import core, hist, ops, sched
from ..driver import PropBase

OURS = {'H': ('converter21.HumdrumConverter', 'humdrum', ('krn', 'kern')),
        'M': ('converter21.MEIConverter', 'mei', ('mei',))}
THEIRS = {'H': 'ConverterHumdrum', 'M': 'ConverterMEI'}
NEW_ALIASES = {'augmented-ninth': 'augmented-dominant-ninth', 'minor-major': 'minor-major-seventh'}

PRISTINE: dict = {}         # what music21 is like before converter21 is imported
CUSTOM: dict = {}


def cname(c):
    m = c.__module__
    return f'{m.split(".")[0]}.{c.__name__}'


def snapshot():
    import music21 as m21
    PRISTINE['defaults'] = [(cname(c), tuple(f.lower() for f in c.registerFormats or ()), tuple(c.registerInputExtensions or ()),
                             tuple(c.registerOutputExtensions or ())) for c in m21.converter.Converter.defaultSubConverters()]
    PRISTINE['aliases'] = dict(m21.harmony.CHORD_ALIASES)
    PRISTINE['abbr'] = {k: [v[0], list(v[1])] for k, v in m21.harmony.CHORD_TYPES.items()}


def make_custom():
    import music21 as m21
    base = m21.converter.subConverters.SubConverter

    def mk(name, fmt, exts):
        def parseData(self, dataString, number=None, **kw):
            self.stream = m21.stream.Score(id=name)
            return self.stream

        def write(self, obj, fmt, fp=None, **kw):
            return Path('/custom') / name
        return type(name, (base,), {'registerFormats': (fmt,), 'registerInputExtensions': exts, 'registerOutputExtensions': exts,
                                    'parseData': parseData, 'write': write, '__module__': 'client'})
    CUSTOM['sonix'] = mk('Sonix', 'sonix', ('mus',))
    CUSTOM['xml'] = mk('MyXML', 'musicxml', ('myxml',))
    CUSTOM['hum'] = mk('MyHumdrum', 'humdrum', ('myhum', 'krn'))
    CUSTOM['mei'] = mk('MyMEI', 'mei', ('mei',))


class Model:
    """music21's registry rule: what was registered last comes first, then music21's own converters."""

    def __init__(self):
        self.front: list = []           # names
        self.removed: set = set()
        self.all_removed = False
        self.unknown: set = set()       # 'H'/'M' whose handler is not determined (interrupted, or unregistered by the client)
        self.aliases = dict(PRISTINE['aliases'])
        self.registered = False
        self.some_aliases = False

    def reset(self):
        self.front, self.removed, self.all_removed, self.unknown = [], set(), False, set()

    def register(self, which):
        for w in which:
            n = OURS[w][0]
            if n in self.front:
                self.front.remove(n)
            self.front.insert(0, n)
            self.removed.add(f'music21.{THEIRS[w]}')
            self.unknown.discard(w)
        for k, v in NEW_ALIASES.items():
            self.aliases.setdefault(k, v)
        self.registered = True

    def handler(self, fmt):
        for n in self.front:
            if fmt in FORMATS_OF[n]:
                return n
        if self.all_removed:
            return None
        for n, fmts, _i, _o in PRISTINE['defaults']:
            if n not in self.removed and fmt in fmts:
                return n
        return None


FORMATS_OF = {v[0]: (v[1],) for v in OURS.values()}
FORMATS_OF.update({'client.Sonix': ('sonix',), 'client.MyXML': ('musicxml',), 'client.MyHumdrum': ('humdrum',), 'client.MyMEI': ('mei',)})


def names_of(which):
    import converter21
    return [{'H': converter21.ConverterName.HUMDRUM, 'M': converter21.ConverterName.MEI}[w] for w in which]


def check(model, bad, when):
    import music21 as m21
    C = m21.converter.Converter
    got = {f: cname(c) for f, c in C.getSubConverterFormats().items()}
    fmts = {f for _n, fs, _i, _o in PRISTINE['defaults'] for f in fs} | set(got) | {'humdrum', 'mei', 'sonix'}
    skip = {OURS[w][1] for w in model.unknown}
    for f in sorted(fmts - skip):
        want = model.handler(f)
        if got.get(f) != want:
            bad('handler', f'{when}: format {f} is handled by {got.get(f)}, expected {want}')
            return
        if want is None:
            continue
        if cname(type(C.getSubConverterFromFormat(f))) != want:
            bad('handler', f'{when}: getSubConverterFromFormat({f}) gives {type(C.getSubConverterFromFormat(f))}')
    for w, (n, f, exts) in OURS.items():
        if w in model.unknown or model.handler(f) != n:
            continue
        for e in exts:
            if any(c.startswith('client.') for c in model.front):
                continue
            ff = C().getFormatFromFileExtension(Path('x.' + e))
            if ff != f:
                bad('extension', f'{when}: file extension {e} is taken for {ff}')
        for kind in ('input', 'output'):
            if n not in [cname(c) for c in C.subConvertersList(kind)]:
                bad('direction', f'{when}: {n} is not listed for {kind}')
    ours = {v[0] for v in OURS.values()}
    lst = [cname(c) for c in C.subConvertersList() if cname(c) not in ours]
    extra = {f'music21.{THEIRS[w]}' for w in model.unknown}
    want = [n for n in model.front if n not in ours]
    if not model.all_removed:
        want += [d[0] for d in PRISTINE['defaults'] if d[0] not in model.removed]
    if [x for x in lst if x not in extra] != [x for x in want if x not in extra]:
        bad('others', f'{when}: the other converters are now {lst}, expected {want}')
    for d in C.defaultSubConverters():
        row = (cname(d), tuple(f.lower() for f in d.registerFormats or ()), tuple(d.registerInputExtensions or ()), tuple(d.registerOutputExtensions or ()))
        if row not in PRISTINE['defaults']:
            bad('others', f'{when}: music21 converter changed: {row}')
    al = dict(m21.harmony.CHORD_ALIASES)
    if al != model.aliases:
        full = {**NEW_ALIASES, **model.aliases}              # interrupted: what was going to be added may be there or not
        if not (model.some_aliases and model.aliases.items() <= al.items() <= full.items()):
            bad('aliases', f'{when}: CHORD_ALIASES is {set(al.items()) ^ set(model.aliases.items())} away from what was expected')
    if {k: [v[0], list(v[1])] for k, v in m21.harmony.CHORD_TYPES.items()} != PRISTINE['abbr']:
        bad('others', f'{when}: music21.harmony.CHORD_TYPES changed')


def m21_import(doc):
    import music21 as m21
    fmt = ops.doc_fmt(doc)
    return m21.converter.parseData(ops.doc_text(doc), format=fmt)


def convert(doc, fmt):
    """Through music21: the handlers in force decide.  -> (import outcome, export outcome)"""
    try:
        s = m21_import(doc)
    except Exception as e:                                   # noqa: BLE001
        return ops.outcome_of_exception(e), None
    sid = s.id
    out = ops.outcome_of_score(s)
    out['id'] = sid
    path = os.path.join(os.environ['VERIF_SCRATCH'], f'c09.{os.getpid()}.{threading.get_ident()}.{ops.EXT[fmt]}')
    try:
        core.ENTROPY.reseed(7)
        p = s.write(fmt, fp=path)
        if str(p).startswith('/custom'):
            return out, {'kind': 'custom', 'text': str(p)}
        with open(p, encoding='utf-8') as f:
            return out, ops.outcome_of_doc(fmt, f.read())
    except Exception as e:                                   # noqa: BLE001
        o = ops.outcome_of_exception(e)
        o['text'] = str(o.get('text')).replace(path, 'PATH')
        return out, o
    finally:
        if os.path.exists(path):
            os.remove(path)


def reference(doc, fmt):
    """The same conversion in a fresh process, by converter21's own converters."""
    import converter21
    core.silence()
    converter21.register()
    core.ENTROPY.reseed(7)
    return convert(doc, fmt)


def check_conversion(model, doc, fmt, got, ref, bad, when, concurrent=False):
    imp, exp = got
    f = ops.doc_fmt(doc)
    w = {'humdrum': 'H', 'mei': 'M'}
    if w.get(f) in model.unknown:
        return
    h = model.handler(f)
    if h is None:
        if imp['kind'] != 'err':
            bad('conversion', f'{when}: importing {doc} worked although no converter is registered')
        return
    if h.startswith('client.'):
        if imp.get('id') != h.split('.')[1]:
            bad('conversion', f'{when}: importing {doc} did not go to the client\'s converter {h}: {ops.brief(imp)}')
        return
    if f in w and h.startswith('music21.'):
        return                                               # music21's own reader: not our business
    if not ops.same(ref[0], imp):
        bad('conversion', f'{when}: importing {doc}: {ops.explain(ref[0], imp)}')
        return
    if w.get(fmt) in model.unknown or exp is None:
        return
    h = model.handler(fmt)
    if h is None:
        if exp['kind'] != 'err':
            bad('conversion', f'{when}: exporting {doc} to {fmt} worked although no converter is registered')
    elif h.startswith('music21.') and fmt in w:
        if exp['kind'] != 'err' and ops.same(ref[1], exp):
            bad('conversion', f'{when}: exporting {doc} to {fmt} was done by converter21 although handled by {h}')
    elif h.startswith('client.'):
        if exp['kind'] != 'custom':
            bad('conversion', f'{when}: exporting {doc} to {fmt} did not go to {h}')
    elif not ops.same(ref[1], exp):
        bad('conversion', f'{when}: exporting {doc} to {fmt}: {ops.explain(ref[1], exp)}')


def run(sc, refs):
    import converter21
    import music21 as m21
    core.silence()
    res = {'violations': [], 'stats': {'faults': {}, 'counters': {}, 'sets': {}}, 'log': [], 'nontrivial': True}
    fk, cnt = res['stats']['faults'], res['stats']['counters']
    model = Model()

    def bad(cls, msg):
        if not res['violations']:
            res['violations'].append({'class': cls, 'key': f'{cls}', 'msg': msg})

    check(model, bad, 'after import converter21')
    for n, st in enumerate(sc['steps']):
        k = st['k']
        when = f'after step {n} ({brief_step(st)})'
        note = ''
        if k == 'register':
            which = st['which'] or ['H', 'M']
            if st.get('fault') is not None:
                lf = hist.LineFault(st['fault'], KeyboardInterrupt('simulated'))
                hit = False
                try:
                    with core.Monitor(on_line=lf.on_line):
                        converter21.register(*names_of(st['which']))
                except KeyboardInterrupt:
                    hit = True
                if hit:
                    fk['interrupt'] = fk.get('interrupt', 0) + 1
                    # formats converter21 already handled are allowed to be in doubt too: the call did not return
                    model.unknown |= set(which)
                    model.some_aliases = True
                    note = 'interrupted'
                elif lf.where is not None:
                    bad('swallowed', f'{when}: the interrupt at {lf.where} was swallowed')
                else:
                    model.register(which)
                    model.some_aliases = False
                if hit:
                    # whatever was registered or removed on the way, the client's view of the other formats stays
                    for w in which:
                        nm = OURS[w][0]
                        if nm in model.front:
                            model.front.remove(nm)
            else:
                converter21.register(*names_of(st['which']))
                model.register(which)
                model.some_aliases = False
        elif k == 'reset':
            m21.converter.resetSubConverters()
            model.reset()
        elif k == 'unregister all':
            m21.converter.unregisterSubConverter('all')
            model.reset()
            model.all_removed = True
        elif k == 'unregister theirs':
            c = getattr(m21.converter.subConverters, THEIRS[st['w']])
            m21.converter.unregisterSubConverter(c)
            model.removed.add(cname(c))
        elif k == 'unregister ours':
            c = {'H': converter21.HumdrumConverter, 'M': converter21.MEIConverter}[st['w']]
            try:
                m21.converter.unregisterSubConverter(c)
                model.unknown.add(st['w'])
                if cname(c) in model.front:
                    model.front.remove(cname(c))
            except m21.converter.ConverterException:
                if cname(c) in model.front:
                    bad('handler', f'{when}: {cname(c)} was not registered')
        elif k == 'client':
            c = CUSTOM[st['c']]
            m21.converter.registerSubConverter(c)
            model.front.insert(0, cname(c))
            model.unknown -= {w for w in OURS if OURS[w][1] in FORMATS_OF[cname(c)]}
        elif k == 'client off':
            c = CUSTOM[st['c']]
            if cname(c) in model.front:
                m21.converter.unregisterSubConverter(c)
                model.front.remove(cname(c))
                # an unknown that the client's converter had hidden is back
                if len(model.front) != len(set(model.front)):
                    pass
                for w in OURS:
                    if OURS[w][1] in FORMATS_OF[cname(c)] and OURS[w][0] not in model.front and not any(OURS[w][1] in FORMATS_OF[x] for x in model.front):
                        model.unknown.add(w)
        elif k == 'alias':
            m21.harmony.CHORD_ALIASES[st['name']] = st['value']
            model.aliases[st['name']] = st['value']
        elif k == 'convert':
            core.ENTROPY.reseed(7)
            got = convert(st['doc'], st['fmt'])
            cnt['conversions'] = cnt.get('conversions', 0) + 1
            check_conversion(model, st['doc'], st['fmt'], got, refs[f'{st["doc"]}>{st["fmt"]}'], bad, when)
            note = [o and (o.get('digest') or o.get('text')) for o in got]
        elif k == 'threads':
            note = threads(st, model, refs, bad, when, cnt, fk)
        else:
            raise core.HarnessError(k)
        cnt['steps'] = cnt.get('steps', 0) + 1
        check(model, bad, when)
        res['log'].append([brief_step(st), note])
        if res['violations']:
            break
    res['sig'] = core.digest([res['log']])
    return res


def threads(st, model, refs, bad, when, cnt, fk):
    """Several threads call register() at once, while others convert formats converter21 already handles."""
    import converter21
    outs = {}
    core.ENTROPY.reseed(7)

    def body(t, work):
        def go():
            for n, w in enumerate(work):
                if w['k'] == 'register':
                    converter21.register(*names_of(w['which']))
                else:
                    outs[t, n] = convert(w['doc'], w['fmt'])
            return True
        return go
    threading.stack_size(64 << 20)
    s = sched.Scheduler([body(t, w) for t, w in enumerate(st['work'])], st['sched'])
    before = Model()
    before.__dict__.update({k: (v.copy() if hasattr(v, 'copy') else v) for k, v in model.__dict__.items()})
    # while others register, only what converter21 handled before and after is determined
    touched = set()
    for w in st['work']:
        for x in w:
            if x['k'] == 'register':
                touched |= set(x['which'] or ['H', 'M'])
    for w in touched:
        if before.handler(OURS[w][1]) != OURS[w][0]:
            before.unknown.add(w)
    results = s.run()
    cnt['thread switches'] = cnt.get('thread switches', 0) + len(s.switches)
    fk[f'schedule:{st["sched"]["mode"]}'] = fk.get(f'schedule:{st["sched"]["mode"]}', 0) + 1
    for t, r in enumerate(results):
        if r is None or r[0] != 'ok':
            if r and 'HarnessError' in str(r):
                raise core.HarnessError(r)
            bad('thread', f'{when}: thread {t} failed: {r}')
    for (t, n), got in sorted(outs.items()):
        w = st['work'][t][n]
        cnt['conversions'] = cnt.get('conversions', 0) + 1
        check_conversion(before, w['doc'], w['fmt'], got, refs[f'{w["doc"]}>{w["fmt"]}'], bad, f'{when}, thread {t}', True)
    order = sorted(touched)
    if order:
        model.register(order)
        model.some_aliases = False
    return [len(s.switches), [[*k, [o and (o.get('digest') or o.get('text')) for o in v]] for k, v in sorted(outs.items())]]


def brief_step(st):
    k = st['k']
    if k == 'register':
        return f'register({",".join(st["which"])})' + (f' interrupted at line {st["fault"]}' if st.get('fault') is not None else '')
    if k == 'threads':
        return 'threads ' + ' || '.join('; '.join(brief_step(w) for w in t) for t in st['work']) + f' {st["sched"]}'
    return ' '.join(str(v) for v in st.values())


WHICH = [[], [], ['H'], ['M'], ['H', 'M'], ['M', 'H'], ['H', 'H']]


class C09(PropBase):
    ID = 'C09'
    REGISTER = False
    RUNS = {'quick': 900, 'thorough': 40000}
    TECHNIQUE = 'seeded deterministic simulation: random histories of registration calls, interrupts and thread schedules against a small reference model of the registry'
    LEVEL_NOTE = ('Sampled histories of 2-9 steps. Oracle: a reference model of music21\'s registry (last registered first); real conversions through music21 compared with converter21 alone in a fresh process.')
    RULE = 'one run = one history, checked after every step; distinct by steps and results'
    STUB = ['thread scheduler and threading.Lock/RLock', 'arrival of interrupts', 'object hash values and os.urandom (seeded)']
    ASSUMPTIONS = ['after an interrupted register() or when a client unregisters one of converter21\'s classes itself, the handler of those formats is undetermined until the next register() or reset']

    def pre_boot(self):
        sched.install()
        snapshot()
        make_custom()

    def prepare(self, ctx, seed, tier):
        hist.write_docs()
        self.docs = {f: [n for n in ops.light(ops.docs()) if ops.doc_fmt(n) == f and len(ops.doc_bytes(n)) < 12000] for f in ('humdrum', 'mei', 'musicxml')}

    def gen_conv(self, rng):
        f = rng.choice(['humdrum', 'mei', 'humdrum', 'mei', 'musicxml'])
        return {'k': 'convert', 'doc': rng.choice(self.docs[f][:40]), 'fmt': rng.choice(['humdrum', 'mei'])}

    def gen(self, rng, tier, index):
        steps = []
        for _ in range(rng.randint(2, 9)):
            k = rng.choices(['register', 'interrupted', 'reset', 'unregister all', 'unregister theirs', 'unregister ours', 'client', 'client off', 'alias', 'convert', 'threads'],
                            weights=[8, 3, 2, 1, 1, 1, 2, 1, 1, 4, 3])[0]
            if k == 'register':
                steps.append({'k': k, 'which': rng.choice(WHICH)})
            elif k == 'interrupted':
                w = rng.choice(WHICH)
                steps.append({'k': 'register', 'which': w, 'fault': rng.randrange(16)})
                if rng.random() < 0.7:
                    steps.append({'k': 'register', 'which': w})
            elif k in ('unregister theirs', 'unregister ours'):
                steps.append({'k': k, 'w': rng.choice('HM')})
            elif k in ('client', 'client off'):
                steps.append({'k': k, 'c': rng.choice(sorted(CUSTOM))})
            elif k == 'alias':
                steps.append({'k': k, 'name': rng.choice(['augmented-ninth', 'minor-major', 'my-chord']), 'value': rng.choice(['minor-seventh', 'augmented-dominant-ninth'])})
            elif k == 'convert':
                steps.append(self.gen_conv(rng))
            elif k == 'threads':
                work = []
                for _t in range(rng.choice([2, 2, 3])):
                    work.append([{'k': 'register', 'which': rng.choice(WHICH)} if rng.random() < 0.8 else self.gen_conv(rng) for _ in range(rng.choice([1, 2]))])
                steps.append({'k': k, 'work': work, 'sched': {'mode': 'dense', 'gap': rng.choice([1, 1, 2, 4]), 'seed': rng.getrandbits(32)}})
            else:
                steps.append({'k': k})
        return {'steps': steps}

    def execute(self, ctx, sc, timeout):
        refs = {}
        for st in sc['steps']:
            for c in [st] + [w for t in st.get('work', ()) for w in t]:
                if c['k'] == 'convert':
                    refs[f'{c["doc"]}>{c["fmt"]}'] = ctx.baseline(reference, c['doc'], c['fmt'], timeout=timeout)
        return core.in_child(run, sc, refs, timeout=timeout)

    def shrink(self, sc):
        s = sc['steps']
        for i in range(len(s)):
            yield dict(sc, steps=s[:i] + s[i + 1:])
        for i, st in enumerate(s):
            if st['k'] == 'threads':
                for t in range(len(st['work'])):
                    if len(st['work']) > 1:
                        yield dict(sc, steps=s[:i] + [dict(st, work=st['work'][:t] + st['work'][t + 1:])] + s[i + 1:])

    def brief(self, sc):
        return '; '.join(brief_step(s) for s in sc['steps'])


PROP = C09()
