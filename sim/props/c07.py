"""C07: freezing and thawing a score loses nothing and never fakes a score."""
from __future__ import annotations

import base64
import gc
import os
import resource
import sys

from .. import core, dump, hist, ops, zygote
from ..driver import PropBase


class SimInterrupt(KeyboardInterrupt):
    pass


def load(doc, edit=None, decor=()):
    from ..decor import decorate
    core.ENTROPY.reseed(7)
    s = ops.make_score(doc, edit)
    if decor:
        decorate(s, decor)
    return s


def content(s):
    # whether a stream is kept sorted is music21's business; what order it is in is content
    out = [x for x in dump.score_dump(s) if '.autoSort = ' not in x]
    # what belongs to an object belongs to that object and no other (or to nothing, in which case later work on it fails)
    for i, e in enumerate([s, *s.recurse()]):
        if e.isStream:
            out.append(f'{i}.streamStatus belongs to it = {e.streamStatus.client is e}')
        if 'Spanner' in e.classSet:
            out.append(f'{i}.spannerStorage belongs to it = {e.spannerStorage.client is e}')
    return out


def damage_bytes(b: bytes, d) -> bytes:
    kind, u, v = d
    n = len(b)
    i = min(n - 1, int(u * n)) if n else 0
    if kind == 'truncate':
        return b[:i]
    if kind == 'cuttail':
        return b[:max(0, n - 1 - int(v * 12))]
    if kind == 'flip':
        return b[:i] + bytes([b[i] ^ (1 << int(v * 8))]) + b[i + 1:]
    if kind == 'lose':
        return b[:i] + b[i + 1 + int(v * 400):]
    if kind == 'zero':
        j = min(n, i + 1 + int(v * 400))
        return b[:i] + bytes(j - i) + b[j:]
    if kind == 'swapblocks':
        j = min(n - 1, int(v * n))
        i, j = sorted((i, j))
        w = min(64, (n - j))
        if j - i < w or b[i:i + w] == b[j:j + w]:
            return b[:i]
        return b[:i] + b[j:j + w] + b[i + w:j] + b[i:i + w] + b[j + w:]
    if kind == 'empty':
        return b''
    if kind == 'dup':
        return b[:i] + b
    raise core.HarnessError(kind)


def thaw_elsewhere(blob64, as_str, zip_type):
    """In another process: thaw; returns the dump of what it got."""
    core.silence()
    core.ENTROPY.reseed(11, 'down')
    b = base64.b64decode(blob64)
    from converter21 import StreamThawer
    t = StreamThawer()
    try:
        t.open(b.decode('utf-8') if as_str else b, zipType=zip_type)
    except Exception as e:                                   # noqa: BLE001
        return {'err': f'{type(e).__name__}: {e}'}
    if t.stream is None:
        return {'none': True}
    return {'dump': content(t.stream)}


def run(sc):
    core.silence()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))     # a damaged length field must not take the machine down
    gc.disable()
    from converter21 import StreamFreezer, StreamThawer
    res = {'violations': [], 'stats': {'faults': {}, 'counters': {'freezes': 0, 'thaws': 0}, 'sets': {}}, 'log': [], 'nontrivial': False}
    fk, cnt = res['stats']['faults'], res['stats']['counters']
    subs, dumps, idumps, keep = [], [], [], []
    for d in sc['docs']:
        try:
            s = load(d['doc'], d.get('edit'), d.get('decor', ()))
        except Exception as e:                               # noqa: BLE001
            res['log'].append(['cannot be imported', d['doc'], type(e).__name__])
            res['sig'] = None
            return res
        keep.append(s)
        sub = ops.make_subject(s, d['subject'], d.get('su', 0.0))
        dump.settle(sub)
        subs.append(sub)
        dumps.append(content(sub))
        idumps.append(dump.score_dump(sub, True))
    freezers, thawers, blobs = {}, {}, []
    thawed = []                                              # [score, its dump], as handed out and not changed since
    exports = {}

    def bad(cls, n, st, msg):
        res['violations'].append({'class': cls, 'key': f'{cls}:{sc["docs"][st.get("d", 0)]["doc"] if "d" in st else "-"}', 'msg': f'step {n} {st}: {msg}'})

    def unchanged(n, st):
        for i, s in enumerate(subs):
            now = dump.score_dump(s, True)
            if now != idumps[i]:
                bad('original-changed', n, st, f'the score being frozen changed ({sc["docs"][i]["doc"]}): ' + ' | '.join(dump.diff_lines(idumps[i], now, 4)))
                return False
        return True

    for n, st in enumerate(sc['steps']):
        if res['violations']:
            break
        core.ENTROPY.reseed(100 + n)
        if st['op'] == 'freeze':
            cnt['freezes'] += 1
            src = subs[st['d']] if st.get('t') is None else thawers.get(st['t'], [None, None])[1]
            di = st['d'] if st.get('t') is None else (thawers[st['t']][2] if st.get('t') in thawers else None)
            if src is None or di is None:
                res['log'].append([n, 'skipped'])
                continue
            fault = st.get('fault')
            lf = hist.LineFault(int(fault['k']), SimInterrupt('simulated') if fault['exc'] == 'interrupt' else MemoryError('simulated')) if fault else None
            blob = None
            try:
                if lf:
                    with core.Monitor(on_line=lf.on_line):
                        fz = StreamFreezer(src)
                        blob = fz.write(fmt=st['fmt'], zipType=st['zip'])
                elif st.get('reuse') and (st['d'], st.get('t')) in freezers:
                    fz = freezers[(st['d'], st.get('t'))]
                    blob = fz.write(fmt=st['fmt'], zipType=st['zip'])
                else:
                    fz = StreamFreezer(src)
                    freezers[(st['d'], st.get('t'))] = fz
                    blob = fz.write(fmt=st['fmt'], zipType=st['zip'])
            except SimInterrupt:
                pass
            except Exception as e:                           # noqa: BLE001
                if lf is None or lf.where is None:
                    res['log'].append([n, 'freeze failed', type(e).__name__, str(e)[:80]])
                    blob = None
            if lf and lf.where:
                fk[f'freeze {fault["exc"]}'] = fk.get(f'freeze {fault["exc"]}', 0) + 1
                blob = None
            blobs.append((blob, di, st['fmt'], st['zip'], dumps[di]) if blob else None)
            res['log'].append([n, 'freeze', bool(blob)])
            if not unchanged(n, st):
                break
        elif st['op'] == 'thaw':
            b = blobs[st['b']] if st['b'] < len(blobs) else None
            if b is None:
                res['log'].append([n, 'skipped'])
                continue
            blob, di, fmt, zt, want = b
            cnt['thaws'] += 1
            as_str = isinstance(blob, str)
            raw = blob.encode('utf-8') if as_str else blob
            whole = raw
            dmg = st.get('damage')
            if dmg:
                if zt is None and dmg[0] not in ('truncate', 'cuttail', 'empty'):
                    dmg = ['truncate', dmg[1], dmg[2]]       # bytes changed in an unprotected format cannot be recognised
                raw = damage_bytes(raw, dmg)
                if raw != whole:
                    fk[f'stored data: {dmg[0]}'] = fk.get(f'stored data: {dmg[0]}', 0) + 1
            zip_arg = zt if not st.get('wrongzip') else (None if zt else 'zlib')
            if st.get('wrongzip'):
                fk['wrong zipType'] = fk.get('wrong zipType', 0) + 1
            good = raw == whole and not st.get('wrongzip')
            res['nontrivial'] = True
            where = st.get('where', 'same')
            if as_str:
                try:
                    data = raw.decode('utf-8')
                except UnicodeDecodeError:
                    data = raw
            else:
                data = raw
            got = err = None
            if where == 'same':
                th = thawers.get(st['t'], [None])[0] if st.get('reuse') else None
                if th is None:
                    th = StreamThawer()
                prev = th.stream
                fault = st.get('fault')
                lf = hist.LineFault(int(fault['k']), SimInterrupt('simulated') if fault['exc'] == 'interrupt' else MemoryError('simulated')) if fault else None
                thawers.pop(st['t'], None)
                try:
                    if lf:
                        with core.Monitor(on_line=lf.on_line):
                            th.open(data, zipType=zip_arg)
                    else:
                        th.open(data, zipType=zip_arg)
                except SimInterrupt as e:
                    err = e
                except Exception as e:                       # noqa: BLE001
                    err = e
                if lf and lf.where:
                    fk[f'thaw {fault["exc"]}'] = fk.get(f'thaw {fault["exc"]}', 0) + 1
                    good = False
                if err is None and th.stream is not None:
                    if th.stream is prev:
                        bad('stale-score', n, st, 'the thawer still holds the previously thawed score')
                        break
                    keep.append(th.stream)
                    got = content(th.stream)
                    thawed.append([th.stream, got])
                thawers[st['t']] = [th, th.stream if err is None and want is dumps[di] else None, di]
            else:
                r = {'err': '?'}
                args = (base64.b64encode(data.encode() if isinstance(data, str) else data).decode(), isinstance(data, str), zip_arg)
                if where == 'fresh':
                    r = core.in_child(thaw_elsewhere, *args)
                else:
                    r = zygote.call(sc['env'], 'sim.props.c07:thaw_elsewhere', *args)
                fk['thawed in another process'] = fk.get('thawed in another process', 0) + 1
                err = r.get('err')
                got = r.get('dump')
            res['log'].append([n, 'thaw', where, 'err' if err is not None else 'none' if got is None else core.digest('\n'.join(got)), good])
            if good:
                if err is not None:
                    bad('cannot-thaw', n, st, f'thawing undamaged {fmt} data (zip {zt}) of {sc["docs"][di]["doc"]} failed: {type(err).__name__ if not isinstance(err, str) else ""} {err}')
                elif got is None:
                    bad('cannot-thaw', n, st, f'thawing undamaged {fmt} data (zip {zt}) of {sc["docs"][di]["doc"]} gave no stream')
                elif got != want:
                    bad('content-lost', n, st, f'{sc["docs"][di]["doc"]} frozen as {fmt} (zip {zt}) and thawed differs: ' + ' | '.join(dump.diff_lines(want, got, 5)))
            elif got is not None and got != want:
                bad('fake-score', n, st, f'damaged data ({dmg}) thawed without an error to something else than the original: ' + ' | '.join(dump.diff_lines(want, got, 4)))
        elif st['op'] == 'touch':
            # a client goes on working with one of the scores: the others are not affected
            from ..decor import touch
            if 't' in st:
                t = thawers.get(st['t'])
                if not t or t[1] is None:
                    res['log'].append([n, 'skipped'])
                    continue
                touch(t[1], st['what'])
                thawed[:] = [x for x in thawed if x[0] is not t[1]]
                t[1] = None
                if not unchanged(n, st):
                    break
            else:
                di = st['d']
                touch(subs[di], st['what'])
                dump.settle(subs[di])
                for i, x in enumerate(subs):
                    if x is subs[di] or sc['docs'][i]['doc'] == sc['docs'][di]['doc']:
                        dumps[i], idumps[i] = content(x), dump.score_dump(x, True)
                for k in [k for k in freezers if k[1] is None]:
                    del freezers[k]
                exports.clear()
                for t in thawers.values():
                    t[1] = None if t[2] == di else t[1]
            for x, was in thawed[-3:]:
                now = content(x)
                if now != was:
                    bad('shared', n, st, 'a score thawed earlier changed with it: ' + ' | '.join(dump.diff_lines(was, now, 4)))
                    break
            res['log'].append([n, 'touch'])
        elif st['op'] == 'export':
            t = thawers.get(st['t'])
            if not t or t[1] is None or sc['docs'][t[2]]['subject'] == 'part':   # a part takes its metadata from the score around it
                res['log'].append([n, 'skipped'])
                continue
            di = t[2]
            key = (di, st['fmt'])
            if key not in exports:
                core.ENTROPY.reseed(5)
                try:
                    exports[key] = dump.canon_doc(st['fmt'], ops.export_text(subs[di], st['fmt'], {'makeNotation': True}))
                except Exception as e:                       # noqa: BLE001
                    exports[key] = f'{type(e).__name__}'
                idumps[di] = dump.score_dump(subs[di], True)
            core.ENTROPY.reseed(5)
            try:
                doc = dump.canon_doc(st['fmt'], ops.export_text(t[1], st['fmt'], {'makeNotation': True}))
            except Exception as e:                           # noqa: BLE001
                doc = f'{type(e).__name__}'
            for x in thawed:
                if x[0] is t[1]:
                    x[1] = content(x[0])
            res['log'].append([n, 'export', core.digest(doc)])
            if doc != exports[key]:
                bad('exports-differently', n, st, f'{sc["docs"][di]["doc"]}: the thawed score exports differently: '
                    + ' | '.join(dump.diff_lines(exports[key].split('\n'), doc.split('\n'), 4)))
    if not res['violations']:
        unchanged(len(sc['steps']), {'op': 'end'})
    res['sig'] = core.digest([sc['docs'], res['log']])
    return res


class C07(PropBase):
    ID = 'C07'
    RUNS = {'quick': 1500, 'thorough': 60000}
    TECHNIQUE = 'seeded deterministic simulation: freeze/thaw histories with reused objects, interrupts, damaged or truncated stored bytes and other processes'
    LEVEL_NOTE = ('Sampled histories of 2-8 freezes, thaws and exports. Oracle: the dump of the original (before, and after every freeze) and its exported documents. '
                  'Changed bytes (as opposed to lost ones) are only required to be noticed in the zlib formats, which carry a checksum.')
    RULE = 'one run = one history; non-trivial = at least one thaw; distinct by documents and results'
    STUB = ['the store between freeze and thaw', 'object hash values and os.urandom (seeded)']
    ASSUMPTIONS = ['sites and caches that music21 rebuilds are not content']

    def prepare(self, ctx, seed, tier):
        self.env = {'hashseed': 1 + seed * 7919 % 100000, 'env': {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'TZ': 'Asia/Tokyo'}}
        zygote.start(self.env)

    def gen(self, rng, tier, index):
        from ..decor import ALL as DECOR, TOUCH
        names = ops.light(ops.docs())
        docs = []
        for i in range(rng.choice([1, 1, 2])):
            doc = names[index % len(names)] if i == 0 else rng.choice(names)
            d = {'doc': doc, 'subject': rng.choices(['score', 'part', 'opus'], weights=[8, 1, 1])[0], 'su': rng.random()}
            if rng.random() < 0.25:
                d['edit'] = ['pitch', rng.random()]
            if rng.random() < 0.5:
                d['decor'] = [[k, rng.random(), rng.random()] for k in sorted(rng.sample(DECOR, rng.choice([1, 2, 3, 5])))]
            docs.append(d)
        steps = []
        nb = 0
        for _ in range(rng.choice([2, 3, 5, 8])):
            r = rng.random()
            if nb == 0 or r < 0.35:
                st = {'op': 'freeze', 'd': rng.randrange(len(docs)), 'fmt': rng.choices(['pickle', 'jsonpickle'], weights=[3, 1])[0], 'zip': rng.choice([None, 'zlib'])}
                if rng.random() < 0.3:
                    st['reuse'] = True
                if nb and rng.random() < 0.2:
                    st['t'] = rng.randrange(2)
                if rng.random() < 0.2:
                    st['fault'] = {'k': int(10 ** rng.uniform(0, 3.3)), 'exc': rng.choice(['interrupt', 'memory'])}
                steps.append(st)
                nb += 1
                if not st.get('fault') and rng.random() < 0.6:
                    steps.append({'op': 'thaw', 'b': nb - 1, 't': rng.randrange(2), 'where': 'same'})
            elif r < 0.85:
                st = {'op': 'thaw', 'b': rng.randrange(nb), 't': rng.randrange(2), 'where': rng.choices(['same', 'fresh', 'other'], weights=[6, 1, 2])[0]}
                if rng.random() < 0.5:
                    st['reuse'] = True
                q = rng.random()
                if q < 0.4:
                    st['damage'] = [rng.choice(['truncate', 'truncate', 'cuttail', 'flip', 'lose', 'zero', 'swapblocks', 'empty', 'dup']), rng.random(), rng.random()]
                elif q < 0.5:
                    st['wrongzip'] = True
                elif q < 0.6:
                    st['fault'] = {'k': int(10 ** rng.uniform(0, 3.3)), 'exc': rng.choice(['interrupt', 'memory'])}
                steps.append(st)
            elif r < 0.92:
                st = {'op': 'touch', 'what': [[rng.choice(TOUCH), rng.random(), rng.random()] for _ in range(2)]}
                st.update({'t': rng.randrange(2)} if rng.random() < 0.6 else {'d': rng.randrange(len(docs))})
                steps.append(st)
            else:
                steps.append({'op': 'export', 't': rng.randrange(2), 'fmt': rng.choice(['humdrum', 'mei'])})
        if not any(s['op'] == 'thaw' for s in steps):
            steps.append({'op': 'thaw', 'b': 0, 't': 0, 'where': 'same'})
        return {'docs': docs, 'steps': steps, 'env': self.env}

    def execute(self, ctx, sc, timeout):
        zygote.start(sc['env'])
        return core.in_child(run, sc, timeout=timeout)

    def shrink(self, sc):
        s = sc['steps']
        for i, st in enumerate(s):
            if len(s) > 1:
                if st['op'] == 'freeze':
                    k = sum(1 for x in s[:i] if x['op'] == 'freeze')
                    rest = []
                    for x in s[:i] + s[i + 1:]:
                        if x['op'] == 'thaw':
                            if x['b'] == k:
                                continue
                            if x['b'] > k:
                                x = dict(x, b=x['b'] - 1)
                        rest.append(x)
                    if rest:
                        yield dict(sc, steps=rest)
                else:
                    yield dict(sc, steps=s[:i] + s[i + 1:])
        for i, st in enumerate(s):
            for k in ('reuse', 'fault', 'damage', 'wrongzip'):
                if k in st:
                    yield dict(sc, steps=s[:i] + [{a: b for a, b in st.items() if a != k}] + s[i + 1:])
            if st.get('where') not in (None, 'same'):
                yield dict(sc, steps=s[:i] + [dict(st, where='same')] + s[i + 1:])
        for i, d in enumerate(sc['docs']):
            for k in ('edit', 'decor'):
                if d.get(k):
                    yield dict(sc, docs=sc['docs'][:i] + [{a: b for a, b in d.items() if a != k}] + sc['docs'][i + 1:])
            if d['subject'] != 'score':
                yield dict(sc, docs=sc['docs'][:i] + [dict(d, subject='score')] + sc['docs'][i + 1:])

    def brief(self, sc):
        return f'{[(d["doc"], d["subject"], d.get("decor")) for d in sc["docs"]]}: ' + '; '.join(
            f'{s["op"]} ' + ','.join(f'{k}={v}' for k, v in s.items() if k != 'op') for s in sc['steps'])


PROP = C07()
