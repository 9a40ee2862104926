"""C02: export to a file or stream is complete or reported as failed."""
from __future__ import annotations

import io
import json
import os
import pathlib
import shutil
import tempfile

from .. import core, dump, ops, simfs
from ..driver import PropBase
from ..decor import ALL as DECOR, decorate
from .c01 import CallFault


class SimInterrupt(KeyboardInterrupt):
    pass


KEEP: list = []   # the score an exported part belongs to stays alive, as in a client's program


def build(sc):
    import music21 as m21
    s = ops.make_score(sc['doc'])
    KEEP.append(s)
    decorate(s, sc.get('decor', ()))
    if sc.get('unencodable') and isinstance(s, m21.stream.Score):
        # text that no UTF-8 file can hold (half of a surrogate pair, as JSON or a wrongly decoded file name may give)
        if s.metadata is None:
            s.insert(0, m21.metadata.Metadata())
        s.metadata.title = 'half \ud83d'
    return ops.make_subject(s, sc['subject'], sc.get('su', 0.0))


def memory_export(sc):
    """Reference: the complete document, or the error, of the same export into memory."""
    core.ENTROPY.reseed(0)
    try:
        obj = build(sc)
    except Exception as e:                                   # noqa: BLE001
        return {'unusable': type(e).__name__}
    opts = dict(sc['opts'])
    sink = ops.Sink()
    cf = CallFault(sink)
    with core.Monitor(on_call=cf.on_call):
        try:
            text = ops.export_text(obj, sc['fmt'], opts, sink)
            text.encode('utf-8')
            out = ops.outcome_of_doc(sc['fmt'], text, full=False)
        except Exception as e:                               # noqa: BLE001
            out = ops.outcome_of_exception(e)
    return {'out': out, 'calls': cf.n}


def do_export(sc, obj, dest):
    """The export under test; returns the path it reports."""
    import converter21
    opts = dict(sc['opts'])
    if sc['via'] == 'm21':
        return obj.write(sc['fmt'], fp=dest, **opts)
    conv = converter21.HumdrumConverter() if sc['fmt'] == 'humdrum' else converter21.MEIConverter()
    return conv.write(obj, sc['fmt'], fp=dest, **opts)


OLD = '!!! previous contents of this file, which are rather longer than nothing\n' * 40


def prepare_dir(root, sc, obj=None):
    os.makedirs(os.path.join(root, 'out'))
    os.makedirs(os.path.join(root, 'tmp'))
    with open(os.path.join(root, 'out', 'bystander.krn'), 'w', encoding='utf-8') as f:
        f.write('!! do not touch\n')
    name = sc['name']
    p = os.path.join(root, 'out', name)
    dest = None if sc['dest'] == 'none' else p
    if dest is not None:
        suffix = pathlib.Path(p).suffix
        expected = p if suffix else p + '.' + ops.EXT[sc['fmt']]
        if sc['previous'] == 'long':
            with open(expected, 'w', encoding='utf-8') as f:
                f.write(OLD * 200)
        elif sc['previous'] == 'short':
            with open(expected, 'w', encoding='utf-8') as f:
                f.write('old\n')
        elif sc['previous'] in ('samesize', 'prefix') and obj is not None:
            # what an earlier export of a slightly different score left there, or half of this one
            try:
                core.ENTROPY.reseed(sc['entropy'])
                text = ops.export_text(obj, sc['fmt'], sc['opts'])
            except Exception:                                # noqa: BLE001
                text = 'old\n'
            core.ENTROPY.reseed(sc['entropy'])
            k = len(text) // 2
            text = text[:k] if sc['previous'] == 'prefix' else text[:k] + ('z' if text[k] != 'z' else 'y') + text[k + 1:]
            with open(expected, 'w', encoding='utf-8', errors='replace') as f:
                f.write(text)
        if sc['dest'] == 'path':
            dest = pathlib.Path(p)
    else:
        expected = None
    return dest, expected


def run(sc, ref, counts):
    core.silence()
    core.ENTROPY.reseed(sc['entropy'])
    root = tempfile.mkdtemp(prefix='c02.', dir=os.environ['VERIF_SCRATCH'])
    try:
        return _run(sc, ref, counts, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def count_ops(sc):
    """How many storage operations the export performs when nothing fails."""
    core.ENTROPY.reseed(0)
    root = tempfile.mkdtemp(prefix='c02.', dir=os.environ['VERIF_SCRATCH'])
    try:
        try:
            obj = build(sc)
            dest, _ = prepare_dir(root, sc)
            tempfile.tempdir = os.path.join(root, 'tmp')
            with simfs.Storage(root, sc['entropy'], sc['short'], 'utf-8') as st:
                do_export(sc, obj, dest)
        except Exception:                                    # noqa: BLE001
            return 0
        return st.n
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(sc, ref, counts, root):
    import music21 as m21
    res = {'violations': [], 'stats': {'faults': {}, 'counters': {'exports': 1}, 'sets': {}}, 'log': [], 'nontrivial': True}

    def bad(cls, msg):
        res['violations'].append({'class': cls, 'key': f'{cls}:{sc["doc"]}:{sc["fmt"]}', 'msg': f'{PROP.brief(sc)}: {msg}'})

    obj = build(sc)
    if sc['via'] == 'stream':
        return run_stream(sc, ref, obj, res, bad)
    dest, expected = prepare_dir(root, sc, obj)
    tempfile.tempdir = os.path.join(root, 'tmp')
    tempfile._name_sequence = (f'sim{k}' for k in range(10 ** 6))    # names of temporary files are part of the seed
    m21.environment.UserSettings()  # make sure music21's settings are loaded before the storage is simulated
    fault = sc.get('fault')
    st = simfs.Storage(root, sc['entropy'], sc['short'], sc['locale'])
    cf = None
    if fault:
        if fault['kind'] == 'storage':
            st.fault_at = int(fault['u'] * max(1, counts))
            st.fault_err = fault['err']
        elif fault['kind'] == 'interrupt':
            cf = CallFault(ops.Sink(), int(fault['u'] * max(1, ref['calls'])), SimInterrupt('simulated'))
    before = simfs.listing(root)
    got = None
    exc = None
    try:
        with st:
            if cf is not None:
                with core.Monitor(on_call=cf.on_call):
                    got = do_export(sc, obj, dest)
            else:
                got = do_export(sc, obj, dest)
    except BaseException as e:                               # noqa: BLE001
        exc = e
    left_open = st.still_open()
    after = simfs.listing(root)
    fk = res['stats']['faults']
    fired = 'none'
    if st.fired:
        fired = f'storage:{st.fired[0]}:{st.fault_err}'
    elif cf is not None and cf.fired:
        fired = 'interrupt during conversion'
    elif ref['out']['kind'] == 'err':
        fired = 'natural conversion failure'
    if st.short:
        fk['short writes'] = fk.get('short writes', 0) + 1
    if sc['locale'] != 'utf-8':
        fk['hostile locale'] = 1
    if fired != 'none':
        fk[fired] = fk.get(fired, 0) + 1
    res['log'] = [fired, repr(exc).replace(root, 'ROOT')[:200] if exc is not None else 'returned', json.loads(json.dumps(st.events).replace(root, 'ROOT'))]
    res['sig'] = core.digest([sc['doc'], sc['fmt'], sc['opts'], sc['via'], sc['dest'], sc['name'], sc['previous'], sc['locale'], fired,
                              list(cf.where) if cf is not None and cf.where else st.fired])
    if left_open:
        bad('left-open', f'file still open after the export {"failed" if exc else "returned"}: {left_open}')
    if exc is None:
        if st.fired:
            bad('fault-swallowed', f'{fired} was swallowed: the export returned {os.path.basename(str(got))}')
            return res
        if cf is not None and cf.fired:
            bad('fault-swallowed', 'an interrupt during the conversion was swallowed')
            return res
        if ref['out']['kind'] == 'err':
            bad('failure-not-reported', f'the conversion fails in memory ({ops.brief(ref["out"])}) but the export to a file returned {got}')
            return res
        gp = os.path.realpath(str(got))
        if expected is not None and gp != os.path.realpath(expected):
            bad('wrong-path', f'returned {os.path.basename(gp)}, expected {os.path.basename(expected)}')
            return res
        rel = os.path.relpath(gp, os.path.realpath(root))
        data = after.get(rel)
        if data is None:
            bad('missing-output', f'returned {rel}, which does not exist')
            return res
        try:
            text = data.decode('utf-8')
        except UnicodeDecodeError as e:
            bad('not-utf8', f'{rel} is not UTF-8: {e}')
            return res
        out = ops.outcome_of_doc(sc['fmt'], text)
        if not ops.same(ref['out'], out):
            bad('incomplete-output', f'{rel} differs from the document rendered in memory: expected {ops.brief(ref["out"])}, got {ops.brief(out)}; '
                f'file starts {text[:60]!r} and ends {text[-60:]!r}')
        others = {k: v for k, v in after.items() if k != rel}
        others0 = {k: v for k, v in before.items() if k != rel}
        if others != others0:
            bad('other-files', f'files other than the output changed: {sorted(set(others) ^ set(others0)) or "contents"}')
        return res
    # it failed: was it allowed to, was it reported faithfully, what is on disk?
    if st.fired:
        if not simfs.in_chain(exc, st.exc):
            bad('wrong-error', f'storage failed with {st.exc!r} but the caller got {exc!r}')
    elif cf is not None and cf.fired:
        if not isinstance(exc, SimInterrupt):
            bad('wrong-error', f'interrupted, but the caller got {exc!r}')
    elif ref['out']['kind'] != 'err':
        bad('spurious-failure', f'the conversion succeeds in memory but the export raised {type(exc).__name__}: {str(exc)[:200]}')
        return res
    exp_rel = os.path.relpath(os.path.realpath(expected), os.path.realpath(root)) if expected else None
    conversion_failed = not st.fired
    changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
    if expected is None:
        # a temporary file may have been created as the destination
        changed = {k for k in changed if not (k.startswith('tmp' + os.sep) and k not in before)} if len(
            [k for k in changed if k.startswith('tmp' + os.sep) and k not in before]) <= 1 else changed
    elif not conversion_failed:
        changed.discard(exp_rel)
    if changed:
        what = sorted(changed)
        if exp_rel in changed:
            a, b = before.get(exp_rel), after.get(exp_rel)
            bad('destination-damaged', f'the conversion failed ({type(exc).__name__}) but the destination went from '
                f'{"absent" if a is None else f"{len(a)} bytes"} to {"absent" if b is None else f"{len(b)} bytes"}')
        else:
            bad('other-files', f'after a failed export ({type(exc).__name__}) files changed: {what}')
    return res


def run_stream(sc, ref, obj, res, bad):
    """Writer.write(fp) to the caller's own stream, which may fail at any write."""
    fault = sc.get('fault')
    sink = ops.Sink()
    if fault and fault['kind'] == 'storage':
        n = count_stream(sc)
        sink.fail_at = int(fault['u'] * max(1, n))
        sink.exc = OSError(simfs.ERRNO[fault['err']], 'simulated')
    exc = None
    text = None
    try:
        w = ops.make_writer(obj, sc['fmt'], sc['opts'])
        ret = w.write(sink)
        text = sink.getvalue()
    except BaseException as e:                               # noqa: BLE001
        exc = e
        ret = None
    fk = res['stats']['faults']
    if sink.fired:
        k = f'stream:{fault["err"]}'
        fk[k] = fk.get(k, 0) + 1
        if exc is None:
            bad('fault-swallowed', f'the stream failed at write {sink.fail_at} but the writer returned {ret!r}')
        elif not simfs.in_chain(exc, sink.exc):
            bad('wrong-error', f'the stream failed with {sink.exc!r} but the caller got {exc!r}')
    elif exc is None:
        if ret is False:
            if ref['out'].get('type') != 'ExportRefused':
                bad('spurious-failure', 'the writer returned False')
        elif ref['out']['kind'] == 'err':
            bad('failure-not-reported', f'expected {ops.brief(ref["out"])}, but the writer returned {ret!r}')
        else:
            out = ops.outcome_of_doc(sc['fmt'], text)
            if not ops.same(ref['out'], out):
                bad('incomplete-output', f'expected {ops.brief(ref["out"])}, got {ops.brief(out)}')
        if sink.closed:
            bad('stream-closed', 'the writer closed the caller\'s stream')
    else:
        fk['natural conversion failure'] = 1
        if ref['out']['kind'] != 'err':
            bad('spurious-failure', f'raised {exc!r}')
    res['log'] = [sink.fail_at, sink.n, repr(exc)[:100]]
    res['sig'] = core.digest([sc['doc'], sc['fmt'], sc['opts'], 'stream', sink.fired, sink.fail_at])
    return res


def count_stream(sc):
    s = ops.Sink()
    try:
        ops.export_text(build(sc), sc['fmt'], sc['opts'], s)
    except Exception:                                        # noqa: BLE001
        pass
    return s.n


NAMES = ('score.krn', 'score.mei', 'score', 'score.txt', 'we ird.näme.mei', 'deep.er.kern')


class C02(PropBase):
    ID = 'C02'
    RUNS = {'quick': 2000, 'thorough': 80000}
    TECHNIQUE = 'seeded deterministic simulation: exports onto simulated storage with open/write/close faults, short writes, hostile locales'
    LEVEL_NOTE = ('Sampled over documents, options, destinations and fault positions. Oracle: bytes on (scratch) disk versus the same export rendered in memory, the error seen by '
                  'the caller, and the list of files. Crash-atomicity (power loss between truncate and write) is not promised by the code and not claimed.')
    RULE = ('one run = one export of a corpus object to a str/Path/temporary/odd-suffix destination (absent, short, long, equally long or half-written previous contents) through music21\'s write(), the '
            'converter class or a caller\'s stream; injected: an error at the k-th storage operation, an interrupt at the k-th music21 call of the conversion, short writes, '
            'a locale that cannot encode the document; plus documents that naturally fail to convert; distinct by (document, options, destination, fault and site)')
    STUB = ['storage below the scratch directory: real files behind a raw I/O layer that fails on demand', 'locale encoding']

    def gen(self, rng, tier, index):
        names = ops.light(ops.docs())
        doc = names[index % len(names)] if index < 2 * len(names) else rng.choice(names)
        subject = rng.choices(['score', 'part', 'measure', 'note'], weights=[14, 1, 1, 1])[0]
        fmt = rng.choice(['humdrum', 'mei'])
        opts = ops.gen_opts(rng, fmt, subject)
        r = rng.random()
        if r < 0.05 and fmt == 'mei':
            opts['meiVersion'] = '3'                         # fails late in the conversion
        elif r < 0.12 and subject != 'score':
            opts['makeNotation'] = False                     # refused
        sc = {'doc': doc, 'subject': subject, 'su': rng.random(), 'fmt': fmt, 'opts': opts, 'entropy': rng.getrandbits(32),
              'via': rng.choices(['conv', 'm21', 'stream'], weights=[5, 4, 2])[0],
              'dest': rng.choices(['str', 'path', 'none'], weights=[5, 3, 2])[0],
              'name': rng.choice(NAMES), 'previous': rng.choice(['absent', 'short', 'long', 'samesize', 'prefix']),
              'short': rng.random() < 0.3, 'locale': rng.choice(['utf-8', 'utf-8', 'ascii', 'cp1252', 'utf-16']),
              'decor': [[rng.choice(DECOR), rng.random(), rng.random()] for _ in range(rng.choice([0, 0, 1, 2, 5]))]}
        if rng.random() < 0.04 and sc['via'] != 'stream':
            sc['unencodable'] = True
        r = rng.random()
        if r < 0.45:
            sc['fault'] = {'kind': 'storage', 'u': rng.random(), 'err': rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EDQUOT'])}
        elif r < 0.62:
            sc['fault'] = {'kind': 'interrupt', 'u': rng.random()}
        return sc

    def execute(self, ctx, sc, timeout):
        key = {k: sc.get(k) for k in ('doc', 'subject', 'su', 'fmt', 'opts', 'decor', 'unencodable')}
        ref = ctx.baseline(memory_export, key, timeout=timeout)
        if 'unusable' in ref:
            return {'violations': [], 'stats': {'counters': {'document does not parse': 1}}, 'sig': None, 'nontrivial': False}
        counts = 0
        if sc.get('fault', {}).get('kind') == 'storage' and sc['via'] != 'stream':
            counts = ctx.baseline(count_ops, {k: v for k, v in sc.items() if k not in ('fault', 'locale')}, timeout=timeout)
        return core.in_child(run, sc, ref, counts, timeout=timeout)

    def shrink(self, sc):
        if sc.get('fault'):
            yield {k: v for k, v in sc.items() if k != 'fault'}
        for k, v in (('short', False), ('locale', 'utf-8'), ('decor', []), ('dest', 'str'), ('previous', 'absent'), ('name', 'score.' + ops.EXT[sc['fmt']]),
                     ('subject', 'score'), ('via', 'conv')):
            if sc[k] != v:
                yield dict(sc, **{k: v})
        plain = {'makeNotation': sc['opts'].get('makeNotation', True)}
        if sc['opts'] != plain:
            yield dict(sc, opts=plain)

    def brief(self, sc):
        return (f'{sc["doc"]} {sc["subject"]} -> {sc["fmt"]} {json.dumps(sc["opts"])} via {sc["via"]} dest={sc["dest"]}:{sc["name"]} previous={sc["previous"]} '
                f'locale={sc["locale"]} short={sc["short"]} fault={sc.get("fault")}' + (' unencodable title' if sc.get('unencodable') else ''))


PROP = C02()
