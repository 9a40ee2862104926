"""C06: importing a file equals importing its text, however the bytes arrive."""
from __future__ import annotations

import os
import pathlib
import re
import shutil
import tempfile

from .. import core, hist, ops, simfs
from ..driver import PropBase

WORDS = {'latin-1': 'Été à Genève – ÄÖÜß ¿señor? naïve ±½'.replace('–', '-'), 'utf-8': 'Träumerei 夢想曲 Грёзы 𝄞 ♭♯ ÿþ', 'utf-16': 'Träumerei 夢想曲 Грёзы 𝄞 ♭♯'}


# characters that some ways of splitting text into lines take for line ends, and Humdrum and XML do not
BREAKS = {'humdrum': {'latin-1': '\x0b\x0c\x1c\x1d\x1e\x85', 'utf-8': '\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'}, 'mei': {'latin-1': '\x85', 'utf-8': '\x85\u2028\u2029', 'utf-16': '\x85\u2028\u2029'}}


def step_text(st) -> str:
    """The document a step imports (LF line ends)."""
    fmt = ops.doc_fmt(st['doc'])
    t = ops.edit_text(fmt, ops.doc_text(st['doc']), st.get('edit'))
    w = st.get('word')
    if w:
        i = st['wpos']
        brk = BREAKS[fmt][w]
        word = WORDS[w] * st.get('many', 1) + (f' a{brk[int(i * 1000) % len(brk)]}b' if st.get('brk') else '')
        if fmt == 'humdrum':
            lines = t.split('\n')
            lines.insert(int(i * (len(lines) + 1)) if st.get('wmid') else 0, f'!!!OTL: {word} {i:.3f}')
            t = '\n'.join(lines)
        else:
            t = re.sub(r'(<title\b[^>/]*>)', lambda m: f'{m.group(1)}{word} {i:.3f} ', t, count=1)
    return hist.damage_text(t, st.get('damage'))


def step_bytes(st) -> bytes:
    t = step_text(st)
    if st['eol'] == 'crlf':
        t = t.replace('\n', '\r\n')
    enc = st['enc']
    if enc == 'utf-16':
        return (b'\xff\xfe' + t.encode('utf-16-le')) if st.get('le', True) else (b'\xfe\xff' + t.encode('utf-16-be'))
    return t.encode(enc)


def import_text(st):
    """Reference: the same document as a string, in a fresh process."""
    core.ENTROPY.reseed(7)
    fmt = ops.doc_fmt(st['doc'])
    try:
        c = hist.new_converter(fmt)
        kw = {'acceptSyntaxErrors': True} if st.get('lenient') else {}
        s = c.parseData(step_text(st), **kw)
        return outcome(s)
    except Exception as e:                                   # noqa: BLE001
        return ops.outcome_of_exception(e)


def outcome(score):
    """Without the record of where the score came from, which music21 adds to (or creates as) its metadata."""
    for md in list(score.getElementsByClass('Metadata')):
        md.filePath = md.fileNumber = md.fileFormat = None
        if not md._contents.keys() - {'software'}:
            score.remove(md)
    return ops.outcome_of_score(score)


def do_import(st, path, conv):
    kw = {'acceptSyntaxErrors': True} if st.get('lenient') else {}
    via = st['via']
    if via == 'm21':
        import music21 as m21
        s = m21.converter.parse(path, forceSource=True, **kw)
    elif via == 'm21fmt':
        import music21 as m21
        s = m21.converter.parseFile(path, format=ops.doc_fmt(st['doc']), forceSource=True, **kw)
    else:
        s = conv.parseFile(path, **kw)
    return s


def run(sc, refs):
    core.silence()
    root = tempfile.mkdtemp(prefix='c06.', dir=os.environ['VERIF_SCRATCH'])
    try:
        return _run(sc, refs, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(sc, refs, root):
    res = {'violations': [], 'stats': {'faults': {}, 'counters': {'imports': 0, 'storage operations': 0}, 'sets': {}}, 'log': [], 'nontrivial': False}
    fk, cnt = res['stats']['faults'], res['stats']['counters']
    d = os.path.join(root, 'in')
    os.makedirs(d)
    os.makedirs(os.path.join(root, 'tmp'))
    tempfile.tempdir = os.path.join(root, 'tmp')
    convs = {}
    old = os.getcwd()
    keep = []

    def bad(cls, st, n, msg):
        res['violations'].append({'class': cls, 'key': f'{cls}:{st["doc"]}', 'msg': f'step {n} ({brief_step(st)}): {msg}'})

    for n, (st, ref) in enumerate(zip(sc['steps'], refs)):
        data = step_bytes(st)
        path = os.path.join(d, st['name'])
        with open(path, 'wb') as f:
            f.write(data)
        if sc.get('same_mtime'):
            os.utime(path, (1700000000, 1700000000))
        os.chmod(path, 0o444 if st.get('readonly') else 0o644)
        before = simfs.listing(d)
        stat0 = os.stat(path)
        fmt = ops.doc_fmt(st['doc'])
        conv = convs.setdefault(fmt, hist.new_converter(fmt)) if st.get('reuse') else hist.new_converter(fmt)
        arg = path
        if st['pathkind'] == 'path':
            arg = pathlib.Path(path)
        elif st['pathkind'] == 'rel' and st['via'] == 'conv':
            os.chdir(d)
            arg = st['name']
        core.ENTROPY.reseed(7)
        cnt['imports'] += 1
        out, exc = None, None
        fa = st.get('fault')
        try:
            with simfs.Storage(d, st['sseed'], st['short'], st['locale']) as sto:
                if fa:
                    sto.fault_at, sto.fault_err = fa['k'], fa['err']
                try:
                    s = do_import(st, arg, conv)
                    keep.append(s)
                except Exception as e:                       # noqa: BLE001
                    exc = e
        finally:
            os.chdir(old)
        if exc is None:
            out = outcome(s)
        else:
            out = ops.outcome_of_exception(exc)
        cnt['storage operations'] += len(sto.events)
        for k, on in (('short reads', st['short']), ('non-UTF-8 locale', st['locale'] != 'utf-8'), (f'encoding {st["enc"]}', True), ('CRLF', st['eol'] == 'crlf'), ('damaged', st.get('damage'))):
            if on:
                fk[k] = fk.get(k, 0) + 1
        res['nontrivial'] = res['nontrivial'] or st['short'] or st['enc'] != 'utf-8' or st['eol'] != 'lf' or n > 0
        if sto.fired:
            k = f'{sto.fired[0]} error {fa["err"]}'
            fk[k] = fk.get(k, 0) + 1
            res['nontrivial'] = True
        res['log'].append([n, brief_step(st), out.get('digest') or out.get('text'), sto.fired])
        if sto.fired:
            if exc is None:
                if not st.get('lenient') or not getattr(s, 'c21_parse_err', None):
                    bad('read-error-lost', st, n, f'a {fa["err"]} in {sto.fired[0]} (operation {fa["k"]}) did not reach the caller; the import returned {ops.brief(out)}')
            elif not simfs.in_chain(exc, sto.exc):
                bad('read-error-replaced', st, n, f'a {fa["err"]} in {sto.fired[0]} (operation {fa["k"]}) reached the caller as {type(exc).__name__}: {exc}')
        else:
            if not same(ref, out):
                bad('file-differs-from-text', st, n, f'importing the file gives something else than importing its text: {ops.explain(ref, out)}')
        if sto.still_open():
            bad('left-open', st, n, f'left open: {sto.still_open()}')
        after = simfs.listing(d)
        if after != before:
            ch = sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))
            bad('files-changed', st, n, f'the import changed, created or removed files: {ch}')
        st1 = os.stat(path) if os.path.exists(path) else None
        if st1 is not None and (st1.st_mtime_ns, st1.st_mode, st1.st_ino) != (stat0.st_mtime_ns, stat0.st_mode, stat0.st_ino):
            bad('file-touched', st, n, 'the import touched the input file (mtime, mode or inode)')
        if res['violations']:
            break
        os.chmod(path, 0o644)
    res['sig'] = core.digest(res['log'])
    return res


def same(ref, out):
    if ref['kind'] == 'err' and out['kind'] == 'err':
        return ref['type'] == out['type']
    return ops.same(ref, out)


def brief_step(st):
    s = f'{st["doc"]} {st["enc"]} {st["eol"]} via={st["via"]} {st["pathkind"]} locale={st["locale"]}'
    if st['short']:
        s += ' short-reads'
    if st.get('lenient'):
        s += ' lenient'
    if st.get('damage'):
        s += ' damaged'
    if st.get('fault'):
        s += f' FAULT={st["fault"]}'
    return s


class C06(PropBase):
    ID = 'C06'
    RUNS = {'quick': 1500, 'thorough': 60000}
    TECHNIQUE = 'seeded deterministic simulation: file imports over a simulated storage layer (short reads, read/open/close errors, encodings, locales, files rewritten between imports)'
    LEVEL_NOTE = ('Sampled: 1-4 imports per run from a simulated storage layer under builtins.open/io.open; every storage operation number can fail. Oracle: the import of the decoded text in a fresh '
                  'process; bytes, mtime, mode and open handles checked after each step.')
    RULE = ('one run = 1-4 file imports; non-trivial = a fault fired, reads were split, the encoding or line ends are not the default, or an earlier import precedes; distinct by step sequence and results')
    STUB = ['raw file I/O below Python\'s buffered/text layers', 'locale encoding', 'object hash values and os.urandom (seeded)']
    ASSUMPTIONS = ['files opened through builtins.open / io.open (pathlib included), not through os.open', 'metadata that records the file name is not compared']

    def gen(self, rng, tier, index):
        names = ops.light(ops.docs('krn', 'mei'))
        steps = []
        base = names[index % len(names)] if rng.random() < 0.6 else rng.choice(names)
        one_name = rng.random() < 0.5
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            doc = base if rng.random() < 0.6 else rng.choice(names)
            fmt = ops.doc_fmt(doc)
            enc = rng.choice(['utf-8', 'latin-1'] if fmt == 'humdrum' else ['utf-8', 'utf-16', 'latin-1'])
            st = {'doc': doc, 'enc': enc, 'eol': rng.choice(['lf', 'lf', 'crlf']), 'via': rng.choice(['conv', 'conv', 'm21', 'm21fmt']),
                  'pathkind': rng.choice(['str', 'path', 'rel']), 'locale': rng.choice(['utf-8', 'ascii', 'latin-1', 'cp1252']), 'short': rng.random() < 0.6,
                  'sseed': rng.getrandbits(30), 'name': ('same' if one_name else rng.choice(['a', 'b b', 'ü'])) + '.' + ops.EXT[fmt]}
            if enc == 'utf-16':
                st['le'] = rng.random() < 0.6
            if rng.random() < 0.7:
                st['word'], st['wpos'], st['wmid'] = enc, rng.random(), rng.random() < 0.5
                st['brk'] = rng.random() < 0.3
                if rng.random() < 0.2:
                    st['many'] = rng.choice([90, 200, 350, 1600])     # a document longer than the blocks files are read in
            if rng.random() < 0.3:
                st['edit'] = [rng.choice(['pitch', 'pitch', 'title', 'comment']), rng.random()]
            if rng.random() < 0.12:
                st['damage'] = hist.gen_damage(rng, fmt)
            if fmt == 'humdrum' and rng.random() < 0.2:
                st['lenient'] = True
            if rng.random() < 0.3:
                st['reuse'] = True
            if rng.random() < 0.15:
                st['readonly'] = True
            if rng.random() < 0.35:
                st['fault'] = {'k': int(10 ** rng.uniform(0, 2.2)) - 1 if st['short'] else rng.choice([0, 1, 2, 3]), 'err': rng.choice(['EIO', 'EACCES', 'EMFILE', 'ENOSPC'])}
            # a document that the chosen encoding cannot carry, or that reads as another one, is written as UTF-8
            try:
                b = step_bytes(st)
                if enc == 'latin-1':
                    try:
                        ok = b.decode('utf-8') == b.decode('latin-1')
                    except UnicodeDecodeError:
                        ok = True
                    if not ok or b[:2] in (b'\xff\xfe', b'\xfe\xff'):
                        raise ValueError
            except (UnicodeError, ValueError):
                st['enc'] = 'utf-8'
                st.pop('le', None)
            t = step_text(st)
            if '\r' in t or not t or t[0] == '\ufeff':
                st.pop('damage', None)
            try:
                step_bytes(st)
            except UnicodeError:
                st.pop('damage', None)
            steps.append(st)
            if st.get('fault') and rng.random() < 0.6:
                steps.append({k: v for k, v in st.items() if k != 'fault'})      # the client tries again
        return {'steps': steps, 'same_mtime': rng.random() < 0.5}

    def execute(self, ctx, sc, timeout):
        refs = []
        for st in sc['steps']:
            key = {k: st[k] for k in ('doc', 'edit', 'word', 'wpos', 'wmid', 'many', 'brk', 'damage', 'lenient') if k in st}
            refs.append(ctx.baseline(import_text, key, timeout=timeout))
        return core.in_child(run, sc, refs, timeout=timeout * 2)

    def shrink(self, sc):
        s = sc['steps']
        for i in range(len(s)):
            if len(s) > 1:
                yield dict(sc, steps=s[:i] + s[i + 1:])
        for i, st in enumerate(s):
            for k, v in (('short', False), ('eol', 'lf'), ('locale', 'utf-8'), ('pathkind', 'str'), ('via', 'conv')):
                if st[k] != v:
                    yield dict(sc, steps=s[:i] + [dict(st, **{k: v})] + s[i + 1:])
            for k in ('edit', 'damage', 'reuse', 'lenient', 'word', 'readonly', 'fault', 'brk'):
                if st.get(k):
                    yield dict(sc, steps=s[:i] + [{a: b for a, b in st.items() if a != k}] + s[i + 1:])
        if sc.get('same_mtime'):
            yield dict(sc, same_mtime=False)

    def brief(self, sc):
        return '; '.join(brief_step(st) for st in sc['steps'])


PROP = C06()
