"""C08: the command-line converter succeeds exactly when the output is complete."""
from __future__ import annotations

import io
import os
import random
import re
import runpy
import shutil
import sys
import tempfile
import traceback

from .. import core, dump, hist, ops, simfs
from ..driver import PropBase

ABC = {
    'one.abc': 'X:1\nT:One\nM:4/4\nL:1/4\nK:C\nCDEF|GABc|\n',
    'two.abc': 'X:1\nT:One\nM:4/4\nL:1/4\nK:C\nCDEF|GABc|\n\nX:2\nT:Two\nM:3/4\nL:1/4\nK:G\nGAB|cde|\n',
    'three.abc': 'X:1\nT:One\nK:C\nCDEF|GABc|\n\nX:2\nT:Two\nK:G\nGABc|cdef|\n\nX:3\nT:Three\nK:D\ndefg|\n',
}
EXTS = {'humdrum': ('krn',), 'mei': ('mei',), 'musicxml': ('musicxml', 'xml'), 'abc': ('abc',)}
OUT_EXT = {'humdrum': 'krn', 'mei': 'mei', 'musicxml': 'musicxml', 'midi': 'mid', 'text': 'txt'}


class SimInterrupt(KeyboardInterrupt):
    pass


def doc_fmt(doc):
    return 'abc' if doc in ABC else ops.doc_fmt(doc)


def doc_bytes(inp) -> bytes:
    """What is stored in the input file (or arrives on standard input)."""
    doc = inp['doc']
    if doc in ABC:
        return ABC[doc].encode()
    text = ops.edit_text(ops.doc_fmt(doc), ops.doc_text(doc), inp.get('edit'))
    if inp.get('damage'):
        text = hist.damage_text(text, inp['damage'])
    return text.encode('utf-8', 'replace')


# ------------------------------------------------------------------------------------- the reference

_DATE = re.compile(r'<encoding-date>[^<]*</encoding-date>')


def canon_bytes(fmt, b: bytes):
    if fmt in ('humdrum', 'mei'):
        return dump.canon_doc(fmt, b.decode('utf-8'))
    if fmt == 'midi':
        return b.hex()
    t = b.decode('utf-8')
    if fmt == 'musicxml':
        names: dict = {}
        t = dump.canon_str(_DATE.sub('', t), names)
        return re.sub(r'\b(id|group-id)="[^"]*"', r'\1=""', t)
    return dump._HEXADDR.sub('0xADDR', t)


def reference(key):
    """The documents that importing the data and exporting the result gives, on a healthy machine; or the error."""
    core.silence()
    core.ENTROPY.reseed(3)
    import converter21
    import music21 as m21
    converter21.register()
    inp, outfmt, stdin, name = key['inp'], key['outfmt'], key['stdin'], key['name']
    root = tempfile.mkdtemp(prefix='c08r.', dir=os.environ['VERIF_SCRATCH'])
    n = [0]
    tempfile.tempdir = root
    os.makedirs(os.path.join(root, 'work'))
    os.chdir(os.path.join(root, 'work'))

    def on_line(code, line):
        n[0] += 1
    try:
        fmt = doc_fmt(inp['doc'])
        b = doc_bytes(inp)
        with core.Monitor(on_line=on_line):
            try:
                if stdin:
                    text = io.TextIOWrapper(io.BytesIO(b), key['enc']).read()
                    if not text.strip():
                        return {'docs': None, 'err': 'nothing', 'lines': n[0]}
                    if fmt == 'humdrum':
                        s = converter21.HumdrumConverter().parseData(text)
                    elif fmt == 'mei':
                        s = converter21.MEIConverter().parseData(text)
                    else:
                        s = m21.converter.parseData(text, format=fmt)
                else:
                    p = os.path.abspath(name)
                    with open(p, 'wb') as f:
                        f.write(b)
                    if fmt == 'humdrum':
                        s = converter21.HumdrumConverter().parseFile(p)
                    elif fmt == 'mei':
                        s = converter21.MEIConverter().parseFile(p)
                    else:
                        s = m21.converter.parseFile(p, format=fmt, forceSource=True, storePickle=False)
                if getattr(s, 'c21_parse_err', None):
                    return {'docs': None, 'err': f'parse error {s.c21_parse_err}'[:200], 'lines': n[0]}
                docs = []
                for sc in (list(s.scores) if isinstance(s, m21.stream.Opus) else [s]):
                    if outfmt in ('humdrum', 'mei'):
                        docs.append(canon_bytes(outfmt, ops.export_text(sc, outfmt, {'makeNotation': False}).encode()))
                    else:
                        fp = os.path.join(root, 'ref.' + OUT_EXT[outfmt])
                        got = sc.write(fmt=outfmt, fp=fp, makeNotation=False)
                        with open(got, 'rb') as f:
                            docs.append(canon_bytes(outfmt, f.read()))
            except Exception as e:                           # noqa: BLE001
                return {'docs': None, 'err': f'{type(e).__name__}: {e}'[:200], 'lines': n[0]}
        if not docs:
            return {'docs': None, 'err': 'no score', 'lines': n[0]}
        return {'docs': docs, 'lines': n[0]}
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------------------------------------- the process

class RawIn(io.RawIOBase):
    def __init__(self, data, fail_at=None, err='EIO', short=False, seed=0):
        self.data, self.pos, self.n, self.fail_at, self.err, self.short = data, 0, 0, fail_at, err, short
        self.rng = random.Random(seed)
        self.fired = False

    def readable(self):
        return True

    def readinto(self, b):
        k = self.n
        self.n += 1
        if self.fail_at is not None and k == self.fail_at:
            self.fired = True
            raise OSError(simfs.ERRNO[self.err], 'simulated stdin error')
        n = len(b)
        if self.short:
            n = min(n, self.rng.choice([1, 5, 64, 777, n]))
        d = self.data[self.pos:self.pos + n]
        self.pos += len(d)
        b[:len(d)] = d
        return len(d)


class RawOut(io.RawIOBase):
    def __init__(self, fail_at=None, err='ENOSPC', short=False, seed=0):
        self.buf = bytearray()
        self.n, self.fail_at, self.err, self.short = 0, fail_at, err, short
        self.rng = random.Random(seed)
        self.fired = False

    def writable(self):
        return True

    def write(self, b):
        k = self.n
        self.n += 1
        # once the pipe is broken or the disk full, it stays so
        if self.fail_at is not None and k >= self.fail_at:
            self.fired = True
            raise (BrokenPipeError(32, 'simulated') if self.err == 'EPIPE' else OSError(simfs.ERRNO[self.err], 'simulated stdout error'))
        n = len(b)
        if self.short and n > 1:
            n = min(n, self.rng.choice([1, 5, 64, 777, n]))
        self.buf += bytes(b[:n])
        return n


def process(root, st, ref_lines):
    """One run of `python -m converter21`, in this (forked) process; emulates the interpreter's own start and exit."""
    core.silence()
    core.ENTROPY.reseed(st['entropy'])
    fault = st.get('fault') or {}
    fk = fault.get('kind')
    os.chdir(os.path.join(root, 'work'))
    tempfile.tempdir = os.path.join(root, 'tmp')
    rin = RawIn(doc_bytes(st['inp']) if st['stdin'] else b'', fault['n'] if fk == 'stdin' else None, fault.get('err', 'EIO'), st['short'], 1)
    rout = RawOut(fault['n'] if fk == 'stdout' else None, fault.get('err', 'ENOSPC'), st['short'], 2)
    sys.stdin = io.TextIOWrapper(io.BufferedReader(rin), encoding=st['enc'])
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(rout), encoding=st['enc'])
    if fk == 'stdout-closed':
        sys.stdout = None
    rerr = io.BytesIO()
    sys.stderr = io.TextIOWrapper(rerr, encoding='utf-8', errors='backslashreplace', write_through=True)
    sys.argv = ['converter21'] + argv(st)
    fs = simfs.Storage(root, 5, st['short'], st['enc'])
    fs.spare = lambda p: '.p' in os.path.basename(p) and p.startswith(os.path.realpath(root) + '/tmp') and not fault.get('cache')
    if fk == 'storage':
        fs.fault_at, fs.fault_err = fault['n'], fault['err']
    elif fk == 'crash':
        fs.fault_at = fault['n']

        def crash():
            # the process dies here: nothing buffered reaches the disk
            fs.dead = True
            raise Crash(fs)
        fs.crash = crash
    lf = None
    if fk == 'interrupt':
        lf = hist.LineFault(int(fault['u'] * max(1, ref_lines)), SimInterrupt('simulated'))
    out = {'crashed': False}

    def go():
        runpy.run_module('converter21', run_name='__main__', alter_sys=True)
    try:
        with fs:
            try:
                if lf:
                    with core.Monitor(on_line=lf.on_line):
                        go()
                else:
                    go()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                if e.code is not None and not isinstance(e.code, int):
                    print(e.code, file=sys.stderr)
            except Crash:
                raise
            except KeyboardInterrupt:
                code = 130
            except BaseException:                            # noqa: BLE001
                traceback.print_exc()
                code = 1
            if sys.stdout is not None:
                try:
                    sys.stdout.flush()
                except BaseException:                        # noqa: BLE001
                    code = 120
    except Crash:
        out['crashed'] = True
        code = 137
    out.update(code=code, stdout=bytes(rout.buf), stderr=rerr.getvalue().decode('utf-8', 'replace'), stdin_fired=rin.fired, stdout_fired=rout.fired,
               storage=list(fs.fired) if fs.fired else None, storage_path=fs.fired_path, where=lf.where if lf else None, n=fs.n,
               opened_w=sorted({os.path.realpath(x.path) for x in fs.opened if x.mode_w}), nout=rout.n, nin=rin.n)
    return out


class Crash(BaseException):
    def __init__(self, fs):
        super().__init__('simulated crash')


def argv(st):
    a = []
    if st.get('f'):
        a += ['-f', st['f']]
    a += ['-t', st['outfmt']]
    if st.get('c'):
        a.append('-c')
    inn = '-' if st['stdin'] else st['inname']
    out = '-' if st['stdout'] else st['outname']
    return a + [inn, out]


def run(sc, refs):
    core.silence()
    root = tempfile.mkdtemp(prefix='c08.', dir=os.environ['VERIF_SCRATCH'])
    try:
        return _run(sc, refs, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(sc, refs, root):
    res = {'violations': [], 'stats': {'faults': {}, 'counters': {'command lines': 0}, 'sets': {}}, 'log': [], 'nontrivial': False}
    fk, cnt = res['stats']['faults'], res['stats']['counters']
    work = os.path.join(root, 'work')
    os.makedirs(work)
    os.makedirs(os.path.join(root, 'tmp'))
    with open(os.path.join(work, 'bystander.krn'), 'w', encoding='utf-8') as f:
        f.write('!! do not touch\n')
    used: set = set()
    any_fault = False
    for n, st in enumerate(sc['steps']):
        ref = refs[n]

        def bad(cls, msg):
            res['violations'].append({'class': cls, 'key': f'{cls}:{st["inp"]["doc"]}:{st["outfmt"]}', 'msg': f'step {n} converter21 {" ".join(argv(st))} ({brief_inp(st)}): {msg}'})

        if not st['stdin']:
            p = os.path.join(work, st['inname'])
            if st.get('missing'):
                if os.path.exists(p):
                    os.remove(p)
            else:
                with open(p, 'wb') as f:
                    f.write(doc_bytes(st['inp']))
                os.utime(p, (st['mtime'], st['mtime']))
        stale_ok = bool(st.get('c')) and not st['stdin'] and st['inname'] in used     # an older parse may be served: what it holds is not checked
        used.add(st['inname'])
        if not st['stdout']:
            for name, text in st.get('previous', {}).items():
                with open(os.path.join(work, name), 'w', encoding='utf-8') as f:
                    f.write(text)
        before = simfs.listing(work)
        o = core.in_child(process, root, st, ref['lines'], timeout=200)
        after = simfs.listing(work)
        cnt['command lines'] += 1
        res['nontrivial'] = True
        fault = st.get('fault') or {}
        fired = None
        if o['crashed']:
            fired = 'crash'
        elif o['storage']:
            fired = f'storage:{o["storage"][0]}:{fault["err"]}'
        elif o['stdin_fired']:
            fired = 'stdin error'
        elif o['stdout_fired']:
            fired = f'stdout:{fault["err"]}'
        elif fault.get('kind') == 'stdout-closed':
            fired = 'stdout closed' if st['stdout'] else None
        elif o['where']:
            fired = 'interrupt'
        if fired:
            fk[fired] = fk.get(fired, 0) + 1
            any_fault = True
        if st['short']:
            fk['short reads and writes'] = fk.get('short reads and writes', 0) + 1
        if st.get('c'):
            fk['cached parse allowed'] = fk.get('cached parse allowed', 0) + 1
        res['log'].append([argv(st), o['code'], fired, o['where'], core.digest(o['stdout'].decode('latin-1')) if not o['stdout'] else len(o['stdout']), len(after)])
        bad_args = st['stdin'] and not st.get('f') or st.get('badext') or st.get('missing')
        changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        stem = os.path.splitext(st['outname'])[0]
        ours = [k for k in changed if re.fullmatch(re.escape(stem) + r'(-\d+)?\.\w+', k)]
        tail = o['stderr'].strip().split('\n')[-1] if o['stderr'].strip() else ''
        claims = any(re.match(r'success\b\W', ln, re.I) for ln in o['stderr'].split('\n'))
        if set(changed) - set(ours):
            bad('other-files', f'changed files that are not its output: {sorted(set(changed) - set(ours))}')
            break
        want = ref['docs'] if not bad_args else None
        okrefs = [want]
        if o['crashed'] or stale_ok:
            continue
        if o['code'] == 0:
            if fired and fired not in ('stdout closed',) and not (st.get('c') and fired.startswith('storage')):
                if fired.startswith('storage') and o['storage_path'] and '.p' in os.path.basename(o['storage_path']):
                    pass
                else:
                    bad('fault-swallowed', f'exit status 0 although: {fired}')
                    break
            if all(w is None for w in okrefs):
                bad('false-success', f'exit status 0, but {ref.get("err") or "the command line is invalid"}; stderr ends {tail[:150]!r}')
                break
            if st['stdout']:
                good = False
                for w in okrefs:
                    try:
                        if w is not None and len(w) == 1 and canon_bytes(st['outfmt'], o['stdout'].decode(st['enc']).encode()) == w[0]:
                            good = True
                    except UnicodeDecodeError:
                        pass
                if not good:
                    exp = next((w for w in okrefs if w), ['?'])
                    bad('incomplete-output', f'exit status 0, but standard output ({len(o["stdout"])} bytes, starts {o["stdout"][:50]!r}) is not the converted document'
                        f' (expected {len(exp)} document(s), the last {len(exp[-1])} characters)')
                    break
                if claims:
                    pass
            else:
                good = False
                seen = []
                for k in sorted(after):
                    if not re.fullmatch(re.escape(stem) + r'(-\d+)?\.\w+', k):
                        continue
                    try:
                        seen.append((k, canon_bytes(st['outfmt'], after[k])))
                    except UnicodeDecodeError:
                        continue
                for w in okrefs:
                    if w is None:
                        continue
                    have = [k for k, c in seen if c in w]
                    if all(any(c == d for _, c in seen) for d in w) and any(re.search(r'(?<![\w.-])' + re.escape(k) + r'(?![\w.-])', tail) for k in have):
                        good = True
                if not good:
                    bad('incomplete-output', f'exit status 0 and {tail[:120]!r}, but the files {[k for k, _ in seen]} are not the converted document(s)')
                    break
                if o['stdout']:
                    bad('stdout-noise', f'wrote {o["stdout"][:80]!r} to standard output')
                    break
        else:
            if claims:
                bad('false-claim', f'exit status {o["code"]}, but it printed {tail[:150]!r}')
                break
            reason = fired or bad_args or any(w is None for w in okrefs) or (st['stdout'] and len(want or []) > 1) or (st['stdout'] and st['outfmt'] in ('midi', 'text'))   # music21 cannot
            if not reason and st['enc'] != 'utf-8':
                reason = True                                # standard input or output could not be decoded/encoded in that locale
            if not reason and st.get('c') and any_fault:
                reason = True                                # the cache was damaged by an earlier crash
            if not reason:
                bad('spurious-failure', f'exit status {o["code"]} although nothing failed; stderr ends: {tail[:200]!r}')
                break
            writing = o['storage'] and o['storage_path'] and os.path.basename(o['storage_path']) in ours or any(os.path.basename(x) in ours for x in o['opened_w']) and fired
            if ours and not writing and not (want and len(want) > 1):
                bad('output-damaged', f'exit status {o["code"]}, {fired or ref.get("err")}, but the output file {ours} was changed')
                break
    res['sig'] = core.digest([[argv(s), s['inp'], bool(s.get('fault'))] for s in sc['steps']] + res['log'])
    return res


def brief_inp(st):
    i = st['inp']
    s = i['doc'] + (f' edit={i["edit"]}' if i.get('edit') else '') + (f' damage={[d[0] for d in i["damage"]]}' if i.get('damage') else '')
    return s + (f' FAULT {st["fault"]}' if st.get('fault') else '')


class C08(PropBase):
    ID = 'C08'
    REGISTER = False
    RUNS = {'quick': 1000, 'thorough': 40000}
    TECHNIQUE = 'seeded deterministic simulation: histories of command-line runs with simulated stdin, stdout and storage that fail, split, crash or serve stale caches'
    LEVEL_NOTE = ('Sampled histories of 1-3 runs of the real __main__ module, each in a fresh process image that shares only files with the others. Oracle: exit status, standard output, '
                  'error output and files versus the same conversion through the API on a healthy machine.')
    RULE = 'one run = one history of command lines; distinct by command lines, inputs and what happened'
    STUB = ['standard input/output (Python streams over in-memory raw devices)', 'storage (real files behind a raw layer that fails on demand)',
            'interpreter exit (flush of stdout and exit status emulated as CPython does)']
    ASSUMPTIONS = ['a crash loses what is in Python\'s buffers; the kernel keeps what was written']

    def gen_inp(self, rng, names):
        if rng.random() < 0.1:
            return {'doc': rng.choice(sorted(ABC))}
        inp = {'doc': rng.choice(names)}
        fmt = ops.doc_fmt(inp['doc'])
        if fmt != 'musicxml':
            if rng.random() < 0.4:
                inp['edit'] = [rng.choice(['pitch', 'title']), rng.random()]
            elif rng.random() < 0.15:
                inp['damage'] = hist.gen_damage(rng, fmt)
        return inp

    def gen(self, rng, tier, index):
        names = [d for d in ops.light(ops.docs()) if 'utf16' not in d]
        steps = []
        base = self.gen_inp(rng, names)
        if index < len(names):
            base = {'doc': names[index]}
        for i in range(rng.choice([1, 2, 2, 3])):
            inp = dict(base)
            if i and rng.random() < 0.6:
                fmt = doc_fmt(base['doc'])
                if fmt not in ('abc', 'musicxml'):
                    inp = {'doc': base['doc'], 'edit': ['pitch' if rng.random() < 0.7 else 'title', rng.random()]}
            elif i:
                inp = self.gen_inp(rng, names)
            fmt = doc_fmt(inp['doc'])
            st = {'inp': inp, 'stdin': rng.random() < 0.25, 'stdout': rng.random() < 0.35, 'entropy': rng.getrandbits(30), 'mtime': 1700000000 + (rng.choice([0, 0, 0, 5, -5]) if i else 0),
                  'outfmt': rng.choices(['humdrum', 'mei', 'musicxml', 'midi', 'text'], weights=[8, 8, 2, 1, 1])[0],
                  'short': rng.random() < 0.25, 'enc': 'utf-8' if rng.random() < 0.9 else rng.choice(['ascii', 'latin-1'])}
            ext = rng.choice(EXTS[fmt])
            st['inname'] = 'in.' + ext
            if st['stdin'] or rng.random() < 0.2:
                st['f'] = fmt
            r = rng.random()
            if r < 0.04:
                st['f'] = None
                st['badext'] = not st['stdin']
                st['inname'] = 'in.xyzzy'
            elif r < 0.08 and st.get('f') and not st['stdin']:
                st['inname'] = 'in.xyzzy'                    # fine: the format is given
            elif r < 0.11 and not st['stdin']:
                st['missing'] = True
            if rng.random() < 0.12:
                st['c'] = True
            st['outname'] = 'out.' + rng.choice([OUT_EXT[st['outfmt']], OUT_EXT[st['outfmt']], 'txt', 'krn', 'mei'])
            if rng.random() < 0.5:
                st['previous'] = {'out.' + OUT_EXT[st['outfmt']]: 'previous contents\n' * rng.choice([1, 5000])}
                if rng.random() < 0.3:
                    st['previous']['out.zzz'] = 'unrelated\n'
            r = rng.random()
            if r < 0.22:
                st['fault'] = {'kind': 'storage', 'n': rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 11, 15]), 'err': rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EDQUOT'])}
            elif r < 0.34:
                st['fault'] = {'kind': 'interrupt', 'u': rng.random()}
            elif r < 0.42:
                st['fault'] = {'kind': 'crash', 'n': rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 11])}
            elif r < 0.47:
                st['fault'] = {'kind': 'stdin', 'n': rng.choice([0, 0, 1, 2]), 'err': 'EIO'}
                st['stdin'] = True
                st['f'] = st.get('f') or fmt
                st.pop('badext', None)
                st.pop('missing', None)
            elif r < 0.58:
                st['fault'] = {'kind': 'stdout', 'n': rng.choice([0, 0, 1, 2]), 'err': rng.choice(['ENOSPC', 'EPIPE', 'EIO'])}
                st['stdout'] = True
            elif r < 0.6:
                st['fault'] = {'kind': 'stdout-closed'}
                st['stdout'] = True
            steps.append(st)
        return {'steps': steps}

    def execute(self, ctx, sc, timeout):
        refs = []
        for st in sc['steps']:
            refs.append(ctx.baseline(reference, {'inp': st['inp'], 'outfmt': st['outfmt'], 'stdin': st['stdin'], 'name': st['inname'], 'enc': st['enc'] if st['stdin'] else ''}, timeout=timeout))
        return core.in_child(run, sc, refs, timeout=timeout * 2)

    def shrink(self, sc):
        s = sc['steps']
        for i in range(len(s)):
            if len(s) > 1:
                yield {'steps': s[:i] + s[i + 1:]}
        for i, st in enumerate(s):
            for k, v in (('fault', None), ('short', False), ('enc', 'utf-8'), ('c', False), ('previous', {}), ('f', None)):
                if st.get(k) not in (v, None) and not (k == 'f' and st['stdin']):
                    yield {'steps': s[:i] + [dict(st, **{k: v})] + s[i + 1:]}
            if st['inp'].get('edit') or st['inp'].get('damage'):
                yield {'steps': s[:i] + [dict(st, inp={'doc': st['inp']['doc']})] + s[i + 1:]}

    def brief(self, sc):
        return '; '.join(' '.join(argv(st)) + f' ({brief_inp(st)})' for st in sc['steps'])


PROP = C08()
