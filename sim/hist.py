"""Histories of conversions: one op = one conversion a client asks for (plain JSON), run against the real code.

op = {'op': 'import'|'export'|'convert', 'doc': name, 'edit': None|[kind,u], 'damage': None|{...},
      'via': 'data'|'file'|'m21', 'lenient': bool, 'fmt': 'humdrum'|'mei', 'opts': {...}, 'reuse': bool}
  import  : text or file -> score
  export  : score (parsed from doc) -> document
  convert : import, then export the result (what the command line does)
"""
from __future__ import annotations

import os

from . import core, decor, dump, ops


def damage_text(text: str, dmg) -> str:
    """Loss or corruption of stored data; dmg = list of [kind, u, v] applied in turn."""
    for kind, u, v in dmg or ():
        n = len(text)
        if not n:
            return text
        i = int(u * n)
        if kind == 'truncate':
            text = text[:i]
        elif kind == 'lose':
            j = min(n, i + 1 + int(v * 200))
            text = text[:i] + text[j:]
        elif kind == 'dup':
            j = min(n, i + 1 + int(v * 200))
            text = text[:j] + text[i:]
        elif kind == 'flip':
            c = chr((ord(text[i]) ^ (1 << int(v * 7))) & 0x7f or 1)
            text = text[:i] + c + text[i + 1:]
        elif kind in ('loseline', 'dupline', 'swaplines', 'swaptok', 'junkline', 'tabs'):
            lines = text.split('\n')
            m = len(lines)
            i = int(u * m)
            j = int(v * m)
            if kind == 'loseline':
                del lines[i]
            elif kind == 'dupline':
                lines.insert(j, lines[i])
            elif kind == 'swaplines':
                lines[i], lines[j] = lines[j], lines[i]
            elif kind == 'junkline':
                lines.insert(i, ['', '\t', '*', '.', '=', '*-', '*^', '*v\t*v', '!!', '*x', '**kern', '\x00', '4c', '*+', '!!!OTL', '!LO:X:'][int(v * 16)])
            elif kind == 'tabs':
                lines[i] = lines[i].replace('\t', '\t\t' if v < 0.5 else ' ')
            elif kind == 'swaptok':
                a, b = lines[i].split('\t'), lines[j].split('\t')
                x, y = int(u * 977) % len(a), int(v * 977) % len(b)
                a[x], b[y] = b[y], a[x]
                if i != j:
                    lines[i], lines[j] = '\t'.join(a), '\t'.join(b)
            text = '\n'.join(lines)
        elif kind == 'token':
            # replace one token of one line by one found elsewhere
            lines = text.split('\n')
            i, j = int(u * len(lines)), int(v * len(lines))
            a, b = lines[i].split('\t'), lines[j].split('\t')
            a[int(u * 977) % len(a)] = b[int(v * 977) % len(b)]
            lines[i] = '\t'.join(a)
            text = '\n'.join(lines)
        elif kind in ('chord', 'mark', 'dots'):
            # a data token that is still a token: two tokens as one chord, a signifier more, other dots
            import re
            lines = text.split('\n')
            ds = [k for k, ln in enumerate(lines) if ln and ln[0] not in '!*=']
            if not ds:
                continue
            i = ds[int(u * len(ds))]
            a = lines[i].split('\t')
            x = int(u * 977) % len(a)
            if kind == 'chord':
                b = lines[ds[int(v * len(ds))]].split('\t')
                # (sometimes one of the two gets a signifier the other has not)
                m = ' qqQ.~[;'[max(0, int(v * 7919) % 16 - 8)].strip()
                a[x] = b[int(v * 977) % len(b)] + m + ' ' + a[x] if int(v * 6007) % 2 else a[x] + ' ' + b[int(v * 977) % len(b)] + m
            elif kind == 'mark':
                c = 'qQ.[]_;~^TtMmSW$Oykxzp@&{}()<>:"`\'sLJKk/\\|n#-%0123P,N*'[int(v * 48)]
                w = int(v * 9973) % (len(a[x]) + 1)
                a[x] = a[x][:w] + c + a[x][w:]
            else:
                a[x] = re.sub(r'(\d+)(\.*)', lambda m: m.group(1) + '.' * int(v * 4), a[x], count=1)
            lines[i] = '\t'.join(a)
            text = '\n'.join(lines)
        elif kind == 'attr':
            # corrupt one XML attribute value
            import re
            ms = list(re.finditer(r'="([^"]*)"', text))
            if ms:
                m = ms[int(u * len(ms))]
                o = ms[int(v * len(ms))].group(1)
                text = text[:m.start(1)] + o + text[m.end(1):]
        elif kind == 'elem':
            # lose one empty-element tag
            import re
            ms = list(re.finditer(r'<[A-Za-z]\w*\b[^<>]*/>', text))
            if ms:
                m = ms[int(u * len(ms))]
                text = text[:m.start()] + text[m.end():]
    return text


def op_text(op) -> str:
    fmt = ops.doc_fmt(op['doc'])
    return damage_text(ops.edit_text(fmt, ops.doc_text(op['doc']), op.get('edit')), op.get('damage'))


_reused: dict = {}
_touched: dict = {}      # id of a score -> (the score, how many of its changes were made)


def new_converter(fmt, reuse=False):
    import converter21
    if reuse and fmt in _reused:
        return _reused[fmt]
    c = converter21.HumdrumConverter() if fmt == 'humdrum' else converter21.MEIConverter()
    if reuse:
        _reused[fmt] = c
    return c


def doc_path(op) -> str:
    return os.path.join(os.environ['VERIF_SCRATCH'], 'docs', op['doc'])


def write_docs():
    """Corpus files at a fixed place, so that every process imports the same path."""
    d = os.path.join(os.environ['VERIF_SCRATCH'], 'docs')
    if not os.path.isdir(d):
        os.makedirs(d)
        for n in ops.docs():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(ops.doc_bytes(n))
        d += '_x'
        os.makedirs(d)
        for n in ops.docs():
            # the same in the encodings that are tried after UTF-8
            fmt = ops.doc_fmt(n)
            try:
                b = ('!!!ONM: \u00c9t\u00e9\n' + ops.doc_text(n)).encode('latin-1') if fmt == 'humdrum' else ops.doc_text(n).encode('utf-16') if fmt == 'mei' else None
            except UnicodeError:
                b = None
            if b is not None:
                with open(os.path.join(d, n), 'wb') as f:
                    f.write(b)


def do_import(op):
    fmt = ops.doc_fmt(op['doc'])
    if fmt == 'musicxml':
        import music21 as m21
        c = m21.converter.subConverters.ConverterMusicXML()
        c.parseData(op_text(op))
        return c.stream
    kw = {}
    if fmt == 'humdrum' and op.get('lenient'):
        kw['acceptSyntaxErrors'] = True
    via = op.get('via', 'data')
    if via == 'm21':
        import music21 as m21
        return m21.converter.parseData(op_text(op), format=fmt, **kw)
    conv = new_converter(fmt, op.get('reuse', False))
    if via == 'file' and not op.get('edit') and not op.get('damage'):
        p = doc_path(op)
        if op.get('enc'):
            x = os.path.join(os.environ['VERIF_SCRATCH'], 'docs_x', op['doc'])
            p = x if os.path.exists(x) else p
        return conv.parseFile(p, **kw)
    return conv.parseData(op_text(op), **kw)


def export_file(obj, op):
    """Export through the converter's own write(), to a file."""
    p = os.path.join(os.environ['VERIF_SCRATCH'], f'out-{os.getpid()}.{ops.EXT[op["fmt"]]}')
    try:
        got = new_converter(op['fmt']).write(obj, op['fmt'], fp=p, **{k: v for k, v in op['opts'].items() if k != 'reservedRDFKernSignifiers'})
        with open(got, encoding='utf-8', newline='') as f:
            return f.read()
    finally:
        if os.path.exists(p):
            os.unlink(p)


class Result:
    """outcome: comparable dict; obj: the score handed to the client, if any"""
    __slots__ = ('out', 'obj', 'exc')

    def __init__(self, out, obj=None, exc=None):
        self.out = out
        self.obj = obj
        self.exc = exc


def perform(op, full=False, sink=None, score=None, dumped=True) -> Result:
    """Run one op.  Exceptions become outcomes; BaseExceptions that are not Exceptions propagate."""
    core.ENTROPY.reseed(op.get('entropy', 7))
    try:
        if op['op'] == 'import':
            s = do_import(op)
            return Result(ops.outcome_of_score(s, full) if dumped else None, s)
        if op['op'] in ('export', 'convert'):
            s = score if score is not None else do_import(op)
            if op.get('decor') and score is None:
                decor.decorate(s, op['decor'])
            ops.observe(s)
            if op.get('touch'):
                done = _touched.get(id(s), (s, 0))[1] if score is not None else 0
                decor.touch(s, op['touch'][done:])
                if score is not None:
                    _touched[id(s)] = (s, len(op['touch']))
            obj = ops.make_subject(s, op['subject'], op['su']) if op.get('subject') else s
            text = export_file(obj, op) if op.get('tofile') else ops.export_text(obj, op['fmt'], op['opts'], sink)
            return Result(ops.outcome_of_doc(op['fmt'], text, full), s)
        raise core.HarnessError(f'unknown op {op}')
    except core.HarnessError:
        raise
    except Exception as e:                                   # noqa: BLE001
        return Result(ops.outcome_of_exception(e), None, e)


def solo(op, full=False):
    """The reference: this op as the first conversion of a fresh process."""
    core.quiet_gc()        # as in the runs compared with it
    return perform(op, full).out


def solo_counted(op):
    """The reference, with the number of converter21 lines it executes."""
    n = [0]
    core.quiet_gc()

    def on_line(code, line):
        n[0] += 1
    with core.Monitor(on_line=on_line):
        out = perform(op).out
    return {'out': out, 'lines': n[0]}


class LineFault:
    """Raises exc when converter21 is about to execute its k-th line of this op."""

    def __init__(self, k, exc):
        self.n = 0
        self.k = k
        self.exc = exc
        self.where = None

    def on_line(self, code, line):
        n = self.n
        self.n = n + 1
        if n == self.k:
            self.where = f'{os.path.basename(code.co_filename)}:{code.co_qualname}'
            raise self.exc


# ---------------------------------------------------------------------- generation

def stem(n):
    return n.split('.', 1)[0].removesuffix('_k').removesuffix('_m').removesuffix('_x').removesuffix('_z')


def gen_op(rng, pool, kinds=('import', 'export', 'convert'), damage_rate=0.0, decor_rate=0.0):
    doc = rng.choice(pool)
    fmt = ops.doc_fmt(doc)
    kind = rng.choice(kinds)
    if fmt == 'musicxml' and kind == 'import':
        kind = 'convert'
    op = {'op': kind, 'doc': doc, 'entropy': 7}
    if kind == 'import':
        op['via'] = rng.choices(['data', 'file', 'm21'], weights=[4, 3, 2])[0]
        if fmt == 'humdrum' and rng.random() < 0.25:
            op['lenient'] = True
        if rng.random() < 0.3:
            op['reuse'] = True
    else:
        op['fmt'] = rng.choice(['humdrum', 'mei'])
        op['opts'] = ops.gen_opts(rng, op['fmt'], direct=True)
        if rng.random() < decor_rate:
            op['decor'] = decor.gen(rng)
    r = rng.random()
    if r < 0.25 and fmt != 'musicxml':
        op['edit'] = [rng.choice(['pitch', 'pitch', 'title', 'comment']), rng.random()]
    if rng.random() < damage_rate and fmt != 'musicxml':
        op['damage'] = gen_damage(rng, fmt)
    return op


LINE_DMG = ('loseline', 'dupline', 'swaplines', 'swaptok', 'junkline', 'tabs', 'token', 'token', 'token', 'chord', 'mark', 'mark', 'dots')
BYTE_DMG = ('truncate', 'lose', 'dup', 'flip')


def gen_damage(rng, fmt):
    n = rng.choice([1, 1, 1, 2, 3])
    out = []
    for _ in range(n):
        if fmt == 'humdrum':
            k = rng.choice(LINE_DMG + BYTE_DMG)
        else:
            k = rng.choice(BYTE_DMG + ('attr', 'attr', 'attr', 'elem', 'elem', 'loseline', 'dupline', 'swaplines'))
        out.append([k, rng.random(), rng.random()])
    return out


def brief_op(op) -> str:
    if op['op'] == 'gc':
        return 'gc'
    s = f'{op["op"]} {op["doc"]}'
    if op.get('edit'):
        s += f' edit={op["edit"][0]}'
    if op.get('damage'):
        s += f' damage={[d[0] for d in op["damage"]]}'
    if op['op'] == 'import':
        s += f' via={op.get("via")}' + (' lenient' if op.get('lenient') else '') + (' reused-converter' if op.get('reuse') else '')
    else:
        s += f' -> {op["fmt"]}{op["opts"]}'
    s += ''.join(f' {k}={op[k]}' for k in ('enc', 'subject', 'tofile') if op.get(k))
    if op.get('decor'):
        s += f' with {[x[0] for x in op["decor"]]}'
    if op.get('touch'):
        s += f' after {[x[0] for x in op["touch"]]}'
    if op.get('fault'):
        s += f' FAULT={op["fault"]}'
    return s


# ---------------------------------------------------------------------- faults placed by code site

def solo_sites(op):
    """The reference outcome, with every converter21 source line it executes and how often."""
    sites: dict = {}
    core.quiet_gc()

    def on_line(code, line):
        k = (os.path.basename(code.co_filename), code.co_qualname, line)
        sites[k] = sites.get(k, 0) + 1
    with core.Monitor(on_line=on_line):
        out = perform(op).out
    return {'out': out, 'lines': sum(sites.values()), 'sites': sorted([*k, n] for k, n in sites.items())}


def _token(v, depth=3):
    """A value as something to compare (no addresses, so that every process sees the same)."""
    if v is None or isinstance(v, (str, int, float, bytes, type)):
        return v if not isinstance(v, type) else v.__qualname__
    t = type(v)
    if depth and isinstance(v, dict):
        return (t.__name__, len(v), tuple((_token(a, 1), _token(b, depth - 1)) for a, b in list(v.items())[-40:]))
    if depth and isinstance(v, (list, tuple)):
        return (t.__name__, len(v), tuple(_token(a, depth - 1) for a in v[-40:]))
    if isinstance(v, (set, frozenset)):
        return (t.__name__, len(v))
    if hasattr(v, 'cache_info'):
        return (t.__name__, str(v.cache_info()))
    if hasattr(v, '__code__'):
        return (t.__name__, _token(v.__defaults__, depth - 1), _token(v.__kwdefaults__, depth - 1), _token(v.__dict__, depth - 1)) if depth > 1 else t.__name__
    if depth and t.__module__.startswith('converter21') and hasattr(v, '__dict__'):
        return (t.__name__, _token(vars(v), depth - 1))
    return t.__name__


def shared_state():
    """What converter21's modules and classes hold: {(owner, name): value}"""
    import sys
    out = {}
    for mn, m in list(sys.modules.items()):
        if mn.split('.')[0] != 'converter21' or m is None:
            continue
        for k, v in list(vars(m).items()):
            if isinstance(v, type):
                if v.__module__ == mn:
                    for a, w in list(vars(v).items()):
                        if isinstance(w, (staticmethod, classmethod)):
                            w = w.__func__
                        if a not in ('__dict__', '__weakref__', '__doc__', '__module__'):
                            out[(v.__qualname__, a)] = _token(w)
            elif type(v).__name__ != 'module' and k[:2] != '__':
                out[(mn, k)] = _token(v)
    return out


def _names(code, table):
    """line -> names of attributes and globals it uses, for one code object"""
    import dis
    if code not in table:
        t: dict = {}
        line = None
        for i in dis.get_instructions(code):
            line = i.positions.lineno if i.positions and i.positions.lineno else line
            if i.opname.startswith(('LOAD_ATTR', 'STORE_ATTR', 'LOAD_GLOBAL', 'STORE_GLOBAL', 'LOAD_NAME', 'LOAD_METHOD', 'DELETE_ATTR', 'LOAD_SUPER_ATTR')):
                t.setdefault(line, set()).add(i.argval)
        table[code] = t
    return table[code]


def solo_shared(op):
    """As solo_sites, and which of the lines use state that is shared by all conversions of the process and that this one changed."""
    core.quiet_gc()
    sites: dict = {}
    codes: dict = {}
    n = [0]
    s0 = shared_state()
    changed: set = set()

    def compare():
        s1 = shared_state()
        if s1 != s0:
            for k in set(s0) | set(s1):
                if s0.get(k, s0) != s1.get(k, s1):
                    changed.add(k)

    def on_line(code, line):
        k = (os.path.basename(code.co_filename), code.co_qualname, line)
        if k not in sites:
            sites[k] = 0
            codes[k] = code
        sites[k] += 1
        n[0] += 1
        if n[0] in (300, 1000) or n[0] % 3000 == 0:
            compare()
    with core.Monitor(on_line=on_line):
        out = perform(op).out
    compare()
    names = {k[1] for k in changed}
    table: dict = {}
    hit = set()
    for k, code in codes.items():
        if _names(code, table).get(k[2], set()) & names or k[1] in names or k[1].split('.')[-1] in names:
            hit.add(k)
    # and the line after each: what has been written there is what others now see
    by_fn: dict = {}
    for k in sorted(sites):
        by_fn.setdefault(k[:2], []).append(k)
    for lst in by_fn.values():
        for a, b in zip(lst, lst[1:]):
            if a in hit and b not in hit:
                hit.add(('+',) + b)
    hit = {h[1:] if h[0] == '+' else h for h in hit}
    return {'out': out, 'lines': n[0], 'sites': sorted([*k, c] for k, c in sites.items()),
            'shared': sorted([*k, sites[k]] for k in hit), 'changed': sorted(map(list, changed))}


def solo_cold(op):
    """As solo_shared, and which of the lines a second run in the same process does not execute (what is set up once)."""
    ref = solo_shared(op)
    again = {tuple(s[:3]) for s in solo_sites(op)['sites']}
    fns = {s[:2] for s in again}
    cold = [s for s in ref['sites'] if tuple(s[:3]) not in again]
    # whole functions that never run again come first: that is where tables are set up
    ref['cold'] = [s for s in cold if tuple(s[:2]) not in fns] or cold
    return ref


def _guarded(code, table):
    """Lines of one code object that lie inside a try or with block of its own."""
    import dis
    if code not in table:
        ins = {i.offset: i for i in dis.get_instructions(code)}
        t: set = set()
        for e in dis._parse_exception_table(code):
            h = ins.get(e.target)
            if h is None or h.opname != 'PUSH_EXC_INFO':
                continue
            for o in range(e.start, e.end, 2):
                i = ins.get(o)
                if i is not None and i.positions and i.positions.lineno:
                    t.add(i.positions.lineno)
        table[code] = t
    return table[code]


def solo_guarded(op):
    """As solo_sites, and which of the lines lie inside a try or with block."""
    sites: dict = {}
    guard: dict = {}
    table: dict = {}
    core.quiet_gc()

    def on_line(code, line):
        k = (os.path.basename(code.co_filename), code.co_qualname, line)
        sites[k] = sites.get(k, 0) + 1
        if line in _guarded(code, table):
            guard[k] = guard.get(k, 0) + 1
    with core.Monitor(on_line=on_line):
        out = perform(op).out
    return {'out': out, 'lines': sum(sites.values()), 'sites': sorted([*k, n] for k, n in sites.items()), 'guarded': sorted([*k, n] for k, n in guard.items())}


def sites_ref(faults):
    """The reference function needed to place these faults."""
    by = {f.get('by') for f in faults}
    return solo_cold if 'cold' in by else solo_shared if 'shared' in by else solo_guarded if 'guarded' in by else solo_sites


def pick_site(ref, fault):
    """fault: {'by': 'function'|'line'|'time'|'cold'|'shared'|'guarded', 'u': ., 'v': .} -> (file, function, line, occurrence), or an overall line number"""
    sites = ref['sites']
    if fault['by'] == 'shared' and ref.get('shared'):
        sites = ref['shared']
    if fault['by'] == 'guarded' and ref.get('guarded'):
        sites = ref['guarded']
    if fault['by'] == 'cold' and ref.get('cold'):
        sites = ref['cold']
        if int(fault['v'] * 7919) % 2:
            # by steps: the loops that fill a table
            k = int(fault['u'] * sum(s[3] for s in sites))
            for s in sites:
                if k < s[3]:
                    return (s[0], s[1], s[2], k)
                k -= s[3]
    if not sites:
        return None
    if fault['by'] == 'time':
        return int(fault['u'] * ref['lines'])
    if fault['by'] == 'function':
        fns = sorted({(s[0], s[1]) for s in sites})
        fn = fns[int(fault['u'] * len(fns))]
        sites = [s for s in sites if (s[0], s[1]) == fn]
        s = sites[int(fault['v'] * len(sites))]
        w = fault['v'] * len(sites) % 1.0
    else:
        s = sites[int(fault['u'] * len(sites))]
        w = fault['v']
    return (s[0], s[1], s[2], int(w * s[3]))


class SiteFault:
    """Raises exc when converter21 is about to execute the chosen line for the chosen time."""

    def __init__(self, target, exc):
        self.exc = exc
        self.where = None
        self.n = 0
        self.at = target if isinstance(target, int) else None
        self.target = None if isinstance(target, int) else target
        self.after = 0

    def on_line(self, code, line):
        if self.where is not None:
            self.after += 1
            return
        if self.at is not None:
            n = self.n
            self.n = n + 1
            if n != self.at:
                return
        else:
            f, q, ln, occ = self.target
            if line != ln or code.co_qualname != q or os.path.basename(code.co_filename) != f:
                return
            n = self.n
            self.n = n + 1
            if n != occ:
                return
        self.where = f'{os.path.basename(code.co_filename)}:{code.co_qualname}:{line}'
        raise self.exc


def gen_site(rng, cold=0, shared=0, guarded=0):
    return {'by': rng.choices(['function', 'line', 'time', 'cold', 'shared', 'guarded'], weights=[5, 3, 2, cold, shared, guarded])[0], 'u': rng.random(), 'v': rng.random()}
