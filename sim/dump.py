"""Address-free, non-mutating dumps of music21 scores, and canonical forms of exported documents."""
from __future__ import annotations

import enum
import fractions
import re
import types
import weakref

SKIP = frozenset((
    # bookkeeping that music21 itself rewrites while merely looking at a stream
    'sites', '_sites', '_activeSite', '_activeSiteStoredOffset', '_cache', '_derivation', '_offsetDict',
    'streamStatus', 'isSorted', 'isFlat', '_unlinkedDuration', '_simhash', '_simhash_owner',
    '_client', 'client', '_activeSiteRef', 'isSortedCache', '_elementTree', '_mutable',
    '_naiveOffset', '_priority_cache', 'rightBarlineCached', '_partAbbreviationCached',
))
_UUID = re.compile(r'[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[0-9a-f]{4}-[0-9a-f]{12}')
_HEXADDR = re.compile(r'0x[0-9a-f]{6,}')
_MD5 = re.compile(r'\b[PI][0-9a-f]{32}\b')
ADDR = 1 << 40   # no musical quantity is that large
MEM = 0xFFFFFF   # ints above this in an .id are memory locations


def canon_str(s: str, names: dict) -> str:
    if '-4' in s and _UUID.search(s):
        s = _UUID.sub(lambda m: names.setdefault(m.group(0), f'<uuid{len(names)}>'), s)
    if len(s) > 32 and _MD5.search(s):
        # music21's random part and instrument ids
        s = _MD5.sub(lambda m: names.setdefault(m.group(0), f'<md5{len(names)}>'), s)
    if '0x' in s:
        s = _HEXADDR.sub('0xADDR', s)
    return s


def _attrs(obj):
    """(name, value) of every stored attribute, without triggering properties."""
    out = {}
    d = getattr(obj, '__dict__', None)
    if d:
        out.update(d)
    for cls in type(obj).__mro__:
        slots = cls.__dict__.get('__slots__', ())
        if isinstance(slots, str):
            slots = (slots,)
        for s in slots:
            if s in ('__weakref__', '__dict__'):
                continue
            if s.startswith('__') and not s.endswith('__'):
                s = f'_{cls.__name__.lstrip("_")}{s}'
            try:
                out[s] = object.__getattribute__(obj, s)
            except AttributeError:
                pass
    return out


class Dumper:
    """
    identity=True adds which object sits where (for before/after comparison in one process);
    without it the dump can be compared across processes.
    """
    def __init__(self, identity: bool = False):
        import music21 as m21
        self.m21 = m21
        self.identity = identity
        self.memo: dict[int, str] = {}
        self.keep: list = []
        self.names: dict[str, str] = {}
        self.lines: list[str] = []

    def emit(self, path, text):
        self.lines.append(f'{path} = {text}')

    def dump(self, obj, path='score') -> list[str]:
        stack_limit = 4000
        import sys
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(max(old, stack_limit))
        try:
            self.visit(obj, path)
        finally:
            sys.setrecursionlimit(old)
        return self.lines

    def visit(self, v, path):
        if v is None or v is True or v is False:
            self.emit(path, repr(v))
            return
        if isinstance(v, enum.Enum):
            self.emit(path, f'{type(v).__name__}.{v.name}')
            return
        if isinstance(v, str):
            self.emit(path, repr(canon_str(v, self.names)))
            return
        if isinstance(v, int) and abs(v) > ADDR:
            self.emit(path, '<mem>')
            return
        if isinstance(v, (int, float)):
            self.emit(path, repr(float(v)) if v == v else 'nan')
            return
        if isinstance(v, fractions.Fraction):
            self.emit(path, f'{v.numerator}/{v.denominator}' if v.denominator != 1 else repr(float(v)))
            return
        if isinstance(v, bytes):
            self.emit(path, repr(v))
            return
        if isinstance(v, (weakref.ref, weakref.ProxyTypes)):
            self.emit(path, '<weakref>')
            return
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, type, types.ModuleType)):
            self.emit(path, f'<{getattr(v, "__qualname__", getattr(v, "__name__", "?"))}>')
            return
        if isinstance(v, dict) and type(v).__module__ in ('builtins', 'collections'):
            if not v:
                self.emit(path, '{}')
            for k, x in self._items(v):
                self.visit(x, f'{path}{{{k}}}')
            return
        if isinstance(v, (list, tuple)) and type(v).__module__ == 'builtins':
            self.emit(path, f'len {len(v)}')
            for i, x in enumerate(v):
                self.visit(x, f'{path}[{i}]')
            return
        if isinstance(v, (set, frozenset)):
            subs = []
            for x in v:
                if isinstance(x, self.m21.prebase.ProtoM21Object):
                    subs.append(f'#{self.memo.get(id(x), "new")}:{type(x).__name__}')
                else:
                    subs.append(canon_str(repr(x), self.names))
            self.emit(path, 'set ' + ', '.join(sorted(subs)))
            return
        if isinstance(v, types.GeneratorType):
            self.emit(path, '<generator>')
            return
        self.visit_object(v, path)

    def _items(self, d):
        prim = []
        rest = []
        for k, x in d.items():
            if isinstance(k, (str, int, float, bool, type(None), fractions.Fraction)):
                prim.append((canon_str(repr(k), self.names) if not isinstance(k, int) or abs(k) < MEM else '<mem>', x))
            elif isinstance(k, enum.Enum):
                prim.append((k.name, x))
            elif isinstance(k, tuple):
                prim.append((canon_str(repr(k), self.names), x))
            else:
                rest.append((f'#{self.memo.get(id(k), "new")}', x))
        prim.sort(key=lambda p: p[0])
        return prim + rest

    def visit_object(self, v, path):
        n = self.memo.get(id(v))
        cls = type(v).__name__
        if n is not None:
            self.emit(path, f'-> {n} {cls}')
            return
        self.memo[id(v)] = path
        self.keep.append(v)
        m21 = self.m21
        if isinstance(v, m21.duration.Duration):
            self.emit(path, f'{cls} {self.duration(v)}')
            return
        if isinstance(v, (m21.style.Style, m21.editorial.Editorial)) or cls == 'Derivation':
            body = self.default_free(v)
            self.emit(path, 'default' if not body else f'{cls} {body}')
            return
        if isinstance(v, m21.base.Music21Object):
            ident = f' @{id(v)}' if self.identity else ''
            self.emit(path, f'{cls}{ident}')
            if isinstance(v, m21.stream.Stream):
                self.stream(v, path)
        else:
            self.emit(path, cls)
        for k, x in sorted(_attrs(v).items()):
            if k in SKIP or 'ache' in k:
                continue
            if k == '_microtone' and x is not None and not x.cents and x.harmonicShift == 1:
                x = None                                     # created on first look
            if k in ('_elements', '_endElements') and isinstance(v, m21.stream.Stream):
                continue
            if k == '_id':
                if isinstance(x, int) and abs(x) > MEM:
                    x = '<mem>'
                elif isinstance(x, str):
                    x = canon_str(x, self.names)
                self.emit(f'{path}._id', repr(x))
                continue
            if k in ('_style', '_editorial'):
                if x is None:
                    self.emit(f'{path}.{k}', 'default')
                    continue
            if k in ('_duration', 'duration') and x is None:
                self.emit(f'{path}.{k}', 'None')
                continue
            self.visit(x, f'{path}.{k}')

    def default_free(self, v):
        """attributes of a Style/Editorial object that differ from a freshly made one"""
        try:
            ref = type(v)()
            refd = _attrs(ref)
        except Exception:                                    # noqa: BLE001
            refd = {}
        sub = []
        items = dict(_attrs(v))
        if isinstance(v, dict):
            items.update({f'[{k}]': x for k, x in v.items()})
        for k, x in sorted(items.items()):
            if k in SKIP:
                continue
            y = refd.get(k, _MISSING)
            if y is not _MISSING:
                try:
                    if x == y or (not x and not y):
                        continue
                except Exception:                            # noqa: BLE001
                    pass
            elif x is None or (isinstance(x, (list, dict, tuple, str)) and not x):
                continue
            if isinstance(x, (str, int, float, type(None), fractions.Fraction)):
                sub.append(f'{k}={canon_str(repr(x), self.names)}')
            else:
                d = Dumper(False)
                d.names = self.names
                sub.append(f'{k}={{{"; ".join(d.dump(x, "s"))}}}')
        return ', '.join(sub)

    def stream(self, s, path):
        for part in ('_elements', '_endElements'):
            els = s.__dict__.get(part, [])
            if not els and part == '_endElements':
                continue
            self.emit(f'{path}.{part}', f'len {len(els)}')
            for i, el in enumerate(els):
                try:
                    # the offsets in a spanner's private storage mean nothing, its order does
                    off = s._offsetDict[id(el)][0] if type(s).__name__ != 'SpannerStorage' else 's'
                except Exception:                            # noqa: BLE001
                    off = '?'
                if isinstance(off, fractions.Fraction):
                    off = f'{off.numerator}/{off.denominator}'
                elif isinstance(off, (int, float)):
                    off = float(off)
                self.visit(el, f'{path}{"" if part == "_elements" else ".end"}[{i}@{off}]')

    def duration(self, d) -> str:
        import copy
        c = copy.deepcopy(d)
        try:
            parts = [
                type(d).__name__, f'ql={c.quarterLength!r}', f'type={c.type!r}', f'dots={c.dots!r}',
                f'tup={[(t.numberNotesActual, t.numberNotesNormal, t.type, t.bracket, t.placement, t.tupletActualShow, t.tupletNormalShow, repr(t.durationActual), repr(t.durationNormal)) for t in c.tuplets]!r}',
                f'linked={c.linked!r}', f'comps={[(x.type, x.dots, x.quarterLength) for x in c.components]!r}',
                f'grace={c.isGrace!r}',
            ]
        except Exception as e:                               # noqa: BLE001
            return f'undumpable {type(e).__name__} {sorted((k, repr(x)) for k, x in _attrs(d).items() if k not in SKIP)}'
        extra = []
        for k, x in sorted(_attrs(d).items()):
            if k in SKIP or k.startswith('_') or k in ('linked', 'tuplets', 'components', 'expressionIsInferred'):
                continue
            if isinstance(x, (str, int, float, bool, type(None))):
                extra.append(f'{k}={x!r}')
        return ' '.join(parts + extra)


_MISSING = object()


def settle(score):
    """Let music21 do the lazy sorting it would do on any iteration."""
    import music21 as m21
    todo = [score]
    seen = set()
    while todo:
        s = todo.pop()
        if id(s) in seen:
            continue
        seen.add(id(s))
        if not s.isSorted and s.autoSort:
            s.sort()
        for el in list(s._elements) + list(s._endElements):
            if isinstance(el, m21.spanner.Spanner):
                todo.append(el.spannerStorage)
            if isinstance(el, m21.variant.Variant):
                todo.append(el._stream)
            if isinstance(el, m21.stream.Stream):
                todo.append(el)


def score_dump(score, identity=False) -> list[str]:
    settle(score)
    return Dumper(identity).dump(score)


def diff_lines(a: list[str], b: list[str], limit=6) -> list[str]:
    import difflib
    if a == b:
        return []
    # cheap common prefix/suffix removal first
    i = 0
    n = min(len(a), len(b))
    while i < n and a[i] == b[i]:
        i += 1
    j = 0
    while j < n - i and a[len(a) - 1 - j] == b[len(b) - 1 - j]:
        j += 1
    aa, bb = a[i:len(a) - j], b[i:len(b) - j]
    if len(aa) + len(bb) > 4000:
        aa, bb = aa[:2000], bb[:2000]
    out = [x[:220] for x in difflib.unified_diff(aa, bb, n=0, lineterm='') if not x.startswith(('---', '+++', '@@'))]
    return out[:limit] or ['(order differs)']


# --------------------------------------------------------------------------------------

_XMLID = re.compile(r'xml:id="([^"]*)"')
_ATTR = re.compile(r'(\s)([\w:.]+)="([^"]*)"')
_REFATTRS = {'startid', 'endid', 'plist', 'corresp', 'sameas', 'copyof', 'next', 'prev', 'synch', 'decls', 'data', 'target', 'facs', 'when'}


def canon_mei(text: str) -> str:
    """Rename xml:ids (memory addresses, random uuids) by order of appearance."""
    ids: dict[str, str] = {}
    for m in _XMLID.finditer(text):
        ids.setdefault(m.group(1), f'id{len(ids)}')
    refs: dict[str, str] = {}

    def one(tok):
        h = '#' if tok.startswith('#') else ''
        t = tok[len(h):]
        if t in ids:
            return h + ids[t]
        if t in refs:
            return h + refs[t]
        if h or _UUID.fullmatch(t):
            refs[t] = f'ref{len(refs)}'
            return h + refs[t]
        return tok

    def sub(m):
        sp, name, val = m.groups()
        if name == 'xml:id':
            return f'{sp}{name}="{ids[val]}"'
        if name in _REFATTRS:
            return f'{sp}{name}="{" ".join(one(t) for t in val.split(" "))}"'
        return m.group(0)
    return _ATTR.sub(sub, text)


def canon_doc(fmt: str, text: str) -> str:
    if fmt == 'mei':
        return canon_mei(text)
    return _HEXADDR.sub('0xADDR', text)
