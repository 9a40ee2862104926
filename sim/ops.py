"""The operations of a simulated history: imports and exports through converter21's public API.

An operation is plain JSON.  perform(op) runs it against the real code and returns an Outcome that can be
compared between processes: kind ('ok' | 'err'), canonical value, and a short text.
"""
from __future__ import annotations

import io
import os
import re

from . import core, dump

_text_cache: dict[str, str] = {}
_bytes_cache: dict[str, bytes] = {}


def docs(*exts: str) -> list[str]:
    out = sorted(n for n in os.listdir(core.CORPUS) if not n.startswith('.'))
    if exts:
        out = [n for n in out if n.rsplit('.', 1)[-1] in exts]
    return out


HEAVY = ('ChopinSpring', 'sonata01-1')


def light(names):
    return [n for n in names if not n.startswith(HEAVY)]


def doc_bytes(name: str) -> bytes:
    b = _bytes_cache.get(name)
    if b is None:
        with open(os.path.join(core.CORPUS, name), 'rb') as f:
            b = _bytes_cache[name] = f.read()
    return b


def doc_text(name: str) -> str:
    t = _text_cache.get(name)
    if t is None:
        b = doc_bytes(name)
        try:
            t = b.decode('utf-8')
        except UnicodeDecodeError:
            if b[:2] in (b'\xff\xfe', b'\xfe\xff'):
                t = b.decode('utf-16')
            else:
                t = b.decode('latin-1')
        t = t.replace('\r\n', '\n').replace('\r', '\n')
        _text_cache[name] = t
    return t


def doc_fmt(name: str) -> str:
    ext = name.rsplit('.', 1)[-1]
    return {'krn': 'humdrum', 'mei': 'mei', 'musicxml': 'musicxml', 'xml': 'musicxml'}[ext]


EXT = {'humdrum': 'krn', 'mei': 'mei'}

# ---------------------------------------------------------------------------- text edits ("twins")

_KERN_PITCH = re.compile(r'(?<![A-Za-z!*])([A-G]+|[a-g]+)(?=[^A-Za-z]|$)')


def edit_text(fmt: str, text: str, edit) -> str:
    """Small, deterministic, still well-formed changes: a 'twin' that differs in one musical detail."""
    if not edit:
        return text
    kind, u = edit
    if fmt == 'humdrum':
        lines = text.split('\n')
        cand = [i for i, ln in enumerate(lines) if ln and ln[0] not in '!*=' and re.search(r'[a-gA-G]', ln)]
        if not cand:
            return text
        i = cand[int(u * len(cand))]
        if kind == 'pitch':
            m = re.search(r'(\d+\.*)([a-gA-G])\2*', lines[i])
            if m:
                c = m.group(2)
                n = {'a': 'b', 'b': 'a', 'c': 'd', 'd': 'c', 'e': 'f', 'f': 'e', 'g': 'a'}[c.lower()]
                n = n.upper() if c.isupper() else n
                s, e = m.span()
                lines[i] = lines[i][:s] + m.group(1) + n * (e - s - len(m.group(1))) + lines[i][e:]
        elif kind == 'title':
            lines.insert(0, f'!!!OTL: Twin {int(u * 1000)}')
        elif kind == 'comment':
            lines.insert(i, f'!! remark {int(u * 1000)}')
        return '\n'.join(lines)
    if fmt == 'mei':
        if kind == 'pitch':
            ms = list(re.finditer(r'pname="([a-g])"', text))
            if ms:
                m = ms[int(u * len(ms))]
                c = m.group(1)
                n = {'a': 'b', 'b': 'a', 'c': 'd', 'd': 'c', 'e': 'f', 'f': 'e', 'g': 'a'}[c]
                return text[:m.start(1)] + n + text[m.end(1):]
        elif kind == 'title':
            m = re.search(r'<title[^>]*>([^<]*)</title>', text)
            if m:
                return text[:m.start(1)] + f'Twin {int(u * 1000)}' + text[m.end(1):]
        elif kind == 'comment':
            m = re.search(r'<measure', text)
            if m:
                return text[:m.start()] + f'<!-- remark {int(u * 1000)} -->' + text[m.start():]
        return text
    return text


# ---------------------------------------------------------------------------- scores

def make_score(doc: str, edit=None):
    """The input of an export (or of a freeze): parsed from the corpus document."""
    from converter21 import HumdrumConverter, MEIConverter
    fmt = doc_fmt(doc)
    text = edit_text(fmt, doc_text(doc), edit)
    if fmt == 'humdrum':
        return HumdrumConverter().parseData(text)
    if fmt == 'mei':
        return MEIConverter().parseData(text)
    import music21 as m21
    c = m21.converter.subConverters.ConverterMusicXML()
    c.parseData(text)
    return c.stream


def observe(score):
    """Read what music21 computes lazily: music21's makeNotation may otherwise give something else for a score whose durations nobody has looked at."""
    for n in score.recurse().notesAndRests:
        d = n.duration
        d.type, d.tuplets, d.components                      # noqa: B018
    return score


SUBJECTS = ('score', 'part', 'measure', 'voice', 'note', 'chord', 'flat', 'opus', 'thing', 'stream')


def make_subject(score, subject: str, u: float = 0.0):
    """The object handed to the exporter."""
    import music21 as m21
    if subject == 'score':
        return score
    if subject == 'opus':
        o = m21.stream.Opus()
        o.append(score)
        return o
    if subject == 'flat':
        return score.flatten()
    if subject == 'stream':
        # a stream that is no score or part: of the caller's own parts, measures or notes
        st = m21.stream.Stream()
        cls = (m21.stream.Part, m21.stream.Measure, m21.note.GeneralNote)[int(u * 3)]
        part = score.parts.first() if isinstance(score, m21.stream.Score) else None
        for e in (score if cls is m21.stream.Part or part is None else part).recurse().getElementsByClass(cls):
            if cls is m21.stream.Part:
                st.insert(0, e)
            else:
                st.append(e)
        return st
    if subject == 'thing':
        # other music21 objects that can be exported (or are refused)
        ns = list(score.recurse().notes)
        cls = (m21.dynamics.Dynamic, m21.clef.Clef, m21.meter.TimeSignature, m21.key.KeySignature, m21.expressions.TextExpression, m21.note.Rest, m21.tempo.TempoIndication)
        k = int(u * 11)
        if k == 0:
            return m21.scale.MajorScale('E-')
        if k == 1:
            return m21.scale.ConcreteScale(pitches=['C4', 'D4', 'F#4'])
        if k == 2 and ns and ns[0].pitches:
            return ns[0].pitches[0]
        if k == 3 and ns:
            return ns[-1].duration
        cands = list(score.recurse().getElementsByClass(cls[k % len(cls)]))
        return cands[int(u * 1000) % len(cands)] if cands else score
    cls = {'part': m21.stream.Part, 'measure': m21.stream.Measure, 'voice': m21.stream.Voice,
           'note': m21.note.Note, 'chord': m21.chord.Chord}[subject]
    cands = [e for e in score.recurse() if isinstance(e, cls)]
    if not cands:
        return score
    return cands[int(u * len(cands))]


class Sink(io.StringIO):
    """Text stream given to a writer; fails at the k-th write with the chosen exception."""

    def __init__(self, fail_at=None, exc=None, log=None):
        super().__init__(newline='')
        self.n = 0
        self.fail_at = fail_at
        self.exc = exc
        self.fired = False
        self.log = log

    def write(self, s):
        k = self.n
        self.n += 1
        if self.log is not None:
            self.log.append(k)
        if self.fail_at is not None and k == self.fail_at:
            self.fired = True
            raise self.exc
        return super().write(s)


def make_writer(obj, fmt: str, opts: dict):
    if fmt == 'humdrum':
        from converter21.humdrum import HumdrumWriter
        w = HumdrumWriter(obj)
    else:
        from converter21.mei import MeiWriter
        w = MeiWriter(obj)
    for k, v in opts.items():
        setattr(w, k, v)
    return w


def export_text(obj, fmt: str, opts: dict, sink=None) -> str:
    sink = sink if sink is not None else Sink()
    w = make_writer(obj, fmt, opts)
    ok = w.write(sink)
    if ok is False:
        raise ExportRefused(fmt)
    return sink.getvalue()


class ExportRefused(Exception):
    """HumdrumWriter.write() returned False."""


def gen_opts(rng, fmt: str, subject: str = 'score', direct: bool = False) -> dict:
    o: dict = {'makeNotation': rng.random() < 0.35}
    if subject != 'score':
        o['makeNotation'] = True
    if fmt == 'humdrum':
        if rng.random() < 0.25:
            o['addRecipSpine'] = True
        if rng.random() < 0.25:
            o['expandTremolos'] = False
        if direct and rng.random() < 0.12:
            o['reservedRDFKernSignifiers'] = rng.choice(['i', 'iN', 'Zi'])
    else:
        o['meiVersion'] = rng.choice(['5', '5', '4'])
    return o


# ---------------------------------------------------------------------------- outcomes

def outcome_of_exception(e: BaseException) -> dict:
    return {'kind': 'err', 'type': type(e).__name__,
            'text': re.sub(r'\b\d{12,}\b', '<mem>', dump._HEXADDR.sub('0xADDR', dump.canon_str(str(e), {})))[:300]}


def outcome_of_score(score, full: bool = False) -> dict:
    lines = dump.score_dump(score)
    out = {'kind': 'score', 'digest': core.digest('\n'.join(lines)), 'n': len(lines),
           'perr': str(getattr(score, 'c21_parse_err', None))[:200]}
    if full:
        out['lines'] = lines
    return out


def outcome_of_doc(fmt: str, text: str, full: bool = False) -> dict:
    c = dump.canon_doc(fmt, text)
    out = {'kind': 'doc', 'digest': core.digest(c), 'n': len(text)}
    if full:
        out['lines'] = c.split('\n')
    return out


def same(a: dict, b: dict) -> bool:
    return all(a.get(k) == b.get(k) for k in ('kind', 'digest', 'type', 'text', 'perr'))


def explain(a: dict, b: dict) -> str:
    """a: expected, b: got."""
    if a['kind'] != b['kind'] or a['kind'] == 'err':
        return f'expected {brief(a)}, got {brief(b)}'
    if 'lines' in a and 'lines' in b:
        return f'{a["kind"]} differs: ' + ' | '.join(dump.diff_lines(a['lines'], b['lines'], 4))
    return f'{a["kind"]} differs: {brief(a)} vs {brief(b)}'


def brief(o: dict) -> str:
    if o['kind'] == 'err':
        return f'{o["type"]}: {o["text"][:100]}'
    return f'{o["kind"]} {o["digest"]} ({o["n"]})'
