"""Features a client adds to (or changes in) a score with the music21 API before converting it.

A decoration is [kind, u, v]: u chooses the place, v the variant.  Every decoration leaves an ordinary music21 score; kinds that do
not apply to the score at hand do nothing.
"""
from __future__ import annotations

import copy

# kinds used since the first version of the checks, then the rest
DECOR = ('ottava', 'slur', 'cresc', 'trill', 'arp', 'ids', 'color', 'lyric', 'fermata', 'mark', 'beams', 'tremspan', 'gliss')
MORE = ('dynamic', 'tempo', 'text', 'chordsym', 'artics', 'orns', 'notehead', 'stem', 'clef', 'key', 'meter', 'barline', 'instrument',
        'layout', 'group', 'metadata', 'grace', 'hidden', 'rest', 'rehearsal', 'bracket', 'micro', 'verses', 'tie', 'cluster', 'barfermata', 'editorial', 'attr', 'repeats', 'twins', 'variant', 'nested', 'endel', 'unsorted', 'stack')
ALL = DECOR + MORE

# small changes between two exports of the same score
TOUCH = ('t_pitch', 't_pitch', 't_lyric', 't_title', 't_color', 't_artic', 't_number', 't_name', 't_dyn', 't_drop')


def gen(rng):
    return [[rng.choice(ALL), rng.random(), rng.random()] for _ in range(rng.choice([1, 2, 4, 7]))]


def gen_cold(rng):
    """For conversions that are disturbed while something is set up for the first time."""
    return (gen(rng) if rng.random() < 0.3 else []) + [[rng.choice(['repeats', 'repeats', 'barline', 'chordsym', 'metadata']), rng.random(), rng.random()]]


def _home(n):
    import music21 as m21
    for cls in (m21.stream.Voice, m21.stream.Measure):
        s = n.getContextByClass(cls)
        if s is not None and n in s:
            return s
    return n.activeSite


def _at(n, el, dx=0.0):
    h = _home(n)
    if h is None:
        return
    h.insert(h.elementOffset(n) + dx, el)


def decorate(score, decor):
    import music21 as m21
    notes = [n for n in score.recurse().notes if not isinstance(n, m21.harmony.ChordSymbol)]
    for kind, u1, u2 in decor:
        if not notes:
            return
        i = int(u1 * len(notes))
        n = notes[i]
        j = min(len(notes) - 1, i + int(u2 * 6))
        m = notes[j]
        if kind in ('ottava', 'slur', 'cresc', 'trill', 'gliss', 'tremspan'):
            cls = {'ottava': m21.spanner.Ottava, 'slur': m21.spanner.Slur, 'cresc': m21.dynamics.Crescendo,
                   'trill': m21.expressions.TrillExtension, 'gliss': m21.spanner.Glissando,
                   'tremspan': m21.expressions.TremoloSpanner}[kind]
            sp = cls()
            sp.addSpannedElements([n] if n is m else [n, m])
            host = n.getContextByClass(m21.stream.Part) or score
            host.insert(0, sp)
        elif kind == 'arp':
            sp = m21.expressions.ArpeggioMarkSpanner()
            sp.addSpannedElements([n] if n is m else [n, m])
            score.insert(0, sp)
        elif kind == 'ids':
            n.id = f'user-{i}'
            m.id = f'user-{i}'
        elif kind == 'color':
            n.style.color = 'red'
            n.style.absoluteX = 3
        elif kind == 'lyric':
            n.addLyric('la-')
        elif kind == 'fermata':
            n.expressions.append(m21.expressions.Fermata())
        elif kind == 'mark':
            n.expressions.append(m21.expressions.Trill())
            n.articulations.append(m21.articulations.Staccato())
        elif kind == 'beams':
            n.beams.fill('16th', type='start')
        else:
            try:
                _more(m21, score, notes, kind, n, m, u1, u2)
            except Exception:                                # noqa: BLE001
                pass        # music21 does not allow it here


def _swap(notes, old, new):
    i = next(k for k, x in enumerate(notes) if x is old)     # (notes compare equal by value)
    notes[i:i + 1] = [new] if new is not None else []


def _pick(seq, v):
    return seq[int(v * len(seq)) % len(seq)]


def _more(m21, score, notes, kind, n, m, u, v):
    meas = n.getContextByClass(m21.stream.Measure)
    part = n.getContextByClass(m21.stream.Part)
    A, X = m21.articulations, m21.expressions
    if kind == 'dynamic':
        _at(n, m21.dynamics.Dynamic(_pick(['p', 'sfz', 'mf', 'sf', 'ppp', 'fp', 'n'], v)))
    elif kind == 'twins':
        # several spanners with the same start and end
        host = n.getContextByClass(m21.stream.Part) or score
        m = notes[min(len(notes) - 1, int(u * len(notes)) + 1 + int(v * 4))]
        for k in range(2 + int(v * 100) % 3):
            sp = _pick([m21.spanner.Slur, lambda: m21.spanner.Ottava(type=['8va', '15mb', '8vb', '15ma'][k % 4], transposing=False),
                        m21.dynamics.Crescendo, lambda: m21.spanner.Line(), m21.expressions.TrillExtension], u * 31 % 1)()
            sp.addSpannedElements([n, m])
            host.insert(0, sp)
    elif kind == 'tempo':
        t = _pick([lambda: m21.tempo.MetronomeMark('Allegro', 120), lambda: m21.tempo.MetronomeMark(number=66.5), lambda: m21.tempo.MetronomeMark('Presto', 184.25), lambda: m21.tempo.TempoText('Largo'),
                   lambda: m21.tempo.MetronomeMark(number=90, referent=m21.duration.Duration('eighth'))], v)()
        if meas is not None:
            meas.insert(0 if v < 0.5 else meas.elementOffset(n) if n in meas else 0, t)
    elif kind == 'text':
        x = X.TextExpression(_pick(['dolce', 'più mosso — ÿ', 'a "quoted" & <b>', ' ', 'poco: rit.'], v))
        x.placement = _pick(['above', 'below', None], u * 7 % 1)
        if v > 0.5:
            x.style.fontStyle = 'italic'
        _at(n, x)
    elif kind == 'chordsym':
        _at(n, m21.harmony.ChordSymbol(_pick(['C', 'Dm7', 'G7/B', 'A-maj7', 'F#dim'], v)))
    elif kind == 'artics':
        cs = [A.Accent, A.Tenuto, A.StrongAccent, A.Staccatissimo, A.Spiccato, A.UpBow, A.DownBow, A.BreathMark, A.SnapPizzicato, A.Stopped,
              A.StringHarmonic, A.Caesura, A.Doit, A.OpenString]
        k = int(v * len(cs))
        n.articulations = n.articulations + [cs[k](), cs[(k + 5) % len(cs)](), A.Fingering(str(1 + k % 5))]
    elif kind == 'orns':
        cs = [X.Turn, X.InvertedTurn, X.Mordent, X.InvertedMordent, X.Trill, X.Schleifer, X.Shake, X.Tremolo, X.ArpeggioMark]
        k = int(v * len(cs))
        n.expressions.append(cs[k]())
        if v > 0.6:
            n.expressions.append(cs[(k + 4) % len(cs)]())
    elif kind == 'notehead':
        for x in (n.notes if isinstance(n, m21.chord.Chord) else [n]):
            if isinstance(x, m21.note.NotRest):
                x.notehead = _pick(['diamond', 'x', 'slash', 'triangle'], v)
                x.noteheadParenthesis = v > 0.5
    elif kind == 'stem':
        n.stemDirection = _pick(['up', 'down', 'noStem', 'double'], v)
    elif kind == 'clef':
        _at(n, _pick([m21.clef.BassClef, m21.clef.TrebleClef, m21.clef.AltoClef, m21.clef.Treble8vbClef], v)())
    elif kind == 'key' and meas is not None:
        meas.insert(0, _pick([lambda: m21.key.Key('E-'), lambda: m21.key.KeySignature(-7), lambda: m21.key.Key('f#'), lambda: m21.key.KeySignature(4)], v)())
    elif kind == 'meter' and meas is not None:
        meas.insert(0, _pick([lambda: m21.meter.TimeSignature('3/8'), lambda: m21.meter.TimeSignature('5/4'), lambda: m21.meter.TimeSignature('cut')], v)())
    elif kind == 'barline' and meas is not None:
        b = _pick([lambda: m21.bar.Barline('double'), lambda: m21.bar.Repeat('end'), lambda: m21.bar.Barline('dashed'), lambda: m21.bar.Barline('final')], v)()
        if u < 0.3 and v < 0.4:
            meas.leftBarline = m21.bar.Repeat('start')
        else:
            meas.rightBarline = b
    elif kind == 'repeats' and meas is not None and part is not None:
        # a repeat ends and another starts at the same place, in barline styles of the client's choice
        ms = list(part.getElementsByClass(m21.stream.Measure))
        i = next((k for k, x in enumerate(ms) if x is meas), 0)
        styles = ['final', 'heavy-light', 'double', 'heavy', 'heavy-heavy', 'regular']
        if len(ms) > 1:
            i = min(i, len(ms) - 2)
            for p in ([part] if u < 0.3 or not isinstance(score, m21.stream.Score) else score.parts):
                pm = list(p.getElementsByClass(m21.stream.Measure))
                if len(pm) == len(ms):
                    e, s = m21.bar.Repeat('end'), m21.bar.Repeat('start')
                    e.type = _pick(styles, v)
                    s.type = _pick(styles, v * 31 % 1)
                    pm[i].rightBarline = e
                    pm[i + 1].leftBarline = s
    elif kind == 'barfermata' and meas is not None:
        b = meas.rightBarline or m21.bar.Barline('regular')
        b.pause = X.Fermata()
        meas.rightBarline = b
    elif kind == 'instrument' and part is not None:
        part.insert(0, _pick([m21.instrument.Clarinet, m21.instrument.Horn, m21.instrument.Soprano, m21.instrument.Piano], v)())
    elif kind == 'layout' and meas is not None:
        meas.insert(0, (m21.layout.PageLayout if v < 0.5 else m21.layout.SystemLayout)(isNew=True))
    elif kind == 'group' and isinstance(score, m21.stream.Score):
        ps = list(score.parts)
        sg = m21.layout.StaffGroup(ps[:1 + int(v * len(ps))], name=_pick(['Choir', '', 'Strings'], u), symbol=_pick(['brace', 'bracket', 'line', 'square'], v))
        sg.barTogether = u > 0.5
        score.insert(0, sg)
    elif kind == 'metadata' and isinstance(score, m21.stream.Score):
        if score.metadata is None:
            score.insert(0, m21.metadata.Metadata())
        md = score.metadata
        md.title = _pick(['Ünïcode & <title>', 'T', 'A "quoted" title'], v)
        md.add('composer', _pick(['Bach, J. S.', 'Anonymous', 'Ёлка'], u * 3 % 1))
        md.add('copyright', f'© {1900 + int(v * 100)}')
        md.addCustom('humdrumraw:ZZZ' if v < 0.5 else 'my key', 'value')
        md.dateCreated = _pick(['1850', '1850/03/01', '1850~'], u)
    elif kind == 'grace' and isinstance(n, m21.note.Note):
        h = _home(n)
        if h is not None:
            g = m21.note.Note('B4', type=_pick(['eighth', '16th'], v)).getGrace()
            if v > 0.6:
                g.duration.slash = False
            h.insert(h.elementOffset(n), g)
    elif kind == 'hidden':
        n.style.hideObjectOnPrint = True
    elif kind == 'rest':
        h = _home(n)
        if h is not None and not n.duration.isGrace and not n.getSpannerSites():
            r = m21.note.Rest()
            r.duration = copy.deepcopy(n.duration)
            r.stepShift = int(v * 9) - 4
            h.replace(n, r)
            _swap(notes, n, None)
    elif kind == 'rehearsal' and meas is not None:
        meas.insert(0, X.RehearsalMark(_pick(['A', '12', 'Fin & co'], v)))
    elif kind == 'bracket' and part is not None and meas is not None:
        rb = m21.spanner.RepeatBracket(meas, number=_pick(['1', '1,2', '2'], v))
        part.insert(0, rb)
    elif kind == 'micro':
        p = n.pitches[0] if n.pitches else None
        if p is not None:
            p.accidental = m21.pitch.Accidental(_pick(['half-sharp', 'natural', 'double-flat', 'sharp'], v))
            p.accidental.displayStatus = v > 0.3
            if v > 0.7:
                p.accidental.displayStyle = 'parentheses'
    elif kind == 'verses':
        n.addLyric('Kŷ', lyricNumber=1)
        n.addLyric('-ri-', lyricNumber=3)
        n.lyrics[-1].identifier = 'chorus'
    elif kind == 'tie':
        n.tie = m21.tie.Tie(_pick(['start', 'stop', 'continue', 'let-ring'], v))
    elif kind == 'cluster':
        # (in place of a note: a voice with overlapping notes is no valid input, see DESIGN.md)
        h = _home(n)
        if h is not None and not n.duration.isGrace and not n.getSpannerSites():
            c = m21.chord.Chord(['C4', 'C#4', 'D4', 'G9'])
            c.duration = copy.deepcopy(n.duration)
            h.replace(n, c)
            _swap(notes, n, c)
    elif kind == 'editorial':
        n.editorial.myNote = {'reason': 'ficta', 'n': 3}
        n.editorial.comment = 'checked'
        n.groups.append('solo')
    elif kind == 'variant':
        # another reading: of a measure (in the part) or of some notes (in the measure)
        if v < 0.5 and part is not None and meas is not None and meas in part:
            vm = m21.stream.Measure(number=meas.number)
            vm.append([m21.note.Note('E5', quarterLength=2), m21.note.Rest(quarterLength=1)])
            x = m21.variant.Variant([vm], name='ossia')
            x.groups.append('ossia')
            x.replacementDuration = meas.duration.quarterLength
            part.insert(part.elementOffset(meas), x)
        else:
            _at(n, m21.variant.Variant([m21.note.Note('G5'), m21.chord.Chord('C5 E5')], name='alt'))
    elif kind == 'nested' and part is not None:
        # a spanner of measures, and one of parts
        ms = list(part.getElementsByClass(m21.stream.Measure))
        if len(ms) > 1:
            part.insert(0, m21.spanner.Line(ms[0], ms[-1]) if v < 0.5 else m21.spanner.RepeatBracket(ms[0:2], number=2))
    elif kind == 'endel' and meas is not None:
        meas.storeAtEnd(m21.expressions.TextExpression('fine') if v < 0.5 else m21.clef.BassClef())
    elif kind == 'stack':
        # several things of one kind at one place
        for k in range(2 + int(u * 1000) % 4):
            x = _pick([lambda: m21.tempo.MetronomeMark(f'Tempo {k}', 60 + 7 * k), lambda: X.TextExpression(f'text {k}'), lambda: m21.dynamics.Dynamic(['p', 'f', 'mf', 'sf', 'pp'][k]),
                       lambda: m21.tempo.MetronomeMark(number=60 + 7 * k), lambda: m21.harmony.ChordSymbol(['C', 'D7', 'Em', 'F', 'G'][k]), lambda: X.RehearsalMark('ABCDE'[k])], v)()
            if isinstance(x, m21.dynamics.Dynamic) or meas is None:
                _at(n, x)
            else:
                meas.insert(0, x)
    elif kind == 'unsorted':
        # lists in an order nobody would write down
        for k in (3, 1, 2):
            n.lyrics.append(m21.note.Lyric(f'w{k}', number=k, applyRaw=True))
        n.articulations = n.articulations + [A.Fingering('5'), A.UpBow(), A.Accent(), A.Fingering('1')]
        n.expressions = n.expressions + [X.Turn(), X.Fermata(), X.Trill()]
        h = _home(n)
        if v < 0.5 and h is not None and not n.duration.isGrace and not n.getSpannerSites():
            c = m21.chord.Chord(['G4', 'C5', 'E4', 'B-3'])
            c.duration = copy.deepcopy(n.duration)
            c.lyrics = n.lyrics
            h.replace(n, c)
            _swap(notes, n, c)
        elif part is not None and m is not n:
            # a spanner that was filled from its end
            sp = m21.spanner.Slur()
            sp.addSpannedElements([m, n])
            part.insert(0, sp)
    elif kind == 'attr':
        n.client_mark = ['kept', 1]
        score.client_mark = 'kept'


def touch(score, touches):
    """Small changes a client makes between two exports of one score; most keep the number of elements."""
    import music21 as m21
    for kind, u, v in touches:
        notes = [n for n in score.recurse().notes if not isinstance(n, m21.harmony.ChordSymbol)]
        if not notes:
            return
        n = _pick(notes, u)
        if kind == 't_pitch' and n.pitches:
            p = n.pitches[0]
            p.step = _pick('CDEFGAB', v)
            p.octave = 3 + int(u * 100) % 3
        elif kind == 't_lyric':
            n.lyric = f'w{int(v * 100)}'
        elif kind == 't_title' and isinstance(score, m21.stream.Score):
            if score.metadata is None:
                score.insert(0, m21.metadata.Metadata())
            score.metadata.title = f'Title {int(v * 1000)}'
        elif kind == 't_color':
            n.style.color = _pick(['#ff0000', '#00ff00', 'blue'], v)
        elif kind == 't_artic':
            n.articulations = [_pick([m21.articulations.Accent, m21.articulations.Tenuto, m21.articulations.Staccato], v)()]
        elif kind == 't_number':
            for x in score.recurse().getElementsByClass(m21.stream.Measure):
                x.number += 10
        elif kind == 't_name':
            for p in score.recurse().getElementsByClass(m21.stream.Part):
                p.partName = f'Part {int(v * 100)}'
                break
        elif kind == 't_dyn':
            ds = list(score.recurse().getElementsByClass(m21.dynamics.Dynamic))
            if ds:
                _pick(ds, u).value = _pick(['p', 'f', 'mf', 'ff'], v)
        elif kind == 't_drop':
            h = _home(n)
            if h is not None and not n.getSpannerSites():
                r = m21.note.Rest()
                r.duration = copy.deepcopy(n.duration)
                h.replace(n, r)
