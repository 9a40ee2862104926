"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json
import os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
            'mechanism': [{'name': a, 'where': b} for a, b in mechanism],
            'observe_at': list(observe),
            'hook_needed': hook,
        },
    })


prop(
    'C01', 'Exporting a score never changes the caller\'s score',
    'Exporting a music21 Score (or a Part, Measure, Voice, Note or Opus) to Humdrum or MEI leaves the caller\'s '
    'object exactly as it was: same elements at the same offsets, same attributes, ids, spanners, '
    'durations and metadata, nothing added, removed or replaced, and exporting it again gives the same document '
    '(only exception: with makeNotation=False, exporting to Humdrum may split hidden rests of complex duration in place). '
    'This holds whether the export succeeds, or fails part-way because of the score itself, because the output '
    'stream raised an error at any write, or because it was interrupted at any point (KeyboardInterrupt, MemoryError).',
    ['inputs', 'fault_sequences', 'crash_points', 'histories'],
    'every score, both writers and all their options, every point at which the export can fail or be interrupted',
    'The tests export copies or throw the exported score away; none compares the object before and after, and none '
    'makes an export fail half-way. The clean-up must run for every exit path of a conversion with thousands of failure points.',
    ['converter21/mei/meiwriter.py', 'converter21/mei/meiscore.py', 'converter21/mei/meilayer.py',
     'converter21/mei/meistaff.py', 'converter21/mei/m21objectconvert.py', 'converter21/humdrum/humdrumwriter.py',
     'converter21/shared/m21utilities.py'],
    [('annotate / deannotate of the score during MEI export', 'converter21/mei/meiscore.py:deannotateScore'),
     ('deepcopy before any rewriting during Humdrum export', 'converter21/humdrum/humdrumwriter.py:write'),
     ('makeScoreFromObject works on copies', 'converter21/shared/m21utilities.py:makeScoreFromObject')],
    [('mei_* / xml id custom attributes', 'notes-to-self MEI export writes on the caller\'s elements', 'converter21/mei/meiscore.py'),
     ('filled Ottavas', 'spanners whose membership is changed during MEI export', 'converter21/mei/meiscore.py')],
    ['the caller\'s Score object before and after write()'],
)
prop(
    'C02', 'Export to a file or stream is complete or reported as failed',
    'When an export returns normally, the path it returns (or the stream it was given) holds exactly the complete UTF-8 document, '
    'whatever the locale, the previous contents of the file or how the storage splits writes. '
    'When the conversion itself fails, an error is raised and the destination is left as it was (previous contents intact, '
    'or still absent); when the storage fails (open, write, flush or close error, disk full), that error reaches '
    'the caller, and no file other than the destination is created, changed or left open.',
    ['fault_sequences', 'inputs', 'configurations', 'crash_points'],
    'every score, destination state, locale, and every storage fault at any open/write/flush/close',
    'The tests write to a healthy disk or to StringIO, and never look at the destination after a failure.',
    ['converter21/HumdrumConverter.py', 'converter21/MEIConverter.py', 'converter21/humdrum/humdrumwriter.py',
     'converter21/mei/meiwriter.py'],
    [('convert in memory before touching the file', 'converter21/HumdrumConverter.py:write'),
     ('convert in memory before touching the file', 'converter21/MEIConverter.py:write'),
     ('explicit utf-8 encoding, with-statement closes and reports errors', 'both converters')],
    observe=['return value or exception of write(); bytes of the destination directory'],
)
prop(
    'C03', 'A conversion does not depend on what was converted before it',
    'Every import and export gives the same result (score, document or error) as it would as the first conversion in a fresh process, '
    'no matter which conversions ran before it in this process, in which order, and whether they succeeded, '
    'were given invalid data, hit storage errors or were interrupted at any point. '
    'Nor does a later conversion change a score, document or data string obtained earlier, or shared process state (working directory, '
    'environment, locale, recursion limit, warning filters, standard output).',
    ['histories', 'crash_points', 'fault_sequences'],
    'every sequence of conversions, each possibly failing or interrupted at any line of converter21',
    'Each test converts one document in a process whose history is fixed by the runner; leaks of class-level or module-level state '
    'appear only for particular pairs of documents or after a conversion that died half-way.',
    ['converter21/humdrum/humdrumfilecontent.py', 'converter21/humdrum/humdrumfilestructure.py', 'converter21/humdrum/humdrumfile.py',
     'converter21/humdrum/humdrumwriter.py', 'converter21/mei/meireader.py', 'converter21/mei/meiwriter.py',
     'converter21/mei/meiscore.py', 'converter21/shared/m21utilities.py', 'converter21/humdrum/m21convert.py'],
    [('all conversion state lives in per-conversion reader/writer objects', 'MeiReader, MeiWriter, HumdrumFile, HumdrumWriter'),
     ('module and class attributes are constants', 'throughout')],
    [('class-level tables and caches', 'must not carry information from one document to the next', 'converter21/shared/m21utilities.py'),
     ('functools.cache in the MEI reader', 'memoised pure functions', 'converter21/mei/meireader.py')],
    ['result of each conversion versus its result in a fresh process'],
)
prop(
    'C04', 'Conversions in concurrent threads equal the same conversions run alone',
    'Threads that import and export different documents at the same time each get exactly the result (score, document or error) '
    'they would get running alone, for every interleaving of the threads. '
    'No interleaving makes a conversion fail, hang, deadlock, or pick up data of another thread\'s document.',
    ['schedules', 'inputs'],
    'every interleaving of threads running imports/exports of distinct documents',
    'The tests are single-threaded; interference needs a preemption inside a specific window.',
    ['converter21/humdrum', 'converter21/mei', 'converter21/shared/m21utilities.py', 'converter21/HumdrumConverter.py',
     'converter21/MEIConverter.py'],
    [('no mutable module-level or class-level state used during a conversion', 'throughout'),
     ('adjustMusic21Behavior is idempotent', 'converter21/shared/m21utilities.py')],
    [('CHORD_ALIASES', 'music21 global list that is extended once', 'converter21/shared/m21utilities.py')],
    ['results of each thread versus its solo result'],
)
prop(
    'C05', 'Conversion results are reproducible in any process and environment',
    'Importing the same data and exporting the same score with the same options gives the same score and document in every process: '
    'independent of hash seeds and set ordering, memory addresses, garbage-collection timing, random numbers, clock, time zone, locale, working directory and user environment. '
    'The only thing that may differ is the spelling of generated xml:id values (and the references to them).',
    ['configurations', 'inputs'],
    'every input and every environment (PYTHONHASHSEED, object hashes and addresses, random numbers, clock, TZ, locale, cwd, HOME)',
    'The tests run once, with PYTHONHASHSEED=0, one locale and one clock.',
    ['converter21/humdrum', 'converter21/mei', 'converter21/shared'],
    [('ordered collections wherever order reaches the output', 'throughout'),
     ('explicit encodings', 'converter21/HumdrumConverter.py, converter21/MEIConverter.py, converter21/humdrum/humdrumfilebase.py')],
    observe=['canonicalised document and score dump across processes'],
)
prop(
    'C06', 'Importing a file equals importing its text, however the bytes arrive',
    'Importing a file gives the same score as importing the document\'s text from a string, for each supported encoding '
    '(Humdrum: UTF-8 or Latin-1; MEI: UTF-8, UTF-16 or Latin-1), LF or CRLF line ends, str or Path file names, any locale, and however '
    'the storage splits the reads. A read error at any point reaches the caller of a strict import as an error, and never produces a score made from part of the file; '
    'the file itself is never modified or left open.',
    ['fault_sequences', 'inputs', 'configurations'],
    'every document, encoding, split of reads, and every read fault position',
    'The tests read pure UTF-8 files from a healthy disk, and mostly use strings.',
    ['converter21/HumdrumConverter.py', 'converter21/MEIConverter.py', 'converter21/humdrum/humdrumfilebase.py', 'converter21/mei/meireader.py'],
    [('encoding fallback chain', 'converter21/MEIConverter.py:parseFile'),
     ('encoding fallback', 'converter21/humdrum/humdrumfilebase.py:read')],
    observe=['score from parseFile versus score from parseData; exception; file bytes'],
)
prop(
    'C07', 'Freezing and thawing a score loses nothing and never fakes a score',
    'Thawing what StreamFreezer wrote (pickle or jsonpickle, zipped or not, in the same or another process, freezer and thawer objects used in any order) '
    'gives a score with the same content as the original, and freezing does not change the original. '
    'Frozen data that was truncated or damaged in storage never yields a partly or previously thawed score without an error: '
    'the thawer then has no stream, or raises.',
    ['histories', 'fault_sequences', 'inputs'],
    'every score, format, process boundary, freezer/thawer history and damage to the stored bytes',
    'The repository has no tests of freezing.',
    ['converter21/shared/m21utilities.py'],
    [('setupSerializationScaffold / teardownSerializationScaffold are inverses', 'converter21/shared/m21utilities.py'),
     ('deepcopy before destructive freezing', 'converter21/shared/m21utilities.py:StreamFreezer.__init__')],
    [('StreamThawer.stream', 'the thawed score, or None', 'converter21/shared/m21utilities.py')],
    ['dump of the thawed score versus the original'],
)
prop(
    'C08', 'The command-line converter succeeds exactly when the output is complete',
    'python -m converter21 exits with status 0 only if the complete converted document is in the announced output file, or, for output "-", '
    'is exactly what was written to standard output; on any failure (unreadable, invalid or unconvertible input, unsupported format, read error on standard input, '
    'disk full, closed or failing standard output) it exits non-zero, does not claim success, and leaves an existing output file intact unless it was being written. '
    'Unless --cached-parse-ok is given, it always converts the current contents of the input file.',
    ['fault_sequences', 'inputs', 'histories', 'configurations'],
    'every command line, input, and every fault of stdin, stdout, the input file and the output file',
    'The repository has no tests of the command line.',
    ['converter21/__main__.py', 'converter21/HumdrumConverter.py', 'converter21/MEIConverter.py'],
    [('forceSource unless -c', 'converter21/__main__.py'), ('output format/extension validation', 'converter21/__main__.py'),
     ('errors propagate as uncaught exceptions', 'converter21/__main__.py')],
    observe=['exit status, stdout, stderr, files'],
)
prop(
    'C09', 'register() leaves exactly the requested converters installed',
    'After any history of register() calls (any subset of converters, repeated, from several threads, interrupted and retried, interleaved with music21\'s own '
    'register/unregister/reset calls and with conversions), each format converter21 was asked to handle is handled by converter21 for reading and writing, '
    'formats it was not asked to handle keep their music21 handler, and no other format, extension or handler is affected. '
    'Repeating register() changes nothing further, not even for conversions running meanwhile in other threads.',
    ['histories', 'schedules', 'crash_points'],
    'every sequence and interleaving of registration calls',
    'The tests call register() once at start-up.',
    ['converter21/__init__.py', 'converter21/shared/m21utilities.py'],
    [('unregister music21\'s converter, register ours', 'converter21/__init__.py:register'),
     ('idempotent adjustment of music21 tables', 'converter21/shared/m21utilities.py:adjustMusic21Behavior')],
    [('music21 subconverter registry', 'which class handles which format', 'music21.converter')],
    ['music21.converter.Converter().subConvertersAsList / getSubConverterFormats / parse / write'],
)
prop(
    'C10', 'Damaged input is reported, never hangs, and lenient import never raises',
    'However a stored Humdrum document was truncated, cut, duplicated, reordered or corrupted, importing it with acceptSyntaxErrors=True never raises: '
    'it returns a score, reports the problem in c21_parse_err whenever it had to give up, and for an undamaged valid document equals strict import. '
    'Every import of damaged Humdrum or MEI data, strict or lenient, ends within a bounded number of steps with a score or an error, '
    'and the same damaged data always gives the same outcome.',
    ['fault_sequences', 'inputs'],
    'every document and every damage (truncation, lost, duplicated, swapped or flipped bytes and lines) to it',
    'The tests contain a handful of hand-written invalid files; damage can strike any of the parser\'s states.',
    ['converter21/HumdrumConverter.py', 'converter21/humdrum/humdrumfilebase.py', 'converter21/humdrum/humdrumfilestructure.py',
     'converter21/humdrum/humdrumfilecontent.py', 'converter21/humdrum/humdrumfile.py', 'converter21/mei/meireader.py'],
    [('lenient import catches and records every error', 'converter21/HumdrumConverter.py:parseData'),
     ('structural validation before conversion', 'converter21/humdrum/humdrumfilebase.py, humdrumfilestructure.py')],
    observe=['return value or exception, c21_parse_err, number of executed steps'],
)
prop(
    'C11', 'Interrupts are never swallowed',
    'An interrupt that strikes during an import or export at any point (KeyboardInterrupt, SystemExit or any other BaseException that is not an Exception) '
    'reaches the caller of the conversion as that same exception; it is never converted into an apparently successful result, '
    'a different error, or an endless loop, even with acceptSyntaxErrors=True. '
    'The same conversion repeated afterwards in the same process succeeds as if nothing had happened.',
    ['crash_points', 'histories'],
    'every line of converter21 executed by every conversion, as the point of interruption',
    'The tests never interrupt a conversion.',
    ['converter21/HumdrumConverter.py', 'converter21/MEIConverter.py', 'converter21/mei/meireader.py', 'converter21/mei/meiscore.py',
     'converter21/humdrum', 'converter21/shared/m21utilities.py'],
    [('handlers catch Exception subclasses only, clean-up handlers re-raise', 'throughout')],
    observe=['exception seen by the caller; result of the repeated conversion'],
)
prop(
    'C12', 'A finished conversion leaves nothing behind in the process',
    'Once the caller has let go of the scores, converters and errors of a conversion (import, export, freezing or thawing), every object of those scores '
    'can be freed: converter21 keeps no reference to a score it produced or was given. Repeating the same conversions over and over '
    'does not make the process grow: no further live objects, entries in module- or class-level tables, threads, open files, exit handlers, log handlers or '
    'temporary files are added with each repetition (a cache that stops growing when the same work is repeated is fine). '
    'This holds whether the conversions succeed, fail, or are interrupted at any point.',
    ['histories', 'crash_points', 'fault_sequences'],
    'every history of conversions of a long-running process, with every point of failure or interruption',
    'The tests convert each document once and exit; what stays alive afterwards never matters to them.',
    ['converter21/HumdrumConverter.py', 'converter21/MEIConverter.py', 'converter21/humdrum', 'converter21/mei', 'converter21/shared/m21utilities.py'],
    [('all state of a conversion lives in objects of that conversion', 'converter21/mei/meireader.py, converter21/humdrum/humdrumwriter.py'),
     ('annotations and temporary spanners are removed from the caller\'s score', 'converter21/mei/meiscore.py:deannotateScore')],
    [('class- and module-level tables', 'caches shared by all conversions', 'converter21/humdrum/convert.py, converter21/mei/meimetadata.py')],
    ['weak references to the objects of the scores; counts of live objects, container entries, threads, descriptors'],
)

NA = [
    ('C20', 'Humdrum import is faithful',
     'The score imported from a valid Humdrum document has every note, rest, chord, duration, tie, slur, lyric, dynamic, articulation, ornament, clef, key, meter, barline, part and reference record of the document, at the right place.',
     ['converter21/humdrum/humdrumfile.py', 'converter21/humdrum/humdrumfilecontent.py'], 'createMusic21Stream'),
    ('C21', 'MEI import is faithful',
     'The score imported from a valid MEI document has every musical element and the metadata of the document, at the right place, with startid/endid/tstamp references resolved.',
     ['converter21/mei/meireader.py', 'converter21/mei/meimetadatareader.py'], 'MeiReader.run'),
    ('C22', 'Humdrum export is faithful',
     'The Humdrum document exported from a well-formed score encodes every musical element that Humdrum can express, with the right rhythm, in syntactically valid spines.',
     ['converter21/humdrum/humdrumwriter.py', 'converter21/humdrum/humgrid.py'], 'HumdrumWriter.write'),
    ('C23', 'MEI export is faithful',
     'The MEI document exported from a well-formed score encodes every musical element that MEI can express, with unique xml:ids and references that resolve within the document.',
     ['converter21/mei/meiscore.py', 'converter21/mei/m21objectconvert.py'], 'MeiScore.makeRootElement'),
    ('C24', 'Humdrum round trip',
     'Importing a Humdrum document, exporting it to Humdrum and importing the result again gives an equal score, and a HumdrumFile written back without changes gives the same text.',
     ['converter21/humdrum/humdrumfile.py', 'converter21/humdrum/humdrumwriter.py'], 'HumdrumFile / HumdrumWriter'),
    ('C25', 'MEI round trip and cross-format agreement',
     'Exporting a score to MEI and importing it again gives an equal score, and converting through MEI or Humdrum gives scores that agree on everything both formats express.',
     ['converter21/mei/meireader.py', 'converter21/mei/meiwriter.py'], 'MeiReader / MeiWriter'),
    ('C26', 'Exact rhythm arithmetic',
     'All offsets and durations of an imported score are the exact rational values that the document denotes, and the voices of every measure add up to the measure\'s duration.',
     ['converter21/humdrum/humnum.py', 'converter21/humdrum/convert.py', 'converter21/humdrum/humdrumfilestructure.py'], 'HumNum'),
    ('C27', 'Invalid Humdrum is rejected',
     'A strict import of a document that breaks the Humdrum spine rules (missing terminators, wrong spine counts, bad manipulators) reports an error that names the line.',
     ['converter21/humdrum/humdrumfilebase.py', 'converter21/humdrum/humdrumfilestructure.py'], 'analyzeBaseFromLines'),
    ('C28', 'Metadata survives conversion',
     'Every reference record / metadata item that both formats can express survives conversion between Humdrum, MEI and music21 metadata, with names, dates and languages unchanged.',
     ['converter21/mei/meimetadata.py', 'converter21/mei/meimetadatareader.py', 'converter21/shared/m21utilities.py'], 'MeiMetadata'),
]
for id, title, st, files, mech in NA:
    prop(id, title, st, ['inputs'], 'every valid document or score',
         'Quantifies over all documents; the tests sample a fixed set of files and mostly check that conversion does not raise.',
         files, [(mech, files[0])])

with open(OUT, 'w', encoding='utf-8') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
