"""One-off: measure converter21 line coverage per candidate document; greedy selection."""
import glob, io, os, sys, signal, contextlib, json, time, types
from multiprocessing import Pool
M21 = '/opt/venv/lib/python3.12/site-packages/music21'
mon = sys.monitoring
TOOL = 3
hits = set()

def codes(mod):
    seen = set(); out = []
    def walk(c):
        if c in seen: return
        seen.add(c); out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType): walk(k)
    import gc
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and '/converter21/' in o.__code__.co_filename:
            walk(o.__code__)
    return out

def on_line(code, line):
    hits.add((os.path.basename(code.co_filename), line))
    return mon.DISABLE

def setup():
    import converter21
    converter21.register()
    mon.use_tool_id(TOOL, 'cov')
    mon.register_callback(TOOL, mon.events.LINE, on_line)
    cs = codes(None)
    for c in cs:
        mon.set_local_events(TOOL, c, mon.events.LINE)
    return cs

def work(f):
    from music21 import converter
    import converter21
    from converter21.humdrum import HumdrumWriter
    from converter21.mei import MeiWriter
    if not mon.get_tool(TOOL): setup()
    signal.alarm(120)
    hits.clear(); mon.restart_events()
    t0 = time.time()
    errs = []
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        try:
            s = converter.parse(f, forceSource=True, **({'acceptSyntaxErrors': True} if f.endswith('.krn') else {}))
        except Exception as e:
            return f, None, time.time() - t0, ['parse ' + repr(e)[:80]]
        for W in (HumdrumWriter, MeiWriter):
            for mk in (True, False):
                try:
                    w = W(s); w.makeNotation = mk
                    w.write(io.StringIO())
                except Exception as e:
                    errs.append(f'{W.__name__} {mk} {e!r}'[:80])
    return f, sorted(hits), time.time() - t0, errs

if __name__ == '__main__':
    src = sorted(glob.glob('/tmp/cand/*')) + sorted(glob.glob('/verif/corpus/hand*'))
    src += sorted(glob.glob(M21 + '/musicxml/lilypondTestSuite/*.xml')) + sorted(glob.glob(M21 + '/musicxml/*.xml'))
    src += [f for f in sorted(glob.glob('/repo/tests/files/valid/*')+glob.glob('/repo/converter21/mei/test/*.mei')) if not f.endswith('.json')]
    src += [f for f in sorted(glob.glob(M21 + '/corpus/**/*.krn', recursive=True)) if os.path.getsize(f) < 12000][::25]
    if len(sys.argv) > 1: src = sys.argv[1:]
    print(len(src))
    allcov = {}
    with Pool(8) as p:
        res = p.map(work, src, chunksize=1)
    json.dump(res, open('/tmp/cov.json', 'w'))
    tot = set()
    for f, h, t, e in res:
        if h: tot |= set(map(tuple, h))
    print('total lines hit', len(tot))
