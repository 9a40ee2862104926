"""One-off: derive .krn/.mei candidates from MusicXML sources (used only to build /verif/corpus)."""
import glob, io, os, sys, signal, contextlib
from multiprocessing import Pool
M21 = '/opt/venv/lib/python3.12/site-packages/music21'
OUT = '/tmp/cand'

def work(f):
    import converter21
    from music21 import converter
    converter21.register()
    signal.alarm(60)
    base = os.path.basename(f)
    res = []
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            s = converter.parse(f, forceSource=True)
            from converter21.humdrum import HumdrumWriter
            from converter21.mei import MeiWriter
            for W, ext in ((HumdrumWriter, 'krn'), (MeiWriter, 'mei')):
                if f.endswith('.' + ext):
                    continue
                o = io.StringIO()
                try:
                    w = W(s)
                    if W is MeiWriter and hash(base) % 4 == 0:
                        w.meiVersion = '4'
                    w.write(o)
                except Exception as e:
                    res.append((f, ext, repr(e)[:100]))
                    continue
                if o.getvalue():
                    open(os.path.join(OUT, base + '.' + ext), 'w', encoding='utf-8').write(o.getvalue())
    except Exception as e:
        res.append((f, 'parse', repr(e)[:100]))
    return res

if __name__ == '__main__':
    src = sorted(glob.glob(M21 + '/musicxml/lilypondTestSuite/*.xml')) + sorted(glob.glob(M21 + '/musicxml/*.xml'))
    src += [f for f in sorted(glob.glob('/repo/tests/files/valid/*')) if not f.endswith('.json')]
    src += [f for f in sorted(glob.glob(M21 + '/corpus/**/*.xml', recursive=True) + glob.glob(M21 + '/corpus/**/*.mxl', recursive=True)) if os.path.getsize(f) < (60000 if f.endswith('xml') else 6000)][::6]
    print(len(src))
    with Pool(8, maxtasksperchild=10) as p:
        for r in p.imap_unordered(work, src):
            for x in r:
                print(x)
