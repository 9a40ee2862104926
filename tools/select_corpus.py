"""One-off: greedy, cost-weighted selection of documents that together reach most converter21 lines."""
import json, os, shutil, glob
res = json.load(open('/tmp/cov.json'))
docs = {f: (set(map(tuple, h)), t, e) for f, h, t, e in res if h}
tot = set().union(*[d[0] for d in docs.values()])
rem = set(tot)
chosen = []
for f in list(docs):
    if '/hand_' in f:
        rem -= docs[f][0]; chosen.append(f)
while True:
    cand = [f for f in docs if docs[f][1] < 1.0 and f not in chosen]
    f = max(cand, key=lambda f: (len(docs[f][0] & rem) / (0.15 + docs[f][1]), f))
    if len(docs[f][0] & rem) < 3:
        break
    chosen.append(f); rem -= docs[f][0]
heavy = ['/repo/tests/files/valid/ChopinSpring.krn', '/repo/tests/files/valid/sonata01-1.right_hand.krn', '/repo/tests/files/valid/ChopinSpring.mei']
for f in heavy:
    chosen.append(f); rem -= docs[f][0]
extra = sorted(glob.glob('/repo/tests/files/illegal/*.krn')) + [
    '/repo/converter21/mei/test/notes_in_utf8.mei', '/repo/converter21/mei/test/notes_in_utf16.mei']
idx = []
for f in chosen + extra:
    b = os.path.basename(f)
    if b.endswith('.xml'): b = b[:-4] + '.musicxml'
    b = b.replace('.xml.', '.').replace('.mxl.', '.').replace('.krn.mei', '_k.mei').replace('.musicxml.', '_x.').replace('.mei.krn', '_m.krn')
    if f in extra and f.endswith('.krn'): b = 'illegal_' + b
    dst = '/verif/corpus/' + b
    if os.path.abspath(f) != dst:
        shutil.copyfile(f, dst)
    idx.append(b)
print(len(idx), 'lines', len(tot), 'covered', len(tot) - len(rem), 'cost', sum(docs[f][1] for f in chosen), 'bytes', sum(os.path.getsize('/verif/corpus/' + b) for b in idx))
assert len(set(idx)) == len(idx)
