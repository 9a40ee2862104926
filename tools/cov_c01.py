"""Which converter21 lines do fault-free C01 scenarios (exports of decorated scores) and C03 imports execute?  cov_c01.py [n] prints the lines never reached."""
import collections
import io
import os
import sys
import types
sys.path.insert(0, '/verif')
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
os.environ.setdefault('VERIF_SCRATCH', '/tmp/covscratch')
from multiprocessing import Pool


def work(a):
    lo, hi = a
    mon = sys.monitoring
    from sim import core, ops, hist
    from sim.props import c01
    import converter21
    converter21.register()
    hits = set()

    def on_line(code, line):
        if '/converter21/' in code.co_filename:
            hits.add((os.path.basename(code.co_filename), line))
        return mon.DISABLE
    mon.use_tool_id(3, 'cov')
    mon.register_callback(3, mon.events.LINE, on_line)
    mon.set_events(3, mon.events.LINE)
    sys.stderr = sys.stdout = io.StringIO()
    for i in range(lo, hi):
        sc = c01.PROP.gen(core.derive_rng('cov', i), 'quick', i)
        try:
            s = c01.decorated(sc)
        except Exception:
            continue
        for op in sc['ops']:
            try:
                ops.export_text(c01.subject_of(s, sc), op['fmt'], op['opts'])
            except Exception:
                pass
        rng = core.derive_rng('cov2', i)
        op = hist.gen_op(rng, ops.light(ops.docs()), kinds=('import',), damage_rate=0.5)
        op['via'] = 'data'
        hist.perform(op)
    return hits


def all_lines():
    out = {}
    root = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'converter21')
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.py') and 'test' not in f:
                c = compile(open(os.path.join(d, f)).read(), os.path.join(d, f), 'exec')
                todo = list(c.co_consts)
                while todo:
                    k = todo.pop()
                    if isinstance(k, types.CodeType):
                        for _, _, ln in k.co_lines():
                            if ln and ln != k.co_firstlineno:
                                out[(f, ln)] = (os.path.join(d, f), k.co_qualname)
                        todo += k.co_consts
    return out


if __name__ == '__main__':
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 800
    step = max(1, n // 32)
    with Pool(8, maxtasksperchild=1) as p:
        hits = set().union(*p.imap_unordered(work, [(k, min(n, k + step)) for k in range(0, n, step)]))
    al = all_lines()
    miss = {k: v for k, v in al.items() if k not in hits}
    by = collections.Counter(k[0] for k in al)
    bm = collections.Counter(k[0] for k in miss)
    for f in sorted(by):
        print(f'{f}: {by[f] - bm[f]}/{by[f]}')
    fn = collections.defaultdict(list)
    for (f, ln), (p, q) in sorted(miss.items()):
        fn[(f, q)].append(ln)
    for (f, q), ls in fn.items():
        print(f, q, len(ls), ls[:60])
