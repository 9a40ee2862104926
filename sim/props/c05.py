"""C05: the same conversion gives the same result in every process and environment."""
from __future__ import annotations

import ctypes
import gc
import locale
import os
import random
import time

from .. import core, dump, hist, ops, zygote
from ..driver import PropBase

REF_ENV = {'hashseed': 0, 'env': {'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'}, 'fixed_addresses': True}
REF_VAR = {'entropy': 7, 'hash_mode': 'scramble', 'rand': 1, 'clock': 0, 'step': 0, 'ballast': 0, 'gc': 'off', 'app_locale': False}


def env_specs(seed, n):
    """The environments of this seed's processes."""
    rng = core.derive_rng('c05-env', seed)
    out = []
    for i in range(n):
        loc = rng.choice([*({'LC_ALL': n} for n in zygote.locales()), {'LC_ALL': 'C.UTF-8'}, {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
                          {'LANG': 'POSIX', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'PYTHONIOENCODING': 'latin-1'}, {'LANG': 'C.UTF-8', 'LC_NUMERIC': 'C'}])
        if i < 2 and zygote.locales():
            loc = {'LC_ALL': 'de_DE.UTF-8' if i == 0 and 'de_DE.UTF-8' in zygote.locales() else rng.choice(zygote.locales())}
        env = dict(loc, TZ=rng.choice(['UTC', 'Asia/Tokyo', 'America/St_Johns', 'Pacific/Kiritimati', 'Africa/Lagos']),
                   USER=rng.choice(['root', 'alice', 'böb']), COLUMNS=rng.choice(['80', '20', '500']))
        if rng.random() < 0.5:
            env['PYTHONMALLOC'] = rng.choice(['pymalloc', 'pymalloc_debug'])
        for k in rng.sample(['DEBUG', 'LANGUAGE', 'SOURCE_DATE_EPOCH', 'MUSIC21_DEBUG', 'TERM', 'LOGNAME', 'EDITOR', 'PYTHONWARNINGS', 'SHELL', 'HOSTNAME'], 4):
            env[k] = {'PYTHONWARNINGS': 'ignore', 'LANGUAGE': 'de'}.get(k, '1')
        out.append({'hashseed': rng.randrange(1, 1 << 32), 'env': env, 'cwd': rng.choice(['cwd', 'dir with space', 'x/y/z']),
                    'home': rng.choice(['home', 'ho me', 'benutzer']), 'fixed_addresses': True})
    return out


def shim_call(off, step):
    so = os.environ.get('LD_PRELOAD')
    if not so:
        return None
    lib = ctypes.CDLL(so)
    lib.simclock_set.argtypes = [ctypes.c_longlong, ctypes.c_longlong]
    lib.simclock_calls.restype = ctypes.c_longlong
    lib.simclock_set(off, step)
    return lib


def run(op, var, full):
    """In a fork of a zygote: one conversion under the given variation."""
    core.silence()
    hist_op = dict(op, entropy=None)
    core.ENTROPY.reseed(var['entropy'], var['hash_mode'])
    random.seed(var['rand'])
    if var.get('app_locale'):
        locale.setlocale(locale.LC_ALL, '')                  # as applications do
    keep = []
    if var['ballast']:
        # different memory addresses, and a fragmented heap
        r = random.Random(var['ballast'])
        junk = [bytearray(r.choice((16, 48, 80, 200, 500, 1000))) for _ in range(r.randrange(20000))]
        junk2 = [object() for _ in range(r.randrange(20000))]
        r.shuffle(junk2)
        keep = (junk[::2], junk2[::3])
        del junk, junk2
    if var['gc'] == 'eager':
        gc.enable()
        gc.set_threshold(500, 5, 5)
    else:
        gc.disable()
    lib = shim_call(var['clock'], var['step'])
    t0 = time.time()
    out = _perform(hist_op, var, full)
    res = {'out': out, 'clock_calls': lib.simclock_calls() if lib else 0, 'clock_ok': lib is None or not var['clock'] or abs(t0 - var['clock'] - 1.7e9) < 1e9}
    del keep
    return res


def _perform(op, var, full):
    saved = core.ENTROPY.reseed
    core.ENTROPY.reseed = lambda *a: saved(var['entropy'], var['hash_mode'])
    try:
        return hist.perform(op, full).out
    finally:
        core.ENTROPY.reseed = saved


class C05(PropBase):
    ID = 'C05'
    RUNS = {'quick': 1900, 'thorough': 60000}
    TECHNIQUE = 'seeded deterministic simulation: the same conversion in processes whose hash seed, set order, addresses, random bytes, clock, time zone, locale, home and GC timing the simulator chooses'
    LEVEL_NOTE = ('Sampled: every conversion runs in a reference process and in two or three others (6 real interpreter environments per seed in the quick tier, 14 in thorough) times seeded object-hash '
                  'orders, random bytes, clock offsets and jumps, heap layouts and collector settings. Documents are compared after renaming xml:ids by order of appearance.')
    RULE = ('one run = one conversion in the reference environment and in 2-3 others; non-trivial = the environments differ and the conversion produced a score or document; '
            'distinct by (operation, environments, variations)')
    STUB = ['object hash values, os.urandom, random (seeded)', 'wall clock (LD_PRELOAD shim)', 'locale, time zone, home, cwd (environment of real processes)']
    ASSUMPTIONS = ['object addresses lie above 100,000,001, which music21 itself assumes to tell default ids from assigned ones', 'locales: C, C.UTF-8, POSIX, de_DE.UTF-8, tr_TR.ISO-8859-9 and ar_EG.UTF-8 (built with localedef where it is installed)', 'one CPython version, one platform']
    SIMTIME = 'wall clock offsets between -60 and +60 years, and clocks that jump up to an hour, forwards or backwards, at every reading'

    def prepare(self, ctx, seed, tier):
        hist.write_docs()
        ctx.memo_budget = 2000
        self.specs = env_specs(seed, 6 if tier == 'quick' else 14)
        zygote.shim()
        for s in [REF_ENV] + self.specs:
            zygote.start(s)

    def gen(self, rng, tier, index):
        names = ops.docs()
        light = ops.light(names)
        pool = light if rng.random() > (0.03 if tier != 'quick' else 0) else names
        doc = pool[index % len(pool)] if rng.random() < 0.5 else rng.choice(pool)
        op = hist.gen_op(rng, [doc], damage_rate=0.15, decor_rate=0.4)
        op.pop('reuse', None)
        n = rng.choice([2, 2, 3])
        others = []
        for spec in rng.sample(self.specs, n):
            var = {'entropy': rng.getrandbits(32), 'hash_mode': rng.choice(['scramble', 'scramble', 'up', 'down']), 'rand': rng.getrandbits(32),
                   'clock': rng.choice([0, rng.randrange(-1900000000, 1900000000)]), 'step': rng.choice([0, 0, rng.randrange(-3600, 3600) * 1000000000]),
                   'ballast': rng.choice([0, rng.randrange(1, 1 << 30)]), 'gc': rng.choice(['off', 'off', 'eager']), 'app_locale': rng.random() < 0.6}
            others.append({'env': spec, 'var': var})
        return {'op': op, 'others': others}

    def execute(self, ctx, sc, timeout):
        key = ('ref', repr(sorted(sc['op'].items(), key=str)))
        ref = ctx.cache.get(key)
        if ref is None:
            ref = zygote.call(REF_ENV, 'sim.props.c05:run', sc['op'], REF_VAR, False, timeout=timeout)
            if len(ctx.cache) > ctx.memo_budget:
                ctx.cache.pop(next(iter(ctx.cache)))
            ctx.cache[key] = ref
        res = {'violations': [], 'stats': {'faults': {}, 'counters': {'conversions': 1, 'clock readings': 0}, 'sets': {}}, 'log': [], 'nontrivial': ref['out']['kind'] in ('score', 'doc')}
        fk, cnt = res['stats']['faults'], res['stats']['counters']
        for o in sc['others']:
            got = zygote.call(o['env'], 'sim.props.c05:run', sc['op'], o['var'], False, timeout=timeout)
            if not got['clock_ok']:
                raise core.HarnessError('the clock shim is not in effect')
            cnt['conversions'] += 1
            cnt['clock readings'] += got['clock_calls']
            v = o['var']
            for k in ['hash seed', f'set order:{v["hash_mode"]}', 'random bytes'] + [k for k in ('clock', 'step', 'ballast') if v[k]] + (['gc eager'] if v['gc'] != 'off' else []) \
                    + (['locale not UTF-8'] if o['env']['env'].get('PYTHONUTF8') == '0' else []) \
                    + ([f'locale {o["env"]["env"]["LC_ALL"]}' + (' set by the application' if v.get('app_locale') else '')] if o['env']['env'].get('LC_ALL') in zygote.LOCALES else []):
                k = {'step': 'clock jumping', 'clock': 'clock offset', 'ballast': 'heap layout'}.get(k, k)
                fk[k] = fk.get(k, 0) + 1
            res['log'].append([o['env']['hashseed'], got['out'].get('digest') or got['out'].get('text')])
            if not ops.same(ref['out'], got['out']):
                a = zygote.call(REF_ENV, 'sim.props.c05:run', sc['op'], REF_VAR, True, timeout=timeout)
                b = zygote.call(o['env'], 'sim.props.c05:run', sc['op'], o['var'], True, timeout=timeout)
                res['violations'].append({'class': 'not-reproducible', 'key': f'not-reproducible:{sc["op"]["doc"]}:{sc["op"].get("fmt", "import")}',
                                          'msg': f'{hist.brief_op(sc["op"])} gives different results in two environments: {ops.explain(a["out"], b["out"])} [{self.var_brief(o)}]'})
                break
        res['sig'] = core.digest([sc['op'], sc['others']])
        return res

    def var_brief(self, o):
        return f'hashseed {o["env"]["hashseed"]}, {o["env"]["env"]}, {o["var"]}'

    def shrink(self, sc):
        if len(sc['others']) > 1:
            for o in sc['others']:
                yield dict(sc, others=[o])
            return
        o = sc['others'][0]
        if o['env'] != REF_ENV:
            yield dict(sc, others=[dict(o, env=REF_ENV)])
        for k, v in REF_VAR.items():
            if o['var'].get(k, v) != v:
                yield dict(sc, others=[dict(o, var=dict(o['var'], **{k: v}))])
        if o['env'] != REF_ENV:
            for k in o['env']['env']:
                if k not in ('LC_ALL', 'TZ') and len(o['env']['env']) > 2:
                    e = {a: b for a, b in o['env']['env'].items() if a != k}
                    yield dict(sc, others=[dict(o, env=dict(o['env'], env=e))])
        for k in ('edit', 'damage', 'decor', 'lenient'):
            if sc['op'].get(k):
                yield dict(sc, op={a: b for a, b in sc['op'].items() if a != k})

    def brief(self, sc):
        return hist.brief_op(sc['op']) + ' in ' + '; '.join(self.var_brief(o) for o in sc['others'])


PROP = C05()
