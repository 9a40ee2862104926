"""Seeded search: generates scenarios, runs them in forked children on all cores, minimises, reports."""
from __future__ import annotations

import argparse
import importlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

from . import core

KNOWN = os.path.join(core.VERIF, 'known-findings.txt')


def log(*a):
    print(*a, flush=True)


def load_known(pid: str) -> list[tuple[str, str]]:
    """[(key, description)] of the recorded, unrepaired findings of this property."""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf-8') as f:
            for ln in f:
                ln = ln.strip()
                if ln.startswith('finding: '):
                    rest = ln[len('finding: '):]
                    p, key, what = rest.split(' ', 2)
                    if p == f'property={pid}' and key.startswith('key='):
                        out.append((key[4:], what))
    return out


class Ctx:
    """What a property's run() may use: baselines computed in pristine forks, scratch space."""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.cache: dict = {}
        self.memo_budget = 400

    def baseline(self, fn, *args, timeout=120.0):
        """fn(*args) in a fresh fork of the pristine interpreter, memoised."""
        key = (fn.__qualname__, json.dumps(args, sort_keys=True, default=str))
        v = self.cache.get(key)
        if v is None:
            v = core.in_child(_quiet, fn, *args, timeout=timeout)
            if len(self.cache) > self.memo_budget:
                self.cache.pop(next(iter(self.cache)))
            self.cache[key] = v
        return v


def _quiet(fn, *args):
    core.silence()
    return fn(*args)


class Hang(Exception):
    pass


def run_scenario(prop, ctx, scenario, index=None) -> dict:
    """One simulated run.  Returns {'violations': [...], 'stats': {...}, 'sig': str|None, 'nontrivial': bool}"""
    to = prop.RUN_TIMEOUT
    for attempt in (0, 1):
        try:
            return prop.execute(ctx, scenario, to * (1 if attempt == 0 else 4))
        except core.ChildTimeout as e:
            if attempt == 0:
                continue
            if not getattr(prop, 'HANG_IS_VIOLATION', True):
                raise
            return {'violations': [{'class': 'hang', 'key': f'hang:{prop.brief(scenario)[:80]}',
                                    'msg': f'a run that normally takes well under a second did not end within {to * 4:.0f} s: {e}'}],
                    'stats': {}, 'sig': None, 'nontrivial': False}
    raise AssertionError


def generate(prop, seed, index, tier):
    rng = core.derive_rng(seed, prop.ID, index)
    return prop.gen(rng, tier, index)


def _worker(prop, ctx, seed, tier, rfd, wfd):
    while True:
        b = os.read(rfd, 4)
        if len(b) < 4:
            break
        i = struct.unpack('>I', b)[0]
        t0 = time.monotonic()
        try:
            sc = generate(prop, seed, i, tier)
            res = run_scenario(prop, ctx, sc)
            msg = (i, 'ok', sc, res, time.monotonic() - t0)
        except BaseException as e:                           # noqa: BLE001
            msg = (i, 'harness', None, f'{type(e).__name__}: {e}\n{traceback.format_exc()}', time.monotonic() - t0)
        data = pickle.dumps(msg)
        core._write_all(wfd, struct.pack('>Q', len(data)) + data)


def run_batch(prop, seed, tier, indices, jobs, wall_cap, on_result, stop):
    """Run all indices on `jobs` forked workers; returns number completed and harness errors."""
    ctx = Ctx(prop, tier)
    if hasattr(prop, 'prepare'):
        prop.prepare(ctx, seed, tier)
    qr, qw = os.pipe()
    workers = []
    sys.stdout.flush()
    for _ in range(jobs):
        rr, rw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(qw)
                os.close(rr)
                for _p, fd in workers:
                    os.close(fd)
                os.setpgid(0, 0)
                _worker(prop, ctx, seed, tier, qr, rw)
            except BaseException:                            # noqa: BLE001
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(rw)
        workers.append((pid, rr))
    os.close(qr)
    os.set_blocking(qw, False)
    pending = list(indices)[::-1]
    bufs = {fd: bytearray() for _, fd in workers}
    open_fds = set(bufs)
    done = 0
    errors = []
    deadline = time.monotonic() + wall_cap
    fed = 0
    qopen = True
    capped = False
    try:
        while open_fds:
            # keep a short queue so that a stop takes effect quickly
            while qopen and pending and fed - done < jobs * 3 and not stop():
                os.write(qw, struct.pack('>I', pending.pop()))
                fed += 1
            if qopen and (not pending or stop() or time.monotonic() > deadline):
                if pending and time.monotonic() > deadline:
                    capped = True
                pending = []
                os.close(qw)
                qopen = False
            r, _, _ = select.select(list(open_fds), [], [], 1.0)
            for fd in r:
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    open_fds.discard(fd)
                    os.close(fd)
                    continue
                buf = bufs[fd]
                buf += chunk
                while len(buf) >= 8:
                    n = struct.unpack('>Q', buf[:8])[0]
                    if len(buf) < 8 + n:
                        break
                    msg = pickle.loads(bytes(buf[8:8 + n]))
                    del buf[:8 + n]
                    done += 1
                    if msg[1] == 'harness':
                        errors.append((msg[0], msg[3]))
                    else:
                        on_result(msg[0], msg[2], msg[3], msg[4])
    finally:
        if qopen:
            os.close(qw)
        for pid, _ in workers:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
    return {'done': done, 'fed': fed, 'errors': errors, 'capped': capped, 'ctx': ctx}


def minimise(prop, ctx, scenario, vclass, budget_s=90.0, max_runs=250):
    t0 = time.monotonic()
    cur = scenario
    runs = 0
    progress = True
    while progress and time.monotonic() - t0 < budget_s and runs < max_runs:
        progress = False
        for cand in prop.shrink(cur):
            if time.monotonic() - t0 > budget_s or runs >= max_runs:
                break
            runs += 1
            try:
                res = run_scenario(prop, ctx, cand)
            except core.HarnessError:
                continue
            if any(v['class'] == vclass for v in res['violations']):
                cur = cand
                progress = True
                break
    return cur, runs


def main(argv) -> int:
    try:
        return _main(argv)
    except core.HarnessError as e:
        log(f'HARNESS-ERROR {e}')
        return 2
    except Exception:                                        # noqa: BLE001
        traceback.print_exc()
        log('HARNESS-ERROR')
        return 2


def _main(argv) -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--index', type=int)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--eventlog', help='write one line per run (for the determinism self-test)')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--no-minimise', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.monotonic()

    mod = importlib.import_module(f'sim.props.{a.property.lower()}')
    prop = mod.PROP
    if hasattr(prop, 'pre_boot'):
        prop.pre_boot()
    core.boot(register=getattr(prop, 'REGISTER', True))
    core.pristine()

    if a.replay:
        with open(a.replay, encoding='utf-8') as f:
            rep = json.load(f)
        ctx = Ctx(prop, a.tier)
        if hasattr(prop, 'prepare'):
            prop.prepare(ctx, rep['seed'], rep['tier'])
        res = run_scenario(prop, ctx, rep['scenario'])
        for v in res['violations']:
            log(f'  [{v["class"]}] {v["msg"]}')
        if any(v['class'] == rep['class'] for v in res['violations']):
            log(f'VIOLATION property={prop.ID} replay={a.replay}')
            return 1
        log('replay: the violation does not occur')
        return 0

    if a.index is not None:
        ctx = Ctx(prop, a.tier)
        if hasattr(prop, 'prepare'):
            prop.prepare(ctx, a.seed, a.tier)
        sc = generate(prop, a.seed, a.index, a.tier)
        log(json.dumps(sc)[:3000])
        res = run_scenario(prop, ctx, sc)
        log(json.dumps({k: v for k, v in res.items()}, indent=1, default=str)[:6000])
        return 1 if res['violations'] else 0

    log(f'property {prop.ID}, tier {a.tier}, VERIF_SEED={a.seed}, {a.jobs} workers, code under test {core.REPO}')
    nruns = a.runs if a.runs is not None else prop.RUNS[a.tier]
    wall_cap = prop.WALL_CAP[a.tier]
    known = load_known(prop.ID)
    hits: dict[str, int] = {}
    violations = []          # (index, scenario, violation)
    agg = Agg(prop)
    elog = open(a.eventlog, 'w', encoding='utf-8') if a.eventlog else None
    evl = {}

    def on_result(i, sc, res, dt):
        agg.add(i, sc, res, dt)
        if elog is not None:
            evl[i] = core.digest({'sc': sc, 'v': res['violations'], 'sig': res.get('sig'), 'log': res.get('log')})
        for v in res['violations']:
            k = next((k for k, _ in known if k == v['key']), None)
            if k is not None:
                hits[k] = hits.get(k, 0) + 1
            else:
                violations.append((i, sc, v))

    def stop():
        return bool(violations) and not a.keep_going

    b = run_batch(prop, a.seed, a.tier, range(a.first, a.first + nruns), a.jobs, wall_cap, on_result, stop)
    if elog is not None:
        for i in sorted(evl):
            elog.write(f'{i} {evl[i]}\n')
        elog.close()
    agg.capped = b['capped']
    wall_search = time.monotonic() - t0
    if b['errors'] and not violations:
        for i, e in b['errors'][:3]:
            log(f'HARNESS-ERROR in run {i}: {e}')
        log(f'{len(b["errors"])} harness errors')
        write_evidence(prop, a, agg, wall_search, 0, {'harness_errors': len(b['errors'])})
        return 2
    if not violations and agg.runs < min(nruns, prop.MIN_RUNS.get(a.tier, 1)):
        log(f'HARNESS-ERROR only {agg.runs} of {nruns} runs completed within {wall_cap} s')
        write_evidence(prop, a, agg, wall_search, 0, {'incomplete': True})
        return 2
    for k, what in known:
        log(f'KNOWN-FINDING: property={prop.ID} {what} (seen in {hits.get(k, 0)} runs)')

    rc = 0
    if violations:
        rc = 1
        violations.sort(key=lambda t: t[0])
        i, sc, v = violations[0]
        log(f'run {i} violates {prop.ID}: [{v["class"]}] {v["msg"]}')
        if a.keep_going:
            seen = {}
            for j, s2, v2 in violations:
                seen.setdefault(v2['key'], []).append((j, v2['msg']))
            for k, lst in sorted(seen.items()):
                log(f'   {len(lst)}x {k}: run {lst[0][0]}: {lst[0][1][:300]}')
        small, tried = sc, 0
        if not a.no_minimise:
            small, tried = minimise(prop, b['ctx'], sc, v['class'])
            if hasattr(prop, 'explicit'):
                # write the schedule out and minimise that too
                res = run_scenario(prop, b['ctx'], small)
                if any(x['class'] == v['class'] for x in res['violations']):
                    small, more = minimise(prop, b['ctx'], prop.explicit(small, res), v['class'])
                    tried += more
        # replay in a fresh fork; it must fail the same way
        res = run_scenario(prop, b['ctx'], small)
        vs = [x for x in res['violations'] if x['class'] == v['class']]
        reproduced = bool(vs)
        if not reproduced:
            small = sc
            res = run_scenario(prop, b['ctx'], small)
            vs = [x for x in res['violations'] if x['class'] == v['class']]
            reproduced = bool(vs)
        rdir = os.environ.get('VERIF_REPLAY_DIR', os.path.join(core.VERIF, 'evidence', 'replays'))
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop.ID}-seed{a.seed}-run{i}.json')
        with open(path, 'w', encoding='utf-8') as f:
            json.dump({'property': prop.ID, 'seed': a.seed, 'tier': a.tier, 'index': i, 'class': v['class'],
                       'message': (vs or [v])[0]['msg'], 'reproduced': reproduced, 'minimisation_runs': tried,
                       'scenario': small, 'original_scenario': sc, 'trace': res.get('log', [])[:200],
                       'replay_with': f'/verif/check.py --property {prop.ID} --replay {path}'}, f, indent=1, default=str)
        log(f'minimised in {tried} runs: {prop.brief(small)}')
        log(f'   [{v["class"]}] {(vs or [v])[0]["msg"]}')
        if not reproduced:
            log('   (the violation did not recur when the same scenario was run again)')
    write_evidence(prop, a, agg, time.monotonic() - t0, len(violations), {'search_wall_s': round(wall_search, 2)})
    log(f'{agg.runs} simulated runs in {wall_search:.1f} s; faults fired: {dict(sorted(agg.faults.items()))}')
    if rc:
        log(f'VIOLATION property={prop.ID} replay={path}')
    return rc


class Agg:
    def __init__(self, prop):
        self.prop = prop
        self.runs = 0
        self.sigs: set = set()
        self.faults: dict[str, int] = {}
        self.counters: dict[str, int] = {}
        self.sets: dict[str, set] = {}
        self.samples: list = []
        self.run_s = 0.0
        self.capped = False

    def add(self, i, sc, res, dt):
        self.runs += 1
        self.run_s += dt
        if res.get('nontrivial') and res.get('sig') is not None:
            self.sigs.add(res['sig'])
        st = res.get('stats', {})
        for k, n in st.get('faults', {}).items():
            self.faults[k] = self.faults.get(k, 0) + n
        for k, n in st.get('counters', {}).items():
            self.counters[k] = self.counters.get(k, 0) + n
        for k, xs in st.get('sets', {}).items():
            self.sets.setdefault(k, set()).update(xs)
        if i % 97 == 0 and len(self.samples) < 6:
            self.samples.append({'index': i, 'scenario': sc if len(json.dumps(sc, default=str)) < 3000 else self.prop.brief(sc),
                                 'result': res.get('result', 'held' if not res['violations'] else 'violated')})


def write_evidence(prop, a, agg, wall, nviol, extra):
    ev_dir = os.environ.get('VERIF_EVIDENCE_DIR', os.path.join(core.VERIF, 'evidence'))
    os.makedirs(ev_dir, exist_ok=True)
    hours = max(wall, 1e-6) / 3600
    cov = {
        'evaluations': agg.runs,
        'distinct_nontrivial': len(agg.sigs),
        'rule': prop.RULE,
        'samples': agg.samples,
        'simulated_runs_per_hour': round(agg.runs / hours),
        'seeds': f'VERIF_SEED={a.seed}; run i uses sha256(seed/{prop.ID}/i), i = {a.first}..{a.first + agg.runs - 1}',
        'seeds_per_hour': round(agg.runs / hours),
        'faults_fired': dict(sorted(agg.faults.items())),
        'counters': dict(sorted(agg.counters.items())),
        'distinct': {k: len(v) for k, v in sorted(agg.sets.items())},
        'stopped_by_wall_cap': agg.capped,
        'components_real': prop.REAL,
        'components_stubbed': prop.STUB,
        'simulated_time': prop.SIMTIME,
        **extra,
    }
    ev = {
        'property': prop.ID, 'tier': a.tier, 'seed': a.seed, 'level': prop.LEVEL,
        'coverage': cov, 'assumptions': prop.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': nviol,
    }
    tmp = os.path.join(ev_dir, f'.{prop.ID}.json.tmp')
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    os.replace(tmp, os.path.join(ev_dir, f'{prop.ID}.json'))


class PropBase:
    ID = '?'
    LEVEL = 'exploration'
    TECHNIQUE = 'seeded deterministic simulation with fault injection'
    LEVEL_NOTE = ''
    RUNS = {'quick': 300, 'thorough': 6000}
    MIN_RUNS = {'quick': 50, 'thorough': 200}
    WALL_CAP = {'quick': 300.0, 'thorough': 3000.0}
    RUN_TIMEOUT = 90.0
    RULE = ''
    REAL = ['converter21 (all of it, from /repo)', 'music21 9.7.1', 'CPython 3.12', 'xml.etree, codecs, zlib, pickle']
    STUB: list = []
    SIMTIME = 'converter21 has no timers; simulated time is counted in steps (see counters)'
    ASSUMPTIONS: list = []

    def gen(self, rng, tier, index):
        raise NotImplementedError

    def execute(self, ctx, sc, timeout) -> dict:
        raise NotImplementedError

    def shrink(self, sc):
        return iter(())

    def brief(self, sc) -> str:
        return json.dumps(sc, default=str)[:400]
