#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current working tree.  See DESIGN.md."""
import json, os, re, subprocess, sys, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vdriver as V
import lowered
from claims import CLAIMS

VERIF = V.VERIF
HARN = os.path.join(VERIF, 'harness')
T0 = time.time()


def snapshot_problems(keys_needed=None):
    """types and Deref impls the prelude mirrors by hand: compared with the sources on every run"""
    exe = V.build_extractor()
    want = dict(l.rstrip('\n').split('\t', 1) for l in open(os.path.join(V.CON, 'types.txt')) if '\t' in l)
    got = {}
    r = subprocess.run([exe, os.path.join(V.REPO, 'src'), '/dev/null', '--types'], capture_output=True, text=True)
    for l in r.stdout.split('\n'):
        if '\t' in l:
            n, t = l.split('\t', 1); got.setdefault(n, []).append(t)
    bad = [f'{n}: expected {t}, found {got.get(n)}' for n, t in want.items() if t not in got.get(n, [])]
    dk = [l.rstrip('\n').split('\t') for l in open(os.path.join(V.CON, 'deref.txt')) if '\t' in l]
    class S: pass
    home = {}
    ex, _ = V.extract(home, [k for k, _ in dk])
    for k, t in dk:
        g = ' '.join(x.strip() for x in ex[k]['lines'])
        if g != t: bad.append(f'{k}: expected {t}, found {g or ex[k].get("err")}')
    return bad


def build_harness():
    env = dict(os.environ, RUSTFLAGS='-Ctarget-cpu=x86-64')
    man = os.path.join(HARN, 'Cargo.toml')
    src = HARN
    if V.REPO != '/repo':
        # development only: same harness against another tree
        src = os.path.join('/tmp/w', 'harness_' + re.sub(r'\W', '_', V.REPO))
        os.makedirs(src, exist_ok=True)
        subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', HARN + '/', src + '/']) if shutil.which('rsync') else subprocess.run(f'cp -r {HARN}/src {HARN}/Cargo.toml {HARN}/Cargo.lock {src}/ 2>/dev/null', shell=True)
        p = os.path.join(src, 'Cargo.toml'); s = open(p).read().replace('"/repo"', f'"{V.REPO}"'); open(p, 'w').write(s)
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=src, env=env, capture_output=True, text=True)
    if r.returncode != 0: return None, r.stderr[-3000:]
    return os.path.join(src, 'target', 'debug', 'vharness'), ''


def run_harness(exe, prop, seed, secs, tag):
    if exe is None: return {'property': prop, 'seed': seed, 'evaluations': 0, 'distinct_nontrivial': 0, 'wall_s': 0, 'samples': [], 'failure': None}
    out = os.path.join(WORK, f'h_{tag}.json')
    for f in (out, out + '.cur'):
        if os.path.exists(f): os.unlink(f)
    limit = secs + 120
    try:
        r = subprocess.run([exe, prop, '--seed', str(seed), '--secs', str(secs), '--out', out], capture_output=True, text=True, timeout=limit, cwd=WORK)
    except subprocess.TimeoutExpired:
        cur = open(out + '.cur').read() if os.path.exists(out + '.cur') else '(unknown)'
        m = re.search(r'"?index"?\D*(\d+)', cur) or re.search(r'(\d+)', cur)
        return {'property': prop, 'seed': seed, 'evaluations': 0, 'distinct_nontrivial': 0, 'wall_s': limit, 'samples': [], 'failure': {'what': 'no answer (hang)', 'input': cur, 'expected': 'termination', 'got': f'no result within {limit} s', 'index': -1, 'replay_cmd': f'vharness {prop} --seed {seed} --secs {secs}'}}
    if os.path.exists(out):
        try: return json.load(open(out))
        except ValueError: pass
    cur = open(out + '.cur').read() if os.path.exists(out + '.cur') else '(unknown)'
    return {'property': prop, 'seed': seed, 'evaluations': 0, 'distinct_nontrivial': 0, 'wall_s': 0, 'samples': [], 'failure': {'what': f'process ended abnormally (exit {r.returncode})', 'input': cur, 'expected': 'normal return', 'got': r.stderr[-600:], 'index': -1, 'replay_cmd': f'vharness {prop} --seed {seed} --secs {secs}'}}


def closure(units, home, U):
    """units whose contracts the given units assume, transitively; theories they use"""
    seen, ths, todo = [], [], list(units)
    def inc_exts(name, done):
        if name in done: return []
        done.add(name); r = []
        for l in open(os.path.join(V.CON, 'inc', name + '.vrs')).read().split('\n'):
            m = re.match(r'\s*//# (\w+)\s*(.*)$', l)
            if not m: continue
            if m.group(1) == 'ext': r.append(m.group(2).split(' without ')[0].strip())
            if m.group(1) == 'include':
                for d in m.group(2).split(): r += inc_exts(d, done)
            if m.group(1) == 'theory': ths.extend(m.group(2).split())
        return r
    while todo:
        u = todo.pop(0)
        if u in seen: continue
        seen.append(u)
        ex, done = [], set()
        for kind, v in U[u]:
            if kind == 'ext': ex.append(v.split(' without ')[0])
            if kind == 'theory': ths.extend(v.split())
            if kind == 'inc':
                for d in v.split(): ex += inc_exts(d, done)
        for k in ex:
            if k not in home: raise SystemExit(f'{u}: ext of unknown {k}')
            todo.append(home[k].unit)
    return seen, sorted(set(ths))


WEAKENABLE = re.compile(r'postcondition not satisfied|invariant not satisfied|assertion failed|unable to prove assert')


def ghost_site(s): return bool(s['tag']) and (s['tag'][0] == 'theory' or s['tag'][0] == 'raw' or s['tag'][0] == 'fn' and len(s['tag']) > 2 and s['tag'][2])


def functional(e):
    """the clause of a failed obligation that says nothing about panics, bounds, overflow or termination by itself"""
    if WEAKENABLE.search(e['message']):
        for s in e['spans']:
            if s['label'] and 'failed this postcondition' in s['label']: return s, 'or_true'
        return next((s for s in e['spans'] if s['primary']), None), 'or_true'
    if 'precondition not satisfied' in e['message']:
        s = next((s for s in e['spans'] if s['primary']), None)
        if s and ghost_site(s): return s, '()'
    return None, ''


def weaken(units, emits, res, pool, rounds=12):
    """for properties about panics and termination only: drop the functional clauses that fail and verify again, until the
    failures that remain are about panics, bounds, overflow or termination -- or none remain"""
    dropped = []
    for _ in range(rounds):
        edits = {}                                   # text of a line -> set of (c0, c1, how)
        for u in units:
            em = emits[u][0]
            for e in res[u].errors:
                if emits[u][1].get(V.where(e, em), 'exact').startswith('lossy'): continue      # undecided anyway; its callers may rely on its contract
                s, how = functional(e)
                if s is None or not s['inside'] or s['end'] != s['line'] or s['tag'] and s['tag'][0] in ('prelude', 'theory'): continue
                if s['tag'] and s['tag'][0] == 'fn' and not s['tag'][2]: continue      # code: a loop left early
                edits.setdefault(em.lines[s['line'] - 1].strip(), set()).add((s['c0'] - (len(em.lines[s['line'] - 1]) - len(em.lines[s['line'] - 1].lstrip())), s['c1'] - (len(em.lines[s['line'] - 1]) - len(em.lines[s['line'] - 1].lstrip())), how))
        if not edits: break
        again = set()
        for u in units:
            em = emits[u][0]
            for i, l in enumerate(em.lines):
                ed = edits.get(l.strip())
                if not ed: continue
                b = l.strip().encode(); last = len(b)
                for c0, c1, how in sorted(ed, reverse=True):
                    if c1 > last: continue            # nested spans: the inner one can wait
                    t = b[c0:c1]
                    b = b[:c0] + (b'or_true(' + t + b')' if how == 'or_true' else b'()') + b[c1:]; last = c0
                    if em.map[i] and em.map[i][0] in ('fn', 'raw'): dropped.append(f'{em.map[i][1]}: {t.decode()}')
                em.lines[i] = b.decode(); again.add(u)
        for u in again:
            em = emits[u][0]
            if not any('fn or_true' in l for l in em.lines[-6:]):
                at = max(i for i, l in enumerate(em.lines) if l.startswith('} // verus!'))
                em.lines.insert(at, 'pub open spec fn or_true(b: bool) -> bool { true }'); em.map.insert(at, None)
        for u, r in zip(again, pool.map(lambda u: V.run_verus(emits[u][0], u, WORK, ['--verify-root']), again)): res[u] = r
    return sorted(set(dropped))


def without(V, em, u, k, i, what):
    """leave out the ghost statement on line i, of a clause list only the clauses that mention `what`"""
    ghost = lambda j: em.map[j] and em.map[j][0] == 'fn' and em.map[j][1] == k and em.map[j][2]
    lo = hi = i
    while ghost(lo - 1): lo -= 1
    while ghost(hi + 1): hi += 1
    o, at = V.WOPT.setdefault(k, {}), lo
    for st in V.statements([em.lines[j].strip() for j in range(lo, hi + 1)]):
        if at <= i < at + len(st):
            if not re.match(r'\s*(while |loop$|loop )', em.lines[lo - 1]): o.setdefault('drop', set()).update(st); return {u}
            if st[0].startswith('decreases'): o.setdefault('drop', set()).update(st); return {u}
            it = V.clauses(' '.join(st))[1]
            bad = {c for c in it if re.search(r'\b%s\b' % what, c)} if isinstance(what, str) else set(it)
            c = o.setdefault('cut', {}).setdefault(st[0], (st, set()))
            if bad <= c[1]: return set()
            c[1].update(bad); return {u}
        at += len(st)
    return set()


def settle(units, emits, res, U, home, ex, pool):
    """functions whose text moved with a change of the code: other places for their ghost statements, before a failure is believed.
    Ghost statements cannot change what the code does, so whatever placement verifies is a proof of the code as it stands."""
    def shifted(u):
        st = emits[u][1]
        return {k for e in res[u].errors for k in [V.where(e, emits[u][0])] if k in st and home[k].unit == u and not st[k].startswith(('exact', 'lost'))}
    def again(us):
        for u in us: emits[u] = V.emit(u, U, home, ex)
        for u, r in zip(us, pool.map(lambda u: V.run_verus(emits[u][0], u, WORK, ['--verify-root']), us)): res[u] = r
    for _ in range(6):                      # names in ghost text that are not in scope where the text landed
        todo = set()
        for u in units:
            em = emits[u][0]
            for e in res[u].errors:
                m = re.match(r'cannot find value `(\w+)` in this scope', e['message'])
                s = next((s for s in e['spans'] if s['primary']), None)
                if e['message'] == 'loop must have a decreases clause' and s and s['tag'] and s['tag'][0] == 'fn' and emits[u][1].get(s['tag'][1], 'exact') != 'exact':
                    # so that the other functions of the unit get their answer; this one is undecided
                    V.WOPT.setdefault(s['tag'][1], {})['nodec'] = True; todo.add(u); continue
                if e['kind'] != 'unsupported' or not s or not s['tag'] or s['tag'][0] != 'fn' or not s['tag'][2]: continue
                k, x, i = s['tag'][1], m and m.group(1), s['line'] - 1
                if emits[u][1].get(k, 'exact') == 'exact': continue
                mine = lambda j: em.map[j] and em.map[j][0] == 'fn' and em.map[j][1] == k
                if i < next(j for j in range(len(em.lines)) if mine(j) and not em.map[j][2] and em.lines[j].strip() == '{'): continue       # the contract itself stays
                if not m: todo |= without(V, em, u, k, i, None); continue
                o = V.WOPT.setdefault(k, {})
                body = [em.lines[j].strip() for j in range(len(em.lines)) if em.map[j] and em.map[j][0] == 'fn' and em.map[j][1] == k and not em.map[j][2]]
                a = next((m2.group(1) for l in body for m2 in [re.match(r'let (?:mut )?%s(?:: [^=]+)? = &?([A-Za-z_]\w*);$' % x, l)] if m2), None)
                t = em.lines[i].strip()
                if a and x not in o.setdefault('alias', {}).get(t, {}): o['alias'].setdefault(t, {})[x] = a; todo.add(u); continue
                if x not in o.setdefault('inlined', {}) and not any(re.search(r'\b%s\b' % x, l) for l in body):
                    a = V.inlined(home[k], body, x)
                    if a: o['inlined'][x] = a; todo.add(u); continue
                lo = hi = i
                ghost = lambda j: em.map[j] and em.map[j][0] == 'fn' and em.map[j][1] == k and em.map[j][2]
                while ghost(lo - 1): lo -= 1
                while ghost(hi + 1): hi += 1
                g = next((em.lines[j].strip() for j in range(i, len(em.lines)) if ghost(j) and re.match(r'\s*let ghost (mut )?%s\b' % x, em.lines[j])), None)
                if g and o.setdefault('hoisted', {}).setdefault(g, 0) < 1: o['hoisted'][g] += 1; o.setdefault('moves', {})[g] = 'up'; todo.add(u); continue
                todo |= without(V, em, u, k, i, x)
        if not todo: break
        again(sorted(todo))
    bad = {u: shifted(u) for u in units}
    us = [u for u in units if bad[u]]
    if not us: return
    def errs(r, em, k):
        return 10 ** 6 if any(e['kind'] == 'unsupported' for e in r.errors) else sum(V.where(e, em) == k for e in r.errors)
    t0 = time.time()
    # loops that see what is known before them; the proof text at the end of a loop also before a new `continue`
    for opts in (('open_loops',), ('tails',), ('open_loops', 'tails')):
        todo = [u for u in us if any(errs(res[u], emits[u][0], k) for k in bad[u])]
        if not todo: break
        old = {u: (emits[u], res[u], {k: dict(V.WOPT.get(k, {})) for k in bad[u]}) for u in todo}
        for u in todo:
            for k in bad[u]: V.WOPT.setdefault(k, {}).update({o: True for o in opts})
        again(todo)
        for u in todo:
            new = [errs(res[u], emits[u][0], k) for k in bad[u]]; was = [errs(old[u][1], old[u][0][0], k) for k in bad[u]]
            if any(n > w for n, w in zip(new, was)) or opts != ('open_loops',) and sum(new) >= sum(was):
                V.WOPT.update(old[u][2]); emits[u], res[u] = old[u][:2]
    for u in us:
        for k in sorted(bad[u]):
            best = errs(res[u], emits[u][0], k)
            while best and time.time() - t0 < 150:
                em = emits[u][0]
                o = V.WOPT.setdefault(k, {}); mv = dict(o.get('moves', {}))
                own = [(i, l.strip()) for i, l in enumerate(em.lines) if em.map[i] and em.map[i][0] == 'fn' and em.map[i][1] == k and em.map[i][2]]
                runs, grp = [], []
                for n, (i, l) in enumerate(own):
                    if n and own[n - 1][0] == i - 1: grp[-1].append(l)
                    else: grp.append([l])
                sts = [st[0] for g in grp for st in V.statements(g) if st[0].startswith(('proof', 'assert', 'let ghost'))]
                for st in dict.fromkeys(sts):
                    for d in ('down', 'up'):
                        if mv.get(st) == d or st.startswith('let ghost') and d == 'down': continue
                        o['moves'] = dict(mv); o['moves'][st] = d
                        runs.append((o['moves'], V.emit(u, U, home, ex)))
                o['moves'] = mv
                got = list(pool.map(lambda x: V.run_verus(x[1][0], f'{u}_{id(x)}', WORK, ['--verify-root'], timeout=60), runs))
                score = [(errs(r, x[1][0], k) if not r.timeout else 10 ** 6, n) for n, (x, r) in enumerate(zip(runs, got))]
                if not score or min(score)[0] >= best: break
                best, n = min(score)
                o['moves'] = runs[n][0]; emits[u], res[u] = runs[n][1], got[n]


def trusted(ems):
    """mechanical scan of the verified text for everything that is assumed; items of the prelude that nothing in the text mentions
    (directly, or through other prelude items) are left out, except axioms, which are in scope everywhere"""
    out, pre, ids = set(), {}, set()
    for em in ems:
        for i, l in enumerate(em.lines):
            tag = em.map[i]
            if tag and tag[0] == 'prelude': pre[l] = None
            else: ids |= set(re.findall(r'\w+', l))
    fn = {l: set(re.findall(r'\bfn (\w+)', l)) | set(re.findall(r'\bstruct (\w+)', l)) for l in pre}
    more = True
    while more:
        more = False
        for l in pre:
            if fn[l] & ids:
                w = set(re.findall(r'\w+', l))
                if not w <= ids: ids |= w; more = True
    def scan(t, keep):
        for m in re.finditer(r'(?:external_body\]\s*)+(?:#\[[^\]]*\]\s*)*(?:pub )?(?:struct|fn|open spec fn)\s+(\w+)', t):
            if keep(m.group(1)): out.add('external_body ' + m.group(1))
        for m in re.finditer(r'axiom fn (\w+)', t): out.add('axiom ' + m.group(1))
        for m in re.finditer(r'assume_specification(?:<[^>]*>)?\s*\[\s*(.*?)\s*\]\s*\(', t):
            if keep(m.group(1).split('::')[-1].strip('] ')): out.add('assume_specification ' + m.group(1))
    for em in ems:
        for i, l in enumerate(em.lines):
            tag = em.map[i]
            if tag and tag[0] in ('ext',): continue        # proved in the home unit
            scan(l.strip(), (lambda n: n in ids) if tag and tag[0] == 'prelude' else (lambda n: True))
            if tag and tag[0] == 'lost': out.add('assumed contract (no body extracted) ' + tag[1])
    return sorted(out)


def theory_emit(names):
    em = V.Emitted()
    em.add(V.HEAD.rstrip('\n'))
    em.add(open(os.path.join(V.CON, 'prelude.rs')).read(), ('prelude', 'prelude'))
    seen = set()
    def th(n):
        if n in seen: return
        seen.add(n)
        txt = open(os.path.join(V.CON, 'theory', n + '.rs')).read()
        for m in re.findall(r'^//# needs (.*)$', txt, re.M):
            for d in m.split(): th(d)
        em.add(f'pub mod {n} {{\nuse super::*;\nbroadcast use prelude::f64_model;\n' + txt + f'\n}} // mod {n}\npub use {n}::*;', ('theory', n))
    for n in names: th(n)
    em.add(V.TAIL)
    return em, sorted(seen)


def main():
    global WORK
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    C = CLAIMS[prop]
    WORK = tempfile.mkdtemp(prefix=f'walkycheck_{prop}_')
    try: rc = run(prop, tier, seed, C)
    finally: shutil.rmtree(WORK, ignore_errors=True)
    sys.exit(rc)


def write_replay(prop, name, obj):
    d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{prop}_{name}.json')
    json.dump(obj, open(p, 'w'), indent=1)
    return p


def run(prop, tier, seed, C):
    U, home = V.parse_units()
    units, ths = closure(C['units'], home, U)
    for t in C.get('theories', []): ths.append(t)
    pool = ThreadPoolExecutor(8)
    fh = pool.submit(build_harness)
    try:
        V.build_extractor()
        ex, eerr = V.extract(home)
    except Exception as e:
        print('cannot build the extractor:', e); return 2
    snap = snapshot_problems()
    emits = {u: V.emit(u, U, home, ex) for u in units}
    tem, tnames = theory_emit(ths)
    jobs = {u: pool.submit(V.run_verus, emits[u][0], u, WORK, ['--verify-root']) for u in units}
    tj = pool.submit(V.run_verus, tem, 'theories', WORK, [])
    exe, herr = fh.result()
    if exe is None: print('the replay harness does not build against /repo; the verdict is the proof\'s alone:\n' + herr[:1500])
    quick_secs, long_secs = (6, float(os.environ.get('VERIF_LONG', 90))) if tier == 'quick' else (180, 240)
    if prop == 'C19' and tier == 'quick': quick_secs = 12
    h1 = pool.submit(run_harness, exe, prop, seed, quick_secs, 'first')
    lo = pool.submit(lowered.main, 2 if tier == 'quick' else 60, seed, ex) if exe else None
    hc = pool.submit(run_harness, exe, 'conform', seed, 1 if tier == 'quick' else 20, 'conform')
    res = {u: j.result() for u, j in jobs.items()}
    tres = tj.result()
    h = h1.result()
    settle(units, emits, res, U, home, ex, pool)
    dropped = weaken(units, emits, res, pool) if C.get('safety') and any(r.errors for r in res.values()) else []

    # which obligations belong to this property
    own = C.get('keys')
    def is_own(k): return own is None and k in home and home[k].unit in C['units'] or own is not None and k in own
    failed, undecided, dep = [], [], []
    status = {}
    for u in units:
        em, st, exts = emits[u]
        for k, s in st.items():
            status[k] = s
            if s.startswith(('lost', 'lossy: no measure')): (undecided if is_own(k) else dep).append(f'{k}: {s}')
        r = res[u]
        for e in r.errors:
            k = V.where(e, em)
            tg = V.tags(e)
            if tg and prop not in tg and not C.get('safety') and k is not None: dep.append(f'{k}: {e["message"]} (concerns {",".join(sorted(tg))})'); continue
            d = {'unit': u, 'function': k, 'weave': status.get(k), 'message': e['message'], 'kind': e['kind'], 'where': [s['text'] for s in e['spans']], 'verifier_output': e['rendered'][:3000]}
            if k is None or e['kind'] != 'fail': (undecided if (k is None and u in C['units']) or (k and is_own(k)) else dep).append(f'{u}/{k}: {e["kind"]}: {e["message"]}')
            elif not is_own(k): dep.append(f'{k}: {e["message"]}')
            elif status.get(k, 'exact').startswith('lossy'): undecided.append(f'{k}: {e["message"]} (contract text lost its anchor: {status[k]})')
            elif home[k].opts.get('chosen') and status.get(k, 'exact') != 'exact':
                # the contract fixes one of several ways that the property allows (section 1 of DESIGN.md)
                undecided.append(f'{k}: {e["message"]} (the contract describes the way chosen when it was written)')
            else: failed.append(d)
        if not r.success and not r.errors: undecided.append(f'{u}: verifier gave no answer: {r.stderr[-300:]}' + (' (timeout)' if r.timeout else ''))
    if not tres.success: undecided.append('theories: ' + '; '.join(e['message'] for e in tres.errors)[:500])
    if snap: undecided.extend('mirrored declaration differs: ' + s for s in snap)
    lv = lo.result() if lo else {'evaluations': 0, 'note': 'not run'}
    if lv.get('disagreement'): undecided.append('the extracted text behaves differently from the source: ' + json.dumps(lv['disagreement'])[:600])
    if eerr.strip(): undecided.append('extractor: ' + eerr.strip()[:300])

    hl = None
    f = h.get('failure')
    if not f and (failed or undecided or dep or dropped):
        hl = run_harness(exe, prop, seed + 1000003, long_secs if failed or undecided else long_secs / 2, 'long')
        f = hl.get('failure')
    rc, viol = 0, 0
    if exe is None and undecided and not failed: rc = 2
    if f:
        viol = 1; rc = 1
        p = write_replay(prop, 'input', {'property': prop, 'failing_input': f, 'failed_obligations': failed, 'undecided': undecided, 'how_to_replay': 'cd /verif/harness && cargo build --offline && target/debug/' + f['replay_cmd']})
        print(f'failing input: {f["what"]}\n  input: {f["input"][:600]}\n  expected: {f["expected"][:300]}\n  got: {f["got"][:300]}')
        for d in failed: print(f'failed obligation in {d["function"]}: {d["message"]}: ' + ' | '.join(d['where'])[:300])
        print(f'VIOLATION property={prop} replay={p}')
    elif failed:
        viol = len(failed); rc = 1
        p = write_replay(prop, 'obligation', {'property': prop, 'failed_obligations': failed, 'undecided': undecided})
        for d in failed: print(f'failed obligation in {d["function"]}: {d["message"]}: ' + ' | '.join(d['where'])[:300])
        print(f'VIOLATION property={prop} replay={p} no-failing-input-found')
    for s in undecided: print('undecided (bounded check only): ' + s[:400])
    for s in dep: print('not proved in a function this property relies on: ' + s[:400])
    kf = os.path.join(VERIF, 'known_findings.txt')
    if rc == 0 and os.path.exists(kf):
        for l in open(kf):
            if l.startswith(f'finding: property={prop} '): print('KNOWN-FINDING: ' + l[len('finding: '):].strip())

    # vacuity: with assert(false) at the start of every function body each function must fail
    vac = None
    if tier == 'thorough' or os.environ.get('VACUITY'): vac = vacuity(units, U, home, ex, pool)

    nver = sum(r.verified for r in res.values()) + tres.verified
    nerr = sum(r.nerr for r in res.values()) + tres.nerr
    if undecided or failed: nerr = max(nerr, 1)
    smt = sum(r.smt_ms for r in res.values()) + tres.smt_ms
    fns = sorted(k for u in units for k in status if home[k].unit == u and not status[k].startswith('lost'))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': C.get('level', 'proof'), 'wall_s': round(time.time() - T0, 2), 'violations': viol,
          'coverage': {
              'obligations': nver + nerr, 'discharged': nver,
              'obligation_unit': 'one item = all verification conditions of one function, loop or lemma (Verus verified/errors count)',
              'checker_cmd': f'verus <text extracted from /repo/src woven with /verif/contracts> --verify-root (units {", ".join(units)}; theories {", ".join(tnames)}); back end Z3 bundled with Verus',
              'trusted_base': trusted([em for em, _, _ in emits.values()] + [tem]),
              'functions_under_contract': [f'{k} ({ex[k].get("loc", "")}; contract text {status[k]})' for k in fns],
              'functions_deciding_this_property': sorted(k for k in fns if is_own(k)),
              'solver_ms': smt, 'per_unit': {u: {'verified': r.verified, 'errors': r.nerr, 'smt_ms': r.smt_ms, 'wall_s': round(r.wall, 2)} for u, r in list(res.items()) + [('theories', tres)]},
              'undecided': undecided, 'not_proved_in_dependencies': dep, 'functional_clauses_dropped': dropped, 'failed': [d['function'] + ': ' + d['message'] for d in failed],
              'replay_harness': {'note': 'bounded, never counted as proved: the real crate run against an independent oracle', 'evaluations': h.get('evaluations', 0) + (hl or {}).get('evaluations', 0), 'distinct_nontrivial': h.get('distinct_nontrivial', 0), 'samples': (h.get('samples') or [])[:3]},
          },
          'assumptions': C.get('assumptions', []) + ['f64 arithmetic is treated as exact real arithmetic extended by +infinity; rounding and overflow of floats are not modelled', 'the extraction rewrites (DESIGN.md, "Extraction") preserve the meaning of the extracted functions', 'contracts of std, nalgebra, priority-queue, rayon and rand functions in contracts/prelude.rs are assumed'] + C.get('bounded', [])}
    if vac is not None: ev['coverage']['vacuity'] = vac
    cf = hc.result()
    ev['coverage']['extraction_bounded_check'] = dict({'note': 'the extracted text of the functions, compiled as plain Rust, against the real crate on the same inputs (tools/lowered.py, lowered/); bounded, never counted as proved'}, **lv)
    ev['coverage']['assumed_contracts_bounded_check'] = {'note': 'the contracts assumed of std and the dependencies, evaluated on the real types (harness/src/conform.rs); bounded, never counted as proved; the groups take turns', 'evaluations': cf.get('evaluations', 0), 'failure': cf.get('failure')}
    if cf.get('failure'): print('assumed contract of a dependency fails on the installed version: ' + json.dumps(cf['failure'])[:400])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w'), indent=1)
    print(f'{prop}: {nver} of {nver + nerr} obligations discharged, {len(fns)} functions under contract, {ev["coverage"]["replay_harness"]["evaluations"]} replay evaluations, {ev["wall_s"]} s')
    return rc


def vacuity(units, U, home, ex, pool):
    """each function body must be reachable under its precondition: assert(false) at its start has to fail"""
    def one(u):
        em, st, _ = V.emit(u, U, home, ex)
        keys, i = {}, 0
        seen = set()
        while i < len(em.lines):
            t = em.map[i]
            if t and t[0] == 'fn' and t[1] not in seen and em.lines[i].strip() == '{':
                seen.add(t[1])
                em.lines[i] = '{ assert(false);'; keys[i + 1] = t[1]
            i += 1
        r = V.run_verus(em, u + '_vac', WORK, ['--verify-root'])
        hit = set()
        for e in r.errors:
            for s in e['spans']:
                if s['line'] in keys: hit.add(keys[s['line']])
        return [k for k in seen if k not in hit], len(seen)
    bad, n = [], 0
    for b, m in pool.map(one, units): bad += b; n += m
    bad = [k for k in bad if k != 'computation_mode::panic_on_invaid_mode']   # its contract is requires false: a call of it is the violation
    return {'functions_checked': n, 'precondition_unsatisfiable_or_undecided': bad}


if __name__ == '__main__': main()
