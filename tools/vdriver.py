#!/usr/bin/env python3
"""Contract driver: weaves the contracts in /verif/contracts into the text extracted from /repo on every run
and has Verus discharge the obligations.  See DESIGN.md."""
import difflib, json, os, re, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WALKY_REPO', '/repo')
CON = os.path.join(VERIF, 'contracts')
EXTRACT = os.path.join(VERIF, 'extract')
VERUS = 'verus'
HEAD = '''#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_assignments, non_snake_case, deprecated)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
verus! {
'''
TAIL = '} // verus!\nfn main() {}\n'


class Slot:
    def __init__(s, key, name, unit):
        s.key, s.name, s.unit = key, name, unit
        s.lines = []          # (ghost?, text)
        s.opts = {}

    def code(s): return [t for g, t in s.lines if not g]

    def contract(s):
        """ghost lines between the signature and the opening brace"""
        out, seen = [], False
        for g, t in s.lines:
            if not g:
                if seen: break
                seen = True
            elif seen: out.append(t)
        return out


def parse_units():
    units, home = {}, {}
    for f in sorted(os.listdir(CON)):
        if not f.endswith('.vrs'): continue
        u = f[:-4]
        parts, cur = [], None
        for i, l in enumerate(open(os.path.join(CON, f)).read().split('\n')):
            m = re.match(r'\s*//# (\w+)\s*(.*)$', l)
            if m and cur is None:
                k, a = m.group(1), m.group(2).strip()
                if k == 'fn':
                    opts = dict(re.findall(r'\[(\w+)=([^\]]*)\]', a))
                    key = re.sub(r'\s*\[\w+=[^\]]*\]', '', a).strip()
                    cur = Slot(key, opts.get('as', key.rsplit('::', 1)[1]), u)
                    cur.opts = opts
                elif k == 'include': parts.append(('inc', a))
                elif k == 'theory': parts.append(('theory', a))
                elif k == 'ext': parts.append(('ext', a))
                else: raise SystemExit(f'{f}:{i+1}: unknown directive {k}')
                continue
            if m and m.group(1) == 'end' and cur is not None:
                parts.append(('fn', cur)); home[cur.key] = cur; cur = None; continue
            if cur is not None:
                t = l.lstrip()
                if not t: continue
                if t.startswith('@'): cur.lines.append((True, t[1:].lstrip()))
                else: cur.lines.append((False, l.rstrip()))
                continue
            parts.append(('raw', l))
        if cur is not None: raise SystemExit(f'{f}: slot {cur.key} not closed')
        units[u] = parts
    return units, home


def build_extractor():
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=EXTRACT, capture_output=True, text=True)
    if r.returncode != 0: raise RuntimeError('extractor does not build: ' + r.stderr[-2000:])
    return os.path.join(EXTRACT, 'target', 'debug', 'vextract')


def flatten(L):
    """`let P = { S; E };` where S contains a loop -> `S; let P = E;`: the same text whether or not a loop sits in a helper function.
    Only when no name declared in S is visible at that point or mentioned afterwards, other than as a new declaration."""
    L = list(L)
    ind = lambda l: len(l) - len(l.lstrip())
    for _ in range(20):
        for i, l in enumerate(L):
            m = re.match(r'\s*let (.+?) = \{$', l)
            if not m: continue
            e = next((j for j in range(i + 1, len(L)) if ind(L[j]) == ind(l)), None)
            if e is None or L[e].strip() != '};' or not any(re.match(r'\s*(while |loop$)', x) for x in L[i + 1:e]): continue
            d = ind(L[i + 1])
            t = e - 1                                    # first line of the tail expression
            while t > i and (ind(L[t]) != d or L[t].strip().startswith('}')): t -= 1
            if t <= i + 1 or L[e - 1].strip().endswith(';'): continue
            if not (L[t - 1].strip().endswith((';', '}')) and ind(L[t - 1]) == d): continue
            decl = set(x for q in L[i + 1:t] if ind(q) == d for m2 in [re.match(r'\s*let (.+?)(?:: .*?)? = ', q)] if m2 for x in re.findall(r'\w+', m2.group(1)) if x != 'mut')
            pat = set(re.findall(r'\w+', m.group(1).split(':')[0])) - {'mut'}
            live, lv = set(), ind(l)
            for j in range(i - 1, -1, -1):               # lines of the scopes that are still open
                if ind(L[j]) <= lv: live |= set(re.findall(r'\w+', L[j])); lv = min(lv, ind(L[j]))
            if decl & live: continue
            ok = True
            for x in decl - pat:
                for q in L[e + 1:]:
                    if ind(q) < ind(l): break
                    if not re.search(r'(?<![.\w])%s\b' % x, q): continue
                    if not re.match(r'\s*let (mut )?%s\b' % x, q): ok = False
                    break
            if not ok: continue
            new = [q[d - ind(l):] for q in L[i + 1:t]]
            tail = [q[d - ind(l):] for q in L[t:e]]
            tail[0] = ' ' * ind(l) + f'let {m.group(1)} = ' + tail[0].strip(); tail[-1] += ';'
            m3 = re.match(r'\s*let \(([\w, ]+)\) = \(([\w, ]+)\);$', tail[0]) or re.match(r'\s*let (\w+) = (\w+);$', tail[0])
            if len(tail) == 1 and m3:
                a, b = m3.group(1).split(', '), m3.group(2).split(', ')
                if len(a) == len(b) and not any(x.startswith('mut ') for x in a) and not any(a[p] in b[p + 1:] for p in range(len(a))):
                    tail = [' ' * ind(l) + f'let {x} = {y};' for x, y in zip(a, b) if not (x == y and x in decl)]
            L[i:e + 1] = new + tail
            break
        else: break
    return L


def extract(home, keys=None):
    """key -> dict(ok, loc, lines | err)"""
    exe = build_extractor()
    if keys is None: keys = list(home)
    req = ''.join(f'{k}\t{home[k].name if k in home else k.rsplit("::",1)[1]}\n' for k in keys)
    req += ''.join(f'known {k.rsplit("::",1)[1]}\n' for k in home)
    with tempfile.NamedTemporaryFile('w', suffix='.req', delete=False) as f: f.write(req)
    r = subprocess.run([exe, os.path.join(REPO, 'src'), f.name], capture_output=True, text=True)
    os.unlink(f.name)
    out, cur = {}, None
    for l in r.stdout.split('\n'):
        if l.startswith('=== '): cur = l[4:]; out[cur] = None; continue
        if cur is None or l == '' and out[cur] is None: continue
        if out[cur] is None:
            if l.startswith('err '): out[cur] = {'ok': False, 'err': l[4:], 'lines': []}
            else: out[cur] = {'ok': True, 'loc': l[3:], 'lines': []}
        elif l.strip(): out[cur]['lines'].append(l)
    for k in keys:
        if out.get(k) is None: out[k] = {'ok': False, 'err': 'extractor failed: ' + r.stderr[-500:], 'lines': []}
    for v in out.values(): v['lines'] = flatten(v['lines'])
    return out, r.stderr


# ------------------------------------------------------------------ weaving
WORD = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')


def toks(s): return re.findall(r'[A-Za-z_][A-Za-z0-9_]*|\d+|[^\sA-Za-z_0-9]', s)


def sim(a, b):
    if a == b: return 1.0
    ta, tb = toks(a), toks(b)
    if not ta or not tb: return 0.0
    if a[0] in '{}' or b[0] in '{}': return 0.0
    kw = lambda t: t[0] if t[0] in ('while', 'if', 'loop', 'let', 'return', 'for', 'match', 'continue', 'break') else ''
    if kw(ta) != kw(tb): return 0.0
    return difflib.SequenceMatcher(None, ta, tb, autojunk=False).ratio() * 0.95


def align(C, E):
    """order preserving alignment of code lines maximising similarity; C index -> E index"""
    n, m = len(C), len(E)
    cache = {}
    def s(i, j):
        k = (C[i], E[j])
        if k not in cache:
            v = sim(*k)
            cache[k] = v if v >= 0.5 else 0.0
        return cache[k]
    D = [[0.0] * (m + 1) for _ in range(n + 1)]
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            v = s(i, j)
            w = v * (0.3 if C[i] in ('{', '}', '};', '} else {') else 1.0)
            best = max(D[i + 1][j], D[i][j + 1])
            if v > 0: best = max(best, D[i + 1][j + 1] + w)
            D[i][j] = best
    mp, i, j = {}, 0, 0
    while i < n and j < m:
        v = s(i, j)
        w = v * (0.3 if C[i] in ('{', '}', '};', '} else {') else 1.0)
        if v > 0 and abs(D[i][j] - (D[i + 1][j + 1] + w)) < 1e-9: mp[i] = j; i += 1; j += 1
        elif D[i][j] == D[i + 1][j]: i += 1
        else: j += 1
    return mp


RESERVED = set('while if else let mut loop match return for in true false as fn usize f64 bool u32 u64 Vec Some None Ok Err self Self break continue'.split())


def rename_map(C, E):
    """identifiers consistently replaced between aligned lines of the same shape"""
    sk = lambda l: [t if not WORD.fullmatch(t) or t in RESERVED else '#' for t in toks(l)]
    cs, es = [' '.join(sk(l)) for l in C], [' '.join(sk(l)) for l in E]
    votes = {}
    sm = difflib.SequenceMatcher(None, cs, es, autojunk=False)
    for op, a0, a1, b0, b1 in sm.get_opcodes():
        if op != 'equal': continue
        for x, y in zip(C[a0:a1], E[b0:b1]):
            for s_, t_ in zip(toks(x), toks(y)):
                if WORD.fullmatch(s_) and s_ not in RESERVED: votes.setdefault(s_, {}).setdefault(t_, 0); votes[s_][t_] += 1
    mp = {}
    for s_, v in votes.items():
        t_ = max(v, key=lambda k: v[k])
        if t_ != s_ and v[t_] > sum(v.values()) / 2: mp[s_] = t_
    # only renames to identifiers that are new, of identifiers that are gone
    cw = set(t for l in C for t in toks(l)); ew = set(t for l in E for t in toks(l))
    return {a: b for a, b in mp.items() if a not in ew or b in mp or b not in cw or re.fullmatch(r'_[a-z]\d+', a)}


def subst(s, mp):
    return re.sub(r'(?<![.\w])[A-Za-z_][A-Za-z0-9_]*', lambda m: mp.get(m.group(0), m.group(0)), s) if mp else s


def scope_end(t, i):
    """where the formula of a quantifier that starts at t[i] ends"""
    d, by = 0, []
    while i < len(t):
        c = t[i]
        if c in '([{': d += 1; by.append(c == '{' and re.search(r'\bby\s*(\([^()]*\)\s*)?$', t[:i]) is not None)
        elif c in ')]}':
            d -= 1
            if d < 0: return i
            if by.pop() and d == 0: return i + 1
        elif c in ',;' and d == 0: return i
        elif c == '\n' and d == 0 and re.match(r'\s*(decreases|invariant|ensures|requires)\b', t[i:]): return i
        i += 1
    return i


def subst_ghost(block, mp):
    """the same for contract text: a quantified variable is not captured by a new name"""
    t, new = '\n'.join(block), set(mp.values())
    at = 0
    while new:
        q = re.compile(r'(?:forall|exists|choose)\s*\|([^|]*)\|').search(t, at)
        if not q: break
        ren = {w: w + '_q' for w in re.findall(r'(\w+)\s*:', q.group(1)) if w in new}
        if ren:
            e = scope_end(t, q.end())
            t = t[:q.start()] + subst(t[q.start():e], ren) + t[e:]
        at = q.start() + 6
    return subst(t, mp).split('\n')


def spec_expr(e, ok):
    """contract-level reading of a simple expression of the code, or None"""
    e = re.sub(r'&', '', e.strip().rstrip(';').strip())
    for _ in range(8):
        f = re.sub(r'\(\*([^()]*)\)', r'\1', e)
        f = re.sub(r'([A-Za-z_][\w.@]*(?:\[[\w ]+\][\w.]*)*)\.it_at\((\w+)\)', r'\1@[\2 as int]', f)
        f = re.sub(r'(?<!@)\[(\w+)\]', r'@[\1 as int]', f)
        f = re.sub(r'([A-Za-z_]\w*)\.get\(([\w.]+), ([\w.]+)\)', r'\1.mv().w(\2 as int, \3 as int)', f)
        f = re.sub(r'(\.vertices@\[[\w ]+\])@\[', r'\1.edges@[', f)      # a vertex iterates over its edges
        if f == e: break
        e = f
    bare = e.replace('.mv()', '')
    bare = re.sub(r'\.w\([^()]*\)', '', bare)
    if re.search(r'[(){}*+/<>=!-]', bare): return None
    return e if set(w for w in re.findall(r'(?<![.\w])[A-Za-z_]\w*', e)) <= ok | {'as', 'int', 'self'} else None


def inlined(slot, T, x):
    """a local of the contract's code that the new code writes out"""
    C = [t.strip() for t in slot.code()]
    mp = rename_map(C, T)
    ok = set(t for l in T for t in toks(l))
    env = {}
    for l in C:
        m = re.match(r'let (?:mut )?(\w+)(?:: [^=]+)? = (.*);$', subst(l, mp))
        if not m or m.group(1) in ok: continue
        e = spec_expr(subst(m.group(2), env), ok)
        if e and m.group(1) == x: return e
        if e: env[m.group(1)] = e
    return None


def loop_kind(l):
    """what a loop counts, and in which direction; while let, or other"""
    m = re.match(r'while ([\w.()]+) ([<>])=? ', l)
    if re.match(r'while \w+\.is_none\(\) && ', l): return 'search'
    return m.groups() if m else 'let' if l.startswith('while let') else l.split(' ')[0]


def writes(T, names):
    """how often each of these variables is written to, inside and outside of loops"""
    out, stack, pend = {}, [], False
    for l in T:
        m = re.match(r'([A-Za-z_]\w*)((?:\.\w+|\[[^=]*\])*) = ', l) or re.match(r'([A-Za-z_]\w*)(?:\.\w+)*\.(?:push|pop|swap|reverse|truncate|clear|insert|remove|swap_remove)\(', l)
        if m and m.group(1) in names: k = m.group(1), any(stack); out[k] = out.get(k, 0) + 1
        for _ in range(max(0, -net(l))): stack and stack.pop()
        for _ in range(max(0, net(l))): stack.append(pend or l == 'loop {'); pend = False
        if re.match(r'(while\b|loop$)', l): pend = net(l) <= 0
    return out


def leaves(L, i):
    """how the block opened by line i ends"""
    if net(L[i]) <= 0 and i + 1 < len(L) and not L[i].endswith('{'): i += 1
    d, j = 0, i
    while j < len(L):
        d += net(L[j])
        if j > i and (d <= 0 or (d == 1 and L[j].startswith('}'))): break
        j += 1
    m = re.match(r'(continue|break|return)\b', L[j - 1]) if j > i else None
    return m.group(1) if m else ''


def turned(a, b):
    """is one condition the negation of the other, by its looks"""
    f = lambda c: re.sub(r'^(\} else )?if |\s*\{$', '', c).strip()
    a, b = f(a), f(b)
    if a == b: return False
    if a in ('!' + b, f'!({b})') or b in ('!' + a, f'!({a})'): return True
    x, y = (re.fullmatch(r'([^<>=!&|]+?) (==|!=|<=|>=|<|>) ([^<>=!&|]+)', c) for c in (a, b))
    if not x or not y: return False
    (l, o, r), (l2, o2, r2) = x.groups(), y.groups()
    sw = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
    neg = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
    return (l, r) == (l2, r2) and neg[o] == o2 or (l, r) == (r2, l2) and neg[o] == sw.get(o2, o2)


def weave(slot, E):
    """-> (list of (ghost, text), status) ; status: 'exact' | 'woven' | 'lossy: ..'"""
    C = [t.strip() for t in slot.code()]
    T = [l.strip() for l in E]
    if C == T:
        out, it = [], iter(E)
        for g, t in slot.lines: out.append((True, t) if g else (False, next(it)))
        return out, 'exact'
    mp = rename_map(C, T)
    C2 = [subst(c, mp) for c in C]
    al = align(C2, T)
    al[0] = 0
    # loop headers by ordinal, if the numbers agree
    isloop = lambda l: l.startswith('while ') or l == 'loop'
    lc, le = [i for i, c in enumerate(C2) if isloop(c)], [j for j, c in enumerate(T) if isloop(c)]
    if len(lc) == len(le):
        for i, j in zip(lc, le): al[i] = j
    lost0 = [f'loop of another kind: {C2[i]} / {T[al[i]]}' for i in lc if al.get(i) is not None and loop_kind(C2[i]) != loop_kind(T[al[i]])]
    said = set(w for g, t in slot.lines if g for w in WORD.findall(subst(t, mp)))
    wc, wt = writes(C2, said), writes(T, said)
    lost0 += sorted(f'written elsewhere: {v}' for v, lp in set(wc) | set(wt) if wc.get((v, lp)) != wt.get((v, lp)))
    isif = lambda l: re.match(r'(\} else )?if ', l) is not None
    lost0 += [f'branch of another kind: {C2[i]} / {T[j]}' for i, j in al.items() if j and i < len(C2) and isif(C2[i]) and isif(T[j]) and C2[i] != T[j] and (leaves(C2, i) != leaves(T, j) or turned(C2[i], T[j]))]
    after, before = {}, {}      # E index -> ghost lines after / before it
    lost = lost0
    idx, block = -1, []
    blocks = []
    for g, t in slot.lines:
        if g: block.append(t)
        else:
            if block: blocks.append((idx, block)); block = []
            idx += 1
    if block: blocks.append((idx, block))
    blocks = [(k, subst_ghost(b, mp)) for k, b in blocks]
    ew = set(t for l in T for t in toks(l))
    eqs = {}                    # temporaries that the text itself equates with something that is still there
    tmp = lambda d: any(re.fullmatch(r'_[a-z]\d+', t) and t not in ew for t in toks(d))
    for k, b in blocks:
        for st in statements(b) if isloop(C2[k]) else []:
            for c in clauses(' '.join(st))[1]:
                m = re.fullmatch(r'(_[a-z]\d+) == (.+)', c.split('/*')[0].strip())
                if m and not re.search(r'==>|&&|\|\|', m.group(2)) and not tmp(m.group(2)): eqs.setdefault(m.group(1), m.group(2))
    for k, b in blocks:
        hdr = isloop(C2[k]) or k == 0
        # text about a counter or temporary that no longer exists cannot be used
        gone = {t for l in b for t in toks(l) if re.fullmatch(r'_[a-z]\d+', t) and t not in ew}
        if gone:
            # unless the text itself says what it is equal to
            eq = {x: f'({d})' for x, d in eqs.items() if x in gone}
            nb = []
            for st in statements([subst(l, eq) for l in b]):
                bad = lambda c: any(t in gone for t in toks(c))
                if not any(bad(l) for l in st): nb += st; continue
                lost.append(st[0])
                if hdr and k and not st[0].strip().startswith('decreases'):
                    kw, it = clauses(' '.join(st)); keep = [c for c in it if not bad(c)]
                    if kw or keep: nb.append(kw + ', '.join(keep or ['true']) + ',')
            if not lost: lost.append('(rewritten) ' + b[0])
            b = nb
            if not b: continue
        d = re.match(r'let (?:mut )?(\w+)\b', C2[k])
        if d and not hdr and net(C2[k]) == 0 and not (al.get(k) is not None and re.match(r'let (mut )?%s\b' % d.group(1), T[al[k]])):
            # a definition that has become a statement of several lines: after its end
            at = [j for j, l in enumerate(T) if re.match(r'let (mut )?%s\b' % d.group(1), l)]
            e = at[0] if len(at) == 1 else len(T)
            dep = net(T[e]) if e < len(T) else 0
            while 0 < dep and e + 1 < len(T): e += 1; dep += net(T[e])
            if e < len(T) and dep == 0 and e > at[0]: after.setdefault(e, []).extend(b); lost.append('(moved) ' + b[0]); continue
        if k in al and (hdr or al[k] is not None): after.setdefault(al[k], []).extend(b)
        elif hdr: lost.append(b[0])
        elif k + 1 in al: before.setdefault(al[k + 1], []).extend(b)
        else:
            # nearest mapped line before
            p = k
            while p >= 0 and p not in al: p -= 1
            ok = p >= 0 and not isloop(T[al[p]]) and p != 0 and al[p] + 1 < len(T)
            if ok: after.setdefault(al[p], []).extend(b); lost.append('(moved) ' + b[0])
            else: lost.append(b[0])
    opt = WOPT.get(slot.key, {})
    if opt.get('tails'):
        # a new early `continue` gets the proof text that stands at the end of its loop
        for j, l in enumerate(T):
            if l != 'continue;' or j in al.values(): continue
            stack = []
            for q in range(j):
                for _ in range(max(0, -net(T[q]))): stack and stack.pop()
                for _ in range(max(0, net(T[q]))): stack.append(q)
            loops = [q for q in stack if isloop(T[q]) or q and isloop(T[q - 1])]
            if not loops: continue
            depth, q = 1, loops[-1] + 1
            while q < len(T) and depth + net(T[q]) > 0: depth += net(T[q]); q += 1
            tail = after.get(q - 1, []) + before.get(q, [])
            before.setdefault(j, []).extend(t for t in tail)
    if opt.get('moves'): after, before = replace(T, after, before, isloop, opt['moves'])
    out = []
    for j, l in enumerate(E):
        for t in before.get(j, []): out.append((True, t))
        out.append((False, l))
        for t in after.get(j, []): out.append((True, t))
    if opt.get('alias'): out = [(g, subst(t, opt['alias'].get(t.strip(), {})) if g else t) for g, t in out]
    if opt.get('inlined'): out = [(g, subst(t, opt['inlined']) if g else t) for g, t in out]
    if opt.get('cut'):
        new, n = [], 0
        while n < len(out):
            g, t = out[n]; c = opt['cut'].get(t.strip()) if g else None
            if c is None or [x.strip() for _, x in out[n:n + len(c[0])]] != c[0]: new.append(out[n]); n += 1; continue
            kw, it = clauses(' '.join(c[0])); keep = [x for x in it if x not in c[1]]
            lost += ['(dropped) ' + x for x in it if x in c[1]]
            if kw or keep: new.append((True, kw + ', '.join(keep or ['true']) + ','))
            n += len(c[0])
        out = new
    if opt.get('drop'):
        lost += ['(dropped) ' + t for g, t in out if g and t.strip() in opt['drop']]
        out = [(g, t) for g, t in out if not (g and t.strip() in opt['drop'])]
    # a loop that no clause was written for: the usual measure
    meas = {}
    for n, (g, t) in enumerate(out):
        if g or not isloop(t.strip()): continue
        q = n + 1
        while q < len(out) and out[q][0] and not re.search(r'\bdecreases\b', out[q][1]): q += 1
        if q < len(out) and out[q][0]: continue
        m = re.fullmatch(r'while (?:.* && )?(\w+) < (\w+(?:\.\w+)*)(\.it_len\(\))?', t.strip())
        if m: meas[q] = (True, f'decreases ({m.group(2)}{".its().len()" if m.group(3) else ""}) - ({m.group(1)})'); lost.append('(new loop) ' + t.strip())
    out = [x for n, y in enumerate(out) for x in ([meas[n]] if n in meas else []) + [y]]
    return out, ('woven' if not lost else 'lossy: ' + '; '.join(lost)[:200])


WOPT = {}           # function -> how its contract text is placed when the plain placement does not verify (check.py, settle)


def net(t):
    t = re.sub(r"'.'", '', t)
    return sum(t.count(c) for c in '({[') - sum(t.count(c) for c in ')}]')


def clauses(t):
    """keyword and items of a clause list"""
    m = re.match(r'\s*(invariant|invariant_except_break|ensures)\s+', t)
    kw, t = (m.group(0), t[m.end():]) if m else ('', t)
    out, d, cur, bar = [], 0, '', False
    for i, c in enumerate(t):
        if c == '|' and (bar or re.search(r'\b(forall|exists|choose)\s*$', t[:i])): bar = not bar
        d += (c in '([{') - (c in ')]}')
        if c == ',' and d == 0 and not bar: out.append(cur.strip()); cur = ''
        else: cur += c
    return kw, [x for x in out + [cur.strip()] if x]


def statements(block):
    """ghost lines grouped into whole statements"""
    out, cur, d = [], [], 0
    for t in block:
        cur.append(t); d += net(t)
        if d <= 0: out.append(cur); cur, d = [], 0
    if cur: out.append(cur)
    return out


def replace(T, after, before, isloop, moves):
    """other places for the ghost statements inside bodies: at the start of the enclosing loop body for `let ghost`, at the start ('up')
    or the end ('down') of the enclosing block for proofs. Ghost code cannot change what the code does, so any place that verifies
    is as good as another."""
    n = len(T)
    opener, stack, blk = [None] * n, [], {}
    for j, t in enumerate(T):
        if t.startswith('}') and stack: blk[stack[-1]] = j; stack.pop()
        opener[j] = stack[-1] if stack else None
        if t.endswith('{') or t == '{': stack.append(j)
    def loop_of(j):
        o = opener[j]
        while o is not None and not (o > 0 and T[o] == '{' and isloop(T[o - 1])) and opener[o] is not None: o = opener[o]
        return o
    na, nb, head, tail = {}, {}, {}, {}
    for src, dst in ((before, nb), (after, na)):
        for j, block in src.items():
            if j == 0 or isloop(T[j]): dst.setdefault(j, []).extend(block); continue
            inner = T[j].endswith('{') and src is after          # right after an opening brace
            for st in statements(block):
                mv = moves.get(st[0].strip())
                o = j if inner else opener[j]
                if mv and st[0].strip().startswith('let ghost'):
                    o = loop_of(j) if not inner or not (T[j] == '{' and isloop(T[j - 1])) else j
                    if o is not None: head.setdefault(o, []).extend(st); continue
                elif mv == 'up' and o is not None: head.setdefault(o, []).extend(st); continue
                elif mv == 'down' and o in blk:
                    e = blk[o]
                    while e > o + 1 and (re.match(r'(continue|break|return)\b', T[e - 1]) or not T[e - 1].endswith((';', '}', '{', ','))): e -= 1
                    if e > o: tail.setdefault(e, []).extend(st); continue
                dst.setdefault(j, []).extend(st)
    for o, b in head.items(): na[o] = b + na.get(o, [])
    for e, b in tail.items(): nb[e] = nb.get(e, []) + b
    return na, nb


BAD = re.compile(r'\bassume\s*\(|\badmit\s*\(|external_body|\baxiom\b|assume_specification')


def ext_text(slot, sig, less=''):
    pub = '' if slot.opts.get('vis') == 'none' or 'Self' in sig.split('->')[-1] or '@' in slot.key or 'self' in sig.split(')')[0] else 'pub '
    con, ens = [], False
    for t in slot.contract():
        if less and less in t:
            if not ens or t.startswith('ensures'): raise SystemExit(f'{slot.key}: {less} is not on a line of its own among the guarantees')
            continue
        ens = ens or t.startswith('ensures')
        con.append(t)
    return ['#[verifier::external_body]', pub + sig] + ['    ' + t for t in con] + ['{ unimplemented!() }']


class Emitted:
    def __init__(s): s.lines, s.map = [], []   # map: per line (slot key or None, part)

    def add(s, text, tag=None):
        for l in text.split('\n'): s.lines.append(l); s.map.append(tag)


def emit(unit, units, home, ex, stack=(), only_theory=False):
    em = Emitted()
    em.add(HEAD.rstrip('\n'))
    em.add(open(os.path.join(CON, 'prelude.rs')).read(), ('prelude', 'prelude'))
    status, exts, seen_inc = {}, set(), set()

    def theory(name):
        if ('t', name) in seen_inc: return
        seen_inc.add(('t', name))
        txt = open(os.path.join(CON, 'theory', name + '.rs')).read()
        for m in re.findall(r'^//# needs (.*)$', txt, re.M):
            for d in m.split(): theory(d)
        em.add(f'pub mod {name} {{\nuse super::*;\nbroadcast use prelude::f64_model;\n' + txt + f'\n}} // mod {name}\npub use {name}::*;', ('theory', name))

    def go(parts):
        for kind, v in parts:
            if kind == 'raw': em.add(v, ('raw', unit))
            elif kind == 'theory':
                for d in v.split(): theory(d)
            elif kind == 'inc':
                for d in v.split():
                    if d in seen_inc: continue
                    seen_inc.add(d)
                    parts2 = []
                    for l in open(os.path.join(CON, 'inc', d + '.vrs')).read().split('\n'):
                        m = re.match(r'\s*//# (\w+)\s*(.*)$', l)
                        parts2.append(({'include': 'inc'}.get(m.group(1), m.group(1)), m.group(2).strip()) if m else ('raw', l))
                    go(parts2)
            elif kind == 'ext':
                for key, _, less in [v.partition(' without ')]:       # `without X`: leaves out the guarantees that mention X
                    if key not in home: raise SystemExit(f'{unit}: ext of unknown {key}')
                    sl, e = home[key], ex[key]
                    exts.add(key)
                    sig = e['lines'][0] if e['ok'] else sl.code()[0].strip()
                    em.add('\n'.join(ext_text(sl, sig, less)), ('ext', key))
            elif kind == 'fn':
                sl, e = v, ex[v.key]
                if not e['ok']:
                    status[v.key] = 'lost: ' + e['err']
                    em.add('\n'.join(ext_text(sl, sl.code()[0].strip())), ('lost', v.key)); continue
                el = list(e['lines'])
                if sl.opts.get('nogen'): el[0] = re.sub(r'^(fn \w+)<[^(]*>\(', r'\1(', el[0])
                w, st = weave(sl, el)
                if WOPT.get(v.key, {}).get('nodec'): st = 'lossy: no measure for a loop; ' + st; em.add('#[verifier::exec_allows_no_decreases_clause]', ('fn', v.key, False))
                assert [t for g, t in w if not g] == el
                status[v.key] = st
                first = True
                for g, t in w:
                    if g and BAD.search(t): raise SystemExit(f'forbidden ghost text in {v.key}: {t}')
                    if first and not g:
                        if ext_text(sl, t)[1].startswith('pub '): t = 'pub ' + t
                        for a in (v.opts.get('attr') or '').split(','):
                            if a: em.add(f'#[verifier::{a}]', ('fn', v.key, False))
                        if WOPT.get(v.key, {}).get('open_loops'): em.add('#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]', ('fn', v.key, False))
                        first = False
                    em.add(('        ' + t) if g else t, ('fn', v.key, g))
    go(units[unit])
    for d in literals(em): em.add(d, ('lit', d))
    em.add(TAIL)
    return em, status, exts


def literals(em):
    """definitions of the decimal float literals that the extracted text uses and the prelude does not define"""
    out = []
    for n in sorted({n for l in em.lines for n in re.findall(r'\bf64_lit_(\w+)\(', l)}):
        if any(f'fn f64_lit_{n}(' in l for l in em.lines): continue
        m = re.fullmatch(r'(\d+)(?:_(\d+))?e(m?)(\d+)', n)
        if not m: continue
        a, b, sg, e = int(m.group(1) + (m.group(2) or '')), len(m.group(2) or ''), m.group(3), int(m.group(4))
        k = (-e if sg else e) - b
        if abs(k) > 30: continue
        num, den = (a * 10 ** k, 1) if k >= 0 else (a, 10 ** -k)
        txt = n.replace('_', '.').replace('m', '-')
        out.append(f'#[verifier::external_body] pub fn f64_lit_{n}() -> (r: f64) ensures fin(r), rv(r) * {den}real == {num}real {{ {txt} }}')
    return out


class Result: pass


def run_verus(em, name, workdir, extra=(), rlimit=None, timeout=600):
    os.makedirs(workdir, exist_ok=True)
    p = os.path.join(workdir, re.sub(r'\W', '_', name) + '.rs')
    open(p, 'w').write('\n'.join(em.lines))
    cmd = [VERUS, p, '--output-json', '--time-expanded', '--num-threads', '2', '--multiple-errors', '8'] + list(extra)
    if rlimit: cmd += ['--rlimit', str(rlimit)]
    cmd += ['--', '--error-format=json']
    t0 = time.time()
    r = Result()
    r.cmd, r.path = ' '.join(cmd), p
    try:
        q = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=workdir)
        so, se, r.timeout = q.stdout, q.stderr, False
    except subprocess.TimeoutExpired as x:
        so, se, r.timeout = '', '', True
    r.wall = time.time() - t0
    r.errors = []
    r.stderr = se
    for l in se.split('\n'):
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('level') != 'error' or d['message'].startswith('aborting'): continue
        spans = []
        for s in d['spans']:
            ln = s['line_start']
            inside = s['file_name'].endswith(os.path.basename(p))
            # a span may be in the definition of a callee
            tag = em.map[ln - 1] if inside and 0 < ln <= len(em.map) else None
            spans.append({'line': ln, 'end': s['line_end'], 'c0': s['column_start'] - 1, 'c1': s['column_end'] - 1, 'label': s['label'], 'primary': s['is_primary'], 'tag': tag, 'text': em.lines[ln - 1].strip() if inside and 0 < ln <= len(em.lines) else '', 'inside': inside, 'indent': len(em.lines[ln - 1]) - len(em.lines[ln - 1].lstrip()) if inside and 0 < ln <= len(em.lines) else 0})
        msg = d['message']
        kind = 'fail' if re.search(r'postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|overflow|underflow|decreases not satisfied|recommendation not met|possible division by zero|unable to prove|could not prove|split|termination|bit shift|out of bounds|value may be out of range|does not satisfy', msg) else ('rlimit' if 'esource limit' in msg or 'rlimit' in msg or 'timed out' in msg else 'unsupported')
        r.errors.append({'message': msg, 'kind': kind, 'spans': spans, 'rendered': d.get('rendered', '')})
    try:
        js = json.loads(so)
        vr = js['verification-results']
        r.verified, r.nerr = vr['verified'], vr['errors']
        r.success = r.nerr == 0 and not r.errors and not vr.get('encountered-vir-error', False) and q.returncode == 0
        smt = js['times-ms'].get('smt', {})
        r.smt_ms = smt.get('total', 0)
        r.fn_ms = {}
        for md in smt.get('smt-run-module-times', []):
            for fb in md.get('function-breakdown', []): r.fn_ms[fb['function']] = fb.get('time', 0)
        r.fns = list(js.get('func-details', {}))
    except (ValueError, KeyError):
        r.verified, r.nerr, r.success, r.smt_ms, r.fn_ms, r.fns = 0, 1, False, 0, {}, []
    return r


def where(err, em):
    """slot in which an obligation failed"""
    c = [s for s in err['spans'] if s['tag'] and s['tag'][0] == 'fn']
    # the span inside the function being verified: prefer non-contract spans
    for s in err['spans']:
        if s['tag'] and s['tag'][0] == 'fn' and s['label'] and ('at the end' in s['label'] or 'at this' in s['label']): return s['tag'][1]
    pr = [s for s in c if s['primary']]
    return (pr or c)[0]['tag'][1] if (pr or c) else None


def tags(err):
    """properties named in the failing clause"""
    out = set()
    for s in err['spans']:
        if s['label'] and 'failed' in s['label'] or s['primary']:
            # the tags inside the span, and the last one before it on its line
            off = s.get('indent', 0); c1 = s['c1'] if s['end'] == s['line'] else 10 ** 9; before = None
            for m in re.finditer(r'/\*((?:C\d\d[ ,]*)+)\*/', s['text']):
                t = set(re.findall(r'C\d\d', m.group(1)))
                if m.start() + off >= c1: continue
                if m.start() + off >= s['c0']: out |= t
                else: before = t
            if before: out |= before
    return out


def main():
    a = sys.argv[1:]
    units, home = parse_units()
    if a[0] == 'dump':
        ex, _ = extract(home, a[1:])
        for k in a[1:]:
            print(f'//# fn {k}')
            print('\n'.join(ex[k]['lines']) if ex[k]['ok'] else '// ' + ex[k]['err'])
            print('//# end')
        return
    if a[0] == 'unit':
        ex, err = extract(home)
        if err.strip(): print(err)
        for u in a[1].split(','):
            em, st, exts = emit(u, units, home, ex)
            for k, s in st.items():
                if s != 'exact': print(f'  {k}: {s}')
            r = run_verus(em, u, os.environ.get('VW', '/tmp/w/vw'), a[2:] if len(a) > 2 else ())
            for e in r.errors:
                print(f"{e['kind']}: {e['message']}   [{where(e, em)}]")
                for s in e['spans']: print(f"      {s['line']}{'*' if s['primary'] else ' '} {s['label'] or ''}: {s['text'][:160]}" if s['inside'] else f"      (external) {s['label']}")
            if not r.errors and not r.success: print(r.stderr[-3000:])
            print(f'{u}: verified {r.verified} errors {r.nerr} smt {r.smt_ms} ms wall {r.wall:.1f} s')
            slow = sorted(r.fn_ms.items(), key=lambda x: -x[1])[:3]
            print('   slowest:', slow)


if __name__ == '__main__': main()
