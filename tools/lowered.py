"""Bounded validation of the extraction: the lowered text of every function (the text the verifier gets, without the contracts) is
compiled as ordinary Rust (lowered/src/prelude.rs gives each introduced name its meaning) and run next to the real crate on the same
generated inputs; results must be identical. Never counted as proved.
usage: lowered.py [secs]  -> JSON on stdout"""
import json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vdriver as V
HERE = os.path.join(V.VERIF if hasattr(V, 'VERIF') else '/verif', 'lowered')
SKIP = re.compile(r'^lib::|::parse_from_xml$')     # the command line and the XML reader write to files and streams
IMPL = {'parser::From<Vec<Edge>>@Vertex': 'ConvFrom<Vec<Edge>> for Vertex', 'parser::From<Vec<Vec<Edge>>>@Graph': 'ConvFrom<Vec<Vec<Edge>>> for Graph',
        'nalgebra::From<&Graph>@NAMatrix': 'ConvFrom<&Graph> for NAMatrix', 'nalgebra::From<&T>@NAMatrix': '<T: AdjacencyMatrix> ConvFrom<&T> for NAMatrix',
        'vecmatrix::From<Vec<Vec<f64>>>@VecMatrix': 'ConvFrom<Vec<Vec<f64>>> for VecMatrix', 'vecmatrix::From<Graph>@VecMatrix': 'ConvFrom<Graph> for VecMatrix',
        'mst::FindMinCostEdge@Vec': 'FindMinCostEdge for Vec<(Edge, bool)>'}


def generate(ex):
    free, impls, names = [], {}, []
    for k in sorted(ex):
        if SKIP.search(k): continue
        if not ex[k]['ok']: raise RuntimeError(f'{k}: {ex[k]["err"]}')
        L = list(ex[k]['lines'])
        i = next(n for n, l in enumerate(L) if l.startswith('{'))
        sig = ' '.join(L[:i])
        sig = re.sub(r'-> \((?:ret|r): (.*)\)(\s+where .*)?$', lambda m: '-> ' + m.group(1) + (m.group(2) or ''), sig.strip())
        if '@NAMatrix' in k and 'From<&T>' in k: sig = sig.replace('<T: AdjacencyMatrix>', '')
        names.append(k)
        own = k.rsplit('::', 1)[0]
        mod, _, ty = own.partition('::')
        if not ty: free.append((sig, L[i:])); continue
        head = IMPL.get(own)
        if head is None and '@' in ty: t, s = ty.split('@'); head = f'{t} for {s}'
        if own == 'datastructures::AdjacencyMatrix': head = 'trait AdjacencyMatrix'
        impls.setdefault(head or ty, []).append((sig, L[i:]))
    out = []
    for s, b in free: out += ['pub ' + s] + b
    for h in sorted(impls):
        fs = impls[h]
        if h == 'trait AdjacencyMatrix':
            out.append('pub trait AdjacencyMatrix: Sized {')
            out += [re.sub(r'\bmut (\w+):', r'\1:', s) + ';' for s, _ in impls['AdjacencyMatrix for NAMatrix']]
        elif h.startswith('<'): out.append('impl' + h + ' {')
        else: out.append('impl ' + h + ' {')
        for s, b in fs: out += [s if ' for ' in h or 'trait' in h else 'pub ' + s] + b
        out.append('}')
        if h.startswith('FindMinCostEdge for Vec'):
            out.append('pub trait FindMinCostEdge {'); out += [re.sub(r'\bmut (\w+):', r'\1:', s) + ('' if '&' in s.split('->')[0] else ' where Self: Sized') + ';' for s, _ in fs]; out.append('}')
    return '\n'.join(out) + '\n', names


def main(secs=5.0, seed=1, ex=None):
    if ex is None:
        units, home = V.parse_units()
        ex, err = V.extract(home)
    if V.REPO != '/repo': return {'functions': 0, 'evaluations': 0, 'note': 'not run (development tree)'}
    try: txt, names = generate(ex)
    except Exception as e: return {'functions': 0, 'evaluations': 0, 'note': f'not run: {e}'}
    work = os.path.join(V.VERIF, "harness", "target"); os.makedirs(work, exist_ok=True)
    g = os.path.join(work, 'lowered_gen.rs')
    open(g, 'w').write(txt)
    env = dict(os.environ, LOWERED_GEN=g, RUSTFLAGS='-Ctarget-cpu=x86-64', CARGO_TARGET_DIR=work)
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=HERE, env=env, capture_output=True, text=True)
    if r.returncode: return {'functions': len(names), 'evaluations': 0, 'note': 'not run: the lowered text does not compile as plain Rust: ' + r.stderr[-1500:]}
    try: r = subprocess.run([os.path.join(work, "debug", "vlowered"), str(secs), str(seed)], capture_output=True, text=True, timeout=secs + 45)
    except subprocess.TimeoutExpired: return {'functions': len(names), 'evaluations': 0, 'note': 'no answer (the real code or its lowered text does not return)'}
    try: d = json.loads(r.stdout.strip().split('\n')[-1])
    except Exception: d = {'evaluations': 0, 'note': f'ended with {r.returncode}: {r.stderr[-500:]}'}
    d['functions'] = len(names)
    return d


if __name__ == '__main__': print(json.dumps(main(float(sys.argv[1]) if len(sys.argv) > 1 else 5.0), indent=1)[:3000])
