#!/usr/bin/env python3
"""Samples small textual mutations of the repository (swapped comparisons, operators,
arguments, constants, dropped calls, ...) in scratch copies, runs all checks on each
and reports the mutants that no check notices although they compile; with --tests also
whether the unit tests notice them. A way to find blind spots, nothing more: many of
the survivors mean the same as the original.

    mutate.py --n 200 --seed 1 [--paths regex] [--workers 6] [--tests] [--out FILE] [--root DIR]
"""
import argparse, concurrent.futures, glob, json, os, queue, random, re, shutil, subprocess, threading

ap = argparse.ArgumentParser()
ap.add_argument('--n', type=int, default=50)
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--paths', default='.')
ap.add_argument('--not-paths', default='^$')
ap.add_argument('--workers', type=int, default=6)
ap.add_argument('--tests', action='store_true')
ap.add_argument('--out', default='/tmp/mutants.jsonl')
ap.add_argument('--root', default=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ap.add_argument('--work', default='/tmp/mutate')
a = ap.parse_args()
REPO = '/repo'
SRC = os.path.join(REPO, 'src')
checks = [c['property'] for c in json.load(open(os.path.join(a.root, 'MANIFEST.json')))['checks']]
COST = {'B01': 3, 'P01': 3, 'O01': 4, 'O02': 5, 'C01': 3, 'G03': 2}
checks.sort(key=lambda c: COST.get(c, 0))

RULES = [
    (r'(?<![<>=\-!])<=(?!=)', ['<']), (r'(?<![<>=\-!])>=(?!=)', ['>']),
    (r'(?<= )<(?= )', ['<=', '>']), (r'(?<= )>(?= )', ['>=', '<']),
    (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|(?= )', ['&&']),
    (r'(?<= )\+(?= )', ['-']), (r'(?<= )-(?= )', ['+']), (r'(?<= )\*(?= )', ['/', '+']), (r'(?<= )/(?= )', ['*']),
    (r'\+=', ['-=']), (r'-=', ['+=']), (r' % ', [' + ']),
    (r'\.next\(', ['.prev(']), (r'\.prev\(', ['.next(']), (r'\.twin\(\w*\)', ['']), (r'\.next_id\(', ['.prev_id(', '.twin_id(']),
    (r'\.prev_id\(', ['.next_id(']), (r'\.twin_id\(', ['.next_id(', '.prev_id(', '.id(']),
    (r'\.origin_id\(', ['.target_id(']), (r'\.target_id\(', ['.origin_id(']), (r'\.origin\(', ['.target(']), (r'\.target\(', ['.origin(']),
    (r'\.x\(\)', ['.y()']), (r'\.y\(\)', ['.x()', '.z()']), (r'\.z\(\)', ['.y()']), (r'\.x\b(?!\()', ['.y']), (r'\.y\b(?!\()', ['.x']),
    (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'\bsin\(', ['cos(']), (r'\bcos\(', ['sin(']), (r'\bfirst\(\)', ['last()']), (r'\blast\(\)', ['first()']),
    (r'\bany\(', ['all(']), (r'\ball\(', ['any(']), (r'\.rev\(\)', ['']), (r'\.skip\(1\)', ['', '.skip(2)']), (r'\.take\((\w+)\)', ['']), (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'(?<![\w.#])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])2(?![\w.])', ['1', '3']), (r'(?<![\w.])3(?![\w.])', ['2']), (r'(?<![\w.])4(?![\w.])', ['3']),
    (r'\b0\.5\b', ['0.25']), (r'\bS::ONE\b', ['S::ZERO', 'S::TWO']), (r'\bS::ZERO\b', ['S::ONE']), (r'\bS::TWO\b', ['S::THREE']), (r'\bS::HALF\b', ['S::ONE']), (r'S::PI\b', ['S::TWO']),
    (r'if !', ['if ']), (r'\bif (?!let)', ['if !']), (r'return !', ['return ']), (r'(?<= )!(?=\w)', ['']),
    (r'\.\.=', ['..']), (r'(?<=\w)\.\.(?=[\w(])(?!=)', ['..=']), (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']), (r'\bSome\((\w+)\)$', ['None']),
    (r'\(((?:[\w.&*]|\(\))+), ((?:[\w.&*]|\(\))+)\)', [r'(\2, \1)']), (r'\b(\w+), (\w+)\)', [r'\2, \1)']), (r'\((\w+), (\w+),', [r'(\2, \1,']),
    (r'\.normalize\(\)', ['']), (r'\.abs\(\)', ['']), (r'\.clone\(\)\.(\w+)', [r'.clone()']), (r'\bpush\(', ['push(']),
    (r'(?<=[( ])-(?=[a-zA-Z(])', ['']), (r'\bmid\b', ['mid']),
    (r'\.insert\(', ['.remove(']), (r'\.or\(', ['.and(']), (r'flip', ['flip']),
]
STMT = re.compile(r'^\s*[\w.]+(?:\([^;{}]*\))?(?:\.\w+\([^;{}]*\))*\s*(?:[-+*/]?=[^=].*)?;\s*$')


def mutants():
    out = []
    for p in sorted(glob.glob(SRC + '/**/*.rs', recursive=True)):
        rel = os.path.relpath(p, REPO)
        if not re.search(a.paths, rel) or re.search(a.not_paths, rel) or '/tests' in rel or rel.endswith('tests.rs'):
            continue
        lines = open(p).read().split('\n')
        for i, l in enumerate(lines):
            if re.match(r'\s*#\[cfg\(test\)\]', l):
                break
            code = l.split('//')[0]
            s = code.strip()
            if not s or s.startswith(('*', '/*', 'use ', 'pub use', '#', 'fn ', 'pub fn', 'impl', 'pub trait', 'trait', 'type ', 'where', 'mod ', 'pub mod', 'assert', 'debug_assert', 'println', 'panic', '"', 'pub struct', 'struct', 'pub type')):
                continue
            if re.match(r'^[\w<>:, ]+: .*(Trait|Self|<).*[,{]?$', s) and '=' not in s and '(' not in s:
                continue
            for rx, subs in RULES:
                for m in re.finditer(rx, code):
                    for sub in subs:
                        new = code[:m.start()] + m.expand(sub) + code[m.end():]
                        if new != code:
                            out.append((rel, i, l, new))
            if STMT.match(code) and not s.startswith(('let ', 'return', 'break', 'continue')):
                out.append((rel, i, l, ''))
    return out


ms = sorted(set(mutants()))
random.Random(a.seed).shuffle(ms)
# spread over the files: draw the files in proportion to the square root of their share
by = {}
for m in ms:
    by.setdefault(m[0], []).append(m)
rng = random.Random(a.seed)
pick = []
while by and len(pick) < a.n:
    k = rng.choices(sorted(by), [len(by[f]) ** 0.7 for f in sorted(by)])[0]
    pick.append(by[k].pop())
    if not by[k]:
        del by[k]
print(len(ms), 'mutants,', len(pick), 'drawn', flush=True)
shutil.rmtree(a.work, ignore_errors=True)
os.makedirs(a.work)
free = queue.Queue()
for k in range(a.workers):
    subprocess.run(['git', 'clone', '-q', REPO, f'{a.work}/{k}/repo'], check=True)
    free.put(k)
lock = threading.Lock()
count = {}


def one(m):
    rel, i, old, new = m
    k = free.get()
    try:
        d = f'{a.work}/{k}'
        repo = d + '/repo'
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '.'], check=True)
        p = os.path.join(repo, rel)
        ls = open(p).read().split('\n')
        assert ls[i] == old
        ls[i] = new
        open(p, 'w').write('\n'.join(ls))
        os.makedirs(d + '/ev', exist_ok=True)
        env = dict(os.environ, VERIF_REPO=repo, VERIF_CACHE=d + '/cache', VERIF_EVIDENCE=d + '/ev', VERIF_SEED='1', VERIF_TIER='quick')
        res, what = 'survived', ''
        for c in checks:
            q = subprocess.run(['python3', 'check.py', c], cwd=a.root, env=env, capture_output=True, text=True)
            o = q.stdout + q.stderr
            if q.returncode == 1 and 'VIOLATION' in o:
                res, what = 'caught', c
                break
            if q.returncode:
                res, what = 'build', o[-300:]
                if 'error' not in o and 'extraction' not in o:
                    res = 'broken ' + c
                break
        if res == 'survived' and a.tests:
            t = subprocess.run('cargo test -p procedural_modelling --offline --lib --features nalgebra,netsci,fonts,svg,wgpu -- --test-threads 2 2>&1 | tail -30', shell=True, cwd=repo, capture_output=True, text=True,
                               env=dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=d + '/target', CARGO_BUILD_JOBS='2', CARGO_PROFILE_DEV_DEBUG='0'))
            fails = re.findall(r'^    (\S+::\S+)$', t.stdout, re.M)
            res = 'survived tests' if 'test result: ok' in t.stdout else 'tests' if 'test result: FAILED' in t.stdout else 'build2'
            what = ' '.join(sorted(set(fails)))[:200]
        with lock:
            count[res] = count.get(res, 0) + 1
            with open(a.out, 'a') as f:
                f.write(json.dumps({'file': rel, 'line': i + 1, 'old': old.strip(), 'new': new.strip(), 'result': res, 'what': what}) + '\n')
            if res.startswith(('survived', 'broken')):
                print(f'{res}: {rel}:{i + 1}\n   - {old.strip()}\n   + {new.strip()}   {what[:120]}', flush=True)
    except Exception as e:
        print('ERROR', rel, i, repr(e)[:200], flush=True)
    finally:
        free.put(k)


with concurrent.futures.ThreadPoolExecutor(a.workers) as ex:
    list(ex.map(one, pick))
print(count)
shutil.rmtree(a.work, ignore_errors=True)
