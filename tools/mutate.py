#!/usr/bin/env python3
"""Development aid: mutation campaign over /repo/src in scratch copies under /tmp/mut.

  mutate.py list                     all mutants (id file:line operator)
  mutate.py run OUT.jsonl [N] [SEED] classify a random sample of N (0 = all) with 8 workers
Each mutant: build the simulator against it; survey every property; if no property
reports, run the crate's own tests.  Results: killed_sim / killed_tests / survived / nobuild.
With sim kills, also says whether the crate's own tests pass (tests=pass means "planted bug").
"""
import sys, os, re, json, subprocess, random, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

FILES = {'lib.rs': None, 'iter.rs': None, 'rle.rs': None, 'generic_impl/gap_buffer.rs': 257,
         'generic_impl/ord.rs': 310, 'generic_impl/rope.rs': 341, 'generic_impl/len_finder.rs': None}
SUBS = [
    (r' < ', ' <= '), (r' < ', ' > '), (r' <= ', ' < '), (r' > ', ' >= '), (r' > ', ' < '), (r' >= ', ' > '),
    (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ 1\b', ' + 2'), (r' \+ ', ' - '), (r' - ', ' + '),
    (r'\+= ', '-= '), (r'-= ', '+= '), (r'\.\.=', '..'),
    (r'\bif (?!let)([^{]+) \{$', 'if false && (\\1) {'), (r'\bif (?!let)([^{]+) \{$', 'if true || (\\1) {'),
    (r'\bif !', 'if '), (r': 0\b', ': 1'), (r'\boffset: 0\b', 'offset: 1'), (r'= 0;', '= 1;'), (r'= 1;', '= 2;'),
    (r'USE_DIFF, None', 'USE_DIFF, Some(Default::default())'),
    (r'B::USE_DIFF', 'false'), (r'B::USE_DIFF', 'true'),
    (r'\.first\(', '.last('), (r'\.last\(', '.first('), (r'\.last_mut\(', '.first_mut('), (r'\.rev\(\)', ''),
    (r'merge_left', 'merge_right'), (r'merge_right', 'merge_left'),
    (r'next_elem', 'prev_elem'), (r'prev_elem', 'next_elem'),
    (r'Some\((\w+)\)(;|,)?$', 'None\\2'), (r'MAX_CHILDREN_NUM - 2', 'MAX_CHILDREN_NUM - 1'),
    (r'MAX_CHILDREN_NUM / 2', 'MAX_CHILDREN_NUM / 3'), (r'\.max\(', '.min('), (r'\.min\(', '.max('),
    (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'), (r'return None;', 'break;'),
    (r'Ordering::Less', 'Ordering::Greater'), (r'Ordering::Greater', 'Ordering::Less'),
    (r'\bstart\b', 'end'), (r'\bend\b', 'start'), (r'\bleft\b', 'right'), (r'\bright\b', 'left'),
    (r'\.is_none\(\)', '.is_some()'), (r'\.is_some\(\)', '.is_none()'),
    (r'\.saturating_sub', '.wrapping_sub'), (r'is_lack\(\)', 'is_empty()'), (r'is_full\(\)', 'is_empty()'),
    (r'Bound::Included', 'Bound::Excluded@'),
]
SUBS.pop()

SRC = os.environ.get('SRC', '/repo'); SIM = os.environ.get('SIM', '/verif/sim')
def mutants():
    out = []
    for f, lim in FILES.items():
        lines = open(SRC + '/src/' + f).read().split('\n')
        depth = 0
        for i, l in enumerate(lines):
            if lim and i >= lim: break
            s = l.strip()
            if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or 'assert' in s: continue
            code = l.split('//')[0].rstrip() if '//' in l else l
            seen = set()
            for pat, rep in SUBS:
                for m in re.finditer(pat, code):
                    new = code[:m.start()] + m.expand(rep) + code[m.end():]
                    if new != code and new not in seen:
                        seen.add(new); out.append((f, i, code, new))
            if s.endswith(';') and not s.startswith(('let ', 'return', '}', ')', ']', '.')) and '(' in s and s.count('(') == s.count(')') and not s.endswith(').unwrap();;'):
                if i and lines[i-1].rstrip().endswith((';', '{', '}')):
                    out.append((f, i, code, re.match(r'\s*', l).group(0) + ';'))
    res = []
    for f, i, a, b in out:
        h = hashlib.sha1(f'{f}|{i}|{a}|{b}'.encode()).hexdigest()[:10]
        res.append(dict(id=h, file=f, line=i + 1, old=a.strip(), new=b.strip(), raw=b))
    return res

ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0', CARGO_BUILD_JOBS='1', RUST_BACKTRACE='0')
ENV['PATH'] = '/root/.cargo/bin:' + ENV['PATH']
STABLE = [t.split('::', 1)[-1] if False else t for t in []]

def sh(cmd, cwd, t, env=ENV):
    p = subprocess.Popen(['bash', '-c', 'ulimit -c 0; ulimit -v 6000000; ' + cmd], cwd=cwd, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return -99, ''

def setup(w):
    d = f'/tmp/mut/w{w}'
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    sh(f'cp -a {SRC} {d}/repo && rm -rf {d}/repo/target && cp -a {SIM} {d}/sim && sed -i "s#path = \\"/repo\\"#path = \\"../repo\\"#" {d}/sim/Cargo.toml', '/', 100)
    return d

PROPS = ['C%02d' % i for i in range(1, 13)] + ['C14']
COUNT = dict(C06=6000, C07=8000)

def run_tests(d):
    rc, o = sh('cargo test --offline --lib --tests -- --include-ignored --test-threads 2', d + '/repo', 240,
               dict(ENV, CARGO_TARGET_DIR=d + '/tt', CARGO_INCREMENTAL='1'))
    if rc == -99: return 'timeout'
    failed = set(re.findall(r'^test (\S+) \.\.\. FAILED', o, re.M)) - {'generic_impl::rope::test::test_update', 'generic_impl::rope::test::test_update_1'}
    if failed: return 'fail'
    if not re.search(r'test result:', o): return 'fail?'
    return 'pass'

def one(d, m, n):
    p = f'{d}/repo/src/{m["file"]}'
    orig = open(SRC + '/src/' + m['file']).read()
    lines = orig.split('\n')
    lines[m['line'] - 1] = m['raw']
    open(p, 'w').write('\n'.join(lines))
    try:
        rc, o = sh('RUSTFLAGS="--cfg gbtree_sim" CARGO_TARGET_DIR=../st cargo build -q --offline --profile simdbg', d + '/sim', 300)
        if rc != 0: return dict(m, result='nobuild')
        kills = {}
        os.makedirs(d + '/wk', exist_ok=True)
        for pr in ['C06', 'C07'] * ('ord' in m['file'] or 'rope' in m['file'] or 'gap' in m['file']) + PROPS:
            c = COUNT.get(pr, n)
            if os.path.exists(d + '/wk/stats.0'): os.remove(d + '/wk/stats.0')
            rc, o = sh(f'{d}/st/simdbg/gbsim worker {pr} 0 777 0 1 {c} 25 {d}/wk', d, 45)
            if os.path.exists(d + '/wk/stats.0'):
                f = re.search(r'^found (\d+) (\S+) (\S+) (.*)$', open(d + '/wk/stats.0').read(), re.M)
                if f: kills[pr] = [int(f.group(1)), f.group(2), f.group(4)[:140]]
            else:
                kills[pr] = [0, 'HANG' if rc == -99 else 'ABORT', str(rc)]
            if kills: break
        r = dict(m, kills=kills)
        if kills: 
            r['result'] = 'killed_sim'
        else:
            r['tests'] = run_tests(d)
            r['result'] = 'survived' if r['tests'] == 'pass' else 'killed_tests'
        return r
    finally:
        open(p, 'w').write(orig)

def main():
    ms = mutants()
    if sys.argv[1] == 'list':
        for m in ms: print(m['id'], f"{m['file']}:{m['line']}", m['old'], '=>', m['new'])
        print(len(ms)); return
    out = sys.argv[2]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    random.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    random.shuffle(ms)
    done = set()
    if os.path.exists(out): done = {json.loads(l)['id'] for l in open(out)}
    if n: ms = ms[:n]
    ms = [m for m in ms if m['id'] not in done]
    if os.environ.get('FIRST'):  # a file of file|old|new lines to take first
        first = set(open(os.environ['FIRST']).read().split('\n'))
        ms.sort(key=lambda m: f"{m['file']}|{m['old']}|{m['new']}" not in first)
    W = int(os.environ.get('W', '8')); q = Queue()
    for w in range(W): q.put(setup(w))
    f = open(out, 'a')
    def job(m):
        d = q.get()
        try: r = one(d, m, int(os.environ.get('RUNS', '2500')))
        finally: q.put(d)
        r.pop('raw', None)
        f.write(json.dumps(r) + '\n'); f.flush()
    with ThreadPoolExecutor(W) as ex: list(ex.map(job, ms))
    shutil.rmtree('/tmp/mut')
main()
