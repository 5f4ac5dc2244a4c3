"""mutate.py OUT.jsonl FILE...: tries simple changes of each named source or
header of /repo (relations, signs, constants, connectives, deleted statements,
dropped dependencies) against the checks of the properties anchored in it.
A change that no check notices is written as a survivor: a hole to look at, or
an equivalent change.  Work stays in a scratch directory.  MUT_MAX limits the
number of changes per file, MUT_CHECKS forces the list of checks, MUT_RE keeps
the lines that match."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile
V = os.environ.get('MUT_VERIF', '/verif')  # a copy, to keep editing meanwhile
sys.path.insert(0, V)
import run as R
OPS = [(r'(?<![<>=!+\-*/&|])<=(?!=)', ['<']), (r'(?<![<>=!\-])>=(?!=)', ['>']),
       (r'(?<![<\w>]) < (?!<)', [' <= ', ' > ']), (r'(?<![>\-]) > (?!>)', [' >= ', ' < ']),
       (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
       (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'\*=', ['=']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r' / ', [' * ']),
       (r'\+\+', ['--']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])2(?![\w.])', ['3']), (r'(?<![\w.])3(?![\w.])', ['2']),
       (r'(?<![\w.])0\.(?!\d)', ['1.']), (r'(?<![\w.])1\.(?!\d)', ['0.5']), (r'\.transpose\(\)', ['']), (r'\.inverse\((Eigen::Affine)?\)', ['']),
       (r'(?<=[(,=] )-(?=\w)', ['']), (r' << \w+SIN\b', ['']), (r' << \w+SOUT\b', ['']), (r'\b\w+S(IN|OUT) << (?=\w)', ['']), (r'\(time\)', ['.accessCopy()']), (r'\bif \((?=[^;]*\) *[{;]?$)', ['if (true || ', 'if (false && ']),
       (r'\bmin\b', ['max']), (r'\bmax\b', ['min']), (r'\bsin\b(?=\()', ['cos']), (r'\bcos\b(?=\()', ['sin'])]
SKIP = re.compile(r'^\s*(//|\*|/\*|#|using |namespace|template|typedef|class |struct |public:|protected:|private:|case |default:|friend|extern|static const|DYNAMICGRAPH|})|sotDEBUG|doc|assert\(|std::cout|std::cerr|^\s*"|os <<|addCommand|makeCommand|VP_DEBUG|sotTDEBUG|Counter|COUNTER')


def mutants(path):
    txt = open(path, newline='').read()
    lines = txt.split('\n')
    out, com = [], False
    for i, l in enumerate(lines):
        if com:
            com = '*/' not in l
            continue
        if '/*' in l and '*/' not in l:
            com = True
            continue
        code = re.sub(r'//.*', '', l)
        if SKIP.search(l) or not code.strip():
            continue
        s = code.strip()
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    if 'operator' in code or '#include' in code:
                        continue
                    if code[:m.start()].count('"') % 2:
                        continue
                    out.append((i, l, code[:m.start()] + r + code[m.end():]))
        if s.endswith(';') and not re.match(r'(return|break|continue|\w[\w:<>,&\* ]* \w+(\(.*\))?;|throw|using)', s) or re.match(r'(return|break|continue);', s) or s.startswith('break;'):
            prev = next((x.strip() for x in reversed(lines[:i]) if x.strip()), '')
            if prev.endswith((';', '{', '}', ':', '*/', ')')) or prev.startswith('//') or prev == 'else':
                if s.count('(') == s.count(')') and s.count('{') == s.count('}'):
                    out.append((i, l, re.match(r'\s*', l).group(0) + ';'))
    seen, res = set(), []
    for i, a, b in out:
        if a != b and (i, b) not in seen:
            seen.add((i, b))
            res.append((i, a, b))
    return txt, lines, res


def anchors():
    m = {}
    for l in open(V + '/properties.jsonl'):
        p = json.loads(l)
        for f in p['anchors']['files']:
            m.setdefault(f, []).append(p['id'])
    return m


def flags(d):
    std = [x for x in d['flags'] if x.startswith('-std=')]
    return [b for b in R.BASE if not (std and b.startswith('-std='))] + [d['opt']] + R.SAN[d['san']] + d['flags']


def inc(root):
    return ['-I' + root + '/include', '-I' + V + '/standin/include', '-isystem', '/usr/include/eigen3', '-I' + V + '/lib', '-I' + root + '/src']


def comp(d, src, obj, pre=()):
    return subprocess.run(['clang++'] + flags(d) + list(pre) + inc('/repo') + ['-c', src, '-o', obj, '-MMD', '-MF', obj + '.d'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode


class Build:
    def __init__(self, cid, work):
        self.id, self.cpp = cid, V + '/checks/%s.cpp' % cid
        self.py = not os.path.exists(self.cpp)
        if self.py:
            self.d = R.directives(V + '/checks/%s.py' % cid)
            return
        self.d = R.directives(self.cpp)
        self.dir = os.path.join(work, cid)
        os.makedirs(self.dir)
        self.objs = [(self.cpp, self.dir + '/driver.o')] + [(V + '/checks/' + x, self.dir + '/' + x.replace('/', '_') + '.o') for x in self.d['extra']] + [('/repo/' + s, self.dir + '/' + s.replace('/', '_') + '.o') for s in self.d['sources']]

    def build(self, ex):
        if not self.py:
            assert not any(ex.map(lambda o: comp(self.d, *o), self.objs)), self.id
            self.uses = {o: {os.path.realpath(x) for x in open(o + '.d').read().replace('\\\n', ' ').split()} for _, o in self.objs}


def run_driver(b, cmd, env, w, seeds=(1,)):
    """1 = noticed, 0 = quiet"""
    for sd in seeds:
        prog, outp = w + '/prog', w + '/out'
        try:
            p = subprocess.run(cmd + ['--seed', str(sd), '--out', outp, '--progress', prog], env=env, cwd=w, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900)
        except subprocess.TimeoutExpired:
            return 'hang'
        t = open(outp, 'rb').read() if os.path.exists(outp) else b''
        if p.returncode or b'"viol"' in t or b'"t":"end"' not in t.replace(b' ', b''):
            return 'noticed'
    return ''


def attempt(job):
    f, k, txt, lines, (i, a, b), builds, work = job
    w = tempfile.mkdtemp(dir=work)
    try:
        new = '\n'.join(lines[:i] + [b] + lines[i + 1:])
        header = not f.endswith('.cpp')
        res = []
        if f.endswith('.py'):
            shutil.copytree('/repo/src/dynamic_graph', w + '/r/src/dynamic_graph')
            open(w + '/r/' + f, 'w').write(new)
            for c in builds:
                env = R.env_for(c.d)
                env['VERIF_SCRATCH'] = w
                env['VERIF_REPO'] = w + '/r'
                if run_driver(c, ['/usr/bin/python3', '-B', V + '/checks/%s.py' % c.id], env, w):
                    return None
            return 'survived'
        rel = f
        if header and f.startswith('include/'):
            tgt = w + '/' + f
            pre = ['-I' + w + '/include']
        elif header:
            tgt = w + '/' + f
            pre = ['-iquote', os.path.dirname(tgt), '-I' + w + '/src']
        else:
            tgt = w + '/m.cpp'
            pre = ['-iquote', os.path.dirname('/repo/' + f)]
        os.makedirs(os.path.dirname(tgt), exist_ok=True)
        open(tgt, 'w', newline='').write(new)
        for c in builds:
            objs = []
            for s, o in c.objs:
                if (not header and s == '/repo/' + f):
                    n = w + '/m.o'
                    if comp(c.d, tgt, n, pre):
                        return 'stillborn'
                    objs.append(n)
                elif header and os.path.realpath('/repo/' + f) in c.uses[o]:
                    n = w + '/' + os.path.basename(o)
                    if comp(c.d, s, n, pre):
                        return 'stillborn'
                    objs.append(n)
                else:
                    objs.append(o)
            exe = w + '/driver.' + c.id
            if subprocess.run(['clang++'] + flags(c.d) + objs + ['-o', exe] + c.d['libs'] + ['-ldl', '-lpthread'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                return 'stillborn'
            env = R.env_for(c.d)
            env['VERIF_SCRATCH'] = w
            if run_driver(c, [exe], env, w):
                return None
            os.unlink(exe)
        return 'survived'
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    out, files = sys.argv[1], sys.argv[2:]
    an = anchors()
    work = tempfile.mkdtemp(prefix='vmut.', dir='/tmp')
    mx = int(os.environ.get('MUT_MAX', '100000'))
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            built = {}
            for f in files:
                ids = os.environ.get('MUT_CHECKS', '').split() or an.get(f, [])
                for c in ids:
                    if c not in built:
                        built[c] = Build(c, work)
                        built[c].build(ex)
                bs = [built[c] for c in ids]
                if not f.endswith(('.hh', '.hxx', '.py', '.t.cpp')) and not f.startswith('include/'):
                    bs = [b for b in bs if not b.py and f in b.d['sources']]
                if not bs:
                    print(f, 'no check compiles it', ids, flush=True)
                    continue
                txt, lines, ms = mutants('/repo/' + f)
                if os.environ.get('MUT_RE'):
                    ms = [m for m in ms if re.search(os.environ['MUT_RE'], m[1])]
                if not ms:
                    continue
                random.Random(5).shuffle(ms)
                ms = ms[:mx]
                assert attempt((f, -1, txt, lines, (0, lines[0], lines[0]), bs, work)) == 'survived', f + ': noticed when unchanged'
                r = list(ex.map(attempt, [(f, k, txt, lines, m, bs, work) for k, m in enumerate(ms)]))
                sur = sorted((m for m, v in zip(ms, r) if v == 'survived'))
                with open(out, 'a') as o:
                    o.write(json.dumps({'file': f, 'tried': len(ms), 'stillborn': r.count('stillborn'), 'checks': [b.id for b in bs], 'survivors': [(i + 1, a.strip(), b.strip()) for i, a, b in sur]}) + '\n')
                print(f, 'tried', len(ms), 'stillborn', r.count('stillborn'), 'survived', len(sur), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
