"""Run factgen over /repo's current sources and load the result.

The facts of a run are cached under /verif/build/facts, keyed by the content of every source
file they could depend on; a changed tree is always parsed again."""
import os, sys, json, glob, hashlib, subprocess, pickle, gc, time, re, gzip

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
TOOL = os.path.join(VERIF, 'tool')
BUILD = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18'

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def _hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()

def toolfiles():
    return [TOOL + '/factgen.cc'] + glob.glob(TOOL + '/shim/**/*.h*', recursive=True)

def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    key = _hash([TOOL + '/factgen.cc', TOOL + '/pch.h'])[:16]
    exe = f'{BUILD}/factgen-{key}'
    pch = f'{BUILD}/pch-{key}.pch'
    procs = []
    tmp = f'.{os.getpid()}.tmp'
    if not os.path.exists(exe):
        flags = subprocess.check_output(['llvm-config-18', '--cppflags'], text=True).split()
        procs.append((exe, ['clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++', '-O1', '-std=c++17', '-fno-rtti', '-w'] + flags +
                      [TOOL + '/factgen.cc', '-o', exe + tmp, LLVM + '/lib/libclang-cpp.so.18.1', '-L' + LLVM + '/lib', '-lLLVM-18', '-Wl,-rpath,' + LLVM + '/lib']))
    if not os.path.exists(pch):
        procs.append((pch, ['clang++', '-x', 'c++-header', TOOL + '/pch.h', '-o', pch + tmp] + lang_flags()))
    ps = [(o, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for o, c in procs]
    for o, p in ps:
        out, _ = p.communicate()
        if p.returncode:
            raise SystemExit(f'cannot build {o}:\n{out[-3000:]}')
        os.rename(o + tmp, o)
    return exe, pch

def lang_flags():
    return ['-w', '-pthread', '-DHAVE_CONFIG_H', '-DKENLM_MAX_ORDER=6', '-std=c++11', '-include', 'map']

def flags():
    s = REPO + '/src'
    return lang_flags() + ['-resource-dir', LLVM + '/lib/clang/18', '-I' + TOOL + '/shim', '-I' + s + '/include/travatar',
            '-I' + s + '/include', '-I' + s + '/kenlm', '-I' + s, '-I' + TOOL + '/shim/fallback']

def sources():
    return sorted(glob.glob(REPO + '/src/lib/*.cc') + glob.glob(REPO + '/src/bin/*.cc'))

def built_sources():
    """the .cc files the build compiles (src/lib/Makefile.am lists them; one per tool in src/bin)"""
    am = open(REPO + '/src/lib/Makefile.am').read()
    names = set(re.findall(r'[\w.-]+\.cc\b', am)) | set(re.findall(r'[\w.-]+\.cc\b', open(REPO + '/src/bin/Makefile.am').read()))
    return [f for f in sources() if os.path.basename(f) in names]

def all_inputs():
    s = REPO + '/src'
    r = []
    for d, pats in (('lib', ('*.cc', '*.h', '*.am')), ('bin', ('*.cc', '*.h', '*.am')), ('include', ('*.h', '*.hh', '*.hpp')), ('kenlm', ('*.hh', '*.h')),
              ('marisa', ('*.h',)), ('tercpp', ('*.h',)), ('liblbfgs', ('*.h', '*.hpp'))):
        for p in pats:
            r += glob.glob(f'{s}/{d}/**/{p}', recursive=True)
    return r

def run_factgen(exe, pch, files, out, extra=()):
    fl = flags() + ['-include-pch', pch] + list(extra)
    cmd = [exe, '--wd', REPO + '/src/lib', '--root', REPO + '/src/lib/', '--root', REPO + '/src/bin/', '--root', REPO + '/src/include/', '--out', out] + files + ['--'] + fl
    return subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

SIMPL = [('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string'),
         ('std::basic_string<char>', 'std::string')]

def generate():
    exe, pch = build_tool()
    key = _hash(all_inputs() + toolfiles() + [TOOL + '/pch.h'], ' '.join(flags()))[:24]
    cdir = BUILD + '/facts'
    cache = f'{cdir}/{key}.pickle'
    if os.path.exists(cache) and not os.environ.get('VF_NOCACHE'):
        return cache
    os.makedirs(cdir, exist_ok=True)
    work = f'{BUILD}/work.{os.getpid()}'
    os.makedirs(work, exist_ok=True)
    files = built_sources()
    n = min(len(files), max(2, (os.cpu_count() or 4)))
    files.sort(key=lambda f: -os.path.getsize(f))
    groups = [files[i::n] for i in range(n)]
    ps = [run_factgen(exe, pch, g, f'{work}/{i}.jsonl') for i, g in enumerate(groups)]
    for p in ps: p.wait()
    raw = Raw()
    for i in range(n): raw.read(f'{work}/{i}.jsonl')
    bad = sorted({t for t, e in raw.tu.items() if e})
    if bad:
        p = run_factgen(exe, pch, bad, f'{work}/again.jsonl', ['-DVF_FOREACH_ASSIGN']); p.wait()
        raw.tu = {t: e for t, e in raw.tu.items() if not e}
        raw.errs = []
        raw.read(f'{work}/again.jsonl')
    for f in os.listdir(work): os.unlink(f'{work}/{f}')
    os.rmdir(work)
    missing = [f for f in files if os.path.realpath(f) not in {os.path.realpath(t) for t in raw.tu}]
    raw.missing = missing
    gc.disable()
    with open(cache + f'.{os.getpid()}', 'wb') as f:
        pickle.dump(raw.__dict__, f, protocol=pickle.HIGHEST_PROTOCOL)
    os.rename(cache + f'.{os.getpid()}', cache)
    gc.enable()
    # keep the cache small
    old = sorted(glob.glob(cdir + '/*.pickle'), key=os.path.getmtime)
    for o in old[:-6]:
        try: os.unlink(o)
        except OSError: pass
    return cache

class Raw:
    def __init__(self):
        self.funcs = {}; self.decls = {}; self.recs = {}; self.globals = {}; self.ginit = {}; self.enums = {}
        self.types = {}; self.tkey = {}; self.tu = {}; self.errs = []; self.deps = {}; self.missing = []
    def read(self, path):
        # type ids are local to a file: first pass maps them to global ids
        local = {}
        objs = []
        ended = False
        with open(path) as f:
            for line in f:
                for a, b in SIMPL:
                    if a in line: line = line.replace(a, b)
                o = json.loads(line)
                if 'T' in o and 's' in o:
                    local[o['T']] = o
                elif 'END' in o: ended = True
                else: objs.append(o)
        if not ended: raise SystemExit(f'factgen did not finish: {path}')
        tmap = {}
        for i, o in local.items():
            if o['s'] in self.tkey: tmap[i] = self.tkey[o['s']]
            else:
                tmap[i] = self.tkey[o['s']] = len(self.types)
                self.types[tmap[i]] = None
        for i, o in local.items():
            g = tmap[i]
            if self.types[g] is None:
                o = dict(o); o['T'] = g
                if 'p' in o: o['p'] = tmap.get(o['p'], -1)
                if 'ta' in o: o['ta'] = [tmap.get(x, -1) for x in o['ta']]
                self.types[g] = o
        def rt(x): return tmap.get(x, -1)
        def fix(n):
            st = [n]
            while st:
                x = st.pop()
                if x is None: continue
                for k in ('t', 'it', 'at', 'dt', 'ct'):
                    if k in x: x[k] = rt(x[k])
                c = x.get('c')
                if c: st.extend(c)
        for o in objs:
            if 'F' in o:
                if o['F'] in self.funcs: continue
                for p in o['params']: p['t'] = rt(p['t'])
                fix(o['body'])
                for i in o.get('inits', ()): fix(i['e'])
                self.funcs[o['F']] = o
            elif 'D' in o:
                if o['D'] in self.decls: continue
                o['rt'] = rt(o['rt']); o['pt'] = [rt(x) for x in o['pt']]
                self.decls[o['D']] = o
            elif 'R' in o:
                if o['R'] in self.recs: continue
                for fl in o['fields']: fl['t'] = rt(fl['t'])
                self.recs[o['R']] = o
            elif 'G' in o:
                o['t'] = rt(o['t']); self.globals.setdefault(o['G'], o)
            elif 'GI' in o:
                fix(o['e']); self.ginit.setdefault(o['GI'], o['e'])
            elif 'E' in o: self.enums.setdefault(o['E'], o['vals'])
            elif 'TU' in o: self.tu[o['TU']] = o['errors']
            elif 'ERR' in o: self.errs.append(o)
            elif 'DEPS' in o: self.deps[o['DEPS']] = o['files']

def load_raw():
    cache = generate()
    gc.disable()
    with open(cache, 'rb') as f: d = pickle.load(f)
    gc.enable()
    r = Raw(); r.__dict__.update(d)
    return r

if __name__ == '__main__':
    t = time.time()
    r = load_raw()
    print('funcs', len(r.funcs), 'decls', len(r.decls), 'recs', len(r.recs), 'types', len(r.types), 'tus', len(r.tu), 'bad', [t for t, e in r.tu.items() if e], 'missing', r.missing)
    for e in r.errs[:10]: print(e)
    print('%.1fs' % (time.time() - t))
