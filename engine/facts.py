"""Facts loader: runs the rustc_private driver over /repo's current working tree
(never a cached result of an older tree) and indexes the resolved program."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
CORE = 'nalgebra,netsci,fonts,svg,wgpu'
FULL = 'bevy,gizmo,nalgebra,netsci,fonts,svg,wgpu'
CR = 'procedural_modelling::'


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTC',
              'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'VERIF_RELEASE', 'VERIF_FACTS_OUT'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    return e


def _run(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def _sysroot(env):
    rc, o = _run(['rustc', '+nightly', '--print', 'sysroot'], env, '/')
    if rc:
        raise BuildError('no nightly toolchain: ' + o)
    return o.strip()


def driver(env):
    src = os.path.join(VERIF, 'driver')
    h = hashlib.sha256()
    for f in ('Cargo.toml', 'src/main.rs', 'src/json.rs'):
        h.update(open(os.path.join(src, f), 'rb').read())
    exe = os.path.join(CACHE, 'driver', 'release', 'factdriver')
    stamp = os.path.join(CACHE, 'driver.sha')
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return exe
    rc, o = _run(['cargo', '+nightly', 'build', '--release', '--offline', '--target-dir',
                  os.path.join(CACHE, 'driver')], env, src)
    if rc:
        raise BuildError('driver build failed:\n' + o[-3000:])
    open(stamp, 'w').write(h.hexdigest())
    return exe


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, ds, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            files.append(os.path.join(root, f))
    files += [os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'Cargo.lock')]
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode()); h.update(open(f, 'rb').read())
    for f in ('engine/facts.py', 'driver/src/main.rs', 'driver/src/json.rs'):
        h.update(open(os.path.join(VERIF, f), 'rb').read())
    return h.hexdigest()


def extract(config='core', release=True):
    """Compile /repo's lib with the driver and return the parsed facts."""
    os.makedirs(CACHE, exist_ok=True)
    env = _env()
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tag = config + ('-rel' if release else '-dbg')
        out = os.path.join(CACHE, 'facts-%s.json' % tag)
        th = tree_hash()
        if os.path.exists(out) and os.path.exists(out + '.sha') and open(out + '.sha').read() == th:
            return json.load(open(out)), th     # same source bytes, same driver: same facts
        exe = driver(env)
        env['LD_LIBRARY_PATH'] = os.path.join(_sysroot(env), 'lib')
        tgt = os.path.join(CACHE, 'target-' + config)
        # cargo must not reuse an earlier result for the analysed crate (both target layouts)
        for d in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', 'procedural_modelling-*')) + \
                glob.glob(os.path.join(tgt, 'debug', 'build', 'procedural_modelling*')):
            shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(out):
            os.remove(out)
        env['VERIF_FACTS_OUT'] = out
        if release:
            env['VERIF_RELEASE'] = '1'
        env['RUSTC_WORKSPACE_WRAPPER'] = exe
        env['CARGO_TARGET_DIR'] = tgt
        lock = os.path.join(REPO, 'Cargo.lock')
        before = open(lock, 'rb').read() if os.path.exists(lock) else None
        rc, o = _run(['cargo', '+nightly', 'check', '--offline', '--lib', '-p', 'procedural_modelling',
                      '--features', FULL if config == 'full' else CORE], env, REPO)
        if before is not None and open(lock, 'rb').read() != before:
            open(lock, 'wb').write(before)
        if rc or not os.path.exists(out):
            raise BuildError('the crate does not build under the driver:\n' + o[-4000:])
        open(out + '.sha', 'w').write(th)
        return json.load(open(out)), th


class Program:
    def __init__(self, d):
        self.d = d
        self.fns = {f['id']: f for f in d['fns']}
        self.traits = {t['id']: t for t in d['traits']}
        self.adts = {a['id']: a for a in d['adts']}
        self.consts = {c['id']: c for c in d.get('consts', [])}
        self.impls = d['impls']
        self.impl_of = {}          # trait method id -> [(impl, fn id)]
        self.trait_impls = {}      # trait id -> [impl]
        for i in d['impls']:
            if 'trait' in i:
                self.trait_impls.setdefault(i['trait'], []).append(i)
            for fid, tid in i['items']:
                if tid:
                    self.impl_of.setdefault(tid, []).append((i, fid))
        self.method_trait = {}
        for t in d['traits']:
            for m in t['methods']:
                self.method_trait[m['id']] = t['id']

    def fn(self, suffix):
        """unique function whose id ends with suffix"""
        r = [f for i, f in self.fns.items() if i == suffix or i.endswith('::' + suffix)]
        return r[0] if len(r) == 1 else None

    def resolve(self, c):
        """callee record -> local function id with a body, or None"""
        r = c.get('resolved')
        if r:
            if r in self.fns:
                return r
            return None
        i = c['id']
        tr = c.get('trait')
        if tr is None:
            return i if i in self.fns else None
        if tr not in self.traits:
            # foreign trait implemented locally for a known ADT
            sa = c.get('self_adt')
            if sa and sa in self.adts:
                cands = [fid for im, fid in self.impl_of.get(i, []) if im.get('self_adt') == sa]
                if len(cands) == 1 and cands[0] in self.fns:
                    return cands[0]
            return None
        impls = self.trait_impls.get(tr, [])
        over = self.impl_of.get(i, [])
        sa = c.get('self_adt')
        if sa and sa in self.adts:
            ims = [im for im in impls if im.get('self_adt') == sa]
            if ims:
                o = [(im, f) for im, f in over if im.get('self_adt') == sa]
                if len(ims) == 1:
                    if o:
                        return o[0][1]
                    return i if i in self.fns else None
        if len(impls) == 1:
            if over:
                return over[0][1] if over[0][1] in self.fns else None
            return i if i in self.fns else None
        if not over and i in self.fns:
            return i
        return None

    def method(self, trait_suffix, name, self_adt=None):
        """(fn id) implementing trait method"""
        out = []
        for t in self.traits.values():
            if t['id'].endswith('::' + trait_suffix):
                for m in t['methods']:
                    if m['name'] == name:
                        r = self.resolve({'id': m['id'], 'trait': t['id'], 'self_adt': self_adt})
                        if r:
                            out.append(r)
        return out[0] if len(out) == 1 else None

    def inherent(self, adt_suffix, name):
        out = []
        for f in self.fns.values():
            a = f.get('impl_adt')
            if a and a.endswith('::' + adt_suffix) and 'trait' not in f and f.get('item') == name:
                out.append(f['id'])
        return out[0] if len(out) == 1 else None

    def inherent_all(self, adt_suffix, name):
        return [f['id'] for f in self.fns.values()
                if (f.get('impl_adt') or '').endswith('::' + adt_suffix) and 'trait' not in f and f.get('item') == name]
