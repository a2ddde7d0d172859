"""Execution harness shared by every check.

A check module enumerates a finite list of *cases* (programs, schedules,
fault placements, inputs, ...) and executes every one of them on the real
augpathlib, in lockstep with its own reference model.  The harness

  * forks one worker per core; every worker drops root, works only inside its
    own scratch directory and has an audit hook that refuses (and reports) any
    destructive call that leaves the scratch directory,
  * turns crashes, hangs and unexpected exceptions into violations,
  * counts model states / transitions / executions and writes the evidence,
  * handles known findings, replay files and exit codes.

Nothing is sampled: the same case list is produced on every run of a tier.
"""
import gc
import grp
import hashlib
import io
import json
import mmap
import os
import pickle
import select
import shutil
import signal
import stat
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKER_UID = 54321
WORKER_GID = 54321


class Violation(Exception):
    """the property does not hold on the current execution"""


class Hang(BaseException):
    pass


class Escape(BaseException):
    """the code under test tried to touch something outside of the scratch"""


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...<%d more>' % (len(s) - n)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg if not args else msg % args)


def check_eq(actual, expected, what):
    if actual != expected:
        raise Violation('%s: got %s expected %s' % (what, short(actual), short(expected)))


def outcome(fn, *args, **kwargs):
    """('ok', value) or ('raise', exception)"""
    try:
        return ('ok', fn(*args, **kwargs))
    except (Hang, Escape, Violation):
        raise
    except BaseException as e:
        return ('raise', e)


# ---------------------------------------------------------------- audit guard

_guard = {'root': None, 'on': False, 'hits': [], 'observers': []}

_WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_APPEND | os.O_CREAT | os.O_TRUNC

_ONE = {'os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate', 'os.chmod',
        'os.chown', 'os.utime', 'os.setxattr', 'os.removexattr',
        'shutil.rmtree', 'os.chflags', 'os.mkfifo', 'os.mknod'}
_TWO = {'os.rename', 'os.link', 'shutil.move', 'shutil.copyfile',
        'shutil.copymode', 'shutil.copystat', 'shutil.copytree'}
# filesystem-changing events offered to observers (fault/crash explorer)
MUTATIONS = {'os.remove', 'os.rmdir', 'os.mkdir', 'os.rename', 'os.link',
             'os.symlink', 'os.truncate', 'open-write', 'os.chmod',
             'os.setxattr', 'os.removexattr', 'xattr.set', 'xattr.remove'}


def _fspath(p, dir_fd=None):
    if isinstance(p, int):
        return None
    p = os.fspath(p)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if dir_fd not in (None, -1) and not p.startswith('/'):
        p = os.path.join(os.readlink('/proc/self/fd/%d' % dir_fd), p)
    return p


def _inside(p):
    if p is None:
        return True
    if p in ('/dev/null', '/dev/tty') or p.startswith('/dev/pts/') or p == '/dev/ptmx':
        return True
    root = _guard['root']
    try:
        d, b = os.path.split(os.path.abspath(p) if '..' not in p.split('/') else p)
        real = os.path.realpath(d or '.')
    except OSError:
        return True
    if b == '..':
        real = os.path.dirname(real)
    if real == root or real.startswith(root + '/'):
        return True
    if os.path.realpath(p) == root:
        return True
    return False


def _audit(event, args):
    if not _guard['on']:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(flags, int) and flags & _WRITE_FLAGS and not isinstance(path, int):
            event2, paths = 'open-write', [_fspath(path)]
        else:
            event2, paths = 'open-read', None
            if not _guard['observers']:
                return
            paths = [_fspath(path)] if not isinstance(path, int) else [None]
    elif event in _ONE:
        fd = None
        if event in ('os.remove', 'os.rmdir') and len(args) > 1:
            fd = args[1]
        elif event == 'os.mkdir' and len(args) > 2:
            fd = args[2]
        event2, paths = event, [_fspath(args[0], fd)]
    elif event in _TWO:
        event2 = event
        if event == 'os.rename':
            paths = [_fspath(args[0], args[2]), _fspath(args[1], args[3])]
        else:
            paths = [_fspath(args[0]), _fspath(args[1])]
    elif event == 'os.symlink':
        event2, paths = event, [_fspath(args[1], args[2])]
    elif event in ('os.listdir', 'os.scandir'):
        if not _guard['observers']:
            return
        event2, paths = event, [None if isinstance(args[0], int) or args[0] is None
                                else _fspath(args[0])]
    else:
        return
    if event2 not in ('open-read', 'os.listdir', 'os.scandir'):
        check_paths = paths
        if event2 in ('os.link', 'shutil.copyfile', 'shutil.copymode', 'shutil.copystat',
                      'shutil.copytree'):
            check_paths = paths[1:]
        for p in check_paths:
            _guard['on'] = False
            try:
                ok = _inside(p)
            finally:
                _guard['on'] = True
            if not ok:
                _guard['hits'].append((event2, p))
                raise Escape('%s on %r leaves the scratch directory' % (event2, p))
    for obs in list(_guard['observers']):
        obs(event2, paths)


class unguarded:
    """harness bookkeeping that must not be seen by observers"""

    def __enter__(self):
        self.was = _guard['on']
        _guard['on'] = False

    def __exit__(self, *a):
        _guard['on'] = self.was


class observe:
    """call fn(event, paths) at every audited filesystem event in the block"""

    def __init__(self, fn):
        self.fn = fn
        self.busy = False

    def _call(self, event, paths):
        if self.busy:
            return
        self.busy = True
        try:
            self.fn(event, paths)
        finally:
            self.busy = False

    def __enter__(self):
        _guard['observers'].append(self._call)
        return self

    def __exit__(self, *a):
        _guard['observers'].remove(self._call)


# ------------------------------------------------------------------- context

# nothing a case does between two reports of progress takes anywhere near as long
STALL = float(os.environ.get('VP_STALL', '60'))


class Ctx:
    def __init__(self, root, tier):
        self.root = root
        self.tier = tier
        self.states = set()
        self.n_trans = 0
        self.n_traces = 0
        self.n_eval = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self._n = 0
        self.case = None
        self.last = time.monotonic()
        self.gap = 0

    def _alive(self):
        now = time.monotonic()
        if now - self.last > self.gap:
            self.gap = now - self.last
        self.last = now

    # --- scratch
    def fresh(self):
        self._alive()
        with unguarded():
            self._n += 1
            d = os.path.join(self.root, 'c%d' % self._n)
            os.mkdir(d)
            os.chdir(d)
        return d

    def wipe(self):
        with unguarded():
            os.chdir(self.root)
            for n in os.listdir(self.root):
                if n == 'home':
                    continue
                p = os.path.join(self.root, n)
                force_rmtree(p)

    # --- counting
    @staticmethod
    def _h(key):
        return hashlib.blake2b(repr(key).encode('utf-8', 'surrogateescape'),
                               digest_size=8).digest()

    def state(self, key):
        self._alive()
        self.states.add(self._h(key))

    def trans(self, n=1):
        self._alive()
        self.n_trans += n

    def trace(self, n=1):
        self._alive()
        self.n_traces += n

    def evaluation(self, key=None):
        self._alive()
        self.n_eval += 1
        if key is not None:
            self.distinct.add(self._h(key))

    def count(self, name, n=1):
        self._alive()
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(json.loads(json.dumps(obj, default=repr)))


def force_rmtree(p):
    if os.path.islink(p) or not os.path.isdir(p):
        try:
            os.unlink(p)
        except FileNotFoundError:
            pass
        return

    def onerr(f, path, e):
        try:
            for d in (os.path.dirname(path), path):
                if os.path.isdir(d) and not os.path.islink(d):
                    os.chmod(d, 0o700)
            if os.path.isdir(path) and not os.path.islink(path):
                shutil.rmtree(path, ignore_errors=True)
            else:
                os.unlink(path)
        except FileNotFoundError:
            pass

    shutil.rmtree(p, onerror=onerr)


# ------------------------------------------------------------------- workers

def scratch_base():
    for base in ('/dev/shm', '/tmp'):
        d = None
        try:
            d = tempfile.mkdtemp(prefix='vp-mc-', dir=base)
            os.setxattr(d, 'user.vptest', b'1')
            os.removexattr(d, 'user.vptest')
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize < 200 << 20:
                raise OSError('too small')
            return d
        except OSError:
            if d:
                os.rmdir(d)
    return tempfile.mkdtemp(prefix='vp-mc-')


def drop_privileges():
    if os.getuid() == 0:
        os.setgroups([])
        os.setresgid(WORKER_GID, WORKER_GID, WORKER_GID)
        os.setresuid(WORKER_UID, WORKER_UID, WORKER_UID)


def enter_worker(root):
    """containment of everything that runs afterwards in this process"""
    home = os.path.join(root, 'home')
    os.makedirs(home, exist_ok=True)
    if os.getuid() == 0:
        os.chown(root, WORKER_UID, WORKER_GID)
        os.chown(home, WORKER_UID, WORKER_GID)
    os.umask(0o022)
    drop_privileges()
    os.environ.update({
        'HOME': home, 'XDG_CONFIG_HOME': home + '/.config', 'TMPDIR': root,
        'GIT_CONFIG_NOSYSTEM': '1', 'GIT_CONFIG_GLOBAL': '/dev/null',
        'GIT_AUTHOR_NAME': 'v', 'GIT_AUTHOR_EMAIL': 'v@v',
        'GIT_COMMITTER_NAME': 'v', 'GIT_COMMITTER_EMAIL': 'v@v',
        'GIT_TERMINAL_PROMPT': '0', 'GIT_CEILING_DIRECTORIES': root,
        'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'})
    for k in ('SSH_AUTH_SOCK', 'GIT_DIR', 'GIT_WORK_TREE'):
        os.environ.pop(k, None)
    tempfile.tempdir = root
    time.tzset()
    os.chdir(root)
    devnull = os.open('/dev/null', os.O_RDWR)
    os.dup2(devnull, 0)
    _guard['root'] = os.path.realpath(root)
    sys.addaudithook(_audit)
    sys.unraisablehook = lambda *a: None
    sys.breakpointhook = _no_breakpoint
    _guard['on'] = True


def _no_breakpoint(*a, **k):
    raise RuntimeError('breakpoint() reached in code under test')


def run_one(mod, ctx, case, limit):
    """None or violation text"""
    ctx.last = start = time.monotonic()
    stall = min(limit, STALL)

    def on_alarm(sig, frame):
        now = time.monotonic()
        if now - start > limit:
            raise Hang('no result within %s s' % limit)
        if now - ctx.last > stall:
            raise Hang('no progress within %s s' % stall)

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, 5, 5)
    _guard['hits'].clear()
    out = None
    try:
        try:
            mod.run(ctx, case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            _guard['observers'].clear()
    except Violation as e:
        out = str(e)
    except Hang as e:
        out = 'hang: %s' % e
    except Escape as e:
        out = 'containment: %s' % e
    except BaseException as e:
        out = 'unexpected %s: %s\n%s' % (
            type(e).__name__, e, ''.join(traceback.format_exc()[-1800:]))
    if out is None and _guard['hits']:
        out = 'containment: %s' % (_guard['hits'][:3],)
    try:
        ctx.wipe()
    except Hang:
        pass
    ctx.n_eval += 0
    return out


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('!Q', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _worker(mod, cases, wid, root, tier, shared, wfd, limit, lockfd):
    import fcntl
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    # stdout of the library is noise (popd prints the stack ...)
    sys.stdout.flush()
    dn = os.open('/dev/null', os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get('VP_DEBUG'):
        os.dup2(dn, 2)
    enter_worker(root)
    ctx = Ctx(root, tier)
    if hasattr(mod, 'setup_worker'):
        mod.setup_worker(ctx)
    n = len(cases)
    chunk = getattr(mod, 'CHUNK', 8)
    done = 0
    while True:
        fcntl.flock(lockfd, fcntl.LOCK_EX)
        nxt, = struct.unpack_from('!q', shared, 0)
        stop, = struct.unpack_from('!q', shared, 8)
        if stop or nxt >= n:
            fcntl.flock(lockfd, fcntl.LOCK_UN)
            break
        # smaller chunks towards the end
        c = max(1, min(chunk, (n - nxt) // 32))
        struct.pack_into('!q', shared, 0, nxt + c)
        fcntl.flock(lockfd, fcntl.LOCK_UN)
        for i in range(nxt, min(nxt + c, n)):
            struct.pack_into('!qd', shared, 64 + wid * 16, i, time.time())
            ctx.case = cases[i]
            v = run_one(mod, ctx, cases[i], limit)
            done += 1
            if v is not None:
                _send(wfd, ('viol', i, v))
    struct.pack_into('!qd', shared, 64 + wid * 16, -1, time.time())
    _send(wfd, ('done', wid, dict(states=ctx.states, trans=ctx.n_trans, traces=ctx.n_traces,
                                  evals=ctx.n_eval, distinct=ctx.distinct,
                                  counters=ctx.counters, samples=ctx.samples, done=done, gap=ctx.gap)))


class Runner:
    def __init__(self, mod, tier):
        self.mod, self.tier = mod, tier
        self.limit = getattr(mod, 'CASE_LIMIT', 60)
        self.viols = []
        self.gap = 0
        self.agg = dict(states=set(), trans=0, traces=0, evals=0, distinct=set(),
                        counters={}, samples=[], done=0)

    def execute(self, cases, nworkers=None):
        nworkers = nworkers or int(os.environ.get('VP_WORKERS', '0')) or min(8, os.cpu_count() or 2)
        nworkers = max(1, min(nworkers, len(cases)))
        base = scratch_base()
        try:
            os.chmod(base, 0o755)
            self._execute(cases, nworkers, base)
        finally:
            os.chdir('/')
            force_rmtree(base)

    def _execute(self, cases, nworkers, base):
        import fcntl
        shared = mmap.mmap(-1, 64 + 16 * 256)
        struct.pack_into('!qq', shared, 0, 0, 0)
        procs = {}
        state = {'wid': 0, 'restarts': 0}

        def spawn():
            wid = state['wid']
            state['wid'] += 1
            root = os.path.join(base, 'w%d' % wid)
            os.mkdir(root)
            lock = os.path.join(base, 'lock')
            lockfd0 = os.open(lock, os.O_RDWR | os.O_CREAT, 0o666)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 70
                try:
                    os.setsid()
                    os.close(r)
                    gc.freeze()
                    _worker(self.mod, cases, wid, root, self.tier, shared, w, self.limit, lockfd0)
                    code = 0
                except BaseException:
                    try:
                        _send(w, ('crash', wid, traceback.format_exc()))
                    except BaseException:
                        pass
                finally:
                    os._exit(code)
            os.close(w)
            os.close(lockfd0)
            procs[pid] = dict(fd=r, wid=wid, buf=b'', finished=False, root=root)

        for _ in range(nworkers):
            spawn()
        maxviol = int(os.environ.get('VP_MAXVIOL', '40'))
        while procs:
            fds = {p['fd']: pid for pid, p in procs.items()}
            rl, _, _ = select.select(list(fds), [], [], 1.0)
            for fd in rl:
                pid = fds[fd]
                p = procs[pid]
                b = os.read(fd, 1 << 20)
                if b:
                    p['buf'] += b
                    while len(p['buf']) >= 8:
                        ln, = struct.unpack('!Q', p['buf'][:8])
                        if len(p['buf']) < 8 + ln:
                            break
                        msg = pickle.loads(p['buf'][8:8 + ln])
                        p['buf'] = p['buf'][8 + ln:]
                        self._handle(msg, p)
                    continue
                # EOF: the worker is gone
                os.close(fd)
                _, status = os.waitpid(pid, 0)
                try:
                    os.killpg(pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                del procs[pid]
                if not p['finished']:
                    cur, _t = struct.unpack_from('!qd', shared, 64 + p['wid'] * 16)
                    if p.get('crash') and cur <= 0 and not p.get('killed'):
                        raise RuntimeError('worker setup failed:\n' + p['crash'])
                    why = ('the process had to be killed: no progress' if p.get('killed')
                           else 'worker process died, status %r %s' % (status, p.get('crash', '')))
                    if cur >= 0:
                        self.viols.append((cur, why))
                    state['restarts'] += 1
                    if state['restarts'] < 6 and len(self.viols) < maxviol:
                        spawn()
            if len(self.viols) >= maxviol or any(v.startswith(('hang:', 'the process had to be killed')) for _, v in self.viols):
                # the other cases would take as long
                struct.pack_into('!q', shared, 8, 1)
            now = time.time()
            for pid, p in procs.items():
                cur, t = struct.unpack_from('!qd', shared, 64 + p['wid'] * 16)
                if t and cur >= 0 and now - t > self.limit + 45 and not p.get('killed'):
                    p['killed'] = True
                    os.killpg(pid, signal.SIGKILL)

    def _handle(self, msg, p):
        if msg[0] == 'viol':
            self.viols.append((msg[1], msg[2]))
        elif msg[0] == 'crash':
            p['crash'] = msg[2]
        elif msg[0] == 'done':
            p['finished'] = True
            r = msg[2]
            self.gap = max(self.gap, r['gap'])
            a = self.agg
            a['states'] |= r['states']
            a['distinct'] |= r['distinct']
            for k in ('trans', 'traces', 'evals', 'done'):
                a[k] += r[k]
            for k, v in r['counters'].items():
                a['counters'][k] = a['counters'].get(k, 0) + v
            a['samples'] += r['samples']


# ---------------------------------------------------------------- known list

def load_findings(pid):
    out = {}
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        with open(fn) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: '):
                    rest = line[len('finding: '):]
                    parts = rest.split(' ', 2)
                    kv = dict(x.split('=', 1) for x in parts[:2])
                    if kv.get('property') == pid:
                        out[kv['key']] = parts[2] if len(parts) > 2 else ''
    return out


def main(mod, tier, replay=None):
    pid = mod.ID
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    findings = load_findings(pid)
    runner = Runner(mod, tier)
    if replay:
        with open(replay) as f:
            cases = [json.load(f)['case']]
    else:
        cases = list(mod.cases(tier))
    if not cases:
        print('no cases', file=sys.stderr)
        return 2
    runner.execute(cases, 1 if replay else None)
    known, new = {}, []
    for i, v in sorted(runner.viols, key=lambda x: (x[0], x[1])):
        key = mod.key(cases[i], v) if hasattr(mod, 'key') else None
        if key is not None and key in findings:
            known.setdefault(key, (i, v))
        else:
            new.append((i, v))
    a = runner.agg
    if os.environ.get('VP_GAP'):
        print('longest time without progress %.1f s' % runner.gap, file=sys.stderr)
    complete = a['done'] == len(cases)
    if not new and not complete and not replay:
        print('INCOMPLETE: %d of %d cases executed' % (a['done'], len(cases)), file=sys.stderr)
        return 3
    if not replay:
        write_evidence(mod, tier, seed, cases, runner, known, new, time.time() - t0)
    for key, (i, v) in known.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, findings[key]))
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = 0
        for i, v in new[:int(os.environ.get("VP_SHOW", "3"))]:
            h = hashlib.blake2b(json.dumps(cases[i], sort_keys=True, default=repr).encode(),
                                digest_size=6).hexdigest()
            path = replay or os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, h))
            if not replay:
                with open(path, 'w') as f:
                    json.dump({'property': pid, 'tier': tier, 'case': cases[i],
                               'violation': v}, f, indent=1, default=repr)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('   case: %s' % short(cases[i], 700))
            print('   what: %s' % short(v, 1500))
        print('%d violating cases (of %d run) in %.1f s' % (len(new), a['done'], time.time() - t0))
        return 1
    print('OK property=%s tier=%s cases=%d states=%d transitions=%d executions=%d wall=%.1fs' % (
        pid, tier, len(cases), len(a['states']), a['trans'], a['traces'], time.time() - t0))
    return 0


def write_evidence(mod, tier, seed, cases, runner, known, new, wall):
    a = runner.agg
    level = mod.LEVEL
    idx = sorted({0, len(cases) // 2, len(cases) - 1})
    samples = [json.loads(json.dumps(cases[i], default=repr)) for i in idx]
    samples = [s if len(json.dumps(s)) < 1500 else short(json.dumps(s), 1500) for s in samples]
    for s in a['samples'][:4]:
        samples.append(s if len(json.dumps(s)) < 3000 else short(json.dumps(s), 3000))
    cov = {'rule': mod.RULE, 'samples': samples,
           'exhaustive': a['done'] == len(cases),
           'cases_enumerated': len(cases), 'cases_executed': a['done'],
           'bounds': mod.bounds(tier) if hasattr(mod, 'bounds') else getattr(mod, 'BOUNDS', ''),
           'states': len(a['states']), 'transitions': a['trans'],
           'traces_validated_against_impl': a['traces']}
    if level in ('fault_enumeration', 'exploration'):
        cov['evaluations'] = a['evals']
        cov['distinct_nontrivial'] = len(a['distinct'])
    if a['counters']:
        cov['counters'] = dict(sorted(a['counters'].items()))
    ev = {'property': mod.ID, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(wall, 2), 'violations': len(new),
          'known_findings_seen': len(known)}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % mod.ID)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(tmp, os.path.join(d, '%s.json' % mod.ID))
