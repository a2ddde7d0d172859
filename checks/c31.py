"""C31: anchoring a remote to a local project."""
import itertools
import os

from augpathlib import exceptions as exc
from mc.fakes import Node, Server, make
from mc.fsx import snapshot
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C31'
LEVEL = 'model_checking'
RULE = ('cases = every initial state of two places a project can be in (missing, empty, with other files, a file, a project of this remote, of '
        'another one, with content) x first operation; extended by every sequence of anchoring operations up to the depth bound; after each '
        'the anchors of the remote, of the caches and the file system are compared with the model, at the end the project has to work')
ASSUMPTIONS = ['in-memory remote', 'one process']
CHUNK = 1
CACHED = ('ours', 'ours+', 'theirs', 'locked')
CASE_LIMIT = 300
KINDS = ('missing', 'empty', 'files', 'file', 'ours', 'ours+', 'theirs', 'dangling', 'locked')
OPS = ('drop', 'smart', 'here', 'init', 'initx', 'to', 'create', 'tocache', 'else', 'other')
ALL = [(o, h) for o in OPS for h in 'ab'] + [('weigh', '')]


def bounds(tier):
    return '%d x %d initial states, %d operations, depth %d' % (len(KINDS), len(KINDS), len(ALL), 2 if tier == 'quick' else 3)


def cases(tier):
    for ka in KINDS:
        for kb in KINDS:
            yield {'kinds': [ka, kb], 'depth': 2 if tier == 'quick' else 3}


class World:
    def __init__(self, d, kinds):
        nodes = [Node('R', 'proj', None, 'dir'), Node('I0', 'n0', 'R', 'file', b'data of 0'), Node('I1', 'n1', 'R', 'dir'),
                 Node('I2', 'n2', 'I1', 'file', b'data of 2')]
        L, C, R, holder = make(Server(nodes))
        holder.root_name = 'proj'

        class Local(L):
            pass

        Local._bind_flavours()

        class Cache(C):
            @property
            def anchor(self):  # as all caches of applications do
                if getattr(self, '_anchor', None) is None:
                    raise ValueError('no anchor')
                return self._anchor

        Cache._bind_flavours()
        self.L, self.C = Local, Cache

        class Api:
            def __init__(self, identifier):
                self.root = identifier

        class Remote(R):
            _api_class = Api
            root = None

        self.R = Remote._new(Local, Cache)
        self.R.init('R')
        check_eq(self.R.root, 'R', 'root after init')
        check(Remote.root is None and not hasattr(Remote, '_api'), 'init of one remote changed another')
        again = outcome(lambda: self.R.init('X'))
        check(again[0] == 'raise' and isinstance(again[1], ValueError), 'init twice: %r', again)
        check_eq((self.R.root, self.R._api.root), ('R', 'R'), 'root after init was refused')
        self.d = d
        self.A = self.B = None
        self.dirs = {}
        for h, k in zip('ab', kinds):
            with unguarded():
                os.mkdir(os.path.join(d, h))
                os.mkdir(os.path.join(d, h, 'other'))
                p = self.path(h)
                if k == 'dangling':
                    os.symlink('nowhere', p)
                elif k == 'file':
                    open(p, 'w').write('a file')
                elif k != 'missing':
                    os.mkdir(p)
                    if k in ('files', 'ours+'):
                        open(p + '/mine', 'w').write('mine')
                        os.mkdir(p + '/mydir')
                    if k.startswith('ours') or k in ('theirs', 'locked'):
                        os.setxattr(p, 'user.vp.id', b'R' if k != 'theirs' else b'X')
                    if k == 'locked':  # what anchoring has to create cannot be created
                        os.chmod(p, 0o555)
            self.dirs[h] = k

    def path(self, h):
        return os.path.join(self.d, h, 'proj')

    def disk(self):
        return snapshot(self.d, xattrs=True)

    def anchors(self):
        """where the remote and the caches are anchored"""
        a = getattr(self.R, '_cache_anchor', None)
        a = None if a is None else os.path.basename(os.path.dirname(str(a)))
        with unguarded():
            p = os.path.join(self.d, 'probe')
            os.mkdir(p)
            os.setxattr(p, 'user.vp.id', b'P')
        tag, b = outcome(lambda: self.L(p).cache.anchor)
        with unguarded():
            os.rmdir(p)
        b = None if tag == 'raise' else os.path.basename(os.path.dirname(str(b)))
        return a, b

    def do(self, op, h):
        L, R = self.L, self.R
        if op == 'weigh':
            R.weighAnchor()
            self.C.weighAnchor()
            return
        p = L(self.path(h))
        if op == 'drop':
            return R.dropAnchor(p.parent)
        if op == 'smart':
            return R.smartAnchor(p.parent)
        if op == 'here':
            c = p.cache
            c.anchorClassHere()
            return c
        if op == 'init':
            return p.cache_init('R', anchor=True)
        if op == 'initx':
            return p.cache_init('X', anchor=True)
        if op == 'to':
            return R.anchorTo(p)
        if op == 'else':
            return R.anchorTo(L(os.path.join(self.d, h, 'else')), create=True)
        if op == 'other':
            return R.anchorTo(L(os.path.join(self.d, h, 'other')), create=True)
        if op == 'create':
            return R.anchorTo(p, create=True)
        if op == 'tocache':
            return R.anchorTo(p.cache)

    def model(self, op, h):
        """None if the operation has to be refused, else (A, B or '?', new kind of the directory)"""
        if op == 'weigh':
            return None, None, None
        k = self.dirs[h]
        new = k in ('missing', 'empty')
        ours = k in ('ours', 'ours+')
        free = self.A is None and self.B in (None, h)
        if op == 'smart' and self.A == h:
            return h, self.B, k
        if self.A is not None or op in ('else', 'other'):
            return None
        if not free:
            return 'unknown'
        if op == 'drop' or op == 'create' and not ours and k not in ('theirs', 'locked'):
            return (h, h, 'ours') if new else None
        if op == 'smart':
            return (h, h, 'ours') if new else (h, h, k) if ours else None
        if op == 'here':
            return (h, h, k) if ours else None
        if op == 'init':
            return (h, h, 'ours' if k == 'empty' else 'ours+') if k in ('empty', 'files') else 'unknown' if k == 'file' else None
        if op == 'initx':
            return None
        if op in ('to', 'create', 'tocache'):
            return (h, h, k) if ours else None
        raise AssertionError(op)


def works(w, h, what):
    """the project can be used"""
    R, L = w.R, w.L
    tag, c = outcome(lambda: R('I0').cache_init())
    check(tag == 'ok', '%s: cache_init of a file failed with %r', what, c)
    p = L(os.path.join(w.path(h), 'n0'))
    check(os.path.islink(p), '%s: no placeholder in the project', what)
    check_eq(p.cache.meta.id, 'I0', what + ': id of the placeholder')
    tag, v = outcome(lambda: p.cache.fetch(size_limit_mb=None))
    check(tag == 'ok', '%s: fetch failed with %r', what, v)
    check_eq(open(p).read(), 'data of 0', what + ': content')
    check_eq(str(p.find_cache_root()), w.path(h), what + ': find_cache_root')


def run(ctx, case):
    for prog in itertools.chain.from_iterable(itertools.product(ALL, repeat=n) for n in range(1, case['depth'] + 1)):
        d = ctx.fresh()
        w = World(d, case['kinds'])
        done = []
        for op, h in prog:
            done.append('%s %s' % (op, h))
            what = 'a: %s, b: %s; %s' % (*case['kinds'], ', '.join(done))
            want = w.model(op, h)
            if want == 'unknown':
                done = None
                break
            before = w.disk()
            if want is None and op == 'tocache' and w.dirs[h] not in CACHED:
                break
            tag, res = outcome(w.do, op, h)
            ctx.trans()
            if want is None:
                check(tag == 'raise' and isinstance(res, Exception), '%s: was not refused, gives %r', what, res)
                check(not isinstance(res, (RuntimeError, NameError)) and (w.dirs[h] not in CACHED or not isinstance(res, AttributeError)),
                      '%s: refused with %r', what, res)
                if op in ('drop', 'smart') and w.A is not None:
                    check(isinstance(res, exc.RemoteAlreadyAnchoredError), '%s: refused with %r', what, res)
                check_eq(w.disk(), before, what + ': refused, files')
                check_eq(w.anchors(), (w.A, w.B), what + ': refused, anchors of remote and cache')
            else:
                check(tag == 'ok', '%s: failed with %r', what, res)
                w.A, w.B, k = want
                if k is not None:
                    w.dirs[h] = k
                    check_eq(str(res), w.path(h), what + ': result')
                    check_eq(os.getxattr(w.path(h), 'user.vp.id'), b'R', what + ': id of the project')
                check_eq(w.anchors(), (w.A, w.B), what + ': anchors of remote and cache')
                if op == 'weigh':
                    check_eq(w.disk(), before, what + ': files')
            ctx.state((case['kinds'], w.A, w.B, tuple(w.dirs.items())))
        if done and w.A is not None and w.A == w.B and len(prog) == len(done):
            works(w, w.A, what)
        ctx.trace()
        with unguarded():
            ctx.wipe()
    ctx.sample(case)
