"""C38: the data directory of a project."""
import errno
import itertools
import os

from mc import harness, sync
from mc.fakes import Node, Server, make
from mc.fsx import diff, snapshot
from mc.harness import check, check_eq, observe, outcome, unguarded

ID = 'C38'
LEVEL = 'fault_enumeration'
RULE = ('cases = every state of the data directory (missing, complete, without its parts, objects kept in it, a link to each of two places, to '
        'nowhere, through another link, a file) x every sequence up to the depth bound of setting it up (plain, with the objects at each place, '
        'absolute, relative, through a link, missing) and storing an object; compared with a model; each single operation again with every file '
        'system event failing, then done again')
ASSUMPTIONS = ['one process, one fault per execution', 'in-memory remote']
CHUNK = 1
MUT = harness.MUTATIONS
CASE_LIMIT = 300
STATES = ('missing', 'bare', 'complete', 'no trash', 'full', 'link a', 'link b', 'link a full', 'dangling', 'file', 'link l')
ASKS = ('none', 'a', 'b', 'rel a', 'l', 'gone', 'store', 'restart')


def bounds(tier):
    return '%d states, %d operations, sequences of %d' % (len(STATES), len(ASKS), 3 if tier == 'quick' else 4)


def cases(tier):
    for s in STATES:
        for a in ASKS:
            yield {'state': s, 'first': a, 'depth': 3 if tier == 'quick' else 4}
        yield {'state': s, 'faults': True}


class Client:
    """a process whose cache class knows its anchor; nothing is set up"""

    def __init__(self, server, root):
        self.s, self.root = server, root
        self.L, self.C, R, h = make(server)
        h.root_name = 'proj'
        h.anchor_cache = R._cache_anchor = self.C(self.L(root))

    def p(self):
        return self.L(self.root)


class World:
    def __init__(self, d, state):
        self.d = d
        self.s = Server([Node('R', 'proj', None, 'dir')])
        sync.Client(self.s, os.path.join(d, 'proj'))
        self.o = os.path.join(d, 'proj', '.operations')
        with unguarded():
            o = self.o
            for x in ('one', 'two'):
                os.makedirs(os.path.join(d, x, 'objects'))
            os.symlink('one/objects', os.path.join(d, 'l'))
            if os.path.lexists(o):
                harness.force_rmtree(o)
            if state != 'missing':
                os.mkdir(o)
            if state not in ('missing', 'bare', 'no trash'):
                os.mkdir(o + '/trash')
            if state in ('complete', 'full', 'no trash'):
                os.mkdir(o + '/objects')
            if state == 'full':
                open(o + '/objects/stored', 'w').write('stored')
            if state.startswith('link a'):
                os.symlink(os.path.join(d, 'one/objects'), o + '/objects')
            if state == 'link a full':
                open(o + '/objects/stored', 'w').write('stored')
            if state == 'link b':
                os.symlink(os.path.join(d, 'two/objects'), o + '/objects')
            if state == 'link l':
                os.symlink(os.path.join(d, 'l'), o + '/objects')
            if state == 'dangling':
                os.symlink(os.path.join(d, 'gone'), o + '/objects')
            if state == 'file':
                open(o + '/objects', 'w').write('a file')
        os.chdir(d)
        self.n = 0
        self.restart()

    def restart(self):
        self.c = Client(self.s, os.path.join(self.d, 'proj'))

    def place(self):
        """where objects are kept: None, 'here', real path, or the text of a link to nowhere"""
        p = self.o + '/objects'
        if os.path.islink(p):
            return os.path.realpath(p)
        if os.path.isdir(p):
            return 'here'
        return 'file' if os.path.exists(p) else None

    def do(self, ask):
        L = self.c.L
        k = self.c.p().cache
        if ask == 'none':
            return k.local_data_dir_init()
        p = {'a': L(self.d, 'one', 'objects'), 'b': L(self.d, 'two', 'objects'), 'rel a': L('one/objects'), 'l': L(self.d, 'l'),
             'gone': L(self.d, 'gone')}[ask]
        return k.local_data_dir_init(symlink_objects_to=p)

    def want(self, ask):
        return {'a': os.path.join(self.d, 'one/objects'), 'b': os.path.join(self.d, 'two/objects'), 'rel a': os.path.join(self.d, 'one/objects'),
                'l': os.path.join(self.d, 'one/objects'), 'gone': os.path.join(self.d, 'gone'), 'none': None}[ask]


def stored(d):
    out = []
    for dp, dn, fn in os.walk(d):
        for n in fn:
            if os.path.islink(os.path.join(dp, n)):
                continue
            with open(os.path.join(dp, n)) as f:
                out.append(f.read())
    return sorted(out)


def judge(w, ask, before, pbefore, sbefore, tag, v, what, faulty=False):
    with unguarded():
        after, p = snapshot(w.d), w.place()
        check_eq(stored(w.d), sbefore, 'what was stored: %s' % what)
        d = {k: x for k, x in diff(before, after).items()}
        if tag == 'raise':
            check(not faulty or isinstance(v, OSError), 'raised %r: %s' % (v, what))
            if not faulty:
                made = [k for k in d if k != 'proj/.operations' and k != 'proj/.operations/trash']
                check_eq(made, [], 'refused (%r) and changed: %s' % (v, what))
            return
        want = w.want(ask)
        check(all(k == 'proj/.operations' or k.startswith('proj/.operations/') for k in d), 'also changed %r: %s' % (sorted(d), what))
        check(os.path.isdir(w.o + '/trash') and os.path.isdir(w.o), 'no trash: %s' % what)
        if want is None:
            check(p not in (None, 'file'), 'no place for objects: %s' % what)
            if pbefore is not None:
                check_eq(p, pbefore, 'place of the objects: %s' % what)
            else:
                check_eq(p, 'here', 'place of the objects: %s' % what)
        else:
            check_eq(p, os.path.realpath(want), 'place of the objects: %s' % what)


def allowed(pbefore, full, ask, want):
    """True has to work, False has to be refused, None either"""
    if pbefore == 'file':
        return False
    if ask == 'none':
        return None if pbefore not in (None, 'here') and not os.path.isdir(pbefore) else True
    if pbefore is None:
        return True if ask != 'gone' else None
    if pbefore == 'here':
        return False if full else True if ask != 'gone' else None
    return pbefore == os.path.realpath(want)


def step(w, ask, what):
    if ask == 'restart':
        w.restart()
        return
    with unguarded():
        before, p, s = snapshot(w.d), w.place(), stored(w.d)
        full = p == 'here' and bool(os.listdir(w.o + '/objects'))
    if ask == 'store':
        w.n += 1
        if p in (None, 'file') or p != 'here' and not os.path.isdir(p):
            return
        q = w.c.p().cache.local_object_cache_path
        q = q.parent / ('stored %d' % w.n)
        with unguarded():
            with open(str(q), 'w') as f:
                f.write('object %d' % w.n)
            base = w.o + '/objects' if p == 'here' else p
            check(os.path.exists(os.path.join(base, 'stored %d' % w.n)), 'objects do not go to %s: %s' % (base, what))
        return
    ok = allowed(p, full, ask, w.want(ask))
    tag, v = outcome(lambda: w.do(ask))
    judge(w, ask, before, p, s, tag, v, what)
    if ok is not None:
        check((tag == 'ok') is ok, '%s: %r: %s' % ('refused' if ok else 'not refused', v, what))
    if tag == 'ok':
        with unguarded():
            b = snapshot(w.d)
        check(outcome(lambda: w.do(ask))[0] == 'ok', 'doing it again failed: %s' % what)
        with unguarded():
            check_eq(diff(b, snapshot(w.d)), {}, 'doing it again changed: %s' % what)


def run(ctx, case):
    state = case['state']
    if not case.get('faults'):
        for n in range(case['depth']):
            for rest in itertools.product(ASKS, repeat=n):
                w = World(ctx.fresh(), state)
                seq = (case['first'],) + rest
                for i, ask in enumerate(seq):
                    step(w, ask, '%s: %s' % (state, ', '.join(seq[:i + 1])))
                    ctx.trans()
                ctx.trace()
                ctx.evaluation((state, seq))
                ctx.state((state, seq))
        ctx.sample('%s %s' % (state, case['first']))
        return
    for ask in ASKS[:-2]:
        w = World(ctx.fresh(), state)
        seen = []
        with observe(lambda e, a: seen.append(e) if e in MUT else None):
            outcome(lambda: w.do(ask))
        for k in range(len(seen)):
            w = World(ctx.fresh(), state)
            with unguarded():
                before, p, s = snapshot(w.d), w.place(), stored(w.d)
            n = [0]

            def fault(e, a):
                n[0] += e in MUT
                if e in MUT and n[0] == k + 1:
                    raise OSError(errno.EIO, 'disk')

            with observe(fault):
                tag, v = outcome(lambda: w.do(ask))
            what = '%s: %s with event %d (%s) failing' % (state, ask, k + 1, seen[k])
            if tag == 'raise':
                judge(w, ask, before, p, s, tag, v, what, faulty=True)
            # a new process does it again
            w.restart()
            with unguarded():
                full = p == 'here' and bool(os.listdir(w.o + '/objects')) if os.path.isdir(w.o + '/objects') else False
                ok = allowed(p, full, ask, w.want(ask))
            tag, v = outcome(lambda: w.do(ask))
            judge(w, ask, before, p, s, tag, v, what + ', then again', faulty=tag == 'raise')
            if ok is not None:
                check((tag == 'ok') is ok, '%s: %r: %s, then again' % ('refused' if ok else 'not refused', v, what))
            ctx.trace()
            ctx.evaluation((state, ask, k))
            ctx.state((state, ask, k))
    ctx.sample('%s faults' % state)
