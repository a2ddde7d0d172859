"""C25: committing one path commits that path and nothing else."""
import itertools
import os
import stat

from augpathlib import RepoPath
from mc import gitx
from mc.gitx import git
from mc.fsx import snapshot
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C25'
LEVEL = 'model_checking'
RULE = ('cases = every state of the file (in HEAD x index x working tree) on {branch, detached head, branch without commits} x '
        '{no stash, a stash of the user}; each with every state of another file, for commit, commit_from_working_tree '
        'and add_index of the file and of its directory, also with names that are patterns; the new commit, the index, the working tree and the stash are compared with the model')
ASSUMPTIONS = ['no hooks; no merge in progress']
CHUNK = 1
CASE_LIMIT = 300
# value -> (mode, content)
VAL = {1: ('100644', b'one \xff\n'), 2: ('100755', b'two'), 3: ('120000', b'three'), 4: ('100644', b'four')}
HEADS = (0, 1)
INDEX = (0, 1, 2)
WORK = (0, 1, 2, 3)
GLOBS = ('d/[g]*', 'd/?', 'd/*', ':(top)d/g', ':!g')
# the names of the others start like those of the file and its directory
NAMES = {'f': 'd/f', 'g': 'd/f2', 'h': 'd.h'}


def bounds(tier):
    return 'all states of 2 files (2 x 3 x %d each), 3 kinds of head, 2 stash states, 6 operations, names with special characters' % len(WORK)


def cases(tier):
    for head in ('branch', 'detached', 'unborn'):
        for st in (False, True):
            if head == 'unborn' and st:
                continue
            for f in itertools.product(HEADS, INDEX, WORK):
                if head == 'unborn' and f[0]:
                    continue
                yield {'head': head, 'stash': st, 'f': list(f), 'all': tier != 'quick'}
    # names that mean something to git and to glob
    for f in itertools.product(HEADS, INDEX, WORK):
        for name in GLOBS[:1 if tier == 'quick' else None]:
            yield {'head': 'branch', 'stash': False, 'f': list(f), 'all': tier != 'quick', 'name': name}


def put(p, v):
    if os.path.lexists(p):
        os.unlink(p)
    if not v:
        return
    mode, b = VAL[v]
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if mode == '120000':
        os.symlink(os.fsdecode(b), p)
    else:
        with open(p, 'wb') as f:
            f.write(b)
        os.chmod(p, 0o755 if mode == '100755' else 0o644)


def index_put(d, name, v):
    if v:
        sha = git(d, 'hash-object', '-w', '--stdin', input=VAL[v][1]).decode().strip()
        git(d, 'update-index', '--add', '--cacheinfo', '%s,%s,%s' % (VAL[v][0], sha, name))
    else:
        git(d, 'update-index', '--force-remove', '--', name)


def tree(d, ref):
    out = {}
    for l in git(d, 'ls-tree', '-r', '-z', ref).split(b'\0'):
        if l:
            m, name = l.split(b'\t')
            out[name.decode()] = m.decode().split()[0], m.decode().split()[2]
    return out


def index(d):
    out = {}
    for l in git(d, 'ls-files', '-s', '-z').split(b'\0'):
        if l:
            m, name = l.split(b'\t')
            mode, sha, stage = m.decode().split()
            out[name.decode()] = mode, sha, stage
    return out


def work(d):
    out = {}
    for dp, dn, fn in os.walk(d):
        if '.git' in dn:
            dn.remove('.git')
        for n in fn + [x for x in dn if os.path.islink(os.path.join(dp, x))]:
            p = os.path.join(dp, n)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[os.path.relpath(p, d)] = 'link', os.readlink(p)
            else:
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, d)] = oct(st.st_mode), f.read()
    return out


def look(d):
    head = git(d, 'rev-parse', '-q', '--verify', 'HEAD', check=False).decode().strip()
    return {'head': head, 'branch': git(d, 'symbolic-ref', '-q', 'HEAD', check=False),
            'index': index(d), 'work': work(d), 'stash': git(d, 'stash', 'list', '--format=%H')}


def build(d, case, g, h):
    gitx.init(d)
    vals = {'f': case['f'], 'g': g, 'h': h}
    if case['head'] != 'unborn':
        put(os.path.join(d, 'base'), 1)
        git(d, 'add', 'base')
        if case['stash']:
            put(os.path.join(d, 'd/f'), 1)
            git(d, 'add', 'd/f')
        git(d, 'commit', '-q', '-m', 'base')
        if case['stash']:
            # an unrelated stash of the user that has another version of the file
            put(os.path.join(d, 'd/f'), 4)
            git(d, 'stash', 'push', '-q')
        for k, v in vals.items():
            put(os.path.join(d, NAMES[k]), v[0])
        git(d, 'add', '-A', '.')
        git(d, 'commit', '-q', '--allow-empty', '-m', 'HEAD')
        if case['head'] == 'detached':
            git(d, 'checkout', '-q', '--detach')
    for k, v in vals.items():
        if v[1] != v[0] or case['head'] == 'unborn':
            index_put(d, NAMES[k], v[1])
        put(os.path.join(d, NAMES[k]), v[2])
    os.makedirs(os.path.join(d, 'd'), exist_ok=True)


def one(ctx, d, case, g, h, op, target):
    with unguarded():
        build(d, case, g, h)
    before = look(d)
    rp = RepoPath(os.path.join(d, target))
    what = '%s(%s) on %s%s: f %s g %s h %s' % (op, target, case['head'], ', stash' if case['stash'] else '', case['f'], g, h)
    date = '2001-02-03T04:05:06 +0000'
    o = outcome(rp.add_index if op == 'add_index' else lambda: getattr(rp, op)('the message', date=date))
    after = look(d)
    ctx.trans()
    ctx.evaluation(what)
    mine = [NAMES[k] for k in NAMES if NAMES[k] == target or NAMES[k].startswith(target + '/')]
    want = dict(before['index'])
    if op != 'commit':
        if target == NAMES['f'] and not case['f'][2] or target == 'd' and not any(x[2] for x in (case['f'], g)):
            check(o[0] == 'raise' or target == 'd', '%s: nothing there, but no error', what)
            if o[0] == 'raise':
                check_eq(after, before, what + ': refused, but changed')
                return
        for k, v in (('f', case['f']), ('g', g)):
            if NAMES[k] in mine:
                if v[2]:
                    sha = git(d, 'hash-object', '--stdin', input=VAL[v[2]][1]).decode().strip()
                    want[NAMES[k]] = VAL[v[2]][0], sha, '0'
    check(o[0] == 'ok', '%s: raised %r', what, o[1])
    check_eq(after['work'], before['work'], what + ': working tree')
    check_eq(after['index'], want, what + ': index')
    check_eq(after['stash'], before['stash'], what + ': stash of the user')
    check_eq(after['branch'], before['branch'], what + ': branch')
    if op == 'add_index':
        check_eq(after['head'], before['head'], what + ': head')
        return
    t = tree(d, before['head']) if before['head'] else {}
    for n in mine:
        t.pop(n, None)
        if n in want:
            t[n] = want[n][:2]
    check_eq(tree(d, after['head']), t, what + ': content of the commit')
    check_eq(o[1].hexsha, after['head'], what + ': returned commit')
    info = git(d, 'log', '-1', '--format=%P%n%aI%n%B').decode().rstrip('\n').split('\n')
    check_eq([info[0], info[1].replace('Z', '+00:00'), info[2:]],
             [before['head'], '2001-02-03T04:05:06+00:00', ['the message']], what + ': parent, date, message')
    ctx.state((what, sorted(t.items())))
    ctx.trace()


def run(ctx, case):
    root = ctx.fresh()
    n = 0
    NAMES['f'] = case.get('name', 'd/f')
    NAMES['g'] = 'd/g' if 'name' in case else 'd/f2'
    gitx.forget(RepoPath)
    others = list(itertools.product(HEADS if case['head'] != 'unborn' else (0,), INDEX, WORK))
    for g in others:
        f = NAMES['f']
        for op, target in (('commit', f), ('commit_from_working_tree', f), ('commit', 'd'),
                           ('commit_from_working_tree', 'd'), ('add_index', f), ('add_index', 'd')):
            if not case['all'] and (op == 'commit_from_working_tree') != (sum(g) % 2 == 0):
                continue
            if not case['all'] and op == 'add_index' and (sum(g) + g[2]) % 4 != 1:
                continue
            if 'name' in case and target == 'd' and not f.startswith('d/'):
                continue
            h = others[(others.index(g) * 7 + 5) % len(others)]
            n += 1
            d = os.path.join(root, 'x%d' % n)
            one(ctx, d, case, list(g), list(h), op, target)
            gitx.forget(RepoPath)
            with unguarded():
                import shutil
                shutil.rmtree(d)
