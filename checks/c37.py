"""C37: the name of what is checked out."""
import itertools
import os
import shutil

import augpathlib as aug
from mc.gitx import commit, git, init
from mc.harness import check, check_eq, outcome, unguarded

ID = 'C37'
LEVEL = 'model_checking'
RULE = ('every history of up to the bound of commits (a line, or with a merge) x every set of references up to the bound out of branches, plain '
        'and annotated tags and remote branches with and without slashes, each at every commit x HEAD on every branch, detached at every commit, '
        'or on a branch without commits x references packed or not')
ASSUMPTIONS = ['git on this machine names commits', 'reference files']
CHUNK = 1
CASE_LIMIT = 300
# (kind, name)
REFS = (('heads', 'm'), ('heads', 'f/x'), ('heads', 'tags/b'), ('tags', 'v1'), ('tags', 'r/1'), ('annotated', 'v2'), ('annotated', 'r/2'),
        ('tags', 'm'), ('annotated', 'f/x'), ('remotes', 'origin/y'), ('remotes', 'origin/m'), ('annotated', 'b'))


def bounds(tier):
    return '%d references, sets of %d, line of 3 commits and a merge' % (len(REFS), 2 if tier == 'quick' else 3)


def cases(tier):
    n = 2 if tier == 'quick' else 3
    for shape in ('line', 'merge'):
        for k in range(n + 1):
            for rs in itertools.combinations(range(len(REFS)), k):
                kinds = [REFS[r] for r in rs]
                names = [(('tags' if a == 'annotated' else a), b) for a, b in kinds]
                if len(set(names)) < len(names):
                    continue
                yield {'shape': shape, 'refs': list(rs)}


def template(ctx, shape):
    d = ctx.fresh()
    with unguarded():
        init(d)
        ids = []
        commit(d, 'first')
        ids.append(git(d, 'rev-parse', 'HEAD').decode().strip())
        commit(d, 'second')
        ids.append(git(d, 'rev-parse', 'HEAD').decode().strip())
        if shape == 'line':
            commit(d, 'third')
            ids.append(git(d, 'rev-parse', 'HEAD').decode().strip())
        else:
            git(d, 'checkout', '-q', '-b', 'side', ids[0])
            commit(d, 'side')
            ids.append(git(d, 'rev-parse', 'HEAD').decode().strip())
            git(d, 'merge', '-q', '--no-ff', '-m', 'merged', ids[1])
            ids.append(git(d, 'rev-parse', 'HEAD').decode().strip())
        tags = {}
        for kind, name in REFS:
            if kind == 'annotated':
                for i in ids:
                    git(d, 'tag', '-f', '-a', '-m', 'x', 'T', i)
                    tags[name, i] = git(d, 'rev-parse', 'refs/tags/T').decode().strip()
        git(d, 'checkout', '-q', '--detach', ids[0])
        shutil.rmtree(d + '/.git/refs')
        shutil.rmtree(d + '/.git/logs', ignore_errors=True)
        for x in ('heads', 'tags', 'remotes'):
            os.makedirs(d + '/.git/refs/' + x)
        if os.path.exists(d + '/.git/packed-refs'):
            os.unlink(d + '/.git/packed-refs')
    return d, ids, tags


def put(d, kind, name, i, tags):
    p = os.path.join(d, '.git', 'refs', 'tags' if kind == 'annotated' else kind, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write((tags[name, i] if kind == 'annotated' else i) + '\n')


def clear(d):
    for x in ('heads', 'tags', 'remotes'):
        shutil.rmtree(os.path.join(d, '.git', 'refs', x), ignore_errors=True)
        os.makedirs(os.path.join(d, '.git', 'refs', x))
    p = os.path.join(d, '.git', 'packed-refs')
    if os.path.exists(p):
        os.unlink(p)


def run(ctx, case):
    d, ids, tags = template(ctx, case['shape'])
    refs = [REFS[r] for r in case['refs']]
    for at in itertools.product(range(len(ids)), repeat=len(refs)):
        with unguarded():
            clear(d)
            for (kind, name), i in zip(refs, at):
                put(d, kind, name, ids[i], tags)
        for packed in (False, True):
            if packed:
                if not refs:
                    continue
                with unguarded():
                    git(d, 'pack-refs', '--all', '--prune')
                    for x in ('heads', 'tags', 'remotes'):
                        os.makedirs(os.path.join(d, '.git', 'refs', x), exist_ok=True)
            heads = [('detached', i) for i in range(len(ids))]
            heads += [('on', n) for k, n in refs if k == 'heads'] + [('on', 'new')]
            for how, where in heads:
                with unguarded():
                    with open(d + '/.git/HEAD', 'w') as f:
                        f.write(ids[where] + '\n' if how == 'detached' else 'ref: refs/heads/%s\n' % where)
                what = '%s, %r at %r, HEAD %s %r%s' % (case['shape'], refs, at, how, where, ', packed' if packed else '')
                tag, v = outcome(lambda: aug.RepoPath(d).repo.currentRefName())
                check(tag == 'ok', 'raised %r: %s' % (v, what))
                if how == 'on':
                    check_eq(v, where, 'name: %s' % what)
                else:
                    here = [(k, n) for (k, n), i in zip(refs, at) if i == where]
                    names = {n for k, n in here} | {'remotes/' + n for k, n in here if k == 'remotes'} | {
                        'heads/' + n for k, n in here if k == 'heads'} | {'tags/' + n for k, n in here if k in ('tags', 'annotated')}
                    check(v is None or v in names, '%r does not name this commit, only %r: %s' % (v, sorted(names), what))
                    if any(k in ('tags', 'annotated') for k, n in here) and not any(k not in ('tags', 'annotated') for k, n in here):
                        check(v is not None, 'there is a tag and no name: %s' % what)
                ctx.state((case['shape'], tuple(refs), at, packed, how, where))
                ctx.trans()
            # looking up by name
            r = aug.RepoPath(d).repo
            full = {}
            for (kind, name), i in zip(refs, at):
                full.setdefault(name, []).append((kind, ids[i]))
            for name in {n for k, n in REFS} | {'no', 'f', 'x', 'origin', 'v', 'refs/heads/m'}:
                tag, v = outcome(lambda: r.getRef(name))
                what = '%s, %r at %r, %r%s' % (case['shape'], refs, at, name, ', packed' if packed else '')
                if name in full:
                    check(tag == 'ok' and v.name == name, '%r: %s' % (v, what))
                    check(v.commit.hexsha in [i for k, i in full[name]], 'is %r: %s' % (v.commit.hexsha, what))
                else:
                    check(tag == 'raise' and isinstance(v, ValueError), '%r was found: %s' % (v, what))
                ctx.evaluation((tuple(refs), at, name))
            ctx.trace()
    ctx.sample('%s %r' % (case['shape'], refs))
