"""C27: what the history, the index and the working tree say about a path."""
import itertools
import os
import shutil

from augpathlib import RepoPath
from augpathlib import exceptions as exc
from mc import gitx
from mc.gitx import git
from mc.harness import check, check_eq, outcome, unguarded
from checks.c25 import index_put, put, VAL, tree, index, look

ID = 'C27'
LEVEL = 'model_checking'
RULE = ('cases = every name (plain, in a directory, special for git or the shell) x every state of the file in (HEAD~1, HEAD); '
        'each with every state in index and working tree and other files whose names match the name as a pattern; modified, '
        'indexed, has_uncommitted_changes, diff of every pair of versions, latest_commit and commits are compared with the '
        'enumerated states; show is compared byte by byte for every content x every version')
ASSUMPTIONS = ['no content filters, no merge in progress', 'diff of files with the same content is not asked for renames']
CHUNK = 1
CASE_LIMIT = 300
NAMES = ('f', 'd/f', '*', 'd/[xy]', ':x', '-n', 'a b\n', 'é"\\', '?', 'd e/f')
OTHERS = ('x', 'd/x', 'fx', 'n')
VALS = (0, 1, 2, 3)
CONTENTS = (b'', b'a', b'\n', b'a\n', b'a\n\n', b'\n\n\n', b'\r\n', b'a\r', b'\xff\xfe', b'\xff\n', b'\x00', b'\x00\n\x00\n', b' ',
            b' a ', b'\xc3\xa9\n', b'\t\n ', 'é'.encode('latin1') + b'\n', b'x' * 70000 + b'\n', b'\xed\xa0\x80\n', b'$Id$\n')


def bounds(tier):
    return '%d names, 4 values in each of HEAD~1, HEAD, index, working tree; %d contents x 7 versions' % (len(NAMES), len(CONTENTS))


def cases(tier):
    for i, n in enumerate(NAMES):
        for h0, h1 in itertools.product(VALS, VALS):
            if tier == 'quick' and i > 1 and (h0 + 2 * h1 + i) % 3:
                continue
            yield {'name': n, 'old': h0, 'head': h1, 'vals': list(VALS) if tier != 'quick' or i < 2 else [0, 1, 3]}
    for i in range(len(CONTENTS)):
        yield {'show': i}
    for h0 in range(4):
        yield {'links': h0}
    yield {'many': 120}
    for n in NAMES:
        yield {'log': n, 'len': 3 if tier == 'quick' else 4}


def others(d, v):
    for i, n in enumerate(OTHERS):
        put(os.path.join(d, n), (v + i) % 2 + 1)


def ident(v):
    return v and (int(VAL[v][0], 8), VAL[v][1])


def differs(a, b):
    return (a or 0) != (b or 0)


def ask(what, f, want):
    o = outcome(f)
    check(o[0] == 'ok', '%s: raised %r', what, o[1])
    check_eq(bool(o[1]), want, what)
    return o[1]


def states(ctx, case, d):
    name = case['name']
    gitx.init(d)
    put(os.path.join(d, 'base'), 1)
    others(d, 0)
    put(os.path.join(d, name), case['old'])
    git(d, 'add', '-A', '.')
    git(d, 'commit', '-q', '-m', 'old')
    put(os.path.join(d, name), case['head'])
    others(d, 1)
    git(d, 'add', '-A', '.')
    git(d, 'commit', '-q', '-m', 'head', '--allow-empty')
    others(d, 0)
    git(d, 'add', '-A', '.')
    others(d, 1)
    h = {'HEAD~1': case['old'], 'HEAD': case['head']}
    for i, w in itertools.product(case['vals'], case['vals']):
        with unguarded():
            put(os.path.join(d, name), w)
            index_put(d, name, i)
            os.makedirs(os.path.join(d, os.path.dirname(name)), exist_ok=True)
            gitx.forget(RepoPath)
        h[''], h[None] = i, w
        rp = RepoPath(os.path.join(d, name))
        what = '%r HEAD~1 %d HEAD %d index %d work %d: ' % (name, case['old'], case['head'], i, w)
        if not w:
            for m in ('modified', 'indexed', 'has_uncommitted_changes', 'diff'):
                o = outcome(getattr(rp, m))
                check(o[0] == 'raise' and isinstance(o[1], FileNotFoundError), '%s%s of a missing file: %r', what, m, o[1])
        else:
            ask(what + 'modified', rp.modified, bool(i) and differs(i, w))
            ask(what + 'indexed', rp.indexed, differs(case['head'], i))
            # git diff HEAD does not look at files that are not in the index
            ask(what + 'uncommitted', rp.has_uncommitted_changes, differs(case['head'], w if i else 0))
            for a, b in itertools.product(h, h):
                # diff(ref=b, ref_orig=a): from a to b
                if a == b:
                    want = False
                elif None in (a, b):
                    # only tracked files are compared
                    o_ = a if b is None else b
                    want = differs(h[o_], w if i else 0)
                else:
                    want = differs(h[a], h[b])
                got = ask(what + 'diff(%r, %r)' % (b, a), lambda: rp.diff(b, a), want)
                if got:
                    one, two = (a, b) if a is not None else (b, a)
                    check_side(what + 'diff(%r, %r)' % (b, a), got, rp, h, one, two, i)
                ctx.trans()
        ctx.state((what, i, w))
        ctx.evaluation(what)
    ctx.trace()


def check_side(what, got, rp, h, one, two, i):
    name = os.path.relpath(str(rp), str(rp.working_dir))
    for side, blob, mode, path in ((one, got.a_blob, got.a_mode, got.a_rawpath), (two, got.b_blob, got.b_mode, got.b_rawpath)):
        v = h[side] if side is not None or i else 0
        if name not in (':x', 'a b\n'):  # GitPython strips them
            check_eq(os.fsdecode(path), name, what + ': path')
        if not v:
            check(not blob, '%s: %r has %r', what, side, blob)
            continue
        if side is None:
            continue  # not in the object database
        check_eq((mode, blob.data_stream.read()), ident(v), '%s: version %r' % (what, side))


def show(ctx, case, d):
    gitx.init(d)
    c = [CONTENTS[(case['show'] + i) % len(CONTENTS)] for i in (0, 1, 2, 3)]
    gitx.commit(d, 'old', {'d/f': c[0]})
    git(d, 'tag', 'atag')
    git(d, 'branch', 'other')
    gitx.commit(d, 'new', {'d/f': c[1], 'd/x': b'1'})
    with unguarded():
        p = os.path.join(d, 'd/f')
        for b in c[2:]:
            with open(p, 'wb') as f:
                f.write(b)
            if b is c[2]:
                git(d, 'add', 'd/f')
        sha = git(d, 'rev-parse', 'HEAD').decode().strip()
    gitx.forget(RepoPath)
    cwd = os.getcwd()
    for at, rp in ((cwd, RepoPath(p)), (d, RepoPath('d/f')), (os.path.join(d, 'd'), RepoPath('f'))):
        os.chdir(at)
        for ref, want in (('HEAD~1', c[0]), ('HEAD', c[1]), ('', c[2]), (None, c[3]), ('atag', c[0]), ('other', c[0]), (sha, c[1])):
            o = outcome(lambda: rp.show(ref))
            what = 'show(%r) of %r with %r' % (ref, rp.parts[-2:], [x[:9] for x in c])
            check(o[0] == 'ok', '%s: raised %r', what, o[1])
            check(type(o[1]) is bytes and o[1] == want, '%s: got %r', what, o[1][:50])
            ctx.trans()
            ctx.state((case['show'], ref, at == cwd))
            ctx.evaluation(what)
        for ref in ('HEAD~1', 'atag'):
            ctx.trans()
            o = outcome(lambda: (rp.parent / 'x').show(ref))
            check(o[0] == 'raise', 'show(%r) of a file that is not there: %r', ref, o[1])
        os.chdir(cwd)
    for n in NAMES + ('2:y', '0:y'):
        with unguarded():
            put(os.path.join(d, n), 1)
            gitx.git(d, '--literal-pathspecs', 'add', '--', n)
            gitx.git(d, 'commit', '-q', '-m', n)
            put(os.path.join(d, n), 4)
            gitx.git(d, '--literal-pathspecs', 'add', '--', n)
            put(os.path.join(d, n), 2)
        for ref, want in (('HEAD', 1), ('', 4), (None, 2)):
            o = outcome(lambda: RepoPath(os.path.join(d, n)).show(ref))
            check_eq(o[:2], ('ok', VAL[want][1]), 'show(%r) of %r' % (ref, n))
            ctx.trans()
            ctx.state((case['show'], ref, n))
    ctx.trace()


def log(ctx, case, root):
    """every history of one file"""
    for n, vs in enumerate(itertools.product((0, 1, 2, 3), repeat=case['len'])):
        d = os.path.join(root, 'l%d' % n)
        with unguarded():
            gitx.init(d)
            now, last, all_ = 0, None, []
            for i, v in enumerate(vs):
                put(os.path.join(d, case['log']), v)
                others(d, i)
                put(os.path.join(d, 'three'), i % 2 + 1)
                os.makedirs(os.path.join(d, os.path.dirname(case['log'])), exist_ok=True)
                git(d, 'add', '-A', '.')
                git(d, 'commit', '-q', '-m', str(i))
                if v != now:
                    all_.insert(0, i)
                now = v
            if n % 2:
                git(d, 'checkout', '-q', '--detach')
            gitx.forget(RepoPath)
        rp = RepoPath(os.path.join(d, case['log']))
        what = 'history %s of %r' % (vs, case['log'])
        o = outcome(lambda: [c.message.strip() for c in rp.commits()])
        check(o[0] == 'ok', '%s: commits raised %r', what, o[1])
        check_eq(o[1], [str(i) for i in all_], what + ': commits')
        check_eq([c.message.strip() for c in rp.commits(max_count=1)], [str(i) for i in all_[:1]], what + ': commits(max_count=1)')
        with unguarded():
            for l, t in ((os.path.join(root, 'link'), d), (os.path.join(d, 'in'), os.path.dirname(case['log']) or '.')):
                if os.path.lexists(l):
                    os.unlink(l)
                os.symlink(t, l)
        cwd = os.getcwd()
        os.chdir(d)
        for other in (RepoPath(root, 'link', case['log']), RepoPath(d, 'in', os.path.basename(case['log'])), RepoPath(case['log'])):
            o = outcome(lambda: [c.message.strip() for c in other.commits()])
            check(o[0] == 'ok' and o[1] == [str(i) for i in all_], '%s: commits of %r: %r expected %r', what, other, o[1], all_)
        os.chdir(cwd)
        o = outcome(rp.latest_commit)
        if all_:
            check(o[0] == 'ok', '%s: latest_commit raised %r', what, o[1])
            check_eq(o[1].message.strip(), str(all_[0]), what + ': latest_commit')
        else:
            check(o[0] == 'raise' and isinstance(o[1], exc.NoCommitsForFile), '%s: latest_commit %r', what, o[1])
        older = [i for i in all_ if i < len(vs) - 1]
        o = outcome(lambda: rp.latest_commit('HEAD~1'))
        check_eq(o[1].message.strip() if o[0] == 'ok' else type(o[1]), str(older[0]) if older else exc.NoCommitsForFile,
                 what + ': latest_commit(HEAD~1)')
        ctx.trans()
        ctx.state(what)
        ctx.evaluation(what)
        ctx.trace()
        gitx.forget(RepoPath)
        with unguarded():
            shutil.rmtree(d)


LINKS = (None, '../e/t', 'nowhere', '../e')


def put_link(p, v):
    if os.path.lexists(p):
        os.unlink(p)
    if v:
        os.symlink(LINKS[v], p)


def links(ctx, case, d):
    """a link has a history of its own, not that of what it leads to or of its name there"""
    for h1 in range(4):
        with unguarded():
            shutil.rmtree(d, ignore_errors=True)
            gitx.init(d)
            for i, h in enumerate((case['links'], h1)):
                gitx.commit(d, 'x', {'d/t': b't%d' % i, 'e/t': b'e%d' % i, 'e/l': b'l%d' % i, 'l': b'%d' % i, 'e/t2': b'k'})
                put_link(d + '/d/l', h)
                git(d, 'add', '-A')
                git(d, 'commit', '-q', '--allow-empty', '-m', 'l%d' % i)
            if h1 % 2:
                git(d, 'checkout', '-q', '--detach')
            for n in ('d/t', 'e/t', 'e/l', 'l'):
                with open(os.path.join(d, n), 'ab') as f:
                    f.write(b'changed')
            git(d, 'add', 'e/t')
        for i in range(4):
            for w in range(1, 4):
                with unguarded():
                    if i:
                        put_link(d + '/d/l', i)
                        git(d, 'add', 'd/l')
                    else:
                        git(d, 'rm', '-q', '--cached', '--ignore-unmatch', 'd/l')
                    put_link(d + '/d/l', w)
                    gitx.forget(RepoPath)
                rp = RepoPath(d, 'd/l')
                what = 'link to %r HEAD~1 %r HEAD %r index %r work %r: ' % (LINKS[w], LINKS[case['links']], LINKS[h1], LINKS[i], LINKS[w])
                ask(what + 'modified', rp.modified, bool(i) and i != w)
                ask(what + 'indexed', rp.indexed, h1 != i)
                ask(what + 'uncommitted', rp.has_uncommitted_changes, h1 != (w if i else 0))
                ask(what + 'diff HEAD', lambda: rp.diff('HEAD'), h1 != (w if i else 0))
                ask(what + 'diff HEAD~2 HEAD', lambda: rp.diff('HEAD', 'HEAD~2'), case['links'] != h1)
                if i:
                    o = outcome(lambda: rp.show(''))
                    check_eq(o[:2], ('ok', LINKS[i].encode()), what + 'show')
                ctx.trans()
                ctx.state(what)
                ctx.evaluation(what)
        rp = RepoPath(d, 'd/l')
        want = ['l%d' % k for k, (a, b) in enumerate(((0, case['links']), (case['links'], h1))) if a != b][::-1]
        check_eq([c.message.strip() for c in rp.commits()], want, 'commits of a link %r, %r' % (LINKS[case['links']], LINKS[h1]))
        o = outcome(rp.latest_commit)
        check_eq(o[1].message.strip() if o[0] == 'ok' else type(o[1]), want[0] if want else exc.NoCommitsForFile, 'latest commit of a link')
    ctx.trace()


def many(ctx, case, d):
    """a long history"""
    n = case['many']
    lines = []
    for i in range(n):
        lines += ['commit refs/heads/master', 'mark :%d' % (i + 1), 'committer t <t@e> %d +0000' % (1600000000 + i), 'data %d' % len(str(i)), str(i)]
        if i:
            lines.append('from :%d' % i)
        for f in ['a'] + ['b'] * (i % 3 == 0) + ['c'] * (i == 1):
            lines += ['M 100644 inline ' + f, 'data %d' % len(str(i)), str(i)]
    with unguarded():
        gitx.init(d)
        git(d, 'fast-import', '--quiet', input=('\n'.join(lines) + '\n').encode())
        git(d, 'checkout', '-q', '-f', 'master')
    for detach in (False, True):
        with unguarded():
            if detach:
                git(d, 'checkout', '-q', '--detach')
            gitx.forget(RepoPath)
        for f, all_ in (('a', range(n)), ('b', range(0, n, 3)), ('c', [1])):
            rp = RepoPath(d, f)
            want = [str(i) for i in reversed(all_)]
            for k in (None, 1, 2, 50, 99, 1000):
                check_eq([c.message for c in rp.commits(max_count=k)], want[:k], 'commits(max_count=%r) of %r' % (k, f))
                ctx.trans()
            for r in ('HEAD', 'HEAD~1', 'HEAD~60', 'master'):
                w = [x for x in want if int(x) <= n - 1 - int(r.partition('~')[2] or 0)]
                check_eq([c.message for c in rp.commits(rev=r)], w, 'commits(rev=%r) of %r' % (r, f))
                check_eq(rp.latest_commit(r).message, w[0], 'latest_commit(%r) of %r' % (r, f))
                ctx.trans()
                ctx.evaluation((detach, f, r))
            check_eq(rp.latest_commit().message, want[0], 'latest_commit of %r' % f)
            ctx.state(('many', f, detach))
    ctx.trace()


def run(ctx, case):
    d = os.path.join(ctx.fresh(), 'x')
    if 'show' in case:
        show(ctx, case, d)
    elif 'log' in case:
        log(ctx, case, d)
    elif 'links' in case:
        links(ctx, case, d)
    elif 'many' in case:
        many(ctx, case, d)
    else:
        states(ctx, case, d)
    gitx.forget(RepoPath)
