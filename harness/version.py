"""Version strings: git's answers are those of a simulated checkout with an arbitrary number
of commits; the harness patches the creation of processes, nothing is executed."""
import errno
import subprocess
from contextlib import contextmanager

HASHES = ('1a2b3c4d5e6f7a8b9c0d1e2f3a4b5c6d7e8f9a0b', '1234567890123456789012345678901234567890',
          'ffffffdf00000000000000000000000000000000')


class Checkout:
    """A git checkout: the nearest tag of any kind, the distance from it, local changes."""

    def __init__(self, ctx, tag, distance, dirty, commit, missing=None, other=None):
        self.ctx, self.tag, self.distance, self.dirty = ctx, tag, distance, dirty
        self.commit, self.missing, self.other = commit, missing, other

    def answer(self, args):
        """(output, return code) of git with these arguments."""
        if self.missing == 'repository':
            return None, 128
        if args[0] == 'rev-parse':
            if '--git-dir' in args:
                return '.git\n', 0
            return self.commit + '\n', 0
        if args[0] == 'rev-list':
            return self.ctx.text(self.distance) + '\n', 0
        if args[0] == 'show':
            return '2020-12-01 10:20:30 +0200\n', 0
        assert args[0] == 'describe', args
        tag = self.tag
        if '--match' in args:
            pattern = args[args.index('--match') + 1]
            assert pattern[-1:] == '*', pattern
            if tag is not None and not tag.startswith(pattern[:-1]):
                tag = None
        if tag is None or '--tags' not in args:
            if '--always' not in args:
                return None, 128
            out = self.commit[:7]
        elif '--long' in args or not self.distance == 0:
            out = '%s-%s-g%s' % (tag, self.ctx.text(self.distance), self.commit[:7])
        else:
            out = tag
        if self.dirty and '--dirty' in args:
            out += '-dirty'
        return out + '\n', 0

    @contextmanager
    def installed(self):
        checkout = self

        class Popen:
            def __init__(self, args, *rest, **kw):
                self.args = args = list(args)
                if checkout.missing == 'git':
                    raise OSError(errno.ENOENT, 'no such file: git')
                out, self.returncode = checkout.answer(args[1:])
                self.text = kw.get('text') or kw.get('universal_newlines') or kw.get('encoding')
                self.out = out or ''
                self.stdout = self.stderr = None

            def communicate(self, *args, **kw):
                return (self.out if self.text else self.out.encode()), None

            def wait(self, *args, **kw): return self.returncode
            poll = wait

            def kill(self): pass
            def __enter__(self): return self
            def __exit__(self, *exc): pass
        real, subprocess.Popen = subprocess.Popen, Popen
        try:
            yield
        finally:
            subprocess.Popen = real


def pep440(ctx, tag, distance, dirty, commit):
    """The documented version."""
    at = '%s.g%s' % (ctx.text(distance), commit[:7]) + ('.dirty' if dirty else '')
    if tag is None:
        return '0+untagged.' + at
    version = tag[1:]
    if not dirty and distance == 0:
        return version
    return version + ('.' if '+' in version else '+') + at


def checkout(ctx, tag, commit=0, missing=None, part='version'):
    """The version of a checkout with an arbitrary number of commits since the tag."""
    v = getattr(ctx.m, part)
    commit = HASHES[commit]
    distance = ctx.int('distance', 0 if tag is not None else 1)
    dirty = ctx.choose('dirty', 2) == 1
    git = Checkout(ctx, tag, distance, dirty, commit, missing)
    with git.installed():
        if part == 'version':
            got = v.get_versions()
        else:       # the same, when it is built
            try:
                got = v.render(v.git_pieces_from_vcs('v', '.', False), 'pep440')
            except v.NotThisMethod:
                got = {'version': '0+unknown'}
    if tag is not None and not tag.startswith('v'):
        tag = None      # not a version
    if missing:
        ctx.check(got['version'] == '0+unknown', 'a version without git')
        return
    ctx.check(got['error'] is None, 'an error is reported')
    ctx.check(got['version'] == pep440(ctx, tag, distance, dirty, commit), 'wrong version')
    ctx.check(got['dirty'] == dirty, 'dirty is wrong')
    ctx.check(got['full-revisionid'] == commit, 'wrong commit')
    ctx.observe(got['dirty'])


def styles(ctx, tag, style, part='version'):
    """Rendering of the parts in every documented style."""
    v = getattr(ctx.m, part)
    n = ctx.int('distance', 0 if tag is not None else 1)
    t = ctx.text(n)
    dirty = ctx.choose('dirty', 2) == 1
    short = HASHES[0][:7]
    pieces = {'long': HASHES[0], 'short': short, 'error': None, 'dirty': dirty, 'distance': n,
              'closest-tag': tag, 'date': None}
    got = v.render(dict(pieces), style)
    away = not n == 0
    base = '0' if tag is None else tag
    if style in ('pep440', 'default', None):
        want = pep440(ctx, tag and 'v' + tag, n, dirty, HASHES[0])
    elif style == 'pep440-pre':
        want = base + ('.post.dev' + t if away or tag is None else '')
    elif style in ('pep440-post', 'pep440-old'):
        want = base
        if away or dirty or tag is None:
            want += '.post' + t + ('.dev0' if dirty else '')
            if style == 'pep440-post':
                want += ('.' if '+' in base else '+') + 'g' + short
    else:
        want = short if tag is None else tag
        if tag is not None and (away or style == 'git-describe-long'):
            want += '-%s-g%s' % (t, short)
        want += '-dirty' if dirty else ''
    ctx.check(got['version'] == want, 'wrong version')
    ctx.check(got['dirty'] == dirty and got['full-revisionid'] == HASHES[0], 'wrong parts')


def archive(ctx, refs, extra='', part='version'):
    """The version of an unpacked archive: the first tag, in sorted order, with the prefix."""
    v = getattr(ctx.m, part)
    present = [r for k, r in enumerate(refs) if ctx.choose('has%d' % k, 2)]
    keywords = {'refnames': ' (%s)' % ', '.join(present + [extra] * bool(extra)),
                'full': HASHES[0] + '\n', 'date': '2020-12-01 10:20:30 +0200'}
    got = v.git_versions_from_keywords(keywords, 'v', False)
    tags = sorted(r[len('tag: v'):] for r in present if r.startswith('tag: v'))
    ctx.check(got['version'] == (tags[0] if tags else '0+unknown'), 'wrong version')
    ctx.check(got['full-revisionid'] == HASHES[0] and got['dirty'] is False, 'wrong parts')
    ctx.check((got['error'] is None) == bool(tags), 'wrong error')
