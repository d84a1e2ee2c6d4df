"""C12: filter expressions: every token string up to a length against a reference reading, on the real matcher; then every
combination of several filters on real command lines, suite files and listings."""
import io, itertools, os, contextlib
from munch import Munch
from .. import env, world
from ..core import in_child
from slash.utils.pattern_matching import Matcher
from slash.core.tagging import Tags, NO_TAGS
from sentinels import NOTHING
import slash
from slash.frontend.slash_list import slash_list

PROPERTY = 'C12'
ASSUMPTIONS = ['the reference reading: a plain term is a substring of the address or of a tag name (or key=value equality with a tag), a tag term is an exact tag name or key=value']

TOK = ['a', 'tag:t', 'not', 'and', 'or', '(', ')']
# words of the wider vocabulary, including ones which begin, end or contain operators
WORDS = ['a', 'b', 'tag:t', 'tag: t', 'tag:t=v', 't=v', 'tag:t=v=w', 'tag:a', 'android', 'nota', 'orb', 'band', 'knot', 'flor', 'not.a', 'and/b', 'or-a', 'and_', 'a.py:b', 'a,b', 'test(x=1)', 'a-b', 'T', 'A']
DEPTH = {'quick': 5, 'thorough': 7}
MINIMUMS = {'valid': 100, 'rejected': 1000, 'runs': 50}


def bound(tier):
    return 'all token strings of up to %d tokens over %s; all well-formed expressions of up to %d terms over %d words; all spacings of them; all pairs of filters on real command lines' % (
        DEPTH[tier], TOK, 2, len(WORDS))


class Meta(object):
    def __init__(self, address, tags):
        self.address, self.tags = address, tags

    def __repr__(self):
        return '%s %s' % (self.address, dict((k, self.tags.get(k)) for k in self.tags))


def universe():
    out = []
    for addr in ('x.py:y', '/d/a.py:z', 'b', 'ab', 'android', 'nota', 'orb', 'not.a', 'and/b', 'or-a', 'and_', 'a.py:b', 'a,b', 'test(x=1)', 'test', 'x=1', 'a-b', 'T', 'A', 't', 'tag:t', 't=v', 'and', 'or', 'not', 'x y', 'band', 'knot', 'flor'):
        for tags in (None, {'t': NOTHING}, {'t': 'v'}, {'t': 'w'}, {'a': 1}, {'xax': 1, 't': 'vv'}, {'tt': 'v'}, {'t': 'v=w'}, {'T': 'v', 'b': None}):
            out.append(Meta(addr, NO_TAGS if tags is None else Tags(dict(tags))))
    return out


# ---------------------------------------------------------------------------------------------- reference
class Malformed(Exception):
    pass


def is_word(t):
    return t not in ('not', 'and', 'or', '(', ')')


def parse(tokens):
    """-> tree, or Malformed.  not > and > or."""
    pos = [0]

    def peek():
        return tokens[pos[0]] if pos[0] < len(tokens) else None

    def atom():
        t = peek()
        if t is None:
            raise Malformed
        pos[0] += 1
        if t == '(':
            r = disj()
            if peek() != ')':
                raise Malformed
            pos[0] += 1
            return r
        if t == 'not':
            return ('not', atom())
        if is_word(t):
            return ('term', t)
        raise Malformed

    def conj():
        r = atom()
        while peek() == 'and':
            pos[0] += 1
            r = ('and', r, atom())
        return r

    def disj():
        r = conj()
        while peek() == 'or':
            pos[0] += 1
            r = ('or', r, conj())
        return r
    tree = disj()
    if peek() is not None:
        raise Malformed
    return tree


def term_holds(term, address, tags):
    if term.startswith('tag:'):
        want, exact = term[4:].strip(), True
    else:
        want, exact = term, False
    for k, v in tags.items():
        if '=' in want:
            key, val = want.split('=', 1)
            if k == key and str(v) == val:
                return True
        elif (k == want) if exact else (want in k):
            return True
    return (not exact) and want in address


def holds(tree, address, tags):
    op = tree[0]
    if op == 'term':
        return term_holds(tree[1], address, tags)
    if op == 'not':
        return not holds(tree[1], address, tags)
    if op == 'and':
        return holds(tree[1], address, tags) and holds(tree[2], address, tags)
    return holds(tree[1], address, tags) or holds(tree[2], address, tags)


def plain_tags(m):
    return {} if m.tags is NO_TAGS else dict((k, m.tags.get(k)) for k in m.tags)


UNIVERSE = [(m, m.address, plain_tags(m)) for m in universe()]
STRS = ['x', 'a', 'bab', 't=v', 'android()', 'T', 'tag:t']


def spell(tokens, style):
    if style == 0:
        return ' '.join(tokens)
    if style == 1:
        s = ' '.join(tokens).replace('( ', '(').replace(' )', ')')
        return s
    if style == 2:
        return '  ' + '   '.join(tokens) + ' '
    # tight: operators need no blank next to a parenthesis
    out = ''
    for t in tokens:
        if out and not (t in '()' or out[-1] in '()'):
            out += ' '
        elif t == '(' and out and out[-1] not in '()' and is_word(out.split()[-1].split('(')[-1].split(')')[-1]):
            out += ' '      # word( would be a parenthesized address
        out += t
    return out


def check_text(text, tokens, st, what):
    try:
        tree = parse(tokens)
    except Malformed:
        tree = None
    try:
        m = Matcher(text)
    except Exception as e:
        m = None
        err = type(e).__name__
    st.transitions += 1
    if tree is None:
        if m is not None:
            st.violation('malformed expression %r was accepted (as %r)' % (text, m), dict(expression=text))
        st.count('rejected')
        st.execution((what, 'rejected', tuple(tokens)), sample=None)
        return
    if m is None:
        st.violation('well-formed expression %r was refused (%s)' % (text, err), dict(expression=text))
        return
    st.count('valid')
    vec = []
    for meta, address, tags in UNIVERSE:
        want = holds(tree, address, tags)
        got = bool(m.matches(meta))
        vec.append(got)
        if got != want:
            st.violation('expression %r %s test %r, its Boolean reading says otherwise' % (text, 'matches' if got else 'does not match', meta),
                         dict(expression=text, address=address, tags=repr(tags)))
            break
    for s in STRS:
        want = holds(tree, s, {}) if not any(is_word(t) and t.startswith('tag:') for t in tokens) else None
        if want is not None and bool(m.matches(s)) != want:
            st.violation('expression %r on the text %r: got %r' % (text, s, not want), dict(expression=text, text=s))
    st.state(tuple(vec))
    st.execution((what, text), sample=dict(expression=text, matches='%d of %d' % (sum(vec), len(vec))))


# ---------------------------------------------------------------------------------------------- real runs
FILES = {
    'alpha.py': '''
import slash
from mc.world import EV

@slash.tag('t')
def test_one():
    EV('body', 'one')

@slash.tag('t', 'v')
@slash.parametrize('x', [1, 2])
def test_two(x):
    EV('body', 'two%d' % x)

class TestThree(slash.Test):
    @slash.tag('u', 3)
    def test_m(self):
        EV('body', 'm')

    def test_n(self):
        EV('body', 'n')
''',
    'beta.py': '''
import slash
from mc.world import EV

@slash.tag('alphatag')
def test_one():
    EV('body', 'bone')

@slash.parametrize('y', [1 // slash.param.a, slash.param('b', 2, tags=[('t', 'w')])] if False else [1])
def test_y(y):
    EV('body', 'y')

def test_z():
    EV('body', 'z')
''',
}
ALL = [('one', 'alpha.py:test_one', {'t': NOTHING}), ('two1', 'alpha.py:test_two(x=1)', {'t': 'v'}), ('two2', 'alpha.py:test_two(x=2)', {'t': 'v'}),
       ('m', 'alpha.py:TestThree.test_m', {'u': 3}), ('n', 'alpha.py:TestThree.test_n', {}),
       ('bone', 'beta.py:test_one', {'alphatag': NOTHING}), ('y', 'beta.py:test_y(y=1)', {}), ('z', 'beta.py:test_z', {})]
FILTERS = [['test_one'], ['alpha'], ['not', 'alpha'], ['tag:t'], ['not', 'tag:t'], ['tag:t=v'], ['tag:u=3', 'or', 'beta'], ['tag:t', 'and', 'test_one'],
           ['not', 'test_one', 'and', 'beta'], ['TestThree', 'or', 'tag:t', 'and', 'test_one'], ['(', 'TestThree', 'or', 'tag:t', ')', 'and', 'test_m'], ['test_two(x=2)'],
           ['nosuch'], ['tag:x'], ['not', '(', 'alpha', 'or', 'beta', ')'], ['beta', 'or', 'alpha']]
BAD = ['alpha and', 'alpha beta', '(alpha', 'alpha)', 'not', 'or beta', 'alpha and or beta', 'alpha andbeta', '()', 'alpha not beta', 'and', 'not and alpha']


def _runs(kind, i):
    """(forked) -> list of (filters, way, selected names in order, exit, listed)"""
    d = world.fresh_dir('f')
    world.write_tree(d, FILES)
    out = []
    combos = [(i,)] + [(i, j) for j in range(len(FILTERS))] if kind == 'pairs' else [(i,)]
    for combo in combos:
        texts = [spell(FILTERS[k], 1) for k in combo] if kind != 'bad' else [BAD[i]]
        for way in (('flags', 'config', 'list') if kind == 'pairs' else ('flags', 'list', 'suite')):
            out.append((combo, texts, way) + _one(d, texts, way))
        if kind == 'pairs':
            out.append((combo, texts, 'suite') + _one(d, texts, 'suite'))
    return out


def _one(d, texts, way):
    rec = world.Recorder()
    paths = [os.path.join(d, 'alpha.py'), os.path.join(d, 'beta.py')]
    argv = list(paths)
    cfg = {}
    if way == 'flags' or way == 'list':
        for t in texts:
            argv += ['-k', t]
    elif way == 'config':
        cfg['run.filter_strings'] = list(texts)
    else:
        # nested suite files: the inner line's filter and the outer line's filter must both hold
        with open(os.path.join(d, 's.txt'), 'w') as f:
            for p in paths:
                f.write('%s # filter: %s\n' % (p, texts[0]))
        with open(os.path.join(d, 'o.txt'), 'w') as f:
            f.write('s.txt%s\n' % (' # filter: %s' % texts[1] if len(texts) > 1 else ''))
        argv = ['-f', os.path.join(d, 'o.txt')]
    if way == 'list':
        with world.isolated():
            slash.config.assign_path('run.project_customization_file_path', os.path.join(d, '.slashrc'))
            o = io.StringIO()
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    rc = slash_list(Munch(argv=argv + ['--only-tests', '--show-duplicates', '--no-color'], cmd='list'), report_stream=o, error_stream=io.StringIO())
            except BaseException as e:
                return (None, type(e).__name__)
        return ([l.strip().replace(d + '/', '') for l in o.getvalue().splitlines() if '.py:' in l], rc)
    r = world.run_session(d, argv, rec=rec, config=cfg)
    return ([e[1] for e in rec.events if e[0] == 'body'], r.exit_code)


def check_runs(kind, i, st):
    for combo, texts, way, got, rc in in_child(_runs, kind, i):
        st.count('runs')
        st.execution((texts, way, got, rc), sample=dict(filters=texts, way=way, ran=got, exit_code=rc))
        st.state((texts, way))
        if kind == 'bad':
            if got or rc == 0:
                st.violation('malformed filter %r (%s): ran/listed %r, exit %r' % (texts, way, got, rc), dict(filters=texts, way=way))
            continue
        trees = [parse(FILTERS[k]) for k in combo]
        want = [(n, a) for n, a, t in ALL if all(holds(x, a, t) for x in trees)]
        if way == 'list':
            names = [a for n, a in want]
            if sorted(got or []) != sorted(names) or (rc == 0) != bool(want):
                st.violation('filters %r listed %r (exit %r), expected %r' % (texts, got, rc, names), dict(filters=texts, way=way))
        else:
            names = [n for n, a in want]
            if sorted(got) != sorted(names) or (rc == 0) != bool(want):
                st.violation('filters %r (%s) ran %r (exit %r), expected %r' % (texts, way, got, rc, names), dict(filters=texts, way=way))


def well_formed_words(words):
    """All shapes with up to two terms and up to one negation level, over the wider vocabulary."""
    for w in words:
        yield [w]
        yield ['not', w]
        yield ['(', w, ')']
        yield ['not', '(', w, ')']
        yield ['not', 'not', w]
        for v in WORDS:
            for op in ('and', 'or'):
                yield [w, op, v]
                yield ['not', w, op, v]
                yield [w, op, 'not', v]
                yield ['not', '(', w, op, v, ')']


def big_shapes():
    """Larger expressions: three and four terms in every combination of operators, negations of terms, and one group."""
    t = ['a', 'tag:t', 'b', 'tag:a']
    for n in (3, 4):
        for ops in itertools.product(('and', 'or'), repeat=n - 1):
            for negs in itertools.product((0, 1), repeat=n):
                groups = [None] + [(i, j) for i in range(n) for j in range(i + 1, n) if (i, j) != (0, n - 1)]
                for g in groups:
                    for gneg in ((0, 1) if g else (0,)):
                        toks = []
                        for k in range(n):
                            if k:
                                toks.append(ops[k - 1])
                            if g and k == g[0]:
                                if gneg:
                                    toks.append('not')
                                toks.append('(')
                            if negs[k]:
                                toks.append('not')
                            toks.append(t[k])
                            if g and k == g[1]:
                                toks.append(')')
                        yield toks


def tasks(tier):
    for i in range(len(FILTERS)):
        yield ['runs', 'pairs', i]
    for i in range(len(BAD)):
        yield ['runs', 'bad', i]
    for w in range(len(WORDS)):
        yield ['words', w]
    for part in range(8):
        yield ['big', part]
    yield ['short']
    for a in TOK:
        for b in TOK:
            yield ['tokens', a, b, DEPTH[tier]]


def run_task(task, st):
    kind = task[0]
    if kind == 'runs':
        check_runs(task[1], task[2], st)
    elif kind == 'words':
        for toks in well_formed_words([WORDS[task[1]]]):
            for style in ((0, 1, 2, 3) if len(toks) < 4 else (1, 3)):
                check_text(spell(toks, style), toks, st, 'words')
    elif kind == 'big':
        for n, toks in enumerate(big_shapes()):
            if n % 8 == task[1]:
                check_text(spell(toks, 1), toks, st, 'big')
    elif kind == 'short':
        check_text('', [], st, 'tokens')
        check_text('  ', [], st, 'tokens')
        for t in TOK + WORDS:
            check_text(t, [t], st, 'tokens')
    else:
        _, a, b, depth = task
        for n in range(0, depth - 1):
            for rest in itertools.product(TOK, repeat=n):
                toks = [a, b] + list(rest)
                if any(toks[k] == '(' and k and is_word(toks[k - 1]) for k in range(len(toks))):
                    pass    # a blank keeps the word and the parenthesis apart: malformed
                check_text(' '.join(toks), toks, st, 'tokens')
