"""Bindings that are not replay of calls on one driver: programs generated from
the specification's states, negative controls, known findings."""
import json, os, re, tempfile
import engine
from engine import *

NAMES = {0: 'void', 1: 'bool', 2: 'char', 3: 'wchar_t', 4: 'signed char', 5: 'short', 6: 'int', 7: 'long', 8: 'long long', 9: 'unsigned char', 10: 'unsigned short',
         11: 'unsigned int', 12: 'unsigned long', 13: 'unsigned long long', 14: 'float', 15: 'double', 16: 'long double', 17: 'Class', 18: 'Union', 19: 'Enum', 20: 'Enum2'}
LAYER = {101: 'C', 102: 'V', 103: 'P', 104: 'L', 105: 'R', 106: 'U', 107: 'A'}
TRAITS = ['is_const', 'is_volatile', 'is_void', 'is_integral', 'is_floating_point', 'is_arithmetic', 'is_fundamental', 'is_pointer', 'is_scalar', 'is_array', 'is_signed', 'is_unsigned']

def ctype(t):
    s = NAMES[t[0]]
    for l in t[1:]:
        s = '%s<%s>::t' % (LAYER[l], s)
    return s

HEAD = r'''#include <ttl/type_traits.hpp>
#include <stdio.h>
struct Class { int a; Class *b; }; union Union { int a; char b; }; enum Enum { e0 };
template<class T> struct C { typedef const T t; }; template<class T> struct V { typedef volatile T t; }; template<class T> struct P { typedef T *t; }; template<class T> struct L { typedef T &t; };
template<class T> struct U { typedef T t[]; }; template<class T> struct A { typedef T t[2]; };
#if __cplusplus >= 201103L
template<class T> struct R { typedef T &&t; };
enum class Enum2 { e };
#endif
template<class T, class S> struct Same { enum { v = 0 }; }; template<class T> struct Same<T, T> { enum { v = 1 }; };
template<bool b> struct Val { enum { v = b }; };
static int bad;
static void say(const char *t, const char *what, int got) { ++bad; printf("BAD %s: %s is %d\n", t, what, got); }
template<class T, class RC, class RV, class RCV, class RR> void row(const char *t, unsigned m)
{
#define B(n, trait) { int got = Val<ttl::trait<T>::value>::v; if (got != (int)(m >> n & 1)) say(t, #trait, got); \
   Same<bool, typename ttl::trait<T>::value_type>::v ? (void)0 : say(t, #trait "::value_type is bool", 0); }
   @BITS@
#define Y(trait, X) if (!Same<typename ttl::trait<T>::type, X>::v) say(t, #trait "::type as specified", 0);
   Y(remove_const, RC) Y(remove_volatile, RV) Y(remove_cv, RCV) Y(remove_reference, RR)
}
template<class T, class S> void same(const char *t, const char *s, int m)
{
   int got = Val<ttl::is_same<T, S>::value>::v, rev = Val<ttl::is_same<S, T>::value>::v;
   if (got != m || rev != m) { printf("with %s: ", s); say(t, "is_same", got); }
}
'''
# How the program is compiled: name, command, terms left out (rvalue references and
# scoped enumerations before C++11), signedness of char and of wchar_t.
MODES = [('g++', ['g++', '-std=gnu++17'], (), True, True),
         ('clang++', ['clang++', '-std=gnu++17'], (), True, True),
         ('unsigned', ['g++', '-std=gnu++17', '-funsigned-char', '-fshort-wchar'], (), False, False),
         ('c++98', ['g++', '-std=gnu++98'], (105, 20), True, True)]

def types_rows(bases, depth, schar, swide):
    cfg = 'SPECIFICATION Spec\nINVARIANT Inv\nINVARIANT Shown\nCHECK_DEADLOCK FALSE\n' + consts(dict(Bases=set(bases), Depth=depth, SignedChar=schar, SignedWide=swide))
    for attempt in range(2):
        rc, out = tlc('TypesMC', cfg)
        if rc == 0 and 'No error has been found' in out:
            return [json.loads(json.loads(l))[1] for l in out.splitlines() if l.startswith('"[')], tlc_stats(out)
    raise Infra('TLC failed on TypesMC: rc %d %s' % (rc, out[-1500:]))

def program(cmd, src, name, tag=''):
    """Compile and run a generated program; its source and what it reports."""
    base = os.path.join(mkdirs('tmp'), '%d-%s' % (os.getpid(), name))
    with open(base + '.cpp', 'w') as f:
        f.write(src)
    try:
        for attempt in range(2):
            rc, out, err = engine.run(cmd + ['-O0', '-w', '-I' + REPO, base + '.cpp', '-o', base])
            if rc == 0:
                break
            if 'error:' in err:
                lines = [l for l in err.splitlines() if 'error:' in l]
                return src, [tag + 'does not compile: ' + lines[0][:300]]
        else:
            raise Infra('%s: %s' % (cmd[0], err[-400:]))
        rc, out, err = engine.run([base])
        bad = [l for l in out.splitlines() if 'BAD' in l]
        if rc not in (0, 1) or (rc == 1) != bool(bad):
            raise Infra('%s program: rc %d %s %s' % (name, rc, out[-300:], err[-300:]))
        return src, [tag + l for l in bad]
    finally:
        for s in ('', '.cpp'):
            if os.path.exists(base + s):
                os.unlink(base + s)

def report(run, jobs, go, what):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(8) as P:
        res = list(P.map(go, jobs))
    for src, bad in res:
        for b in bad:
            run.nviol += 1
            if len(run.viol) < 60:
                run.violate(what + b, dict(type='types', source=src))

def types(run):
    rows = {True: {}, False: {}}
    for schar, bases, depth in [(True, range(21), 3), (True, (0, 6, 17), 5 if run.thorough else 4), (False, range(21), 3 if run.thorough else 2)]:
        r, st = types_rows(bases, depth, schar, schar)
        run.cov['states'] += st[1]
        run.cov['transitions'] += st[0]
        for x in r:
            rows[schar][tuple(x['t'])] = x
    rows = {k: list(v.values()) for k, v in rows.items()}
    run.cov['types'] = len(rows[True])
    def part(chunk, out):
        body = []
        for x in chunk:
            m = sum(1 << k for k, v in enumerate(x['v']) if v)
            n = ctype(x['t'])
            body.append('row<%s, %s, %s, %s, %s>("%s", %du);' % (n, ctype(x['rc']), ctype(x['rv']), ctype(x['rcv']), ctype(x['rr']), n, m))
            body.append('same<%s, %s>("%s", "canonical", 1);' % (n, ctype(x['canon']), n))
            for o, eq in x['same']:
                if o and not set(o) & set(out):
                    body.append('same<%s, %s>("%s", "%s", %d);' % (n, ctype(o), n, ctype(o), bool(eq)))
        bits = ' '.join('B(%d, %s)' % (k, t) for k, t in enumerate(TRAITS))
        return HEAD.replace('@BITS@', bits) + 'int main()\n{\n' + '\n'.join(body) + '\nreturn bad != 0;\n}\n'
    jobs = [(m, k) for m in MODES for k in range(8 if m[0] == 'g++' else 4)]
    def go(job):
        (mode, cmd, out, schar, swide), k = job
        chunk = [x for x in rows[schar] if not set(x['t']) & set(out)][k::8 if mode == 'g++' else 4]
        run.cov['type_programs'] += 1
        run.cov['traces_validated_against_impl'] += len(chunk)
        src = '// ' + ' '.join(cmd) + '\n' + part(chunk, out)
        return program(cmd, src, 'types-%s-%d' % (mode, k), '(%s) ' % mode)
    report(run, jobs, go, 'type traits: ')
    run.samples.append(dict(spec='TypesMC', rows=[dict(type=ctype(x['t']), traits=[t for t, v in zip(TRAITS, x['v']) if v], remove_cv=ctype(x['rcv'])) for x in rows[True][200:203]]))

ACC_HEAD = r'''#include <ttl/ttl.hpp>
#include <stdio.h>
#include <type_traits>
struct K { int k; }; inline bool operator<(const K &a, const K &b) { return a.k < b.k; } inline bool operator==(const K &a, const K &b) { return a.k == b.k; }
struct T { int t; };
struct Types_vector { typedef ttl::vector<T> C; typedef T E; };
struct Types_fixed_vector { typedef ttl::fixed_vector<T, 3> C; typedef T E; };
struct Types_array { typedef ttl::array<T, 3> C; typedef T E; };
struct Types_list { typedef ttl::list<T> C; typedef T E; };
struct Types_forward_list { typedef ttl::forward_list<T> C; typedef T E; };
struct Types_backward_list { typedef ttl::backward_list<T> C; typedef T E; };
struct Types_lazy_queue { typedef ttl::lazy_queue<T> C; typedef T E; };
struct Types_map { typedef ttl::map<K, T> C; typedef ttl::pair<const K, T> E; };
struct Types_set { typedef ttl::set<K> C; typedef K E; };
struct Types_sorted_vector_map { typedef ttl::sorted_vector_map<K, T> C; typedef ttl::pair<K, T> E; };
struct Types_vector_map { typedef ttl::vector_map<K, T> C; typedef ttl::pair<K, T> E; };
template<class C> C &mutable_(); template<class C> const C &const_(); const K &key(); template<class E> const E &elem();
template<class X> X &var(X);
static int bad, n;
static void is(bool b, const char *t, const char *what) { ++n; if (!b) { ++bad; printf("BAD %s: not %s\n", t, what); } }
template<class X, class Y> void same(const char *t, const char *what) { is(std::is_same<X, Y>::value, t, what); }
template<class X, class Y> void plain(const char *t, const char *what) { same<typename std::remove_cv<typename std::remove_reference<X>::type>::type, Y>(t, what); }
'''
# names of member types, and what else must be true of the types of every container
ACC_TYPES = r"""
#define S(x, y) same<x, y>(t, #x)
#define IS(x) is(x, t, #x)
template<class C, class E> void container(const char *t)
{
   typedef typename C::iterator I; typedef typename C::const_iterator J;
   S(typename C::value_type, E); S(typename C::reference, E &); S(typename C::const_reference, const E &);
   S(typename C::size_type, ttl::size_t); S(typename C::difference_type, ttl::ptrdiff_t);
   IS((std::is_convertible<I, J>::value)); IS((!std::is_convertible<J, I>::value)); IS((!std::is_constructible<I, J>::value));
   IS((!std::is_assignable<I &, J>::value)); IS((std::is_assignable<J &, I>::value));
   S(decltype(const_<C>().empty()), bool);
}
template<class C> void sized(const char *t) { S(decltype(const_<C>().size()), typename C::size_type); }
template<class C, class E> void pointers(const char *t) { S(typename C::pointer, E *); S(typename C::const_pointer, const E *); }
template<class C, class E> void iterators(const char *t)
{
   typedef typename C::iterator I; typedef typename C::const_iterator J;
   S(typename I::value_type, E); S(typename J::value_type, E); S(typename I::reference, E &); S(typename J::reference, const E &);
   S(typename I::pointer, E *); S(typename J::pointer, const E *);
   S(typename I::difference_type, ttl::ptrdiff_t); S(typename J::difference_type, ttl::ptrdiff_t);
}
"""
ACC_STEP = {'deref': '*%s', 'preinc': '++var(%s)', 'postinc': 'var(%s)++', 'predec': '--var(%s)', 'postdec': 'var(%s)--', 'toconst': 'Y::C::const_iterator(%s)', 'plus': '(%s + 1)',
            'arrow': '%s.operator->()', 'first': '(%s).first', 'second': '(%s).second', 'insert': '%s.insert(elem<Y::E>()).first'}
ACC_POINTERS = ('vector', 'fixed_vector', 'array', 'vector_map')

def access_row(kind, path, c, const, lv):
    keyed = kind in ('map', 'set', 'sorted_vector_map', 'vector_map')
    e = '%s_<Y::C>()' % path[0]
    q = 'const ' if const else ''
    depth = 0
    for s in path[1:]:
        if s in ACC_STEP:
            e = '(%s)' % (ACC_STEP[s] % e)
        elif s == 'index':
            e = '%s[%s]' % (e, 'key()' if keyed and depth == 0 else '1')
        else:
            e = '%s.%s(%s)' % (e, s, '1' if s == 'at' and not keyed else 'key()' if s in ('at', 'find', 'lower_bound', 'upper_bound', 'equal_range') else '')
        depth += 1
    if c == 'iter':
        want, how = 'Y::C::' + ('const_iterator' if const else 'iterator') + ('&' if lv and path[-1] in ('preinc', 'predec') else ''), 'same' if path[-1] in ('preinc', 'predec') else 'plain'
    elif c == 'pair':
        want, how = 'ttl::pair<%s, %s>' % (('Y::C::const_iterator',) * 2 if const else ('Y::C::iterator',) * 2), 'plain'
    elif c == 'ptr':
        want, how = q + 'Y::E *', 'plain'
    else:
        want, how = q + {'ref': 'Y::E', 'key': 'K', 'mapped': 'T'}[c] + ' &', 'same'
    want = want.replace('Y::', 'Types_%s::' % kind)
    e = e.replace('Y::', 'Types_%s::' % kind)
    return '%s<decltype((%s)), %s>("%s of %s", "%s");' % (how, e, want, '.'.join(path), kind, want)

def access(run):
    kinds = ["vector", "fixed_vector", "array", "list", "forward_list", "backward_list", "lazy_queue", "map", "set", "sorted_vector_map", "vector_map"]
    cfg = 'SPECIFICATION Spec\nINVARIANT Inv\nINVARIANT Shown\nPROPERTY Never\nCHECK_DEADLOCK FALSE\n' + consts(dict(Kinds=set(kinds), Depth=5 if run.thorough else 4))
    for attempt in range(2):
        rc, out = tlc('AccessMC', cfg)
        if rc == 0 and 'No error has been found' in out:
            break
    else:
        raise Infra('TLC failed on AccessMC: rc %d %s' % (rc, out[-1500:]))
    rows = [json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"[')]
    st = tlc_stats(out)
    run.cov['states'] += st[1]
    run.cov['transitions'] += st[0]
    rows = sorted(r[1:] for r in rows if r[3] != 'cont')
    run.cov['paths'] = len(rows)
    jobs = []
    for k in kinds:
        mine = [access_row(*r) for r in rows if r[0] == k]
        Y = 'Types_%s::' % k
        extra = ['container<%sC, %sE>("types of %s");' % (Y, Y, k)]
        if k not in ('forward_list', 'backward_list', 'lazy_queue', 'map', 'set'):
            extra.append('sized<%sC>("types of %s");' % (Y, k))
        if k != 'array':
            extra.append('pointers<%sC, %sE>("types of %s");' % (Y, Y, k))
        if k not in ACC_POINTERS:
            extra.append('iterators<%sC, %sE>("types of the iterators of %s");' % (Y, Y, k))
        parts = max(1, len(mine) // 2500)
        jobs += [(k, n, (extra if n == 0 else []) + mine[n::parts]) for n in range(parts)]
    def go(job):
        k, n, body = job
        run.cov['type_programs'] += 1
        run.cov['traces_validated_against_impl'] += len(body)
        cmd = ['g++', '-std=gnu++17']
        src = '// ' + ' '.join(cmd) + '\n' + ACC_HEAD + ACC_TYPES + 'int main()\n{\n' + '\n'.join(body) + '\nreturn bad != 0;\n}\n'
        return program(cmd, src, 'access-%s-%d' % (k, n))
    report(run, jobs, go, 'access paths: ')
    run.samples.append(dict(spec='AccessMC', rows=[dict(kind=r[0], path='.'.join(r[1]), arrives=r[2], const=r[3]) for r in rows[::2500][:4]]))

def known_erase(run):
    """The recorded deviation of list::erase(first, last): shown against the
    specification without it (KnownErase = FALSE)."""
    import specs
    text = [l for l in open(os.path.join(ROOT, 'KNOWN_FINDINGS')) if l.startswith('finding: property=C04 ')]
    fn = os.path.join(mkdirs('tmp'), 'known-%d' % os.getpid())
    ops = ['reset'] + ['push_back %d' % k for k in range(4)] + ['eraser 1 3']
    with open(fn, 'w') as f:
        f.write('\n'.join(ops) + '\n')
    t = specs.TRACES['list'][1]
    try:
        st, fails = record(t, fn + '.nd', 0, 1, ['content', 'reply'], opsfile=fn)
        ok, ln, txt = judge(t.module, dict(t.consts, KnownErase=False, UseIds=False), fn + '.nd')
        if not ok and ln == len(ops) and text:
            run.known.append(text[0].split(' ', 2)[2].strip())
    except CompileFail:
        pass
    finally:
        for x in (fn, fn + '.nd'):
            if os.path.exists(x):
                os.unlink(x)

# -- the headers as parts of a program
HEADS_PRE = r'''extern "C" int printf(const char *, ...);
@NAMES@
@TYPES@
inline bool operator==(const XX &a, const XX &b) { return a.v == b.v; } inline bool operator!=(const XX &a, const XX &b) { return a.v != b.v; }
inline bool operator<(const XX &a, const XX &b) { return a.v < b.v; } inline bool operator>(const XX &a, const XX &b) { return a.v > b.v; }
inline int num(const XX &x) { return x.v; } inline int num(int x) { return x; }
'''
HEADS_XX = 'struct XX { int v; XX(int x = 0): v(x) {} ~XX() { v = -1; } };'
# An element type associated with namespace std, beside the standard headers.
HEADS_STD = '''#include <string>
#include <algorithm>
#include <numeric>
#include <utility>
#include <functional>
#include <iterator>
#include <memory>
#include <vector>
#include <map>
template<class T> struct XXT { int v; XXT(int x = 0): v(x) {} }; typedef XXT<std::string> XX;'''
# Entities of the program's own with the library's names, and its own countof.
HEADS_OWN = '''struct vector { int own; }; struct list { int own; }; struct map { int own; }; struct set { int own; }; template<class A, class B> struct pair { int own; }; struct array { int own; };
struct bitset { int own; }; struct forward_list { int own; }; struct less { int own; }; struct rbnode { int own; }; struct rbtree { int own; }; struct slist_node { int own; };
struct fixed_vector { int own; }; struct vector_map { int own; }; struct is_same { int own; }; struct true_type { int own; };
template<class A> int swap(A &, A &, int); template<class A> int find(A); int copy(int); int min(int); int max(int); int distance(int); int move(int); int fill(int); int equal(int);
#define countof(x) own_countof(x)
template<class A, unsigned long n> char (&own_array(A (&)[n]))[n];
#define own_countof(x) (100000 + sizeof(own_array(x)))'''
HEADS_OWN_USE = '''static int own_names()
{
   vector v = { 1 }; list l = { 1 }; map m = { 1 }; set s = { 1 }; pair<int, int> p = { 1 }; array a = { 1 }; bitset b = { 1 }; forward_list f = { 1 }; less e = { 1 }; rbnode n = { 1 }; rbtree t = { 1 };
   slist_node o = { 1 }; fixed_vector x = { 1 }; vector_map y = { 1 }; is_same i = { 1 }; true_type u = { 1 };
   int k[7];
   return countof(k) != 100007 || v.own + l.own + m.own + s.own + p.own + a.own + b.own + f.own + e.own + n.own + t.own + o.own + x.own + y.own + i.own + u.own != 16;
}'''
HEADS_NEW = '''#include <new>
extern "C" void *malloc(__SIZE_TYPE__); extern "C" void free(void *);
#if __cplusplus >= 201103L
#define NOTHROW noexcept
#define MAYTHROW
#else
#define NOTHROW throw()
#define MAYTHROW throw(std::bad_alloc)
#endif
void *operator new(__SIZE_TYPE__ n) MAYTHROW { return malloc(n ? n : 1); } void *operator new[](__SIZE_TYPE__ n) MAYTHROW { return malloc(n ? n : 1); }
void operator delete(void *p) NOTHROW { free(p); } void operator delete[](void *p) NOTHROW { free(p); }
#if __cplusplus >= 201402L
void operator delete(void *p, __SIZE_TYPE__) NOTHROW { free(p); } void operator delete[](void *p, __SIZE_TYPE__) NOTHROW { free(p); }
#endif'''
HEADS_SIZES = dict(types='ttl::size_t', functional='ttl::less<X>', utility='ttl::pair<X, int>', array='ttl::array<X, 3>', vector='ttl::vector<X>', fixed_vector='ttl::fixed_vector<X, 3>', forward_list='ttl::forward_list<X>',
                   backward_list='ttl::backward_list<X>', lazy_queue='ttl::lazy_queue<X>', list='ttl::list<X>', map='ttl::map<X, int>', set='ttl::set<X>', vector_map='ttl::vector_map<X, int>',
                   sorted_vector_map='ttl::sorted_vector_map<X, int>', bitset='ttl::bitset<70>', rbtree='ttl::rbnode', slist_node='ttl::slist_node')
LEAN = ['-fno-exceptions', '-fno-rtti']
HEADS_MODES = {'g++98': ['g++', '-std=gnu++98'] + LEAN, 'g++11': ['g++', '-std=gnu++11'] + LEAN, 'g++14': ['g++', '-std=gnu++14'], 'g++17': ['g++', '-std=gnu++17'], 'g++20': ['g++', '-std=gnu++20'] + LEAN,
               'clang98': ['clang++', '-std=gnu++98'] + LEAN, 'clang17': ['clang++', '-std=gnu++17'],
               'nolib': ['g++', '-std=gnu++11', '-nodefaultlibs'] + LEAN, 'names': ['g++', '-std=gnu++17'] + LEAN, 'std': ['g++', '-std=gnu++17'], 'std98': ['g++', '-std=gnu++98'],
               'split': ['g++', '-std=gnu++17'] + LEAN}
# reverse, iter_swap and swap_ranges call swap for the argument's namespaces: the known finding
HEADS_STD_LESS = ('algorithm_swap', 'array_swap')

def heads_unit(mode, unit, incs, feats, X):
    std = mode.startswith('std')
    own = mode == 'names'
    pre = HEADS_PRE.replace('@NAMES@', HEADS_OWN if own else '').replace('@TYPES@', HEADS_STD if std else HEADS_XX)
    inc = ''
    if mode == 'split':
        inc += '#define RBTREE_INLINEABLE\n#define RBTREE_INCLUDE_INLINEABLE %d\n' % (unit == 'a')
    inc += ''.join('#include <ttl/%s.hpp>\n' % h for h in incs)
    # the program's types before the headers, or after
    src = inc + pre if unit == 'b' and not own else pre + inc
    src += '#define X %s\n' % X + ''.join('#define P_%s 1\n' % f for f in feats) + '#include "probes.hpp"\n'
    if own:
        src += HEADS_OWN_USE + '\n'
    src += 'int unit_%s()\n{\n   int bad = 0, r;\n' % unit
    if own:
        src += '   if (own_names()) ++bad, printf("BAD own names changed in unit %s\\n");\n' % unit
    for f in feats:
        src += '   if ((r = probes::%s()) != 0) ++bad, printf("BAD use of %s in unit %s: line %%d\\n", r);\n' % (f, f, unit)
    src += '   return bad;\n}\nunsigned long size_%s(int k)\n{\n   switch (k)\n   {\n' % unit
    for k, f in enumerate(sorted(HEADS_SIZES)):
        if f in feats:
            src += '   case %d: return sizeof(%s);\n' % (k, HEADS_SIZES[f])
    src += '   }\n   return 0;\n}\n'
    if unit == 'a':
        src += 'int unit_b();\nunsigned long size_b(int);\nint main()\n{\n   int bad = unit_a() + unit_b();\n'
        src += '   for (int k = 0; k < %d; ++k) if (size_a(k) != size_b(k)) ++bad, printf("BAD a type is of different size in the other unit: %%d\\n", k);\n   return bad != 0;\n}\n' % len(HEADS_SIZES)
        if mode == 'nolib':
            src += HEADS_NEW + '\n'
    return src

def heads_program(mode, incs, feats, X, name):
    cmd = HEADS_MODES[mode]
    if mode.startswith('std'):
        feats = [f for f in feats if f not in HEADS_STD_LESS]
    units = [heads_unit(mode, 'a', incs, feats, X), heads_unit(mode, 'b', incs[::-1], feats, X)]
    base = os.path.join(mkdirs('tmp'), '%d-%s' % (os.getpid(), name))
    flags = ['-O0', '-w', '-I' + REPO, '-I' + os.path.join(ROOT, 'harness')]
    src = '// %s\n' % ' '.join(cmd) + '// ---- second unit\n'.join(units)
    tag = '(%s) %s: ' % (mode, ' '.join(incs) if len(incs) < 6 else 'all from ' + incs[0])
    files = []
    try:
        for u, s in zip('ab', units):
            files.append('%s%s.cpp' % (base, u))
            with open(files[-1], 'w') as f:
                f.write(s)
        for attempt in range(2):
            rc, out, err = engine.run(cmd[:1] + cmd[1:] + flags + files + (['-lc', '-lgcc'] if mode == 'nolib' else []) + ['-o', base])
            if rc == 0:
                break
            lines = [l.replace(base, 'unit ') for l in err.splitlines() if 'error:' in l or 'undefined reference' in l or 'multiple definition' in l]
            if lines:
                return src, [tag + 'does not compile or link: ' + lines[0][:300]]
        else:
            raise Infra('%s: %s' % (cmd[0], err[-400:]))
        rc, out, err = engine.run([base])
        bad = [l for l in out.splitlines() if 'BAD' in l]
        if rc != 0 and not bad:
            bad = ['BAD the program ends with %d' % rc]
        return src, [tag + l for l in bad]
    finally:
        for s in [base] + files:
            if os.path.exists(s):
                os.unlink(s)

def heads(run):
    modes = sorted(HEADS_MODES)
    cfg = 'SPECIFICATION Spec\nINVARIANT Inv\nINVARIANT Shown\nPROPERTY Grows\nCHECK_DEADLOCK FALSE\n' + consts(
        dict(Modes=set(modes + ['any']), Long=set(['any'] + (modes if run.thorough else [])), Depth=2))
    for attempt in range(2):
        rc, out = tlc('HeadsMC', cfg)
        if rc == 0 and 'No error has been found' in out:
            break
    else:
        raise Infra('TLC failed on HeadsMC: rc %d %s' % (rc, out[-1500:]))
    rows = sorted((json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"[')), key=lambda r: (-len(r[2]), r[1], r[2]))
    st = tlc_stats(out)
    run.cov['states'] += st[1]
    run.cov['transitions'] += st[0]
    jobs, n = [], run.seed
    for _, mode, incs, feats in rows:
        n += 1
        X = 'int' if n % 3 == 0 else 'XX'
        if mode == 'any':
            mode = modes[n % len(modes)]
        if mode.startswith('std'):
            X = 'XX'
        jobs.append((mode, incs, sorted(feats), X, 'heads-%d' % n))
    run.cov['programs'] = len(jobs)
    def go(job):
        if run.enough():
            return '', []
        run.cov['traces_validated_against_impl'] += 1
        return heads_program(*job)
    report(run, jobs, go, 'headers: ')
    run.samples.append(dict(spec='HeadsMC', rows=[dict(mode=j[0], included=j[1], usable=j[2]) for j in jobs[-1200::300]]))
    # the recorded deviation, shown
    text = [l for l in open(os.path.join(ROOT, 'KNOWN_FINDINGS')) if l.startswith('finding: property=C31 ')]
    global HEADS_STD_LESS
    keep, HEADS_STD_LESS = HEADS_STD_LESS, ()
    try:
        src, bad = heads_program('std', ['algorithm', 'utility'], ['algorithm_swap'], 'XX', 'heads-known')
    finally:
        HEADS_STD_LESS = keep
    if bad and 'swap' in bad[0] and text:
        run.known.append(text[0].split(' ', 2)[2].strip())
