"""C29: every bounded sequence of #include directives, translated, linked and run.

A state is the sequence of headers included so far. Quick explores every header alone, every ordered
pair (A, B) inside sequences that include A first and all the others after it in both cyclic directions,
and links the units with each other; thorough adds a unit for every ordered pair by itself. In every unit
each header that was included is also used, and every linked program is run."""
import itertools, os
from concurrent.futures import ThreadPoolExecutor
import run

USES = {
 'algorithm': 'int a[] = {3, 1, 2}; cest::sort(a, a + 3); cest::reverse(a, a + 3); return *cest::max_element(a, a + 3) + *cest::find(a, a + 3, 2) - 4 - (cest::min(1, 2) - 1);',
 'array': 'cest::array<int, 2> a{1, 2}; return a[0];',
 'basic_ios': 'struct b : cest::basic_streambuf<char> {} s; struct i : cest::basic_ios<char> { i(cest::basic_streambuf<char> *p) { init(p); } } x(&s); x.setstate(cest::ios_base::failbit); int r = x.fail() && !x.good() && !x.eof() && !x && x.rdbuf() == &s && !x.tie() && x.exceptions() == cest::ios_base::goodbit; x.clear(); x.exceptions(cest::ios_base::badbit); try { x.setstate(cest::ios_base::badbit); r = 0; } catch (...) {} return r;',
 'cctype': "return cest::isalnum('a') && cest::isupper('A') && !cest::isupper('a') && !cest::isalnum(' ');",
 'cmath': 'return (int)cest::floor(1.5) + (cest::sqrt(4.0) < 1.9) + (int)cest::abs(0.5) + (cest::atan(0.0) + cest::atan2(0.0, 1.0) + cest::sin(0.0) + cest::sinh(0.0) + cest::log(1.0) > 0.1) + (cest::ceil(0.5) + cest::cos(0.0) + cest::cosh(0.0) + cest::exp(0.0) + cest::pow(1.0, 2) < 4.9);',
 'complex': 'cest::complex<double> z(1, 2), w = z; w *= z; w /= z; w = cest::conj(w) + cest::polar(1.0, 0.0) - 1.0; cest::complex<float> f(1); return (int)(z + z).real() - 1 + (cest::norm(w) < 4.9) + (cest::abs(cest::sqrt(cest::pow(z, 2)) - z) > 1e-2) + (cest::abs(cest::exp(cest::log(z)) - z) > 1e-2) + (cest::arg(f) != 0) + (cest::abs(cest::sin(f) - cest::sin(f)) != 0) + (cest::abs(cest::tan(z) - cest::sin(z) / cest::cos(z)) > 1e-2) + (z == w);',
 'cstdio': 'char b[2] = {1, 2}, c[2]; auto *f = cest::fmemopen(b, 2, "r"); int n = cest::fread(c, 1, 2, f); return n - 1 + cest::fclose(f) + (c[1] != 2) + (cest::printf("%s", "") != 0);',
 'cstdlib': 'cest::size_t n = 1; return (int)n;',
 'deque': 'cest::deque<int> c, d{3, 1, 2}; c.push_back(1); c.push_front(2); c.pop_front(); d.pop_back(); const auto &k = d; d = c; int n = 0; for (int x : k) n += x; for (auto i = k.cbegin(); i != k.cend(); ++i) n += *i; n += *(d.end() - 1) + (d.begin() < d.end()) + (int)d.size() + k.back() + k[0]; cest::deque<int>::reverse_iterator r(d.end()); n += *r; d.clear(); return n - 7 + !d.empty();',
 'forward_list': 'cest::forward_list<int> c, d; c.push_front(1); c.insert_after(c.begin(), 2); d = c; c.swap(d); c.erase_after(c.before_begin()); c.clear(); int n = 0; const auto &k = d; for (int x : k) n += x; d.pop_front(); return d.front() + n - 4 + !c.empty();',
 'fstream': 'cest::ifstream s; return !s.is_open();',
 'functional': 'cest::function<int(int)> f = [](int x) { return x; }, g(f); cest::function<void(int &)> h = [](int &x) { x = 3; }; int y = 0; h(y); g = [](int x) { return -x; }; f = std::move(g); auto p = cest::function(+[](int x) { return x; }); return f(1) + y + p(-1);',
 'ios': 'struct b : cest::basic_streambuf<char> {} s; struct i : cest::basic_ios<char> { i(cest::basic_streambuf<char> *p) { init(p); } } x(&s); cest::hex(x); return x.good() && cest::ios_base::goodbit == 0;',
 'ios_base': 'struct i : cest::ios_base { } x; cest::ios_base &y = x; cest::hex(y); cest::oct(y); cest::dec(y); cest::ios_base::iostate t = cest::ios_base::goodbit; t |= cest::ios_base::eofbit; t &= ~cest::ios_base::failbit; cest::ios_base::openmode m = cest::ios_base::in | cest::ios_base::out; const cest::ios_base::fmtflags *fl[] = {&cest::ios_base::boolalpha, &cest::ios_base::dec, &cest::ios_base::fixed, &cest::ios_base::hex, &cest::ios_base::internal, &cest::ios_base::left, &cest::ios_base::oct, &cest::ios_base::right, &cest::ios_base::scientific, &cest::ios_base::showbase, &cest::ios_base::showpoint, &cest::ios_base::showpos, &cest::ios_base::skipws, &cest::ios_base::unitbuf, &cest::ios_base::uppercase, &cest::ios_base::adjustfield, &cest::ios_base::basefield, &cest::ios_base::floatfield}; int fs = 0; for (auto q : fl) fs |= int(*q) != 0; const cest::ios_base::iostate *il[] = {&cest::ios_base::goodbit, &cest::ios_base::badbit, &cest::ios_base::eofbit, &cest::ios_base::failbit}; int is = 0; for (auto q : il) is |= int(*q); const cest::ios_base::openmode *ml[] = {&cest::ios_base::in, &cest::ios_base::out, &cest::ios_base::app, &cest::ios_base::ate, &cest::ios_base::binary, &cest::ios_base::trunc}; int ms = 0; for (auto q : ml) ms |= int(*q); return fs && is && ms && &y == &x && t == cest::ios_base::eofbit && (m & cest::ios_base::in);',
 'iostream': 'cest::cout << ""; cest::cerr << ""; cest::clog << ""; char c = 0; cest::cin.get(c); cest::cin.unget(); cest::string s; cest::cout << s << cest::hex << cest::dec; cest::cout.flush(); return c == 99 && cest::cin.good();',
 'istream': 'struct b : cest::basic_streambuf<char> { char t[3] = {97, 98, 99}; b() { setg(t, t, t + 3); } } s; cest::istream i(&s); char c = 0, d[2]; i.get(c); i.unget(); { cest::istream::sentry k(i); if (!k) return 0; } i.read(d, 2); return c == 97 && d[1] == 98 && i.gcount() == 2 && i.good() && (bool)i.get(c) && !i.get(c);',
 'iterator': 'int a[2] = {1, 2}; int n = 0; for (cest::istreambuf_iterator<char> e, f; e != f; ++e) n++; struct v { using value_type = int; int s = 0; void push_back(int x) { s += x; } } w; auto o = cest::back_inserter(w); *o = a[0]; return w.s + n;',
 'limits': 'return cest::numeric_limits<bool>::max();',
 'list': 'cest::list<int> c, d; c.push_back(1); c.push_front(2); c.emplace_back(3); c.emplace_front(4); c.insert(c.begin(), 5); c.emplace(c.end(), 6); c.erase(c.begin()); c.pop_back(); c.pop_front(); d = c; int n = 0; const auto &k = d; for (int x : k) n += x; cest::list<int>::reverse_iterator r(d.end()); n += *r + (int)d.size() + (d.max_size() > 0); d.clear(); return n - 12 + c.back() - 3 + !d.empty();',
 'map': 'cest::map<int, int> c, d; c.insert({1, 1}); c.insert(std::pair<const int, int>(2, 5)); d = c; const auto &k = d; int n = 0; for (auto &p : k) n += p.second; auto i = d.end(); --i; n += (*i).second + (int)d.size() + (k.find(3) == k.end()); cest::map<int, int> e(d); d.clear(); return e.find(1)->second + n - 14 + !d.empty();',
 'memory': 'auto p = cest::make_unique<int>(1); cest::unique_ptr<int> q(std::move(p)); p = std::move(q); q.reset(new int(2)); delete q.release(); cest::shared_ptr<int> s(new int(1)); int r = p == q || !(p != q); return *p * *s + r;',
 'numeric': 'int a[] = {1, 0}; cest::iota(a, a + 2, 0); cest::partial_sum(a, a + 2, a); return cest::accumulate(a, a + 2, 0) + cest::inner_product(a, a + 2, a, 0) - cest::reduce(a, a + 2, 0);',
 'ostream': 'struct b : cest::basic_streambuf<char> {} s; cest::ostream o(&s); o.flush(); cest::wostream *w = nullptr; o.setstate(cest::ios_base::failbit); return o.fail() && !o.tie() && !w;',
 'pair': 'return cest::make_pair(1, 2).first;',
 'queue': 'cest::queue<int> q, r; q.push(1); q.push(2); r = q; q.pop(); const auto &k = q; return r.front() + (k.front() - 2) + (q.back() - 2) + (int)q.size() - 1 + q.empty();',
 'set': 'cest::set<int> c, d; c.insert(1); c.insert(2); d = c; const auto &k = d; int n = 0; for (int x : k) n += x; auto i = d.end(); --i; n += *i + (int)d.size() + (k.find(3) == k.end()); cest::set<int> e(d); d.clear(); return *e.find(1) + n - 8 + !d.empty();',
 'shared_ptr': 'cest::shared_ptr<int> p(new int(1)), q(p), r(q, q.get()), n; n = r; cest::shared_ptr<int[]> a(new int[2]{1, 2}); cest::shared_ptr<int> d(new int(2), [](int *x) { delete x; }); return *p + (p.use_count() != 4) + (p != n) + (a[1] != 2) + !(p <= n) + (*d - 2);',
 'sstream': 'cest::stringstream s(cest::string("a")), t(std::move(s)); char c; t.get(c); t.str(cest::string("bc")); cest::istringstream i(cest::string("xyz")), j; char d[2]; i.read(d, 2); i.unget(); j = std::move(i); j.get(d[0]); return c == 97 && d[0] == 121 && t.str().size() == 2 && j.gcount() == 1;',
 'streambuf': 'struct b : cest::basic_streambuf<char> { char t[3] = {97, 98, 99}; b() { setg(t, t, t + 3); } } s; char d[4]; int r = s.sgetc() == 97 && s.sbumpc() == 97 && s.snextc() == 99 && s.sungetc() == 98 && s.pubsync() == 0; return r && s.sgetn(d, 4) == 2 && d[1] == 99;',
 'string': 'cest::string s("a"), t(s), u; t += s; t += \'b\'; t.append("cd", 2); u = t; u = "xy"; u.push_back(\'z\'); u.pop_back(); u.reserve(9); t.clear(); const auto &k = u; int n = 0; for (char c : k) n += c == 120; return (int)s.size() + (n - 1) + (u != cest::string("xy")) + !(s < u) + (u.find(\'y\') != 1) + (u.find("y") != 1) + (k.back() != 121) + (u == "z") + (*ref(cest::string::npos) != (cest::string::size_type)-1) + (*ref(cest::wstring::npos) == 0);',
 'swap': 'int a = 1, b = 2, c = 3; nary::swap(a, b, c); nary::swapr(a, b, c); nary::swap(a, b, c); return a - 1;',
 'utility': 'cest::pair<int, int> p(1, 2); return p.first;',
 'runtime_ostream': 'return 1;',
 'vector': 'cest::vector<int> c, d(2), e{4, 5}; c.push_back(1); c.reserve(9); d.resize(3); d = c; e.swap(d); e = std::move(d); c.erase(c.begin(), c.begin()); const auto &k = e; int n = 0; for (int x : k) n += x; for (auto i = e.rbegin(); i != e.rend(); ++i) n += *i; try { n += k.at(7); } catch (...) { n++; } n += e.back() + e.front() + (int)e.capacity() * 0 + (e == c) + *e.data(); e.pop_back(); e.clear(); return c[0] + n - 32 + !e.empty();',
}


def check(ck):
    inc = os.path.join(run.REPO, 'include', 'cest')
    hs = [h for h in sorted(USES) if os.path.exists(os.path.join(inc, h + '.hpp'))]
    n = len(hs)
    seqs = [(h,) for h in hs]
    for i in range(n):
        seqs.append(tuple(hs[(i + k) % n] for k in range(n)))
        seqs.append(tuple(hs[(i - k) % n] for k in range(n)))
    seqs += [(h, h) for h in hs]
    if ck.tier == 'thorough':
        seqs += [p for p in itertools.permutations(hs, 2)]
    names = {s: 'u%d' % k for k, s in enumerate(seqs)}

    def unit(s):
        f = os.path.join(ck.dir, names[s])
        with open(f + '.cpp', 'w') as o:
            for h in s:
                o.write('#include <cest/%s.hpp>\n' % h)
            o.write('namespace { \ntemplate <class T> [[maybe_unused]] const T *ref(const T &x) { return &x; }\n')
            for h in dict.fromkeys(s):
                o.write('int use_%s() { %s }\n' % (h, USES[h]))
            o.write('}\nint %s() { return %s; }\n' % (names[s], ' + '.join('(use_%s() == 1)' % h for h in dict.fromkeys(s))))
        cmd = [run.CLANG] + run.BASE + ['-O0', '-c', f + '.cpp', '-o', f + '.o']
        rc, out = ck.call(cmd, 300)
        return s, rc, out

    with ThreadPoolExecutor(run.NCPU) as ex:
        res = list(ex.map(unit, seqs))
    for s, rc, out in res:
        if rc is None:
            raise run.Err('timeout compiling ' + ' '.join(s))
        if rc:
            line = next((l for l in out.splitlines() if 'error:' in l), out[:300])
            ck.violation(dict(kind='compile', unit=names[s], sequence=list(s), output=out[:6000],
                              message='including %s in this order and using them does not compile: %s' % (', '.join(s), line)))
    # programs: for each header the unit with it alone, twice over, and every unit that begins with it;
    # and one of everything
    progs = [[s for s in seqs if s[0] == h] for h in hs] + [seqs]

    def prog(p):
        f = os.path.join(ck.dir, 'p_%s_%d' % (p[0][0], len(p)))
        with open(f + '.cpp', 'w') as o:
            for s in p:
                o.write('int %s();\n' % names[s])
            o.write('int main() { return !(%s); }\n' % ' && '.join('%s() == %d' % (names[s], len(set(s))) for s in p))
        rc, out = ck.call([run.CLANG] + run.BASE + ['-O0', f + '.cpp'] + [os.path.join(ck.dir, names[s] + '.o') for s in p] + ['-o', f], 300)
        if rc != 0:
            return p, 'link', rc, out
        rc, out = ck.call([f], 60)
        return p, 'run', rc, out

    with ThreadPoolExecutor(run.NCPU) as ex:
        res = list(ex.map(prog, progs))
    for p, what, rc, out in res:
        if rc:
            ck.violation(dict(kind=what, units=[list(s) for s in p[:4]], output=out[:6000],
                              message='%s: a program of %d units that begin by including %s %s' %
                              (what, len(p), p[0][0], 'does not link' if what == 'link' else 'misbehaves: %s' % rc)))
        if rc is None:
            raise run.Err('timeout: ' + what)
    states = {s[:k] for s in seqs for k in range(len(s) + 1)}
    return dict(states=len(states), transitions=len(states) - 1, traces_validated_against_impl=len(seqs),
                programs_linked_and_run=len(progs), headers=n, exhaustive=True,
                samples=[dict(included=list(s)) for s in (seqs[0], seqs[n], seqs[n + 1])])
