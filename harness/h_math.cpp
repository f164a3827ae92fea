/* Array functions of DLMath: blocks (C24), arithmetic and activation functions (C25). */
#include "common.hpp"
#include "dnn/dlmath.hpp"
#include <algorithm>
#include <memory>
using EdgeLearning::DLMath;
using Size = EdgeLearning::SizeType;
using Shape3 = DLMath::Shape3d;
using vh::Args;
using vh::jnum;
using vh::jnums;

namespace {
constexpr double GUARD = 55;

/* A buffer of exactly n cells between guards. */
template<typename T> struct Cells {
    std::vector<T> v;
    Size n;
    explicit Cells(Size count): v(count + 16, T(GUARD)), n(count) {}
    explicit Cells(const std::vector<double>& d): Cells(d.size()) { std::transform(d.begin(), d.end(), p(), [](double x) { return T(x); }); }
    T* p() { return v.data() + 8; }
    std::vector<double> get() { return {p(), p() + n}; }
    bool guarded() const {
        for (Size i = 0; i < 8; ++i) if (v[i] != T(GUARD) || v[v.size() - 1 - i] != T(GUARD)) return false;
        return true;
    }
    bool untouched() const { for (auto x: v) if (x != T(GUARD)) return false; return true; }
};

struct Cube { std::vector<Size> s; std::vector<double> v; };
Size volume(const std::vector<Size>& s) { Size r = 1; for (auto x: s) r *= x; return r; }
Shape3 shape(const std::vector<Size>& s) { return Shape3(s[0], s[1], s[2]); }
std::string jcube(const Cube& c) {
    std::vector<double> s(c.s.begin(), c.s.end());
    return "{\"s\":" + jnums(s) + ",\"v\":" + jnums(c.v) + "}";
}

template<typename T> struct MathWorld: vh::World {
    Cube nd;
    std::vector<Cube> cube;
    std::vector<std::vector<double>> reg;

    std::string answer(const std::string& r) {
        std::vector<std::string> c;
        for (auto& x: cube) c.push_back(jcube(x));
        return "{\"r\":" + r + ",\"s\":" + vh::jarr(c) + "}";
    }
    std::string regs(const std::string& r) {
        std::vector<std::string> c;
        for (auto& x: reg) c.push_back(jnums(x));
        return "{\"r\":" + r + ",\"s\":" + vh::jarr(c) + "}";
    }
    template<typename F> static bool refused(F f) {
        try { f(); } catch (const std::runtime_error&) { return true; }
        return false;
    }

    std::string block(const std::string& op, Args& a) {
        bool check = a.sz() != 0;
        Size ax = a.sz(), off = a.sz(), n = a.sz();
        std::string r;
        if (op == "append") {
            Cells<T> dst(nd.v), src(a.dbls());
            const T* back = nullptr;
            bool no = refused([&] { back = check ? DLMath::append_check<T>(dst.p(), nd.s, src.p(), n, ax, off)
                                                 : DLMath::append<T>(dst.p(), nd.s, src.p(), n, ax, off); });
            r = no ? "\"refused\"" : back != dst.p() ? "\"another destination\"" : dst.guarded() && src.guarded() ? "\"ok\"" : "\"outside\"";
            nd.v = dst.get();
        } else {
            auto s = nd.s;
            if (ax < s.size()) s[ax] = n;
            Cells<T> src(nd.v), dst(volume(s));
            const T* back = nullptr;
            Size whole = ax < nd.s.size() ? nd.s[ax] : 1;
            bool no = refused([&] { back = check ? DLMath::extract_check<T>(dst.p(), s, src.p(), whole, ax, off)
                                                 : DLMath::extract<T>(dst.p(), s, src.p(), whole, ax, off); });
            r = no ? (dst.untouched() ? "\"refused\"" : "\"refused after a change\"") : back != dst.p() ? "\"another destination\"" : dst.guarded() && src.guarded() ? jnums(dst.get()) : "\"outside\"";
            nd.v = src.get();
        }
        return "{\"r\":" + r + ",\"s\":" + jcube(nd) + "}";
    }

    std::string join(Args& a) {
        bool two = a.tok() == "two";
        Size d = a.sz();
        auto src = a.szs();
        Size ax = a.sz();
        auto to = cube[src[0]].s;
        Size total = 0, most = 0;
        for (auto i: src) { total += volume(cube[i].s); if (ax < 3) most += cube[i].s[ax]; }
        Cells<T> dst(total);
        bool no; const T* back = nullptr; bool clean = true;
        if (two) {
            Cells<T> x(cube[src[0]].v), y(cube[src[1]].v);
            no = refused([&] { back = DLMath::concatenate<T>(dst.p(), x.p(), shape(cube[src[0]].s), y.p(), shape(cube[src[1]].s), ax); });
            clean = x.guarded() && y.guarded() && x.get() == cube[src[0]].v && y.get() == cube[src[1]].v;
        } else {
            std::vector<double> packed; std::vector<Shape3> shapes;
            for (auto i: src) { packed.insert(packed.end(), cube[i].v.begin(), cube[i].v.end()); shapes.push_back(shape(cube[i].s)); }
            Cells<T> x(packed);
            no = refused([&] { back = DLMath::concatenate<T>(dst.p(), x.p(), shapes, ax); });
            clean = x.guarded() && x.get() == packed;
        }
        if (!clean) return answer("\"a source changed\"");
        if (no) return answer(dst.untouched() ? "\"refused\"" : "\"refused after a change\"");
        if (back != dst.p()) return answer("\"another destination\"");
        if (!dst.guarded()) return answer("\"outside\"");
        if (ax < 3) to[ax] = most;
        cube[d] = {to, dst.get()};
        return answer("\"ok\"");
    }

    /* part MODE dsts src axis sizes; with `bad` the pieces do not agree or the axis is 3 */
    std::string part(Args& a, bool bad) {
        bool two = a.tok() == "two";
        auto d = a.szs();
        Size s = a.sz(), ax = a.sz();
        std::vector<Size> ks = bad ? std::vector<Size>(d.size(), 1) : a.szs();
        std::vector<std::vector<Size>> shapes;
        for (Size i = 0; i < d.size(); ++i) {
            auto t = cube[s].s;
            if (ax < 3) { t[ax] = ks[i]; if (bad && i + 1 == d.size()) ++t[(ax + 1) % 3]; }
            shapes.push_back(t);
        }
        auto before = cube[s].v;
        Cells<T> src(before);
        std::vector<std::vector<double>> out;
        bool no, clean = true, untouched = true; const T* back = nullptr; const T* want = nullptr;
        if (two) {
            Cells<T> x(volume(shapes[0])), y(volume(shapes[1]));
            no = refused([&] { back = DLMath::separate<T>(x.p(), shape(shapes[0]), y.p(), shape(shapes[1]), src.p(), ax); });
            want = back;                      // which of the two is returned is left open
            clean = x.guarded() && y.guarded(); untouched = x.untouched() && y.untouched();
            out = {x.get(), y.get()};
        } else {
            Size total = 0; std::vector<Shape3> sh;
            for (auto& t: shapes) { total += volume(t); sh.push_back(shape(t)); }
            Cells<T> x(total);
            want = x.p();
            no = refused([&] { back = DLMath::separate<T>(x.p(), sh, src.p(), ax); });
            clean = x.guarded(); untouched = x.untouched();
            auto all = x.get(); Size at = 0;
            for (auto& t: shapes) { out.emplace_back(all.begin() + static_cast<long>(at), all.begin() + static_cast<long>(at + volume(t))); at += volume(t); }
        }
        if (!src.guarded() || src.get() != before) return answer("\"the source changed\"");
        if (no) return answer(untouched ? "\"refused\"" : "\"refused after a change\"");
        if (!clean) return answer("\"outside\"");
        if (back != want) return answer("\"another destination\"");
        for (Size i = 0; i < d.size(); ++i) cube[d[i]] = {shapes[i], out[i]};
        return answer("\"ok\"");
    }

    std::string vec(const std::string& op, Args& a) {
        Size n = reg.empty() ? 0 : reg[0].size();
        std::vector<Cells<T>> m;
        for (auto& r: reg) m.emplace_back(r);
        std::string r = "\"ok\"";
        auto done = [&](const T* back, Size d, bool no) {
            if (no) r = "\"refused\"";
            else if (back != m[d].p()) r = "\"another destination\"";
        };
        auto call = [&](Size d, auto f) { const T* b = nullptr; bool no = refused([&] { b = f(); }); done(b, d, no); };
        if (op == "mulv" || op == "sumv") {
            Size d = a.sz(), x = a.sz(), y = a.sz();
            const T *p = m[x].p(), *q = m[y].p();
            call(d, [&] { return op == "mulv" ? DLMath::arr_mul<T>(m[d].p(), p, q, n) : DLMath::arr_sum<T>(m[d].p(), p, q, n); });
        } else if (op == "mulc" || op == "sumc" || op == "eluopt") {
            Size d = a.sz(), x = a.sz(); T k = T(a.dbl());
            const T* p = m[x].p();
            call(d, [&] { return op == "mulc" ? DLMath::arr_mul<T>(m[d].p(), p, k, n) : op == "sumc" ? DLMath::arr_sum<T>(m[d].p(), p, k, n)
                                 : DLMath::elu_1_opt<T>(m[d].p(), p, n, k); });
        } else if (op == "relu" || op == "relu1" || op == "tanhopt" || op == "sigopt") {
            Size d = a.sz(), x = a.sz();
            const T* p = m[x].p();
            call(d, [&] { return op == "relu" ? DLMath::relu<T>(m[d].p(), p, n) : op == "relu1" ? DLMath::relu_1<T>(m[d].p(), p, n)
                                 : op == "tanhopt" ? DLMath::tanh_1_opt<T>(m[d].p(), p, n) : DLMath::sigmoid_1_opt<T>(m[d].p(), p, n); });
        } else if (op == "mse1") {
            Size d = a.sz(), x = a.sz(), y = a.sz(); T k = T(a.dbl());
            const T *p = m[x].p(), *q = m[y].p();
            call(d, [&] { return DLMath::mean_squared_error_1<T>(m[d].p(), p, q, k, n); });
        } else if (op == "matmul") {
            Size d = a.sz(), x = a.sz(), rows = a.sz(), cols = a.sz();
            std::vector<double> w(rows * cols); for (auto& v: w) v = a.dbl();
            Cells<T> mat(w);
            call(d, [&] { return DLMath::matarr_mul<T>(m[d].p(), mat.p(), m[x].p(), rows, cols); });
            if (!mat.guarded() || mat.get() != w) r = "\"a source changed\"";
        } else if (op == "softopt") {
            Size d = a.sz(), x = a.sz(), g = a.sz();
            call(d, [&] { return DLMath::softmax_1_opt<T>(m[d].p(), m[x].p(), m[g].p(), n); });
        } else if (op == "max" || op == "argmax" || op == "maxarg") {
            Size x = a.sz();
            if (op == "max") r = jnum(static_cast<double>(DLMath::max<T>(m[x].p(), n)));
            else if (op == "argmax") r = jnum(static_cast<double>(DLMath::argmax<T>(m[x].p(), n)));
            else { auto t = DLMath::max_and_argmax<T>(m[x].p(), n); r = "[" + jnum(static_cast<double>(std::get<0>(t))) + "," + jnum(static_cast<double>(std::get<1>(t))) + "]"; }
        } else if (op == "mse") {
            Size x = a.sz(), y = a.sz();
            double sum = 0;
            for (Size i = 0; i < n; ++i) sum += static_cast<double>(DLMath::squared_error<T>(m[x].p()[i], m[y].p()[i]));
            r = "[" + jnum(static_cast<double>(DLMath::mean_squared_error<T>(m[x].p(), m[y].p(), n))) + "," + jnum(sum) + "]";
        } else if (op == "index") {
            Size x = a.sz(); T k = T(a.dbl());
            std::vector<T> v(m[x].p(), m[x].p() + n);
            r = jnum(static_cast<double>(DLMath::index_of<T>(v, k)));
        } else { std::fprintf(stderr, "harness: unknown operation %s\n", op.c_str()); std::exit(97); }
        for (Size i = 0; i < reg.size(); ++i) {
            if (!m[i].guarded()) r = "\"outside\"";
            reg[i] = m[i].get();
        }
        return regs(r);
    }

    /* a function of real numbers, in every form there is */
    std::string fn(Args& a) {
        auto name = a.tok();
        T k = T(a.dbl());
        auto xs = a.dbls(), gs = a.dbls();
        Size n = xs.size();
        std::vector<std::string> forms;
        auto put = [&](const char* what, const std::vector<double>& v) { forms.push_back(std::string("\"") + what + "\":" + jnums(v)); };
        auto array = [&](const char* what, auto f) {
            Cells<T> x(xs), y(n), z(xs);
            const T* p = x.p();
            bool ok = f(y.p(), p) == y.p() && y.guarded() && x.guarded() && x.get() == z.get();
            put(what, ok ? y.get() : std::vector<double>{});
        };
        auto inplace = [&](auto f) {
            Cells<T> z(xs);
            bool ok = f(z.p(), static_cast<const T*>(z.p())) == z.p() && z.guarded();
            put("in place", ok ? z.get() : std::vector<double>{});
        };
        auto each = [&](const char* what, auto f) { std::vector<double> v; for (auto x: xs) v.push_back(static_cast<double>(f(T(x)))); put(what, v); };
        auto both = [&](auto f) { array("array", f); inplace(f); };
        Cells<T> g(gs);
        if (name == "relu") { both([&](T* d, const T* s) { return DLMath::relu<T>(d, s, n); }); each("scalar", [](T x) { return DLMath::relu<T>(x); }); }
        else if (name == "relu1") { both([&](T* d, const T* s) { return DLMath::relu_1<T>(d, s, n); }); each("scalar", [](T x) { return DLMath::relu_1<T>(x); }); }
        else if (name == "elu") { both([&](T* d, const T* s) { return DLMath::elu<T>(d, s, n, k); }); each("scalar", [&](T x) { return DLMath::elu<T>(x, k); }); }
        else if (name == "elu1") {
            both([&](T* d, const T* s) { return DLMath::elu_1<T>(d, s, n, k); });
            each("scalar", [&](T x) { return DLMath::elu_1<T>(x, k); });
            each("from value", [&](T x) { return DLMath::elu_1_opt<T>(DLMath::elu<T>(x, k), k); });
        }
        else if (name == "tanh") { both([&](T* d, const T* s) { return DLMath::tanh<T>(d, s, n); }); each("scalar", [](T x) { return DLMath::tanh<T>(x); }); }
        else if (name == "tanh1") {
            both([&](T* d, const T* s) { return DLMath::tanh_1<T>(d, s, n); });
            each("scalar", [](T x) { return DLMath::tanh_1<T>(x); });
            each("from value", [](T x) { return DLMath::tanh_1_opt<T>(DLMath::tanh<T>(x)); });
        }
        else if (name == "sigmoid") { both([&](T* d, const T* s) { return DLMath::sigmoid<T>(d, s, n); }); each("scalar", [](T x) { return DLMath::sigmoid<T>(x); }); }
        else if (name == "sigmoid1") {
            both([&](T* d, const T* s) { return DLMath::sigmoid_1<T>(d, s, n); });
            each("scalar", [](T x) { return DLMath::sigmoid_1<T>(x); });
            each("from value", [](T x) { return DLMath::sigmoid_1_opt<T>(DLMath::sigmoid<T>(x)); });
        }
        else if (name == "softmax") { both([&](T* d, const T* s) { return DLMath::softmax<T>(d, s, n); }); }
        else if (name == "stable") { both([&](T* d, const T* s) { return DLMath::stable_softmax<T>(d, s, n); }); }
        else if (name == "softmax1") {
            array("array", [&](T* d, const T* s) { return DLMath::softmax_1<T>(d, s, g.p(), n); });
            array("from value", [&](T* d, const T* s) { Cells<T> v(n); DLMath::softmax<T>(v.p(), s, n); return DLMath::softmax_1_opt<T>(d, v.p(), g.p(), n); });
        }
        else if (name == "xent") {           // xs targets, gs estimates
            std::vector<double> v; for (Size i = 0; i < n; ++i) v.push_back(static_cast<double>(DLMath::cross_entropy<T>(T(xs[i]), g.p()[i])));
            put("scalar", v);
            Cells<T> x(xs);
            put("total", {static_cast<double>(DLMath::cross_entropy<T>(x.p(), g.p(), n))});
        }
        else if (name == "xent1") {
            array("array", [&](T* d, const T* s) { return DLMath::cross_entropy_1<T>(d, s, g.p(), k, n); });
            std::vector<double> v; for (Size i = 0; i < n; ++i) v.push_back(static_cast<double>(DLMath::cross_entropy_1<T>(T(xs[i]), g.p()[i], k)));
            put("scalar", v);
        }
        else { std::fprintf(stderr, "harness: unknown function %s\n", name.c_str()); std::exit(97); }
        std::string r = "{";
        for (Size i = 0; i < forms.size(); ++i) r += (i ? "," : "") + forms[i];
        return r + "}";
    }

    /* win KIND h w c kh kw sh sw ph pw f outsize x k : the function applied, by every overload that fits */
    std::string window(Args& a) {
        auto kind = a.tok();
        Size h = a.sz(), w = a.sz(), c = a.sz(), kh = a.sz(), kw = a.sz(), sh = a.sz(), sw = a.sz(), ph = a.sz(), pw = a.sz(), f = a.sz(), out = a.sz();
        auto xs = a.dbls(), ks = a.dbls();
        std::vector<std::string> r;
        auto with = [&](auto call) {
            Cells<T> x(xs), k(ks), y(out);
            bool ok = call(y.p(), x.p(), k.p()) == y.p() && y.guarded() && x.get() == xs && k.get() == ks;
            r.push_back(ok ? jnums(y.get()) : "\"outside\"");
        };
        using S2 = DLMath::Shape2d;
        Shape3 s3(h, w, c); S2 k2(kh, kw), st(sh, sw), pd(ph, pw);
        if (kind == "conv") {
            with([&](T* d, const T* s, const T* k) { return DLMath::cross_correlation<T>(d, s, s3, k, k2, f, st, pd); });
            if (f == 1) with([&](T* d, const T* s, const T* k) { return DLMath::cross_correlation<T>(d, s, s3, k, k2, st, pd); });
            if (f == 1 && c == 1) with([&](T* d, const T* s, const T* k) { return DLMath::cross_correlation<T>(d, s, S2(h, w), k, k2, st, pd); });
        } else if (kind == "max") with([&](T* d, const T* s, const T*) { return DLMath::max_pool<T>(d, s, s3, k2, st); });
        else with([&](T* d, const T* s, const T*) { return DLMath::avg_pool<T>(d, s, s3, k2, st); });
        return vh::jarr(r);
    }

    std::string run(const std::string& op, Args& a) override {
        if (op == "nd") { nd.s = a.szs(); nd.v = a.dbls(); return "{\"r\":\"ok\",\"s\":" + jcube(nd) + "}"; }
        if (op == "append" || op == "extract") return block(op, a);
        if (op == "cubes") {
            cube.resize(a.sz());
            for (auto& c: cube) { c.s = a.szs(); c.v = a.dbls(); }
            return answer("\"ok\"");
        }
        if (op == "join") return join(a);
        if (op == "part") return part(a, false);
        if (op == "badpart") return part(a, true);
        if (op == "regs") { reg.resize(a.sz()); for (auto& r: reg) r = a.dbls(); return regs("\"ok\""); }
        if (op == "fn") return fn(a);
        if (op == "win") return window(a);
        return vec(op, a);
    }
};

/* Random helpers (C26). */
template<typename T> std::string rands(Args& a) {
    T from = static_cast<T>(a.dbl()), to = static_cast<T>(a.dbl());
    EdgeLearning::RneType e(a.sz());
    std::vector<double> v(a.sz());
    for (auto& x: v) x = static_cast<double>(DLMath::rand<T>(from, to, e));
    return jnums(v);
}
std::string randoms(const std::string& op, Args& a) {
    using P = DLMath::ProbabilityDensityFunction;
    using I = DLMath::InitializationFunction;
    auto dist = [](const std::string& t) { return t == "normal" ? P::NORMAL : P::UNIFORM; };
    auto rule = [](const std::string& t) { return t == "xavier" ? I::XAVIER : I::KAIMING; };
    if (op == "rand") {
        auto t = a.tok();
        return t == "int" ? rands<int>(a) : t == "size" ? rands<std::size_t>(a) : t == "long" ? rands<long>(a) : t == "float" ? rands<float>(a) : rands<double>(a);
    }
    if (op == "perm") {
        Size from = a.sz(), to = a.sz();
        EdgeLearning::RneType e(a.sz());
        std::vector<std::string> r;
        for (Size i = a.sz(); i > 0; --i) { auto v = DLMath::unique_rand_sequence(from, to, e); r.push_back(jnums(std::vector<double>(v.begin(), v.end()))); }
        return vh::jarr(r);
    }
    if (op == "draws") {
        auto d = dist(a.tok()); double c = a.dbl(), w = a.dbl();
        auto f = DLMath::pdf<double>(c, w, d);
        EdgeLearning::RneType e(a.sz());
        std::vector<double> v(a.sz());
        for (auto& x: v) x = f(e);
        return jnums(v);
    }
    if (op == "initdraws") {
        auto i = rule(a.tok()); auto d = dist(a.tok()); Size n = a.sz();
        auto f = DLMath::initialization_pdf<double>(i, d, n);
        EdgeLearning::RneType e(a.sz());
        std::vector<double> v(a.sz());
        for (auto& x: v) x = f(e);
        return jnums(v);
    }
    auto t = a.tok(); Size n = a.sz();
    auto x = DLMath::initialization<double>(rule(t), n);
    auto y = t == "xavier" ? DLMath::xavier_initialization<double>(n) : DLMath::kaiming_initialization<double>(n);
    return jnums(std::vector<double>{std::get<0>(x), std::get<1>(x), std::get<0>(y), std::get<1>(y)});
}

/* "type T" chooses the element type */
struct World: vh::World {
    std::unique_ptr<vh::World> w = std::make_unique<MathWorld<double>>();
    std::string run(const std::string& op, Args& a) override {
        for (auto x: {"rand", "perm", "draws", "initdraws", "initpar"}) if (op == x) return randoms(op, a);
        if (op != "type") return w->run(op, a);
        auto t = a.tok();
        if (t == "int") w = std::make_unique<MathWorld<int>>();
        else if (t == "float") w = std::make_unique<MathWorld<float>>();
        else if (t == "long") w = std::make_unique<MathWorld<long double>>();
        else w = std::make_unique<MathWorld<double>>();
        return "\"ok\"";
    }
};
}
int main(int argc, char** argv) { return vh::main_loop(argc, argv, [] { return new World; }); }
