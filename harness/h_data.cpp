/* Data sets (C11, C12, C08 through parse). */
#include "data_dump.hpp"

struct W: World {
    std::map<long, D> ds;
    D& at(long k) { return ds[k]; }
    static std::set<SizeType> labs(Args& a) { auto v = a.szs(); return {v.begin(), v.end()}; }
    static std::vector<std::vector<double>> rows(Args& a) {
        std::vector<std::vector<double>> m(a.sz());
        for (auto& r: m) r = a.dbls();
        return m;
    }
    std::string run(const std::string& op, Args& a) override {
        long k = a.num();
        if (op == "vec") {
            auto w = a.sz(), s = a.sz(); auto l = labs(a); auto v = a.dbls();
            ds.erase(k); ds.emplace(k, D(v, w, s, l)); return dump(at(k));
        }
        if (op == "mat") {
            auto s = a.sz(); auto l = labs(a); auto m = rows(a);
            ds.erase(k); ds.emplace(k, D(m, s, l)); return dump(at(k));
        }
        if (op == "cub") {
            auto l = labs(a); std::vector<std::vector<std::vector<double>>> c(a.sz());
            for (auto& m: c) m = rows(a);
            ds.erase(k); ds.emplace(k, D(c, l)); return dump(at(k));
        }
        if (op == "none") { ds[k] = D(); return dump(at(k)); }
        if (op == "dump") return dump(at(k));
        if (op == "copy") { ds[k] = at(a.num()); return dump(at(k)); }
        D before = at(k);
        if (op == "sub") { auto f = a.sz(), t = a.sz(); at(k) = before.subdata(f, t); return dump(at(k)); }
        if (op == "subp") { auto p = a.dbl(); at(k) = before.subdata(p); return dump(at(k)); }
        if (op == "split") {
            auto p = a.dbl(); auto side = a.tok();
            auto s = before.split(p);
            at(k) = side == "l" ? s.training_set : s.testing_set;
            return "[" + shape(s.training_set) + "," + shape(s.testing_set) + "," + dump(at(k)) + "]";
        }
        if (op == "join") {
            long j = a.num(); auto axis = a.sz(); bool first = a.num();
            at(k) = first ? D::concatenate(before, at(j), axis) : D::concatenate(at(j), before, axis);
            return dump(at(k));
        }
        if (op == "shuffle") { RneType r(static_cast<unsigned>(a.sz())); at(k).shuffle(r); return dump(at(k)); }
        if (op == "shuffleto") {     // the order of rows the walk goes on with, by some seed
            auto want = a.dbls(); auto w = before.feature_size();
            auto sorted = [&](const D& d) {
                std::vector<std::vector<double>> r;
                for (std::size_t i = 0; i < d.size(); ++i) r.push_back(d.entry(i));
                std::sort(r.begin(), r.end()); return r;
            };
            for (unsigned seed = 1; seed < 5000; ++seed) {
                D t = before; RneType r(seed); t.shuffle(r);
                if (t.size() != before.size() || t.feature_size() != w || sorted(t) != sorted(before)) { at(k) = t; return dump(t); }
                if (t.data() == want) { at(k) = t; return dump(t); }
            }
            return "\"no seed reaches this order\"";
        }
        if (op == "scale") { auto lo = a.dbl(), hi = a.dbl(); auto c = a.szs(); at(k).min_max_normalization(lo, hi, c); return dump(at(k)); }
        if (op == "norm") { at(k).min_max_normalization(); return dump(at(k)); }
        if (op == "labs") { at(k).label_idx(labs(a)); return dump(at(k)); }
        if (op == "seq") { at(k).sequence_size(a.sz()); return dump(at(k)); }
        if (op == "inputs") { at(k) = before.inputs(); return dump(at(k)); }
        if (op == "labels") { at(k) = before.labels(); return dump(at(k)); }
        std::fprintf(stderr, "harness: unknown op %s\n", op.c_str());
        std::exit(97);
    }
};
int main(int c, char** v) { return main_loop(c, v, [] { return new W; }); }
