/* JSON: reading and writing (C03, C04) and the container interface (C05). */
#include "common.hpp"
#include "parser/json.hpp"
#include <memory>
using namespace EdgeLearning;
using vh::jstr; using vh::jnum; using vh::Args;

static std::string type_name(TypeChecker::Type t) {
    switch (t) {
        case TypeChecker::Type::NONE: return "NONE";
        case TypeChecker::Type::AUTO: return "AUTO";
        case TypeChecker::Type::FLOAT: return "FLOAT";
        case TypeChecker::Type::INT: return "INT";
        case TypeChecker::Type::BOOL: return "BOOL";
        case TypeChecker::Type::STRING: return "STRING";
        default: return "?";
    }
}
/* The abstract state: the whole tree through the public interface. */
static std::string dump(const JsonItem& ji) {
    using JT = JsonObject::JsonType;
    switch (ji.json_type()) {
        case JT::NONE: return ji.size() == 0 ? "null" : "\"bad size\"";
        case JT::LEAF: {
            auto& l = dynamic_cast<const JsonLeaf&>(ji.value());
            if (static_cast<std::string>(ji) != l.value() || ji.size() != 0) return "\"bad leaf\"";
            return "{\"v\":" + jstr(l.value()) + ",\"y\":" + jstr(type_name(l.type())) + "}";
        }
        case JT::LIST: {
            auto& l = dynamic_cast<const JsonList&>(ji.value());
            if (l.size() != ji.size() || l.value().size() != ji.size() || l.empty() != (ji.size() == 0))
                return "\"bad size\"";
            std::vector<std::string> r;
            for (std::size_t i = 0; i < ji.size(); ++i) r.push_back(dump(ji.at(i)));
            return "{\"s\":" + vh::jarr(r) + "}";
        }
        case JT::DICT: {
            auto& d = dynamic_cast<const JsonDict&>(ji.value());
            if (d.size() != ji.size() || d.value().size() != ji.size() || d.empty() != (ji.size() == 0))
                return "\"bad size\"";
            std::vector<std::string> r;
            for (auto& e: d.value()) r.push_back(jstr(e.first) + ":" + dump(ji.at(e.first)));
            std::string s = "{\"d\":{";
            for (std::size_t i = 0; i < r.size(); ++i) s += (i ? "," : "") + r[i];
            return s + "}}";
        }
    }
    return "\"bad kind\"";
}
/* prefix notation: N | K<kind> text | A n items | D n (key item)* */
static JsonItem build(Args& a, int variant) {
    auto t = a.tok();
    if (t == "N") return JsonItem();
    if (t == "A") {
        auto n = a.sz();
        if (variant == 0) {
            std::vector<JsonItem> v;
            for (std::size_t i = 0; i < n; ++i) v.push_back(build(a, variant));
            return JsonItem(v);
        }
        if (variant == 2) {
            JsonList l;
            for (std::size_t i = 0; i < n; ++i) l.append(build(a, variant));
            return JsonItem(l);
        }
        JsonItem r{JsonList()};
        for (std::size_t i = 0; i < n; ++i) r.append(build(a, variant));
        return r;
    }
    if (t == "D") {
        auto n = a.sz();
        if (variant == 0) {
            std::map<std::string, JsonItem> m;
            for (std::size_t i = 0; i < n; ++i) { auto k = a.str(); m[k] = build(a, variant); }
            return JsonItem(m);
        }
        if (variant == 2) {
            JsonDict d;
            for (std::size_t i = 0; i < n; ++i) { auto k = a.str(); d[k] = build(a, variant); }
            return JsonItem(d);
        }
        JsonItem r{JsonDict()};
        for (std::size_t i = 0; i < n; ++i) { auto k = a.str(); r[k] = build(a, variant); }
        return r;
    }
    auto s = a.str();
    switch (t[1]) {
        case 's': return JsonItem(s);                                  // inferred type
        case 'c': return JsonItem(s.c_str());
        case 'S': return JsonItem(JsonLeaf(s, TypeChecker::Type::STRING));
        case 'i': return JsonItem(static_cast<int>(std::strtol(s.c_str(), nullptr, 10)));
        case 'u': return JsonItem(static_cast<unsigned>(std::strtoul(s.c_str(), nullptr, 10)));
        case 'l': return JsonItem(std::strtol(s.c_str(), nullptr, 10));
        case 'm': return JsonItem(std::strtoul(s.c_str(), nullptr, 10));
        case 'x': return JsonItem(std::strtoll(s.c_str(), nullptr, 10));
        case 'y': return JsonItem(std::strtoull(s.c_str(), nullptr, 10));
        case 'd': return JsonItem(std::strtod(s.c_str(), nullptr));
        case 'b': return JsonItem(s == "true");
    }
    std::fprintf(stderr, "harness: bad tree token %s\n", t.c_str()); std::exit(97);
}
/* numbers of double leaves, found along both trees */
static void doubles(const JsonItem& ji, std::vector<double>& out) {
    using JT = JsonObject::JsonType;
    if (ji.json_type() == JT::LEAF) out.push_back(static_cast<double>(ji));
    else if (ji.json_type() == JT::LIST) for (std::size_t i = 0; i < ji.size(); ++i) doubles(ji.at(i), out);
    else if (ji.json_type() == JT::DICT)
        for (auto& e: dynamic_cast<const JsonDict&>(ji.value()).value()) doubles(e.second, out);
}
static std::string rest_of(std::istream& is) {
    is.clear(is.rdstate() & ~std::ios::eofbit);
    std::string r; char c;
    while (is.get(c)) r.push_back(c);
    return r;
}

struct W: vh::World {
    std::vector<JsonItem> h;
    struct Path { std::size_t hd; std::vector<std::string> st; };
    Path path(Args& a) {
        Path p; p.hd = a.sz(); auto n = a.sz();
        for (std::size_t i = 0; i < n; ++i) p.st.push_back(a.tok());
        if (p.hd >= h.size()) h.resize(p.hd + 1);
        return p;
    }
    JsonItem& mut(const Path& p) {
        JsonItem* x = &h[p.hd];
        for (auto& s: p.st) x = s[0] == 'x' ? &(*x)[vh::unhex(s)] : &(*x)[static_cast<std::size_t>(std::atoi(s.c_str()))];
        return *x;
    }
    const JsonItem& ro(const Path& p) {
        const JsonItem* x = &h[p.hd];
        for (auto& s: p.st) x = s[0] == 'x' ? &x->at(vh::unhex(s)) : &x->at(static_cast<std::size_t>(std::atoi(s.c_str())));
        return *x;
    }
    std::string all() {
        std::vector<std::string> r;
        for (auto& x: h) r.push_back(dump(x));
        return vh::jarr(r);
    }
    std::string op5(const std::string& op, Args& a) {     // result only
        if (op == "set") { auto p = path(a); auto v = build(a, 0); mut(p) = v; return "\"ok\""; }
        if (op == "touch") { auto p = path(a); mut(p); return "\"ok\""; }
        if (op == "assign") { auto p = path(a), q = path(a); auto& d = mut(p); d = ro(q); return "\"ok\""; }
        if (op == "append") { auto p = path(a), q = path(a); auto& d = mut(p); d.append(ro(q)); return "\"ok\""; }
        if (op == "copy") {                                // a fresh handle
            auto p = path(a), q = path(a);
            JsonItem c(ro(q)); h.erase(h.begin() + static_cast<long>(p.hd));
            h.insert(h.begin() + static_cast<long>(p.hd), c); return "\"ok\"";
        }
        if (op == "get") {
            auto p = path(a); auto& x = ro(p);
            switch (x.json_type()) {
                case JsonObject::JsonType::NONE: return "\"none\"";
                case JsonObject::JsonType::LEAF: return "\"leaf\"";
                case JsonObject::JsonType::LIST: return "\"list\"";
                case JsonObject::JsonType::DICT: return "\"dict\"";
            }
        }
        if (op == "size") { auto p = path(a); return jnum(static_cast<double>(ro(p).size())); }
        if (op == "eq") {
            auto p = path(a), q = path(a); auto& x = ro(p); auto& y = ro(q);
            bool e = x == y;
            if (e != (y == x) || e == (x != y)) return "\"inconsistent\"";
            return e ? "true" : "false";
        }
        if (op == "as") {
            auto p = path(a); auto what = a.tok();
            auto& x = ro(p);
            if (what == "int") {
                auto r = x.as<int>(); int r2 = -1; x.as(r2); int r3 = x;
                if (r != r2 || r != r3) return "\"inconsistent\"";
                return jnum(r);
            }
            if (what == "str") { std::string s = x.as<std::string>(); return jstr(s); }
            if (what == "vec") {
                auto r = x.as_vec<int>(); std::vector<int> r2{99}; x.as_vec(r2);
                if (r != r2) return "\"inconsistent\"";
                return vh::jnums(r);
            }
            if (what == "map") {
                auto r = x.as_map<int>(); std::map<std::string, int> r2{{"zz", 1}}; x.as_map(r2);
                if (r != r2) return "\"inconsistent\"";
                std::string s = "{"; bool first = true;
                for (auto& e: r) { s += (first ? "" : ",") + jstr(e.first) + ":" + jnum(e.second); first = false; }
                return s + "}";
            }
        }
        std::fprintf(stderr, "harness: unknown op %s\n", op.c_str()); std::exit(97);
    }
    std::string run(const std::string& op, Args& a) override {
        if (op == "rt") {                    // build, write, read back
            auto variant = static_cast<int>(a.num());
            JsonItem x = build(a, variant);
            std::stringstream ss; ss << x;
            std::string text = ss.str(), as_string = static_cast<std::string>(x);
            JsonItem y; ss >> y;
            bool failed = ss.fail();
            auto rest = rest_of(ss);
            bool num = true;
            std::vector<double> dx, dy; doubles(x, dx); doubles(y, dy);
            if (dx.size() != dy.size()) num = false;
            else for (std::size_t i = 0; i < dx.size(); ++i) if (std::memcmp(&dx[i], &dy[i], 8) != 0) num = false;
            return "{\"a\":" + dump(x) + ",\"b\":" + dump(y) + ",\"eq\":" + (x == y && !(x != y) ? "true" : "false")
                + ",\"num\":" + (num ? "true" : "false") + ",\"fail\":" + (failed ? "true" : "false")
                + ",\"rest\":" + jstr(rest)
                + ",\"str\":" + (x.json_type() == JsonObject::JsonType::LEAF || as_string == text ? "true" : "false") + "}";
        }
        if (op == "seq") {                   // several documents on one stream
            auto sep = a.str(); auto n = a.sz();
            std::stringstream ss; std::vector<std::string> r;
            std::vector<JsonItem> xs;
            for (std::size_t i = 0; i < n; ++i) xs.push_back(build(a, 1));
            for (std::size_t i = 0; i < n; ++i) { if (i) ss << sep; ss << xs[i]; }
            for (std::size_t i = 0; i < n; ++i) {
                JsonItem y; ss >> y;
                r.push_back(ss.fail() ? "\"fail\"" : (xs[i] == y ? dump(y) : "\"not equal\""));
            }
            r.push_back(jstr(rest_of(ss)));
            return vh::jarr(r);
        }
        if (op == "read") {
            std::istringstream is(a.str());
            JsonItem y; is >> y;
            auto f = is.fail();
            return "{\"v\":" + dump(y) + ",\"fail\":" + (f ? "true" : "false") + ",\"rest\":" + jstr(rest_of(is)) + "}";
        }
        if (op == "readlong") {              // pre, unit repeated, post: only how it ends
            auto pre = a.str(), unit = a.str(); auto n = a.sz(); auto post = a.str();
            std::string s = pre; for (std::size_t i = 0; i < n; ++i) s += unit; s += post;
            std::istringstream is(s);
            JsonItem y; is >> y;
            std::size_t d = 0; const JsonItem* p = &y;
            while (p->json_type() == JsonObject::JsonType::LIST && p->size() > 0) { ++d; p = &p->at(0); }
            return "{\"size\":" + jnum(static_cast<double>(y.size())) + ",\"depth\":" + jnum(static_cast<double>(d)) + "}";
        }
        if (op == "dbl") {                   // bit patterns of doubles in a document
            auto n = a.sz(); std::vector<std::string> bad;
            JsonItem x{JsonList()}; std::vector<double> in;
            for (std::size_t i = 0; i < n; ++i) {
                auto t = a.tok(); std::uint64_t b = std::strtoull(t.c_str(), nullptr, 16);
                double v; std::memcpy(&v, &b, 8); in.push_back(v);
                x.append(JsonItem(v));
            }
            std::stringstream ss; ss << x; JsonItem y; ss >> y;
            for (std::size_t i = 0; i < n; ++i) {
                double w = static_cast<double>(y.at(i)), z = y.at(i).as<double>();
                if (w != in[i] || z != in[i] || dynamic_cast<const JsonLeaf&>(y.at(i).value()).type() != TypeChecker::Type::FLOAT)
                    bad.push_back(jnum(in[i]));
            }
            return "{\"bad\":" + vh::jarr(bad) + ",\"n\":" + jnum(static_cast<double>(y.size())) + "}";
        }
        if (op == "vecs") {                  // typed containers
            auto kind = a.tok(); auto n = a.sz();
            std::vector<std::string> t; for (std::size_t i = 0; i < n; ++i) t.push_back(a.str());
            JsonItem l, d; 
            auto go = [&](auto conv) {
                using T = decltype(conv(std::string()));
                std::vector<T> v; std::map<std::string, T> m;
                for (std::size_t i = 0; i < n; ++i) { v.push_back(conv(t[i])); m["k" + std::to_string(i)] = conv(t[i]); }
                l = JsonItem(JsonList(v)); d = JsonItem(JsonDict(m));
                bool ok = l.as_vec<T>() == v && d.as_map<T>() == m;
                std::stringstream ss; ss << l << d; JsonItem l2, d2; ss >> l2 >> d2;
                ok = ok && l2.as_vec<T>() == v && d2.as_map<T>() == m && l2 == l && d2 == d;
                return ok;
            };
            bool ok = false;
            if (kind == "i") ok = go([](const std::string& s) { return std::atoi(s.c_str()); });
            if (kind == "u") ok = go([](const std::string& s) { return static_cast<unsigned>(std::strtoul(s.c_str(), nullptr, 10)); });
            if (kind == "l") ok = go([](const std::string& s) { return std::strtol(s.c_str(), nullptr, 10); });
            if (kind == "m") ok = go([](const std::string& s) { return std::strtoul(s.c_str(), nullptr, 10); });
            if (kind == "x") ok = go([](const std::string& s) { return std::strtoll(s.c_str(), nullptr, 10); });
            if (kind == "y") ok = go([](const std::string& s) { return std::strtoull(s.c_str(), nullptr, 10); });
            if (kind == "d") ok = go([](const std::string& s) { return std::strtod(s.c_str(), nullptr); });
            if (kind == "b") ok = go([](const std::string& s) { return s == "true"; });
            if (kind == "s") ok = go([](const std::string& s) { return s; });
            return std::string("{\"ok\":") + (ok ? "true" : "false") + ",\"l\":" + dump(l) + ",\"d\":" + dump(d) + "}";
        }
        if (op == "init") { auto n = a.sz(); h.clear(); for (std::size_t i = 0; i < n; ++i) h.push_back(build(a, 1)); return all(); }
        // C05: every operation reports its result and the whole state afterwards
        std::string r = vh::guarded([&] { return op5(op, a); });
        return "{\"r\":" + r + ",\"s\":" + all() + "}";
    }
};
int main(int c, char** v) { return vh::main_loop(c, v, [] { return new W; }); }
