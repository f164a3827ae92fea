#include "common.hpp"
#include "parser/type_checker.hpp"
#include <limits>
using namespace EdgeLearning;
using vh::jstr; using vh::jnum;

static std::string type_name(TypeChecker::Type t) {
    switch (t) {
        case TypeChecker::Type::NONE: return "NONE";
        case TypeChecker::Type::AUTO: return "AUTO";
        case TypeChecker::Type::FLOAT: return "FLOAT";
        case TypeChecker::Type::INT: return "INT";
        case TypeChecker::Type::BOOL: return "BOOL";
        case TypeChecker::Type::STRING: return "STRING";
        case TypeChecker::Type::OBJECT: return "OBJECT";
    }
    return "?";
}
template<typename T> std::string conv(const std::string& s) {
    T v{};
    bool ok = convert<T>(s, v);
    T v2{};
    bool ok2 = TypeChecker::parse<T>(s, v2);
    TypeChecker tc; T v3{};
    bool ok3 = tc.operator()<T>(s, v3);
    if (ok != ok2 || ok != ok3 || (ok && (v != v2 || v != v3))) return "{\"disagree\":true}";
    if (!ok) return "{\"ok\":false}";
    if constexpr (std::is_floating_point_v<T>) {
        char b[64]; std::snprintf(b, sizeof b, "%a", static_cast<double>(v));
        return std::string("{\"ok\":true,\"v\":\"") + b + "\"}";
    } else {
        return "{\"ok\":true,\"v\":\"" + std::to_string(v) + "\"}";
    }
}
struct W: vh::World {
    TypeChecker tc;
    std::string run(const std::string& op, vh::Args& a) override {
        if (op == "type") {            // one text, all single-text questions
            auto s = a.str();
            std::string y;
            if (TypeChecker::is_float(s)) y += "FLOAT";
            if (TypeChecker::is_bool(s)) y += "BOOL";
            if (TypeChecker::is_int(s)) y += "INT";
            if (TypeChecker::is_string(s)) y += "STRING";
            return "{\"parse\":" + jstr(type_name(TypeChecker::parse(s)))
                + ",\"call\":" + jstr(type_name(tc(s))) + ",\"is\":" + jstr(y) + "}";
        }
        if (op == "types") {           // a list of texts
            auto v = a.strs();
            std::vector<std::string> r, r2;
            for (auto t: TypeChecker::parse(v)) r.push_back(jstr(type_name(t)));
            for (auto t: tc(v)) r2.push_back(jstr(type_name(t)));
            if (r != r2) return "{\"disagree\":true}";
            return vh::jarr(r);
        }
        if (op == "typelong") {        // repetition of one character
            auto p = a.str(), c = a.str(); auto n = a.sz(); auto q = a.str();
            std::string s = p; for (std::size_t i = 0; i < n; ++i) s += c; s += q;
            return jstr(type_name(TypeChecker::parse(s)));
        }
        if (op == "conv") {
            auto k = a.tok(); auto s = a.str();
            if (k == "int") return conv<int>(s);
            if (k == "short") return conv<short>(s);
            if (k == "long") return conv<long>(s);
            if (k == "uint") return conv<unsigned int>(s);
            if (k == "ushort") return conv<unsigned short>(s);
            if (k == "ulong") return conv<unsigned long>(s);
            if (k == "double") return conv<double>(s);
            if (k == "float") return conv<float>(s);
            if (k == "bool") return conv<bool>(s);
            if (k == "string") { std::string v; bool ok = convert<std::string>(s, v);
                return std::string("{\"ok\":") + (ok ? "true" : "false") + ",\"v\":" + jstr(v) + "}"; }
        }
        if (op == "show") {            // value -> text
            auto k = a.tok(); auto s = a.tok();
            if (k == "int") return jstr(convert<int>(std::stoi(s)));
            if (k == "long") return jstr(convert<long>(std::stol(s)));
            if (k == "uint") return jstr(convert<unsigned int>(static_cast<unsigned>(std::stoul(s))));
            if (k == "ulong") return jstr(convert<unsigned long>(std::stoul(s)));
            if (k == "bool") return jstr(convert<bool>(s == "1"));
        }
        return "{\"bad\":true}";
    }
};
int main(int c, char** v) { return vh::main_loop(c, v, [] { return new W; }); }
