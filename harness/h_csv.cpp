/* CSV access (C06), shape and conversion (C07), label encoding (C08). */
#include "common.hpp"
#include "parser/csv.hpp"
#include <memory>
using namespace EdgeLearning;
using vh::jstr; using vh::jnum; using vh::Args;

static std::string type_name(TypeChecker::Type t) {
    switch (t) {
        case TypeChecker::Type::NONE: return "NONE";
        case TypeChecker::Type::AUTO: return "AUTO";
        case TypeChecker::Type::FLOAT: return "FLOAT";
        case TypeChecker::Type::INT: return "INT";
        case TypeChecker::Type::BOOL: return "BOOL";
        case TypeChecker::Type::STRING: return "STRING";
        default: return "?";
    }
}
static TypeChecker::Type type_of(const std::string& s) {
    if (s == "FLOAT") return TypeChecker::Type::FLOAT;
    if (s == "INT") return TypeChecker::Type::INT;
    if (s == "BOOL") return TypeChecker::Type::BOOL;
    if (s == "STRING") return TypeChecker::Type::STRING;
    if (s == "NONE") return TypeChecker::Type::NONE;
    return TypeChecker::Type::AUTO;
}
static std::string types_of(const std::vector<TypeChecker::Type>& v) {
    std::vector<std::string> r; for (auto t: v) r.push_back(jstr(type_name(t))); return vh::jarr(r);
}
static std::string strs_of(const std::vector<std::string>& v) {
    std::vector<std::string> r; for (auto& s: v) r.push_back(jstr(s)); return vh::jarr(r);
}
/* a row as its users see it: position, text, fields */
static std::string row_of(const CSVRow& r) {
    if (r.line() != static_cast<std::string>(r)) return "\"text differs\"";
    return "[" + jnum(static_cast<double>(r.idx())) + "," + jstr(r.line()) + "," + strs_of(std::vector<std::string>(r)) + "]";
}
/* everything a row offers */
static std::string full_row(const CSVRow& r) {
    std::vector<std::string> f;
    for (std::size_t j = 0; j <= r.size() + 1; ++j) {
        f.push_back(vh::guarded([&] {
            CSVField x = r[j];
            return "[" + jstr(x.as<std::string>()) + "," + jstr(type_name(x.type())) + "," + jnum(static_cast<double>(x.idx())) + "]";
        }));
    }
    std::vector<std::string> g;
    for (auto& x: std::vector<CSVField>(r)) {
        std::string s; x.as(s); CSVField y(x); y = x;
        if (y.as<std::string>() != s || y.idx() != x.idx() || y.type() != x.type()) s = "copy differs";
        g.push_back("[" + jstr(s) + "," + jstr(type_name(x.type())) + "," + jnum(static_cast<double>(x.idx())) + "]");
    }
    std::vector<std::string> d, i, b;
    for (auto v: r.to_vec<double>()) d.push_back(jnum(v));
    for (auto v: r.to_vec<int>()) i.push_back(jnum(v));
    for (auto& x: std::vector<CSVField>(r)) b.push_back(x.as<bool>() ? "1" : "0");
    std::vector<std::string> d1, i1;
    for (auto& x: std::vector<CSVField>(r)) { d1.push_back(jnum(x.as<double>())); i1.push_back(jnum(x.as<int>())); }
    if (d != d1 || i != i1) return "\"conversions differ\"";
    if (r.empty() != (r.size() == 0)) return "\"empty differs\"";
    return "{\"n\":" + jnum(static_cast<double>(r.size())) + ",\"idx\":" + jnum(static_cast<double>(r.idx()))
        + ",\"line\":" + jstr(r.line()) + ",\"f\":" + vh::jarr(f) + ",\"g\":" + vh::jarr(g)
        + ",\"s\":" + strs_of(std::vector<std::string>(r)) + ",\"d\":" + vh::jarr(d) + ",\"i\":" + vh::jarr(i)
        + ",\"b\":" + vh::jarr(b) + ",\"t\":" + types_of(r.types()) + "}";
}
struct Table: DatasetParser {
    std::vector<std::vector<NumType>> rows; std::set<SizeType> lab; SizeType cols = 0;
    std::vector<NumType> entry(SizeType i) override { return rows.at(i); }
    SizeType entries_amount() const override { return rows.size(); }
    SizeType feature_size() const override { return cols; }
    std::set<SizeType> labels_idx() const override { return lab; }
};
static std::string encoding(DatasetParser& p) {
    auto one = [&](DatasetParser::LabelEncoding e) {
        auto d = p.data_to_encoding(e);
        std::vector<double> l; for (auto x: p.encoding_labels_idx(e)) l.push_back(static_cast<double>(x));
        return "{\"d\":" + vh::jnums(d) + ",\"l\":" + vh::jnums(l) + ",\"w\":" + jnum(static_cast<double>(p.encoding_feature_size(e))) + "}";
    };
    auto a = one(DatasetParser::LabelEncoding::ONE_HOT_ENCODING);
    auto b = one(DatasetParser::LabelEncoding::DEFAULT_ENCODING);
    auto c = one(DatasetParser::LabelEncoding::ONE_HOT_ENCODING);
    return "{\"one\":" + a + ",\"def\":" + b + ",\"again\":" + (a == c ? "true" : "false") + "}";
}
struct W: vh::World {
    std::string fn = "case.csv";
    std::unique_ptr<CSV> csv;
    std::map<std::string, std::unique_ptr<CSVIterator>> it;
    ~W() override { it.clear(); csv.reset(); ::unlink(fn.c_str()); }
    CSVIterator& I(const std::string& n) {
        if (!it[n]) it[n] = std::make_unique<CSVIterator>(csv->begin());
        return *it[n];
    }
    std::string run(const std::string& op, Args& a) override {
        if (op == "file") { std::ofstream f(fn, std::ios::binary); f << a.str(); return "true"; }
        if (op == "open") {                   // separator, types, labels
            auto sep = a.str(); std::vector<TypeChecker::Type> t; auto n = a.sz();
            for (std::size_t i = 0; i < n; ++i) t.push_back(type_of(a.tok()));
            std::set<SizeType> l; for (auto x: a.szs()) l.insert(x);
            auto t0 = t;
            it.clear(); csv.reset(); csv = std::make_unique<CSV>(fn, t, sep[0], l);
            return t == t0 ? "true" : "\"types argument changed\"";
        }
        if (op == "nofile") { CSV c("no_such_dir/no_such_file.csv"); return "true"; }
        if (op == "index") return row_of((*csv)[a.sz()]);
        if (op == "entry") return vh::jnums(csv->entry(a.sz()));
        if (op == "begin") { auto n = a.tok(); it[n] = std::make_unique<CSVIterator>(csv->begin()); return "true"; }
        if (op == "end") { auto n = a.tok(); it[n] = std::make_unique<CSVIterator>(csv->end()); return "true"; }
        if (op == "inc") { auto& x = I(a.tok()); return &(++x) == &x ? "true" : "false"; }
        if (op == "dec") { auto& x = I(a.tok()); return &(--x) == &x ? "true" : "false"; }
        if (op == "postinc") { auto& x = I(a.tok()); auto y = a.tok(); auto n = std::make_unique<CSVIterator>(x++); it[y] = std::move(n); return "true"; }
        if (op == "postdec") { auto& x = I(a.tok()); auto y = a.tok(); auto n = std::make_unique<CSVIterator>(x--); it[y] = std::move(n); return "true"; }
        if (op == "copy") { auto& x = I(a.tok()); auto y = a.tok(); auto n = std::make_unique<CSVIterator>(x); it[y] = std::move(n); return "true"; }
        if (op == "deref") { auto& x = I(a.tok()); auto s = row_of(*x); if (s != row_of(*x.operator->())) return "\"arrow differs\""; return s; }
        if (op == "eq") { auto& x = I(a.tok()); auto& y = I(a.tok()); bool e = x == y; if (e == (x != y)) return "\"inconsistent\""; return e ? "true" : "false"; }
        if (op == "copyreader") { auto c = std::make_unique<CSV>(*csv); csv = std::move(c); return "true"; }
        if (op == "assignreader") {
            { std::ofstream f("other.csv"); f << "q,r\n7,8\n9,10\n11,12\n"; }
            auto c = std::make_unique<CSV>("other.csv"); (*c)[2]; *c = *csv; csv = std::move(c); ::unlink("other.csv"); return "true";
        }
        if (op == "header") return row_of(csv->header());
        if (op == "amounts") return "[" + jnum(static_cast<double>(csv->rows_size())) + "," + jnum(static_cast<double>(csv->cols_size())) + ","
            + jnum(static_cast<double>(csv->entries_amount())) + "," + jnum(static_cast<double>(csv->feature_size())) + "]";
        if (op == "lines") return strs_of(std::vector<std::string>(*csv));
        if (op == "rowsvec") { std::vector<std::string> r; for (auto& x: std::vector<CSVRow>(*csv)) r.push_back(row_of(x)); return vh::jarr(r); }
        if (op == "foreach") {
            std::vector<std::string> r; std::size_t n = 0;
            for (auto& row: *csv) { r.push_back(row_of(row)); if (++n > 50) return "\"endless\""; }
            return vh::jarr(r);
        }
        if (op == "shape") {
            std::vector<std::string> rows;
            for (std::size_t i = 0; i < csv->rows_size(); ++i) rows.push_back(full_row((*csv)[i]));
            std::vector<std::string> m;
            for (auto& v: csv->to_mat<double>()) m.push_back(vh::jnums(v));
            return "{\"rows\":" + jnum(static_cast<double>(csv->rows_size())) + ",\"cols\":" + jnum(static_cast<double>(csv->cols_size()))
                + ",\"entries\":" + jnum(static_cast<double>(csv->entries_amount())) + ",\"features\":" + jnum(static_cast<double>(csv->feature_size()))
                + ",\"types\":" + types_of(csv->types()) + ",\"header\":" + full_row(csv->header())
                + ",\"all\":" + vh::jarr(rows) + ",\"mat\":" + vh::jarr(m) + ",\"vec\":" + vh::jnums(csv->to_vec<double>()) + "}";
        }
        if (op == "row") {                    // a free-standing row: line, separator, columns or 0, types
            auto line = a.str(); auto sep = a.str(); auto cols = a.sz(); std::vector<TypeChecker::Type> t; auto n = a.sz();
            for (std::size_t i = 0; i < n; ++i) t.push_back(type_of(a.tok()));
            CSVRow r = cols ? CSVRow(line, 3, cols, t, sep[0]) : CSVRow(line, 3, t, sep[0]);
            CSVRow q(r); std::vector<TypeChecker::Type> t2{TypeChecker::Type::BOOL};
            CSVRow z("zz", 9, t2, ';'); z = r; t.clear(); t2.clear();
            auto s = full_row(r);
            if (s != full_row(q) || s != full_row(z) || !(q == r) || q != r) return "\"copies differ\"";
            return s;
        }
        if (op == "enc") {                    // rows cols values..., labels
            Table t; auto n = a.sz(); t.cols = a.sz();
            for (std::size_t i = 0; i < n; ++i) { std::vector<NumType> r; for (std::size_t j = 0; j < t.cols; ++j) r.push_back(a.dbl()); t.rows.push_back(r); }
            for (auto x: a.szs()) t.lab.insert(x);
            return encoding(t);
        }
        if (op == "enccsv") return encoding(*csv);
        std::fprintf(stderr, "harness: unknown op %s\n", op.c_str()); std::exit(97);
    }
};
int main(int c, char** v) { return vh::main_loop(c, v, [] { return new W; }); }
