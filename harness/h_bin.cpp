/* MNIST (C09) and CIFAR (C10) files. */
#include "common.hpp"
#include "parser/mnist.hpp"
#include "parser/cifar.hpp"
#include <memory>
using namespace EdgeLearning;
using vh::jstr; using vh::jnum; using vh::Args;

static std::uint32_t crc(const std::vector<std::uint8_t>& v) {
    std::uint32_t c = 0xffffffffu;
    for (auto b: v) { c ^= b; for (int k = 0; k < 8; ++k) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; }
    return c ^ 0xffffffffu;
}
static std::string bytes(const std::vector<std::uint8_t>& v) {
    return "[" + jnum(static_cast<double>(v.size())) + "," + std::to_string(crc(v)) + "]";
}
static std::string entry_of(const std::vector<NumType>& e) {     // last value apart
    std::vector<std::uint8_t> v; bool ok = !e.empty();
    for (std::size_t i = 0; i + 1 < e.size(); ++i) {
        auto b = static_cast<std::uint8_t>(e[i]); if (static_cast<NumType>(b) != e[i]) ok = false; v.push_back(b);
    }
    if (!ok) return "\"not bytes\"";
    return "[" + bytes(v) + "," + jnum(e.back()) + "]";
}
template<typename I> static std::string picture(const I& x) {   // its lines and what << prints
    auto t = static_cast<std::string>(x);
    std::ostringstream o; o << x;
    if (o.str() != t) return "\"text differs\"";
    std::vector<std::string> ls; std::istringstream is(t);
    for (std::string l; std::getline(is, l);) if (!l.empty()) ls.push_back(vh::jnums(std::vector<unsigned char>(l.begin(), l.end())));
    return vh::jarr(ls);
}
struct W: vh::World {
    std::unique_ptr<Mnist> m; std::unique_ptr<Cifar> c; bool c100 = false;
    ~W() override { m.reset(); c.reset(); ::unlink("a.bin"); ::unlink("b.bin"); ::unlink("n1"); ::unlink("n2"); }
    template<typename L> std::string lab(const L& l) { return jnum(l.data()); }
    std::string clab(const CifarLabel& l) {
        if (l.data() != l.coarse_label()) return "\"labels differ\"";
        auto s = static_cast<std::string>(l);
        auto want = c100 ? "(" + std::to_string(int(l.coarse_label())) + "," + std::to_string(int(l.fine_label())) + ")" : std::to_string(int(l.data()));
        if (s != want) return "\"text differs\"";
        return c100 ? "[" + jnum(l.coarse_label()) + "," + jnum(l.fine_label()) + "]" : "[" + jnum(l.coarse_label()) + "]";
    }
    std::string run(const std::string& op, Args& a) override {
        if (op == "gen") {               // name, header, payload bytes, seed
            auto fn = a.str(); auto h = a.str(); auto n = a.sz(); auto seed = a.sz();
            std::ofstream f(fn, std::ios::binary); f << h;
            for (std::size_t o = 0; o < n; ++o) f.put(static_cast<char>((seed + o * 37 + (o >> 8) * 11 + (o >> 5) * 5) & 255));
            return "true";
        }
        if (op == "text") { auto fn = a.str(); std::ofstream f(fn, std::ios::binary); f << a.str(); return "true"; }
        if (op == "mopen") { auto x = a.str(), y = a.str(); m.reset(); m = std::make_unique<Mnist>(x, y); return "true"; }
        if (op == "minfo") return vh::jnums(std::vector<double>{static_cast<double>(m->size()), static_cast<double>(m->entries_amount()), static_cast<double>(m->feature_size()),
            static_cast<double>(m->side()), static_cast<double>(m->height()), static_cast<double>(m->width()),
            static_cast<double>(std::get<0>(m->shape())), static_cast<double>(std::get<1>(m->shape())), static_cast<double>(m->labels_idx().size()), static_cast<double>(*m->labels_idx().begin())});
        if (op == "copen") {             // batch names1 names2 order dataset
            auto x = a.str(), y = a.str(), z = a.str(); auto o = a.num(); c100 = a.num() == 100;
            c.reset(); c = std::make_unique<Cifar>(x, y, o ? CifarShapeOrder::ROW_COL_CHN : CifarShapeOrder::CHN_ROW_COL,
                c100 ? CifarDataset::CIFAR_100 : CifarDataset::CIFAR_10, z);
            return "true";
        }
        if (op == "cinfo") {
            std::vector<std::string> n1, n2, n3;
            for (auto& s: c->label_names()) n1.push_back(jstr(s));
            for (auto& s: c->coarse_label_names()) n3.push_back(jstr(s));
            for (auto& s: c->fine_label_names()) n2.push_back(jstr(s));
            if (n1 != n3) return "\"names differ\"";
            return "[" + vh::jarr(n1) + "," + vh::jarr(n2) + "," + vh::jnums(std::vector<double>{static_cast<double>(c->size()),
                static_cast<double>(c->entries_amount()), static_cast<double>(c->feature_size()), static_cast<double>(std::get<0>(c->shape())),
                static_cast<double>(std::get<1>(c->shape())), static_cast<double>(std::get<2>(c->shape())),
                static_cast<double>(c->labels_idx().size()), static_cast<double>(*c->labels_idx().begin())}) + "]";
        }
        auto i = a.sz();
        if (m) {
            auto n = m->size();
            if (op == "image") { auto x = m->image(i); return x.idx() == i % n ? bytes(x.data()) : "\"index differs\""; }
            if (op == "picture") return picture(m->image(i));
            if (op == "label") {
                auto x = m->label(i);
                if (static_cast<std::string>(x) != std::to_string(int(x.data())) || x.idx() != i % n) return "\"label differs\"";
                return "[" + jnum(x.data()) + "]";
            }
            if (op == "item") { auto x = (*m)[i]; return "[" + bytes(x.image.data()) + ",[" + jnum(x.label.data()) + "]]"; }
            if (op == "entry") return entry_of(m->entry(i));
        } else if (c) {
            if (op == "image") { auto x = c->image(i); return x.idx() == i % Cifar::SIZE ? bytes(x.data()) : "\"index differs\""; }
            if (op == "picture") return picture(c->image(i));
            if (op == "label") { auto x = c->label(i); return x.idx() == i % Cifar::SIZE ? clab(x) : "\"index differs\""; }
            if (op == "item") { auto x = (*c)[i]; return "[" + bytes(x.image.data()) + "," + clab(x.label) + "]"; }
            if (op == "entry") return entry_of(c->entry(i));
        } else return "\"not open\"";
        std::fprintf(stderr, "harness: unknown op %s\n", op.c_str()); std::exit(97);
    }
};
int main(int c, char** v) { return vh::main_loop(c, v, [] { return new W; }); }
