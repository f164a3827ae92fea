/* From files to data sets (C27). */
#include "data_dump.hpp"
#include "parser/csv.hpp"
#include "parser/mnist.hpp"
#include <fstream>
#include <memory>

struct W: World {
    std::unique_ptr<DatasetParser> p;
    CSV* csv = nullptr;
    ~W() override { p.reset(); ::unlink("case.csv"); ::unlink("a.bin"); ::unlink("b.bin"); }
    std::string run(const std::string& op, Args& a) override {
        if (op == "csv") {                  // text, separator, types given as float, labels
            { std::ofstream f("case.csv", std::ios::binary); f << a.str(); }
            auto sep = a.str(); auto n = a.sz(); auto l = a.szs();
            std::vector<TypeChecker::Type> t(n ? n : 1, n ? TypeChecker::Type::FLOAT : TypeChecker::Type::AUTO);
            auto c = std::make_unique<CSV>("case.csv", t, sep[0], std::set<SizeType>(l.begin(), l.end()));
            csv = c.get(); p = std::move(c);
            return "true";
        }
        if (op == "mnist") {                // images (seed of the pixels), labels
            auto seeds = a.szs(), labels = a.szs();
            auto word = [](std::ofstream& f, std::uint32_t v) { for (int k = 24; k >= 0; k -= 8) f.put(static_cast<char>(v >> k)); };
            { std::ofstream f("a.bin", std::ios::binary); word(f, 2051); word(f, static_cast<std::uint32_t>(seeds.size())); word(f, 28); word(f, 28);
              for (auto s: seeds) for (std::size_t o = 0; o < 784; ++o) f.put(static_cast<char>((s * 29 + o * 37 + (o >> 5) * 5) & 255)); }
            { std::ofstream f("b.bin", std::ios::binary); word(f, 2049); word(f, static_cast<std::uint32_t>(labels.size())); for (auto l: labels) f.put(static_cast<char>(l)); }
            csv = nullptr; p = std::make_unique<Mnist>("a.bin", "b.bin");
            return "true";
        }
        if (op == "parse") {
            auto enc = a.tok(); auto s = a.sz();
            return dump(D::parse(*p, enc == "one" ? DatasetParser::LabelEncoding::ONE_HOT_ENCODING : DatasetParser::LabelEncoding::DEFAULT_ENCODING, s));
        }
        if (op == "entry") return jnums(p->entry(a.sz()));
        if (op == "unique") { auto u = p->unique(a.sz()); return jnums(std::vector<double>(u.begin(), u.end())); }
        if (op == "copy") { if (csv) { auto c = std::make_unique<CSV>(*csv); csv = c.get(); p = std::move(c); } return "true"; }
        std::fprintf(stderr, "harness: unknown op %s\n", op.c_str());
        std::exit(97);
    }
};
int main(int c, char** v) { return main_loop(c, v, [] { return new W; }); }
