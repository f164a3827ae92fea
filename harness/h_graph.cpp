/* Conformance harness for the network graph (C13). */
#include "common.hpp"
#include "dnn/dlgraph.hpp"
#include "dnn/activation.hpp"
#include "dnn/mse_loss.hpp"
#include <set>
using namespace EdgeLearning;
using LP = std::shared_ptr<Layer>;
using XP = std::shared_ptr<LossLayer>;

struct GraphWorld : vh::World {
    std::map<std::string, LP> pool;
    std::shared_ptr<DLGraph> g = std::make_shared<DLGraph>();
    std::vector<std::pair<std::shared_ptr<DLGraph>, std::string>> kept;

    // A layer by name: the graph's own one, otherwise a layer outside of it.
    LP layer(const std::string& n) {
        for (const auto& l: g->layers()) if (l->name() == n) return l;
        auto it = pool.find(n);
        if (it != pool.end()) return it->second;
        LP l;
        if (n[0] == 'x') l = std::make_shared<MeanSquaredLossLayer>(n, 2);
        else l = std::make_shared<LinearLayer>(n, 2);
        pool[n] = l;
        return l;
    }
    XP loss(const std::string& n) { return std::dynamic_pointer_cast<LossLayer>(layer(n)); }
    static bool is_loss(const std::string& n) { return n[0] == 'x'; }
    std::vector<LP> layers(const std::vector<std::string>& ns) { std::vector<LP> r; for (auto& n: ns) r.push_back(layer(n)); return r; }

    static std::string names(const std::vector<std::string>& v) { std::vector<std::string> r; for (auto& n: v) r.push_back(vh::jstr(n)); return vh::jarr(r); }
    static std::string name_of(DLGraph& g, std::size_t i) { return g.layers().at(i)->name(); }

    static std::string dump(DLGraph& g) {
        std::vector<std::string> wrong;
        auto ok = [&](bool c, const std::string& w) { if (!c) wrong.push_back(w); };
        auto n = g.size();
        ok(g.layers().size() == n, "size");
        std::vector<std::string> nodes;
        for (std::size_t i = 0; i < n; ++i) {
            nodes.push_back(name_of(g, i));
            ok(g.index_of(*g.layers()[i]) == static_cast<std::int64_t>(i), "index_of");
            ok(g.layer(i) == g.layers()[i] && g[i] == g.layers()[i], "layer");
            ok(g.layers_idx().at(i) == i && g.training_forward_layers_idx().at(i) == i && g.backward_layers_idx().at(i) == i, "layers_idx");
            ok((g.as<LossLayer>(i) != nullptr) == is_loss(nodes.back()), "as");
        }
        ok(g.training_forward_layers() == g.layers() && g.backward_layers() == g.layers(), "all layers");
        auto list = [&](const std::vector<SizeType>& idx, const std::vector<LP>& ls, const std::string& w) {
            std::vector<std::string> r;
            ok(idx.size() == ls.size(), w);
            for (std::size_t i = 0; i < idx.size(); ++i) {
                r.push_back(name_of(g, idx[i]));
                if (i < ls.size()) ok(ls[i] == g.layers().at(idx[i]), w);
            }
            return names(r);
        };
        std::vector<LP> xl; for (auto& x: g.loss_layers()) xl.push_back(x);
        std::string s = "{\"nodes\":" + names(nodes)
            + ",\"inputs\":" + list(g.input_layers_idx(), g.input_layers(), "input layers")
            + ",\"outputs\":" + list(g.output_layers_idx(), g.output_layers(), "output layers")
            + ",\"losses\":" + list(g.loss_layers_idx(), xl, "loss layers")
            + ",\"plain\":" + list(g.forward_layers_idx(), g.forward_layers(), "forward layers");
        auto arcs = [&](const std::string& w, auto succ, auto pred, auto has, auto hasp, const std::vector<std::int64_t>& mat) {
            std::vector<std::string> r;
            ok(mat.size() == n * n, w + " matrix size");
            for (std::size_t i = 0; i < n; ++i) {
                auto su = succ(i);
                ok(has(i) == !su.empty(), w + " has");
                ok(hasp(i) == !pred(i).empty(), w + " has predecessors");
                for (auto t: su) r.push_back("[" + vh::jstr(nodes[i]) + "," + vh::jstr(nodes.at(t)) + "]");
                for (std::size_t t = 0; t < n; ++t) {
                    ok(pred(t).count(i) == su.count(t), w + " predecessors");
                    ok(mat.at(i * n + t) == static_cast<std::int64_t>(su.count(t)), w + " matrix");
                }
            }
            return vh::jarr(r);
        };
        s += ",\"fwd\":" + arcs("forward", [&](std::size_t i) { return g.forward(i); }, [&](std::size_t i) { return g.forward_predecessors(i); },
                                [&](std::size_t i) { return g.has_forward(i); }, [&](std::size_t i) { return g.has_forward_predecessors(i); }, g.forward_adjacent_matrix());
        s += ",\"tfw\":" + arcs("training", [&](std::size_t i) { return g.training_forward(i); }, [&](std::size_t i) { return g.training_forward_predecessors(i); },
                                [&](std::size_t i) { return g.has_training_forward(i); }, [&](std::size_t i) { return g.has_training_forward_predecessors(i); }, g.training_forward_adjacent_matrix());
        s += ",\"bwd\":" + arcs("backward", [&](std::size_t i) { return g.backward(i); }, [&](std::size_t i) { return g.backward_predecessors(i); },
                                [&](std::size_t i) { return g.has_backward(i); }, [&](std::size_t i) { return g.has_backward_predecessors(i); }, g.backward_adjacent_matrix());
        auto run = [&](const std::vector<DLGraph::Arc>& r) {
            std::vector<std::string> o;
            for (auto& a: r) {
                ok(g.index_of(*a.from) >= 0 && g.index_of(*a.to) >= 0, "run over layers of another graph");
                o.push_back("[" + vh::jstr(a.from->name()) + "," + vh::jstr(a.to->name()) + "]");
            }
            return vh::jarr(o);
        };
        s += ",\"run_f\":" + run(g.forward_run()) + ",\"run_t\":" + run(g.training_forward_run()) + ",\"run_b\":" + run(g.backward_run());
        return s + ",\"wrong\":" + names(wrong) + "}";
    }
    std::string all() {
        for (auto& k: kept)
            if (dump(*k.first) != k.second) return "{\"kept_changed\":" + dump(*k.first) + ",\"was\":" + k.second + "}";
        return dump(*g);
    }

    std::string run(const std::string& op, vh::Args& a) override {
        if (op == "node") { g->add_node(layer(a.str())); return all(); }
        if (op == "loss") { g->add_loss(loss(a.str())); return all(); }
        if (op == "dump") return all();
        if (op == "arcs") {
            auto kind = a.tok(), form = a.tok();
            auto fs = a.strs(), ts = a.strs();
            std::string ex;
            try {
                if (form == "1n") {
                    auto f = layer(fs[0]); auto t = layers(ts);
                    if (kind == "edge") g->add_edge(f, t);
                    else if (kind == "fwd") g->add_arc_forward(f, t);
                    else g->add_arc_backward(f, t);
                } else if (form == "n1") {
                    auto f = layers(fs);
                    if (kind == "bwd") g->add_arc_backward(f, layer(ts[0]));
                    else if (is_loss(ts[0])) { if (kind == "edge") g->add_edge(f, loss(ts[0])); else g->add_arc_forward(f, loss(ts[0])); }
                    else { if (kind == "edge") g->add_edge(f, layer(ts[0])); else g->add_arc_forward(f, layer(ts[0])); }
                } else {
                    auto f = layer(fs[0]);
                    if (kind == "bwd") g->add_arc_backward(f, layer(ts[0]));
                    else if (is_loss(ts[0])) { if (kind == "edge") g->add_edge(f, loss(ts[0])); else g->add_arc_forward(f, loss(ts[0])); }
                    else { if (kind == "edge") g->add_edge(f, layer(ts[0])); else g->add_arc_forward(f, layer(ts[0])); }
                }
            } catch (const std::exception&) { ex = "error"; }
            auto d = all();
            return ex.empty() ? d : "{\"ex\":\"error\",\"after\":" + d + "}";
        }
        if (op == "copy") {
            kept.emplace_back(g, dump(*g));
            g = std::make_shared<DLGraph>(*g);
            return all();
        }
        if (op == "assign") {
            kept.emplace_back(g, dump(*g));
            auto h = std::make_shared<DLGraph>();
            auto p = std::make_shared<LinearLayer>("p", 1); auto q = std::make_shared<LinearLayer>("q", 1); auto x = std::make_shared<MeanSquaredLossLayer>("xx", 1);
            h->add_node(q); h->add_node(p); h->add_loss(x); h->add_edge(LP(p), LP(q)); h->add_edge(LP(q), XP(x));
            *h = *g;
            const auto& self = *h;
            *h = self;
            g = h;
            return all();
        }
        std::fprintf(stderr, "harness: unknown op %s\n", op.c_str()); std::exit(97);
    }
};
int main(int argc, char** argv) { return vh::main_loop(argc, argv, [] { return new GraphWorld(); }); }
