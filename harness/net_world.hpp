/* Commands on layers, models, losses and optimizers, for the harnesses. */
#ifndef VERIF_NET_WORLD_HPP
#define VERIF_NET_WORLD_HPP
#include "common.hpp"
#include "dnn/model.hpp"
#include "dnn/dense.hpp"
#include "dnn/activation.hpp"
#include "dnn/convolutional.hpp"
#include "dnn/max_pooling.hpp"
#include "dnn/avg_pooling.hpp"
#include "dnn/dropout.hpp"
#include "dnn/recurrent.hpp"
#include "dnn/mse_loss.hpp"
#include "dnn/cce_loss.hpp"
#include "dnn/gd_optimizer.hpp"
#include "dnn/adam_optimizer.hpp"
#include <deque>
#include <memory>
using namespace EdgeLearning;
using LP = std::shared_ptr<Layer>;
using Vec = std::vector<double>;
using S2 = DLMath::Shape2d;
using S3 = DLMath::Shape3d;

struct NetWorld : vh::World {
    std::map<long, LP> layers;
    std::map<long, std::unique_ptr<Model>> models;
    std::map<long, std::unique_ptr<Optimizer>> opts;
    std::deque<Vec> kept;                     // inputs stay alive and are checked
    std::deque<Vec> kept_copy;
    std::string dir;

    const Vec& keep(Vec v) { kept.push_back(v); kept_copy.push_back(std::move(v)); return kept.back(); }
    std::string touched() {
        for (std::size_t i = 0; i < kept.size(); ++i) if (kept[i] != kept_copy[i]) return ",\"input_changed\":1";
        return "";
    }
    // A layer from its description: with `late` the input shape comes later.
    // F(make) is called with the class and its arguments.
    template<typename F> auto describe(vh::Args& a, bool late, std::vector<std::size_t>& shape, F make) {
        auto kind = a.tok(); auto name = a.str();
        auto in3 = [&] { std::size_t h = a.sz(), w = a.sz(), c = a.sz(); shape = {h, w, c}; return late ? S3(0, 0, c) : S3(h, w, c); };
        auto two = [&] { std::size_t h = a.sz(), w = a.sz(); return S2(h, w); };
        auto in1 = [&] { auto n = a.sz(); shape = {n}; return late ? std::size_t(0) : n; };
        if (kind == "dense") { auto i = in1(), o = a.sz(); return make.template operator()<DenseLayer>(name, i, o); }
        if (kind == "conv") { auto i = in3(); auto k = two(); auto s = two(); auto p = two(); auto f = a.sz(); return make.template operator()<ConvolutionalLayer>(name, i, k, f, s, p); }
        if (kind == "max") { auto i = in3(); auto k = two(); auto s = two(); return make.template operator()<MaxPoolingLayer>(name, i, k, s); }
        if (kind == "avg") { auto i = in3(); auto k = two(); auto s = two(); return make.template operator()<AveragePoolingLayer>(name, i, k, s); }
        if (kind == "relu") { auto i = in1(); return make.template operator()<ReluLayer>(name, i); }
        if (kind == "linear") { auto i = in1(); return make.template operator()<LinearLayer>(name, i); }
        if (kind == "sigmoid") { auto i = in1(); return make.template operator()<SigmoidLayer>(name, i); }
        if (kind == "tanh") { auto i = in1(); return make.template operator()<TanhLayer>(name, i); }
        if (kind == "softmax") { auto i = in1(); return make.template operator()<SoftmaxLayer>(name, i); }
        if (kind == "elu") { auto i = in1(); auto al = a.dbl(); return make.template operator()<EluLayer>(name, i, al); }
        if (kind == "dropout") { auto i = in1(); auto p = a.dbl(); auto seed = a.sz(); return make.template operator()<DropoutLayer>(name, i, p, RneType(static_cast<RneType::result_type>(seed))); }
        if (kind == "rnn") { auto i = in1(), o = a.sz(), h = a.sz(), t = a.sz(); return make.template operator()<RecurrentLayer>(name, i, o, h, t); }
        if (kind == "mse") { auto i = in1(), b = a.sz(); auto tol = a.dbl(); return make.template operator()<MeanSquaredLossLayer>(name, i, b, tol); }
        if (kind == "cce") { auto i = in1(), b = a.sz(); return make.template operator()<CategoricalCrossEntropyLossLayer>(name, i, b); }
        std::fprintf(stderr, "harness: unknown layer kind %s\n", kind.c_str()); std::exit(97);
    }
    struct MakeLayer { template<typename L, typename... T> LP operator()(T&&... t) const { return std::make_shared<L>(std::forward<T>(t)...); } };
    struct AddLayer {
        Model& m;
        template<typename L, typename... T> LP operator()(T&&... t) const {
            if constexpr (std::is_base_of<LossLayer, L>::value) return m.add_loss<L>(std::forward<T>(t)...);
            else return m.add_layer<L>(std::forward<T>(t)...);
        }
    };
    static LayerShape shape_of(const std::vector<std::size_t>& s) { return s.size() == 3 ? LayerShape(S3(s[0], s[1], s[2])) : LayerShape(s[0]); }

    static std::string shapes(const std::vector<S3>& v) {
        std::vector<std::string> r;
        for (auto& s: v) r.push_back("[" + std::to_string(s.height()) + "," + std::to_string(s.width()) + "," + std::to_string(s.channels()) + "]");
        return vh::jarr(r);
    }
    static std::string show(Layer& l, bool outs = true) {
        Vec p, g;
        for (std::size_t i = 0; i < l.param_count(); ++i) { p.push_back(l.param(i)); g.push_back(l.gradient(i)); }
        std::string s = "{\"name\":" + vh::jstr(l.name()) + ",\"type\":" + vh::jstr(l.type()) + ",\"in\":" + shapes(l.input_shapes()) + ",\"out\":" + shapes(l.output_shapes())
            + ",\"insize\":" + std::to_string(l.input_size()) + ",\"p\":" + vh::jnums(p) + ",\"g\":" + vh::jnums(g);
        if (auto x = dynamic_cast<LossLayer*>(&l)) s += ",\"acc\":" + vh::jnum(x->accuracy()) + ",\"loss\":" + vh::jnum(x->avg_loss());
        else { s += ",\"outsize\":" + std::to_string(l.output_size()); if (outs) s += ",\"y\":" + vh::jnums(l.last_output()); }
        return s + ",\"ig\":" + vh::jnums(l.last_input_gradient()) + "}";
    }
    static std::string show(Model& m) {
        std::vector<std::string> r;
        for (auto& l: m.layers()) r.push_back(show(*l));
        std::string s = "{\"name\":" + vh::jstr(m.name()) + ",\"layers\":" + vh::jarr(r);
        if (!m.loss_layers().empty()) s += ",\"acc\":" + vh::jnum(m.accuracy()) + ",\"loss\":" + vh::jnum(m.avg_loss());
        return s + ",\"isize\":" + std::to_string(m.input_size()) + ",\"osize\":" + std::to_string(m.output_size()) + "}";
    }
    std::string obs() {
        std::vector<std::string> r;
        for (auto& m: models) r.push_back(show(*m.second));
        return vh::jarr(r);
    }
    static void set(Layer& l, const Vec& v) {
        if (v.size() != l.param_count()) { std::fprintf(stderr, "harness: %zu values for %zu params of %s\n", v.size(), static_cast<std::size_t>(l.param_count()), l.name().c_str()); throw std::runtime_error("params"); }
        for (std::size_t i = 0; i < v.size(); ++i) l.param(i) = v[i];
    }

    std::string run(const std::string& op, vh::Args& a) override {
        // ------------------------------------------------------------- layers
        if (op == "lnew" || op == "llate") {
            auto k = a.num(); std::vector<std::size_t> shape;
            auto l = describe(a, op == "llate", shape, MakeLayer{});
            if (op == "llate") l->input_shape(shape_of(shape));
            layers[k] = l;
            return show(*l);
        }
        if (op == "lshow") return show(*layers.at(a.num()));
        if (op == "lset") { auto& l = *layers.at(a.num()); set(l, a.dbls()); return "{}"; }
        if (op == "lclone") { auto k = a.num(); auto to = a.num(); layers[to] = layers.at(k)->clone(); return show(*layers[to]); }
        if (op == "lfwd" || op == "ltrain") {
            auto& l = *layers.at(a.num()); const auto& x = keep(a.dbls());
            const auto& y = op == "lfwd" ? l.forward(x) : l.training_forward(x);
            std::string s = "{\"r\":" + vh::jnums(y);
            if (!dynamic_cast<LossLayer*>(&l)) s += ",\"same\":" + std::string(y == l.last_output() ? "1" : "0");
            if (op == "ltrain") s += ",\"li\":" + std::string(l.last_input() == x ? "1" : "0");
            return s + touched() + "}";
        }
        if (op == "lbwd") {
            auto& l = *layers.at(a.num()); const auto& g = keep(a.dbls());
            const auto& y = l.backward(g);
            std::string s = "{\"r\":" + vh::jnums(y) + ",\"same\":" + (y == l.last_input_gradient() ? "1" : "0");
            Vec pg; for (std::size_t i = 0; i < l.param_count(); ++i) pg.push_back(l.gradient(i));
            return s + ",\"g\":" + vh::jnums(pg) + touched() + "}";
        }
        if (op == "lgrad") { auto& l = *layers.at(a.num()); auto v = a.dbls(); for (std::size_t i = 0; i < v.size(); ++i) l.gradient(i) = v[i]; return "{}"; }
        if (op == "ladd") { auto& l = *layers.at(a.num()); auto v = a.dbls(); for (std::size_t i = 0; i < v.size(); ++i) l.gradient(i) += v[i]; return "{}"; }
        if (op == "ltarget") { dynamic_cast<LossLayer&>(*layers.at(a.num())).set_target(a.dbls()); return "{}"; }
        if (op == "lreset") { dynamic_cast<LossLayer&>(*layers.at(a.num())).reset_score(); return "{}"; }
        if (op == "lload") {                 // dump, write, read, load
            auto& from = *layers.at(a.num()); auto& to = *layers.at(a.num());
            std::ostringstream o; o << from.dump();
            std::istringstream i(o.str()); Json j; i >> j;
            std::string ex;
            try { to.load(j); } catch (const std::exception&) { ex = "error"; }
            return "{\"refused\":" + std::string(ex.empty() ? "0" : "1") + ",\"to\":" + show(to, false) + "}";
        }
        // --------------------------------------------------- recurrent layers
        if (op == "lhid" || op == "lsteps" || op == "lhreset") {
            auto& l = dynamic_cast<RecurrentLayer&>(*layers.at(a.num()));
            if (op == "lhid") l.hidden_state(a.dbls());
            else if (op == "lsteps") l.time_steps(a.sz());
            else l.reset_hidden_state();
            return "{\"steps\":" + std::to_string(l.time_steps()) + "}";
        }
        if (op == "linit") {
            auto& l = *layers.at(a.num()); auto i = a.tok(), p = a.tok(); auto seed = a.sz();
            l.init(i == "xavier" ? Layer::InitializationFunction::XAVIER : Layer::InitializationFunction::KAIMING,
                   p == "normal" ? Layer::ProbabilityDensityFunction::NORMAL : Layer::ProbabilityDensityFunction::UNIFORM, RneType(static_cast<RneType::result_type>(seed)));
            return show(l);
        }
        if (op == "ldump") { std::ostringstream o; o << layers.at(a.num())->dump(); return vh::jstr(o.str()); }
        if (op == "lbad") {                  // load from a text that is no dump
            auto& to = *layers.at(a.num()); std::istringstream i(a.str()); Json j; i >> j;
            std::string ex;
            try { to.load(j); } catch (const std::exception&) { ex = "error"; }
            return "{\"refused\":" + std::string(ex.empty() ? "0" : "1") + ",\"to\":" + show(to, false) + "}";
        }
        // ------------------------------------------------------------- models
        if (op == "mnew") { auto k = a.num(); models[k] = std::make_unique<Model>(a.str()); return "{}"; }
        if (op == "madd") { auto& m = *models.at(a.num()); std::vector<std::size_t> sh; describe(a, false, sh, AddLayer{m}); return "{}"; }
        if (op == "marc") {
            auto& m = *models.at(a.num()); auto how = a.tok(); auto f = m.layers().at(a.sz()), t = m.layers().at(a.sz());
            auto x = std::dynamic_pointer_cast<LossLayer>(t);
            if (how == "back") m.create_back_arc(f, t);
            else if (how == "front") { if (x) m.create_front_arc(f, x); else m.create_front_arc(f, t); }
            else if (x) m.create_loss_edge(f, x);
            else m.create_edge(f, t);
            return "{}";
        }
        if (op == "mset") { auto& m = *models.at(a.num()); auto i = a.sz(); set(*m.layers().at(i), a.dbls()); return "{}"; }
        if (op == "obs") return obs();
        if (op == "mstep") { auto& m = *models.at(a.num()); const auto& x = keep(a.dbls()); const auto& t = keep(a.dbls()); m.step(x, t); return "{\"r\":[],\"m\":" + obs() + touched() + "}"; }
        if (op == "mpredict") { auto& m = *models.at(a.num()); const auto& x = keep(a.dbls()); auto r = m.predict(x); return "{\"r\":" + vh::jnums(r) + ",\"m\":" + obs() + touched() + "}"; }
        if (op == "mtrain") {
            auto& m = *models.at(a.num()); auto& o = *opts.at(a.num());
            m.train(o); return "{\"r\":[],\"m\":" + obs() + "}";
        }
        if (op == "mtrainfrom") {
            auto& m = *models.at(a.num()); auto& from = *models.at(a.num()); auto& o = *opts.at(a.num());
            m.train(o, from); return "{\"r\":[],\"m\":" + obs() + "}";
        }
        if (op == "mreset") { models.at(a.num())->reset_score(); return "{\"r\":[],\"m\":" + obs() + "}"; }
        if (op == "mcopy") { auto k = a.num(), to = a.num(); models[to] = std::make_unique<Model>(*models.at(k)); return "{\"r\":[],\"m\":" + obs() + "}"; }
        if (op == "massign") { auto k = a.num(), from = a.num(); const auto& f = *models.at(from); *models.at(k) = f; return "{\"r\":[],\"m\":" + obs() + "}"; }
        if (op == "mswap") { auto k = a.num(), from = a.num(); swap(*models.at(k), *models.at(from)); return "{\"r\":[],\"m\":" + obs() + "}"; }
        if (op == "mload") {                 // through a file in the scratch directory of the run
            auto file = "model" + std::to_string(reinterpret_cast<std::uintptr_t>(this)) + ".json";
            auto k = a.num(), from = a.num();
            { std::ofstream f(file); models.at(from)->dump(f); }
            { std::ifstream f(file); models.at(k)->load(f); }
            return "{\"r\":[],\"m\":" + obs() + "}";
        }
        if (op == "unnamed") {               // the names of new layers and models without one
            std::vector<std::string> r;
            for (auto n = a.sz(); n; --n) {
                r.push_back(vh::jstr(ReluLayer("", 1).name())); r.push_back(vh::jstr(DenseLayer("", 1, 1).name())); r.push_back(vh::jstr(Model("").name()));
            }
            return vh::jarr(r);
        }
        if (op == "minit") {
            auto& m = *models.at(a.num()); auto i = a.tok(), p = a.tok(); auto seed = a.sz();
            auto r = m.init(i == "auto" ? Model::InitializationFunction::AUTO : i == "xavier" ? Model::InitializationFunction::XAVIER : Model::InitializationFunction::KAIMING,
                            p == "normal" ? Model::ProbabilityDensityFunction::NORMAL : Model::ProbabilityDensityFunction::UNIFORM, static_cast<RneType::result_type>(seed));
            return "{\"seed\":" + std::to_string(r) + ",\"m\":" + obs() + "}";
        }
        // --------------------------------------------------------- optimizers
        if (op == "onew") {
            auto k = a.num(); auto kind = a.tok();
            if (kind == "gd") opts[k] = std::make_unique<GradientDescentOptimizer>(a.dbl());
            else { auto e = a.dbl(), b1 = a.dbl(), b2 = a.dbl(), ep = a.dbl(); opts[k] = std::make_unique<AdamOptimizer>(e, b1, b2, ep); }
            return "{}";
        }
        if (op == "oreset") { opts.at(a.num())->reset(); return "{}"; }
        if (op == "otrain" || op == "ocheck" || op == "oself") {
            auto& o = *opts.at(a.num()); auto& f = *layers.at(a.num()); auto& t = *layers.at(a.num());
            std::string ex;
            try { if (op == "oself") o.train(f); else if (op == "otrain") o.train(f, t); else o.train_check(f, t); } catch (const std::exception&) { ex = "error"; }
            return "{\"refused\":" + std::string(ex.empty() ? "0" : "1") + ",\"from\":" + show(f) + ",\"to\":" + show(t) + "}";
        }
        std::fprintf(stderr, "harness: unknown op %s\n", op.c_str()); std::exit(97);
    }
};
#endif
