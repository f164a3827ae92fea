/* Conformance harness for described networks (C22). */
#include "train_world.hpp"
using DS = Dataset<double>;

struct AnyNet {
    virtual ~AnyNet() = default;
    virtual void add(LayerDescriptor) { throw std::logic_error("no add"); }
    virtual void compile(LossType, OptimizerType, InitType, bool) { throw std::logic_error("no compile"); }
    virtual void fit(DS&, OptimizerType, std::size_t, std::size_t, double, RneType::result_type) = 0;
    virtual DS predict(DS&) = 0;
    virtual std::string evaluate(DS&) = 0;
    virtual std::string sizes() { throw std::logic_error("no sizes"); }
    template<typename R> static std::string score(const R& r) {
        return "[" + vh::jnum(r.loss) + "," + vh::jnum(r.accuracy) + "," + vh::jnum(r.accuracy_perc) + "," + vh::jnum(r.error_rate) + "," + vh::jnum(r.error_rate_perc) + "]";
    }
    template<typename N> static std::string sizes_of(N& n) { auto i = n.input_size(); auto o = n.output_size(); return "[" + std::to_string(i) + "," + std::to_string(o) + "]"; }
};
template<LossType L, InitType I, ParallelizationLevel P> struct Grow : AnyNet {
    EdgeFeedforwardNeuralNetwork<L, I, P, double> n{"grow"};
    void add(LayerDescriptor d) override { n.add(d); }
    void fit(DS& d, OptimizerType o, std::size_t e, std::size_t b, double r, RneType::result_type s) override { n.fit(d, o, e, b, r, s); }
    DS predict(DS& d) override { return n.predict(d); }
    std::string evaluate(DS& d) override { auto r = n.evaluate(d, L); return score(r); }
    std::string sizes() override { return sizes_of(n); }
};
template<LossType L, InitType I, ParallelizationLevel P> struct Fixed : AnyNet {
    FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, L, I, P, double> n;
    explicit Fixed(const NeuralNetworkDescriptor& d) : n(d, "fixed") {}
    void fit(DS& d, OptimizerType o, std::size_t e, std::size_t b, double r, RneType::result_type s) override { n.fit(d, o, e, b, r, s); }
    DS predict(DS& d) override { return n.predict(d); }
    std::string evaluate(DS& d) override { return score(n.evaluate(d)); }
};
template<Framework F, LossType L, InitType I, ParallelizationLevel P, typename T> struct MapFnn { using type = typename MapModel<F, L, I, P, T>::feedforward_model; };
template<ParallelizationLevel P> struct Dyn : AnyNet {
    DynamicNeuralNetwork<MapFnn, Framework::EDGE_LEARNING, P, double> n;
    explicit Dyn(const NeuralNetworkDescriptor& d) : n(d, "dyn") {}
    void compile(LossType l, OptimizerType o, InitType i, bool def) override { if (def) n.compile(); else n.compile(l, o, i); }
    void fit(DS& d, OptimizerType, std::size_t e, std::size_t b, double r, RneType::result_type s) override { n.fit(d, e, b, r, s); }
    DS predict(DS& d) override { return n.predict(d); }
    std::string evaluate(DS& d) override { return score(n.evaluate(d)); }
    std::string sizes() override { return sizes_of(n); }
};
template<ParallelizationLevel P> struct DynMany : AnyNet {      // every call goes to one framework or to all
    DynamicFeedforwardNeuralNetwork<P, double> n;
    bool all;
    DynMany(const NeuralNetworkDescriptor& d, bool every) : n(d, "many"), all(every) {}
    static constexpr Framework F = Framework::EDGE_LEARNING;
    void compile(LossType l, OptimizerType o, InitType i, bool def) override {
        if (all) { if (def) n.compile(); else n.compile(l, o, i); }
        else if (def) n.compile(F); else n.compile(F, l, o, i);
    }
    void fit(DS& d, OptimizerType, std::size_t e, std::size_t b, double r, RneType::result_type s) override { if (all) n.fit(d, e, b, r, s); else n.fit(F, d, e, b, r, s); }
    DS predict(DS& d) override { return all ? n.predict(d).at(F) : n.predict(F, d); }
    std::string evaluate(DS& d) override { return all ? score(n.evaluate(d).at(F)) : score(n.evaluate(F, d)); }
};

struct FnnWorld : TrainWorld {
    std::map<long, std::unique_ptr<AnyNet>> nets;

    static S3 shape(vh::Args& a) { std::size_t h = a.sz(), w = a.sz(), c = a.sz(); return S3(h, w, c); }
    static S2 pair(vh::Args& a) { std::size_t h = a.sz(), w = a.sz(); return S2(h, w); }
    static ActivationType act(const std::string& s) {
        return s == "relu" ? ActivationType::ReLU : s == "elu" ? ActivationType::ELU : s == "softmax" ? ActivationType::Softmax : s == "tanh" ? ActivationType::TanH
             : s == "sigmoid" ? ActivationType::Sigmoid : s == "linear" ? ActivationType::Linear : ActivationType::None;
    }
    /* way: 0 the class of the layer, 1 the general description, 2 setters */
    static LayerDescriptor descriptor(vh::Args& a) {
        auto way = a.sz(); auto type = a.tok(); auto name = a.str(); auto ac = act(a.tok());
        auto u = shape(a); auto f = a.sz(); auto k = pair(a); auto s = pair(a); auto p = pair(a); auto rate = a.dbl();
        if (way == 0) {
            if (type == "input") return Input(name, u);
            if (type == "dense") return Dense(name, u.size(), ac);
            if (type == "conv") return Conv(name, {f, k, s, p}, ac);
            if (type == "max") return MaxPool(name, {k, s}, ac);
            if (type == "avg") return AvgPool(name, {k, s}, ac);
            return Dropout(name, {rate}, ac);
        }
        LayerSetting set;
        LayerType t;
        if (type == "input" || type == "dense") { t = type == "input" ? LayerType::Input : LayerType::Dense; if (way == 1) set = LayerSetting(LayerShape(u)); else set.units(LayerShape(u)); }
        else if (type == "conv") { t = LayerType::Conv; if (way == 1) set = LayerSetting(f, k, s, p); else { set.padding(p); set.stride(s); set.kernel_shape(k); set.n_filters(f); } }
        else if (type == "max" || type == "avg") { t = type == "max" ? LayerType::MaxPool : LayerType::AvgPool; if (way == 1) set = LayerSetting(k, s); else { set.kernel_shape(k); set.stride(s); } }
        else { t = LayerType::Dropout; if (way == 1) set = LayerSetting(NumType(rate)); else set.drop_probability(rate); }
        if (way == 1) return LayerDescriptor(name, t, set, ac);
        LayerDescriptor d("other", LayerType::Input, LayerSetting(NumType(0.25)), ActivationType::Sigmoid);
        d.name(name); d.type(t); d.setting(set); d.activation_type(ac);
        return d;
    }
    static std::string show(const LayerDescriptor& d) {
        auto& s = d.setting();
        auto two = [](const S2& x) { return "[" + std::to_string(x.height()) + "," + std::to_string(x.width()) + "]"; };
        auto u = s.units();
        return "{\"name\":" + vh::jstr(d.name()) + ",\"type\":" + std::to_string(static_cast<int>(d.type())) + ",\"act\":" + std::to_string(static_cast<int>(d.activation_type()))
            + ",\"u\":[" + std::to_string(u.height()) + "," + std::to_string(u.width()) + "," + std::to_string(u.channels()) + "],\"f\":" + std::to_string(s.n_filters())
            + ",\"k\":" + two(s.kernel_shape()) + ",\"s\":" + two(s.stride()) + ",\"p\":" + two(s.padding()) + ",\"rate\":" + vh::jnum(s.drop_probability()) + "}";
    }
    template<LossType L, InitType I, ParallelizationLevel P> static std::unique_ptr<AnyNet> make3(const std::string& kind, const NeuralNetworkDescriptor& d) {
        if (kind == "grow") return std::make_unique<Grow<L, I, P>>();
        return std::make_unique<Fixed<L, I, P>>(d);
    }
    template<LossType L, ParallelizationLevel P> static std::unique_ptr<AnyNet> make2(const std::string& kind, const std::string& init, const NeuralNetworkDescriptor& d) {
        return init == "he" ? make3<L, InitType::HE_INIT, P>(kind, d) : init == "xavier" ? make3<L, InitType::XAVIER_INIT, P>(kind, d) : make3<L, InitType::AUTO, P>(kind, d);
    }
    template<ParallelizationLevel P> static std::unique_ptr<AnyNet> make(const std::string& kind, const std::string& loss, const std::string& init, const NeuralNetworkDescriptor& d) {
        if (kind == "dyn") return std::make_unique<Dyn<P>>(d);
        if (kind == "one" || kind == "all") return std::make_unique<DynMany<P>>(d, kind == "all");
        return loss == "mse" ? make2<LossType::MSE, P>(kind, init, d) : make2<LossType::CCE, P>(kind, init, d);
    }
    std::string run(const std::string& op, vh::Args& a) override {
        if (op == "desc") return show(descriptor(a));
        if (op == "sched") { auto w = a.sz(); schedule(a, w); return "{}"; }
        if (op == "fnew") {          // fnew k kind mode loss init n descriptions...
            auto k = a.num(); auto kind = a.tok(); auto mode = a.tok(); auto loss = a.tok(); auto init = a.tok();
            NeuralNetworkDescriptor d;
            for (auto n = a.sz(); n; --n) d.push_back(descriptor(a));
            nets[k] = mode == "seq" ? make<ParallelizationLevel::SEQUENTIAL>(kind, loss, init, d)
                    : mode == "entry" ? make<ParallelizationLevel::THREAD_PARALLELISM_ON_DATA_ENTRY>(kind, loss, init, d)
                    : make<ParallelizationLevel::THREAD_PARALLELISM_ON_DATA_BATCH>(kind, loss, init, d);
            return "{}";
        }
        if (op == "fadd") { auto& n = *nets.at(a.num()); n.add(descriptor(a)); return "{}"; }
        if (op == "fcompile") {      // with "default" settings, or ones that do not exist
            auto& n = *nets.at(a.num()); auto l = a.tok(), o = a.tok(), i = a.tok();
            n.compile(l == "none" ? static_cast<LossType>(17) : l == "mse" ? LossType::MSE : LossType::CCE, o == "gd" ? OptimizerType::GRADIENT_DESCENT : OptimizerType::ADAM,
                      i == "none" ? static_cast<InitType>(17) : i == "he" ? InitType::HE_INIT : i == "xavier" ? InitType::XAVIER_INIT : InitType::AUTO, l == "default");
            return "{}";
        }
        if (op == "ffit") {          // ffit k data optimizer epochs batch rate seed
            auto& n = *nets.at(a.num()); auto& d = data.at(a.num()); auto o = a.tok(); auto e = a.sz(), b = a.sz(); auto r = a.dbl(); auto s = a.sz();
            auto before = d.data();
            n.fit(d, o == "gd" ? OptimizerType::GRADIENT_DESCENT : OptimizerType::ADAM, e, b, r, static_cast<RneType::result_type>(s));
            join();
            vh::fibers().stop();
            return "{\"same\":" + std::string(before == d.data() ? "1" : "0") + "}";
        }
        if (op == "fpredict") {
            auto& n = *nets.at(a.num()); auto& d = data.at(a.num());
            auto before = d.data();
            auto p = n.predict(d);
            std::vector<std::string> rows;
            for (std::size_t i = 0; i < p.size(); ++i) rows.push_back(vh::jnums(p.entry(i)));
            return "{\"rows\":" + vh::jarr(rows) + ",\"width\":" + std::to_string(p.feature_size()) + ",\"same\":" + (before == d.data() ? "1" : "0") + "}";
        }
        if (op == "feval") {
            auto& n = *nets.at(a.num()); auto& d = data.at(a.num());
            auto before = d.data();
            auto s = n.evaluate(d);
            return "{\"score\":" + s + ",\"same\":" + (before == d.data() ? "1" : "0") + "}";
        }
        if (op == "fsizes") return "{\"sizes\":" + nets.at(a.num())->sizes() + "}";
        return TrainWorld::run(op, a);
    }
};
int main(int argc, char** argv) { return vh::main_loop(argc, argv, [] { return new FnnWorld(); }); }
