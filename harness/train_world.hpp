/* Training loops under chosen schedules, for the harnesses (C21, C22). */
#ifndef VERIF_TRAIN_WORLD_HPP
#define VERIF_TRAIN_WORLD_HPP
#include "middleware/fnn.hpp"
#include "net_world.hpp"
#include "fibers.hpp"
#include <thread>

struct TrainWorld : NetWorld {
    using TM = BetterThreads::TaskManager;
    std::map<long, Dataset<double>> data;
    std::map<std::pair<char, std::size_t>, std::vector<std::size_t>> script;
    std::map<BetterThreads::TaskCell*, std::thread> threads;

    void join() { for (auto& t: threads) t.second.join(); threads.clear(); }
    ~TrainWorld() { join(); TM::instance().uncontrol(); }
    /* How tasks run: "lazy" (when needed), "eager" (at once), "last" (all at
     * the first get, newest first), "script n (kind id m ids...)*n", "threads" or
     * "fibers seed mean" (preempted at allocations). */
    void schedule(vh::Args& a, std::size_t workers) {
        auto how = a.tok();
        auto& tm = TM::instance();
        script.clear();
        if (how == "lazy") tm.control([](BetterThreads::SchedPoint) { return std::vector<std::size_t>{}; }, workers);
        else if (how == "eager") tm.control([](BetterThreads::SchedPoint p) { return std::vector<std::size_t>{p.id}; }, workers);
        else if (how == "last") tm.control([&tm](BetterThreads::SchedPoint p) {
            std::vector<std::size_t> r;
            if (p.kind == 'g') for (std::size_t i = tm.enqueued(); i-- > 0;) r.push_back(i);
            return r; }, workers);
        else if (how == "script") {
            for (auto n = a.sz(); n; --n) { auto k = a.tok(); auto id = a.sz(); script[{k[0], id}] = a.szs(); }
            tm.control([this](BetterThreads::SchedPoint p) {
                auto it = script.find({p.kind, p.id});
                return it == script.end() ? std::vector<std::size_t>{} : it->second; }, workers);
        }
        else if (how == "threads") {
            tm.control(nullptr, workers);
            tm.spawn([this](std::shared_ptr<BetterThreads::TaskCell> c) { auto* k = c.get(); threads.emplace(k, std::thread([c] { c->run(); })); },
                     [this](std::shared_ptr<BetterThreads::TaskCell> c) { auto it = threads.find(c.get()); if (it != threads.end()) { it->second.join(); threads.erase(it); } });
        }
        else { auto seed = a.sz(); auto mean = a.sz(); tm.control(nullptr, workers); vh::fibers().start(seed, mean); }
    }
    template<ParallelizationLevel PL> static void go(Model& m, Dataset<double>& d, Optimizer& o, std::size_t e, std::size_t b) { Training<PL, double>::run(m, d, o, e, b); }

    std::string run(const std::string& op, vh::Args& a) override {
        if (op == "data") {          // data k width labels... values...
            auto k = a.num(); auto w = a.sz(); auto l = a.szs(); auto v = a.dbls();
            data[k] = Dataset<double>(v, w, 1, std::set<std::size_t>(l.begin(), l.end()));
            return "{\"rows\":" + std::to_string(data[k].size()) + "}";
        }
        if (op == "race") {          // two threads write the same word: is it noticed?
            static int word = 0;
            std::thread t([] { for (int i = 0; i < 1000; ++i) word += i; }), u([] { for (int i = 0; i < 1000; ++i) word -= i; });
            t.join(); u.join();
            return std::to_string(word == 12345678);
        }
        if (op == "mfit") {          // mfit model optimizer data mode epochs batch workers schedule
            auto& m = *models.at(a.num()); auto& o = *opts.at(a.num()); auto& d = data.at(a.num());
            auto mode = a.tok(); auto e = a.sz(); auto b = a.sz(); auto w = a.sz();
            schedule(a, w);
            struct Stop { ~Stop() { vh::fibers().stop(); } } stop;
            if (mode == "seq") go<ParallelizationLevel::SEQUENTIAL>(m, d, o, e, b);
            else if (mode == "entry") go<ParallelizationLevel::THREAD_PARALLELISM_ON_DATA_ENTRY>(m, d, o, e, b);
            else go<ParallelizationLevel::THREAD_PARALLELISM_ON_DATA_BATCH>(m, d, o, e, b);
            join();
            vh::fibers().stop();
            return "{\"r\":[],\"tasks\":" + std::to_string(TM::instance().enqueued()) + ",\"switches\":" + std::to_string(vh::fibers().switches()) + ",\"m\":" + obs() + touched() + "}";
        }
        return NetWorld::run(op, a);
    }
};
#endif
