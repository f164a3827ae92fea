/* Tasks of the task manager run as fibers of one thread, with a switch allowed
 * at every allocation: every interleaving is chosen by a seed and repeatable.
 * Include it in one source file only (it replaces operator new). */
#ifndef VERIF_FIBERS_HPP
#define VERIF_FIBERS_HPP
#include "betterthreads/task_manager.hpp"
#include <cstdlib>
#include <memory>
#include <new>
#include <vector>
#include <ucontext.h>

namespace vh {
inline bool fibers_ready = false;        // allocations are switching points
class Fibers {
    struct Fiber { ucontext_t ctx{}; std::unique_ptr<char[]> stack; std::shared_ptr<BetterThreads::TaskCell> cell; bool over = false; };
    std::vector<std::unique_ptr<Fiber>> _fibers;   // the first is the main program
    std::size_t _now = 0, _mean = 1, _switches = 0;
    unsigned long long _rnd = 1;
    bool _on = false, _busy = false;

    std::size_t draw(std::size_t n) { _rnd = _rnd * 6364136223846793005ULL + 1442695040888963407ULL; return static_cast<std::size_t>(_rnd >> 33) % n; }
    void to(std::size_t k) {
        if (k == _now) return;
        auto from = _now; _now = k; ++_switches;
        _busy = false;
        swapcontext(&_fibers[from]->ctx, &_fibers[k]->ctx);
    }
    void pick(bool other) {                        // switch to some fiber that can run
        _busy = true;
        std::size_t n = 0;
        for (std::size_t i = 0; i < _fibers.size(); ++i) if (!_fibers[i]->over && (!other || i != _now)) ++n;
        if (n) {
            auto d = draw(n);
            for (std::size_t i = 0; i < _fibers.size(); ++i)
                if (!_fibers[i]->over && (!other || i != _now) && d-- == 0) { to(i); break; }
        }
        _busy = false;
    }
    static void body();
public:
    std::size_t switches() const { return _switches; }
    bool on() const { return _on; }
    void start(std::size_t seed, std::size_t mean) {
        fibers_ready = false; _fibers.clear(); _fibers.push_back(std::make_unique<Fiber>());
        
        _now = 0; _switches = 0; _mean = mean ? mean : 1; _rnd = seed * 2654435761ULL + 12345; _on = true;
        BetterThreads::TaskManager::instance().spawn([this](std::shared_ptr<BetterThreads::TaskCell> c) { spawn(c); },
                                                     [this](std::shared_ptr<BetterThreads::TaskCell> c) { wait(c); });
        fibers_ready = true;
    }
    void stop() { fibers_ready = false; _on = false; BetterThreads::TaskManager::instance().spawn(nullptr, nullptr); _fibers.clear(); }
    void spawn(std::shared_ptr<BetterThreads::TaskCell> c) {
        _busy = true;
        auto f = std::make_unique<Fiber>();
        f->cell = std::move(c); f->stack.reset(new char[1 << 18]);
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = f->stack.get(); f->ctx.uc_stack.ss_size = 1 << 18; f->ctx.uc_link = nullptr;
        makecontext(&f->ctx, &Fibers::body, 0);
        _fibers.push_back(std::move(f));
        _busy = false;
        point();
    }
    void wait(std::shared_ptr<BetterThreads::TaskCell> c) {
        std::size_t k = 0;
        for (std::size_t i = 1; i < _fibers.size(); ++i) if (_fibers[i]->cell == c) k = i;
        while (k && !_fibers[k]->over) pick(true);
    }
    void point() { if (_on && !_busy && _fibers.size() > 1 && draw(_mean) == 0) pick(false); }
};
inline Fibers& fibers() { static Fibers* f = new Fibers; return *f; }
inline void Fibers::body() {
    auto& me = fibers();
    me._fibers[me._now]->cell->run();
    me._fibers[me._now]->over = true;
    me.pick(true);                                 // the main program is always there
}
} // namespace vh

static void* vh_new(std::size_t n) {
    if (vh::fibers_ready) vh::fibers().point();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(std::size_t n) { return vh_new(n); }
void* operator new[](std::size_t n) { return vh_new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#endif
