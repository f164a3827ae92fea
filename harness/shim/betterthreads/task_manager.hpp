/*
 * Stand-in for the BetterThreads submodule, which is not present in the
 * repository snapshot.  It offers exactly the part of the interface that
 * EdgeLearning uses, and makes the scheduler an explicit, scriptable object:
 * a task is run when the installed policy says so, never on its own.
 *
 * Policy: a queue of decisions.  At every scheduling point (after each enqueue
 * and at the start of each get()) the library asks `choose(point)` which of the
 * pending tasks run now, in which order.  Whatever get() needs is run at the
 * latest inside that get().
 */
#ifndef VERIF_SHIM_TASK_MANAGER_HPP
#define VERIF_SHIM_TASK_MANAGER_HPP

#include <cstddef>
#include <exception>
#include <functional>
#include <memory>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace BetterThreads {

struct TaskCell {
    std::size_t id = 0;
    bool done = false;
    std::exception_ptr error;
    std::function<void()> body;
    void run() {
        if (done) return;
        done = true;
        try { body(); } catch (...) { error = std::current_exception(); }
        body = nullptr;
    }
};

/** Where the scheduler is consulted: 'e' after enqueue(id), 'g' in get(id). */
struct SchedPoint { char kind; std::size_t id; };

class TaskManager {
public:
    using Policy = std::function<std::vector<std::size_t>(SchedPoint)>;

    static TaskManager& instance() { static TaskManager tm; return tm; }

    void set_maximum_concurrency() { _concurrency = _maximum; }
    std::size_t concurrency() const { return _concurrency; }

    template<typename F, typename... Args>
    auto enqueue(F&& f, Args&&... args);

    // --- control side, used by the harnesses only -------------------------
    void control(Policy p, std::size_t maximum) {
        _policy = std::move(p); _maximum = maximum; _concurrency = maximum;
        _cells.clear(); _next = 0; _spawn = nullptr; _wait = nullptr;
    }
    // run tasks some other way: `s` starts one, `w` ends when it has
    using Other = std::function<void(std::shared_ptr<TaskCell>)>;
    void spawn(Other s, Other w) { _spawn = std::move(s); _wait = std::move(w); }
    void added(const std::shared_ptr<TaskCell>& c) {
        if (_spawn) _spawn(c);
        else at(SchedPoint{'e', c->id});
    }
    void need(const std::shared_ptr<TaskCell>& c) {
        if (_wait) _wait(c);
        else { at(SchedPoint{'g', c->id}); c->run(); }
    }
    void uncontrol() { control(nullptr, 2); }
    std::size_t enqueued() const { return _next; }

    void at(SchedPoint pt) {
        if (!_policy) return;
        for (auto id: _policy(pt)) {
            for (auto& c: _cells) if (c->id == id) { c->run(); break; }
        }
    }
    std::shared_ptr<TaskCell> cell() {
        auto c = std::make_shared<TaskCell>();
        c->id = _next++;
        _cells.push_back(c);
        return c;
    }

private:
    std::size_t _maximum = 2;
    std::size_t _concurrency = 2;
    std::size_t _next = 0;
    Policy _policy;
    Other _spawn, _wait;
    std::vector<std::shared_ptr<TaskCell>> _cells;
};

template<typename T>
class Future {
public:
    Future() = default;
    Future(std::shared_ptr<TaskCell> c, std::shared_ptr<std::optional<T>> v)
        : _c(std::move(c)), _v(std::move(v)) { }
    T get() {
        TaskManager::instance().need(_c);
        if (_c->error) std::rethrow_exception(_c->error);
        return std::move(**_v);
    }
    void wait() {
        TaskManager::instance().need(_c);
    }
private:
    std::shared_ptr<TaskCell> _c;
    std::shared_ptr<std::optional<T>> _v;
};

template<>
class Future<void> {
public:
    Future() = default;
    explicit Future(std::shared_ptr<TaskCell> c) : _c(std::move(c)) { }
    void get() {
        TaskManager::instance().need(_c);
        if (_c->error) std::rethrow_exception(_c->error);
    }
    void wait() {
        TaskManager::instance().need(_c);
    }
private:
    std::shared_ptr<TaskCell> _c;
};

template<typename F, typename... Args>
auto TaskManager::enqueue(F&& f, Args&&... args) {
    using Fn = std::decay_t<F>;
    using R = std::invoke_result_t<Fn&, std::decay_t<Args>&...>;
    auto c = cell();
    auto fn = std::make_shared<Fn>(std::forward<F>(f));
    auto tup = std::make_shared<std::tuple<std::decay_t<Args>...>>(
        std::forward<Args>(args)...);
    if constexpr (std::is_void_v<R>) {
        c->body = [fn, tup]() { std::apply(*fn, *tup); };
        Future<void> ret(c);
        added(c);
        return ret;
    } else {
        auto v = std::make_shared<std::optional<R>>();
        c->body = [fn, tup, v]() { v->emplace(std::apply(*fn, *tup)); };
        Future<R> ret(c, v);
        added(c);
        return ret;
    }
}

} // namespace BetterThreads

#endif
