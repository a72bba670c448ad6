// Threads that execute commands one at a time: interleavings are chosen by the script, not by the scheduler.
#pragma once
#include <thread>
#include <mutex>
#include <condition_variable>
#include <functional>
#include <memory>
struct Crew {
    struct W { std::thread th; std::mutex m; std::condition_variable cv; std::function<void()> job; bool has = false, done = false, quit = false; };
    std::vector<std::unique_ptr<W>> w;
    u32 add() {
        w.emplace_back(new W); W* p = w.back().get();
        p->th = std::thread([p] { for (;;) { std::unique_lock<std::mutex> l(p->m); p->cv.wait(l, [p] { return p->has || p->quit; }); if (!p->has) return;
            p->has = false; l.unlock(); p->job(); l.lock(); p->done = true; p->cv.notify_all(); } });
        return (u32)w.size() - 1; }
    explicit Crew(u32 n) { for (u32 i = 0; i < n; ++i) add(); }
    void start(u32 i, std::function<void()> f) { W* p = w[i].get(); std::lock_guard<std::mutex> l(p->m); p->job = std::move(f); p->done = false; p->has = true; p->cv.notify_all(); }
    void join(u32 i) { W* p = w[i].get(); std::unique_lock<std::mutex> l(p->m); p->cv.wait(l, [p] { return p->done; }); }
    bool finished(u32 i) { W* p = w[i].get(); std::lock_guard<std::mutex> l(p->m); return p->done; }
    void run(u32 i, std::function<void()> f) { start(i, std::move(f)); join(i); }
    bool alive(u32 i) { return w[i]->th.joinable(); }
    void end(u32 i) { W* p = w[i].get(); { std::lock_guard<std::mutex> l(p->m); p->quit = true; p->cv.notify_all(); } p->th.join(); }   // thread exit
    ~Crew() { for (u32 i = 0; i < w.size(); ++i) if (alive(i)) end(i); }
};
