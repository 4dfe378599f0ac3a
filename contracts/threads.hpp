// app_parallel.hpp with a stand-in for std::thread that runs its task at once or
// when joined, in either case exactly once (a schedule); natively the real threads
#pragma once
#include "nd.hpp"
#include <thread>
#include <functional>
#ifndef VC_NATIVE
namespace std {
struct vc_thread
{
    static inline bool at_once = true;
    static inline int joined = 0;
    std::function<void()> task;
    bool pending = false;
    vc_thread() {}
    template<typename F> explicit vc_thread(F f) : task(f), pending(true) { if (at_once) task(); }
    vc_thread(const vc_thread&) = delete;
    vc_thread(vc_thread&& t) : task(t.task), pending(t.pending) { t.pending = false; }
    vc_thread& operator=(vc_thread&& t) { vc_assert("no thread is overwritten before it is joined", ! pending); task = t.task; pending = t.pending; t.pending = false; return *this; }
    ~vc_thread() { vc_assert("every thread is joined", ! pending); }
    void detach() { vc_assert("running", pending); pending = false; }   // deferred, it may be too late for its result
    void join() { vc_assert("joined once", pending); if (! at_once) task(); pending = false; ++joined; }
};
}
#define thread vc_thread
#endif
#include "app_parallel.hpp"
#undef thread
