// Minimal simulator set-up shared by harnesses that need a scheduler, a clock and a tree.
#pragma once
#include "vf.hpp"
#include "sparta/sparta.hpp"
#include "sparta/kernel/Scheduler.hpp"
#include "sparta/simulation/Clock.hpp"
#include "sparta/simulation/ClockManager.hpp"
#include "sparta/simulation/RootTreeNode.hpp"
#include "sparta/simulation/TreeNode.hpp"
#include "sparta/events/EventSet.hpp"
#include "sparta/events/Event.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/events/SingleCycleUniqueEvent.hpp"
#include "sparta/events/PayloadEvent.hpp"
#include "sparta/utils/SpartaException.hpp"
#include <memory>

// The framework logs notes to these streams; a monitor run has no reader for them.
struct Quiet {
    std::ostringstream sink; std::streambuf *o, *e;
    Quiet() { o = std::cout.rdbuf(sink.rdbuf()); e = std::cerr.rdbuf(sink.rdbuf()); }
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

namespace vf {
// A std::function reachable through the member-pointer based handler type of the framework.
struct Fn {
    std::function<void()> f;
    void call() { f(); }
    sparta::SpartaHandler h(const char *n = "vf::fn") { return sparta::SpartaHandler::from_member<Fn, &Fn::call>(this, n); }
};
template<class T> struct Fn1 {
    std::function<void(const T &)> f;
    void call(const T &t) { f(t); }
    sparta::SpartaHandler h(const char *n = "vf::fn1") { return sparta::SpartaHandler::from_member_1<Fn1, T, &Fn1::call>(this, n); }
};

// Scheduler, one clock of period one, a tree and an event set.
struct Env {
    sparta::Scheduler sched;
    sparta::Clock clk;
    sparta::RootTreeNode rtn;
    sparta::EventSet es;
    bool fin = false;
    Env() : sched("sched"), clk("clock", &sched), rtn("top"), es(&rtn) { rtn.setClock(&clk); }
    void finalize()
    {
        rtn.enterConfiguring();
        rtn.enterFinalized();
        sched.finalize();
        fin = true;
    }
    ~Env() { rtn.enterTeardown(); }
};

// Scheduler and a tree with one node (and event set) per clock; clock 0 is the root's.
struct Multi {
    sparta::Scheduler sched;
    sparta::ClockManager cm;
    sparta::RootTreeNode rtn;
    std::vector<sparta::Clock::Handle> clks;
    std::vector<uint64_t> period;
    std::vector<std::unique_ptr<sparta::TreeNode>> nodes;
    std::vector<std::unique_ptr<sparta::EventSet>> sets;
    // ratios: (parent cycles, own cycles) of the clocks below the root's
    explicit Multi(const std::vector<std::pair<uint32_t, uint32_t>> &ratios) : sched("sched"), cm(&sched), rtn("top")
    {
        auto root = cm.makeRoot(&rtn, "root_clk");
        clks.push_back(root);
        for (auto &r : ratios) clks.push_back(cm.makeClock("c" + std::to_string(clks.size()), root, r.first, r.second));
        cm.normalize();
        rtn.setClock(root.get());
        for (size_t i = 0; i < clks.size(); ++i) {
            period.push_back(clks[i]->getPeriod());
            nodes.emplace_back(new sparta::TreeNode(&rtn, "n" + std::to_string(i), "node"));
            nodes.back()->setClock(clks[i].get());
            sets.emplace_back(new sparta::EventSet(nodes.back().get()));
        }
    }
    void finalize() { rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize(); }
    ~Multi() { rtn.enterTeardown(); }
    uint64_t now() const { return sched.getCurrentTick(); }
};

inline std::unique_ptr<sparta::Scheduleable> nothing() { return {}; }
using PhaseT = sparta::SchedulingPhase;
// Creates an event of a run-time chosen phase.
template<template<sparta::SchedulingPhase> class EvT, class... A>
sparta::TreeNode *makeEvent(unsigned phase, sparta::Scheduleable *&sc, A &&...a)
{
#define VF_PH(P) case unsigned(PhaseT::P): { auto *e = new EvT<PhaseT::P>(std::forward<A>(a)...); sc = &e->getScheduleable(); return e; }
    switch (phase) {
        VF_PH(Trigger) VF_PH(Update) VF_PH(PortUpdate) VF_PH(Flush) VF_PH(Collection) VF_PH(Tick) VF_PH(PostTick)
    }
#undef VF_PH
    throw HarnessError("phase");
}
} // namespace vf
