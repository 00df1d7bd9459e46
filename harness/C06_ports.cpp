// C06: data and signal ports under random topologies and histories, against a list-of-pending-deliveries model.
#include "simenv.hpp"
#include "sparta/ports/DataPort.hpp"
#include "sparta/ports/SignalPort.hpp"
#include "sparta/ports/PortSet.hpp"
#include "sparta/ports/Bus.hpp"
#include "sparta/ports/ExportedPort.hpp"
using namespace sparta;
namespace {
struct Pay {
    uint64_t id = 0; unsigned val = 0; std::string text; std::shared_ptr<uint64_t> own;
    Pay() {}
    Pay(uint64_t i, unsigned v) : id(i), val(v), text("payload-with-heap-storage-" + std::to_string(vf::mix64(i))), own(new uint64_t(i)) {}
    bool ok() const { return own && *own == id && text == "payload-with-heap-storage-" + std::to_string(vf::mix64(id)); }
    bool operator==(const Pay &o) const { return val == o.val; }
};
std::ostream &operator<<(std::ostream &o, const Pay &p) { return o << p.id; }

struct Tick0 {           // an event per phase that executes every cycle of its clock
    virtual ~Tick0() {} virtual void go(uint64_t) = 0; virtual Scheduleable &s() = 0;
};
template<SchedulingPhase P> struct TickOf : Tick0 {
    vf::Fn &f; Event<P> ev;
    TickOf(TreeNode *es, const std::string &n, vf::Fn &f_) : f(f_), ev(es, n, f.h()) {}
    void go(uint64_t d) override { ev.schedule(Clock::Cycle(d)); }
    Scheduleable &s() override { return ev; }
};
std::unique_ptr<Tick0> mkTick(unsigned ph, TreeNode *es, const std::string &n, vf::Fn &f)
{
#define P(X) case unsigned(SchedulingPhase::X): return std::unique_ptr<Tick0>(new TickOf<SchedulingPhase::X>(es, n, f));
    switch (ph) { P(Trigger) P(Update) P(PortUpdate) P(Flush) P(Collection) P(Tick) P(PostTick) }
#undef P
    throw vf::HarnessError("phase");
}
const unsigned PORTUPDATE = unsigned(SchedulingPhase::PortUpdate), TICK = unsigned(SchedulingPhase::Tick);

// Model of one in port.
struct Pend { uint64_t id; unsigned val; uint64_t due; };
struct InModel {
    unsigned phase; uint64_t delay; std::vector<Pend> pend; std::vector<uint64_t> imm; uint64_t got = 0;
    std::vector<Pend> busy;                 // deliveries being made: they may or may not count as in flight
    uint64_t lastTick = 0; bool any = false, valid = false; uint64_t lastId = 0;
};
} // namespace

VF_SECTION(data, 5000, 90000)
{
    Quiet q;
    vf::Multi m({{uint32_t(1 + ctx.rng.below(3)), uint32_t(1 + ctx.rng.below(3))}});
    const unsigned ci = ctx.rng.below(2); const uint64_t per = m.period[ci];
    PortSet ps(m.nodes[ci].get()); std::vector<std::unique_ptr<TreeNode>> extra;   // events must outlive the DAG's use of them
    const unsigned no = 1 + ctx.rng.below(3), ni = 1 + ctx.rng.below(4);
    std::vector<std::unique_ptr<DataOutPort<Pay>>> out; std::vector<std::unique_ptr<DataInPort<Pay>>> in;
    std::vector<InModel> im(ni); std::vector<std::vector<unsigned>> bound(no);
    std::vector<std::unique_ptr<vf::Fn1<Pay>>> hs;
    const bool presume = ctx.rng.chance(1, 2);
    for (unsigned i = 0; i < no; ++i) out.emplace_back(new DataOutPort<Pay>(&ps, "out" + std::to_string(i), presume));
    for (unsigned i = 0; i < ni; ++i) {
        im[i].delay = ctx.rng.of({0, 0, 1, 1, 2, 5});
        if (ctx.rng.chance(1, 2)) { im[i].phase = im[i].delay ? PORTUPDATE : TICK; in.emplace_back(new DataInPort<Pay>(&ps, "in" + std::to_string(i), im[i].delay)); }
        else { im[i].phase = ctx.rng.below(7); in.emplace_back(new DataInPort<Pay>(&ps, "in" + std::to_string(i), SchedulingPhase(im[i].phase), im[i].delay)); }
        VF_EQ(ctx, in[i]->getPortDelay(), im[i].delay, "delay", "port delay");
        VF_EQ(ctx, unsigned(in[i]->getDeliverySchedulingPhase()), im[i].phase, "phase", "delivery phase");
    }
    uint64_t nid = 1; std::string bad, badk; unsigned depth = 0, curphase = 0; bool running = false, quiet = false;
    auto err = [&](const char *k, const std::string &msg) { if (bad.empty()) { badk = k; bad = msg + " @" + std::to_string(m.now()); } };
    std::function<void()> act; std::function<bool(unsigned)> produced;
    for (unsigned i = 0; i < ni; ++i) {
        hs.emplace_back(new vf::Fn1<Pay>);
        hs[i]->f = [&, i](const Pay &p) {
            InModel &x = im[i]; const uint64_t now = m.now(); bool sched = false;
            ctx.obs(p.id * 31 + now * 7 + i); ++x.got;
            if (!p.ok()) err("modified", "value " + std::to_string(p.id) + " arrived modified");
            if (!x.imm.empty()) {
                if (x.imm.back() != p.id) err("wrong", "in" + std::to_string(i) + " got " + std::to_string(p.id) + " want immediate " + std::to_string(x.imm.back()));
                x.imm.pop_back();
            } else {
                size_t k = 0; while (k < x.pend.size() && x.pend[k].due != now) ++k;
                if (k == x.pend.size()) err("spurious", "in" + std::to_string(i) + " got " + std::to_string(p.id) + " at a tick nothing is due");
                else { if (x.pend[k].id != p.id) err("wrong", "in" + std::to_string(i) + " got " + std::to_string(p.id) + " want " + std::to_string(x.pend[k].id)); x.busy.push_back(x.pend[k]); sched = true; x.pend.erase(x.pend.begin() + k); }
                if (produced && produced(i)) err("precedence", "in" + std::to_string(i) + ", a zero-delay port, delivered before the registered producer of a port bound to it had fired in that tick");
            }
            if (m.sched.getCurrentSchedulingPhase() != SchedulingPhase(x.phase)) err("phase", "delivery in another phase");
            if (!in[i]->dataReceived() || !in[i]->dataReceivedThisCycle()) err("received", "dataReceived false inside the handler");
            else { if (in[i]->peekData().id != p.id) err("received", "peekData is another value"); if (in[i]->getReceivedTimeStamp() != now / per) err("received", "time stamp"); }
            x.any = true; x.valid = true; x.lastTick = now; x.lastId = p.id;
            if (!quiet && depth < 4 && ctx.rng.chance(1, 3)) { ++depth; unsigned save = curphase; curphase = x.phase; act(); curphase = save; --depth;
                if (!p.ok()) err("modified", "the value handed to a handler changed while the handler ran"); }
            if (sched) x.busy.pop_back();
        };
        if (ctx.rng.chance(9, 10) || i == 0) in[i]->registerConsumerHandler(hs[i]->h());
        else in[i]->registerConsumerHandler(hs[i]->h("other"));
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { in[i]->registerConsumerHandler(hs[i]->h()); }), "second-handler", "a second consumer handler was accepted");
    }
    // Producing and consuming events, for the order within a tick.
    std::vector<std::unique_ptr<vf::Fn>> tf; std::vector<std::unique_ptr<Tick0>> tk;
    for (unsigned ph = 0; ph < 7; ++ph) {
        tf.emplace_back(new vf::Fn);
        tf[ph]->f = [&, ph] { curphase = ph; tk[ph]->go(1); if (!quiet) { unsigned k = ctx.rng.below(3); while (k--) act(); } };
        tk.push_back(mkTick(ph, m.sets[ci].get(), "t" + std::to_string(ph), *tf[ph]));
    }
    vf::Fn prodf, consf; std::vector<std::pair<uint64_t, int>> seq;      // (tick, what) for in port 0
    const bool ordered = ctx.rng.chance(1, 3) && presume && im[0].delay == 0;
    std::unique_ptr<Tick0> prod, cons; uint64_t prodTick = ~0ull, consTick = ~0ull;
    if (ordered) {
        prodf.f = [&] { curphase = im[0].phase; prod->go(1); prodTick = m.now(); if (im[0].any && im[0].lastTick == m.now() && consTick != m.now() && false) {} if (!quiet) act(); };
        consf.f = [&] { cons->go(1); consTick = m.now(); if (prodTick != m.now()) err("precedence", "consumer before producer");
            for (auto &p : im[0].pend) if (p.due == m.now()) err("precedence", "the consumer event fired before a delivery due in its tick"); };
        prod = mkTick(im[0].phase, m.sets[ci].get(), "prod", prodf); cons = mkTick(im[0].phase, m.sets[ci].get(), "cons", consf);
        for (auto &o : out) o->registerProducingEvent(prod->s());
        in[0]->registerConsumerEvent(cons->s());
        produced = [&](unsigned i) {
            if (!running || im[i].delay || im[i].phase != im[0].phase) return false;
            bool b = false; for (auto &v : bound) for (auto k : v) b |= k == i;
            if (b) ctx.count("produced"); return b && prodTick != m.now();
        };
    }
    // Bindings: every out port at least one, every (out, in) pair at most once.
    for (unsigned o = 0; o < no; ++o) {
        std::vector<unsigned> v; for (unsigned i = 0; i < ni; ++i) v.push_back(i);
        ctx.rng.shuffle(v); v.resize(1 + ctx.rng.below(ni));
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { out[o]->send(Pay(0, 0)); }), "unbound", "send on an unbound port was accepted");
        for (auto i : v) {
            switch (ctx.rng.below(4)) {
                case 0: out[o]->bind(in[i].get()); break; case 1: in[i]->bind(*out[o]); break;
                case 2: sparta::bind(*out[o], *in[i]); break; default: sparta::bind(in[i].get(), out[o].get());
            }
            bound[o].push_back(i);
            VF_CHECK(ctx, out[o]->isAlreadyBound(in[i].get()) && out[o]->isBound() && in[i]->isBound(), "bound", "isBound after bind");
        }
        VF_EQ(ctx, out[o]->getNumBoundPorts(), v.size(), "bound", "number of bound ports");
        if (ctx.rng.chance(1, 8)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { sparta::bind(*out[o], *in[v[0]]); }), "rebind", "second binding of a pair was accepted");
    }
    if (ctx.rng.chance(1, 8)) {
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { in[0]->bind(*in[ni - 1]); }), "inin", "binding two in ports was accepted");
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { out[0]->bind(*out[no - 1]); }), "outout", "binding two out ports was accepted");
        auto &other = *new DataInPort<uint32_t>(&ps, "other"); extra.emplace_back(&other);
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { out[0]->bind(other); }), "types", "binding ports of different types was accepted");
    }
    for (unsigned o = 0; o < no; ++o) VF_CHECK(ctx, ps.getPort("out" + std::to_string(o)) == out[o].get(), "portset", "getPort");
    VF_EQ(ctx, ps.getPorts(Port::IN).size() >= ni, true, "portset", "registered in ports");
    m.finalize();

    auto sendOn = [&](unsigned o, uint64_t rel) {
        const uint64_t now = m.now();
        // a zero delay delivery to an earlier phase cannot be: skip or, with a single receiver, expect the refusal
        bool refuse = false;
        for (auto i : bound[o]) if (rel + im[i].delay == 0 && im[i].phase < unsigned(m.sched.getCurrentSchedulingPhase())) refuse = true;
        // nor one to the delivery event's own phase when it has to go through a group that was passed; the port delivers directly then
        Pay p(nid++, ctx.rng.below(4));
        if (refuse) {
            if (bound[o].size() == 1 && running) {
                if (!vf::throws<SpartaException>([&] { out[o]->send(p, rel); })) err("phase-refusal", "zero-cycle send to a past phase was accepted");
                ctx.count("refused");
            }
            return;
        }
        ctx.op([&](std::ostream &os) { os << "@" << now << " out" << o << ".send(" << p.id << ",+" << rel << ") phase " << int(m.sched.getCurrentSchedulingPhase()); });
        // The ports deliver in binding order; a direct delivery happens inside send and may itself send.
        // So the model is updated up front: direct ones are expected in order, scheduled ones are queued by due tick.
        const unsigned ph = unsigned(m.sched.getCurrentSchedulingPhase());
        std::vector<unsigned> direct;
        for (auto i : bound[o]) if (rel + im[i].delay == 0 && im[i].phase == ph) direct.push_back(i);
        if (direct.size() > 0 && depth >= 3) return;
        // nested sends made by direct handlers can reach a port before this send does: only the first direct
        // receiver may nest, and only if nothing is left to be sent after it
        bool save = quiet; if (bound[o].size() > 1 && !direct.empty()) quiet = true;
        for (auto i : bound[o]) {
            if (rel + im[i].delay == 0 && im[i].phase == ph) im[i].imm.push_back(p.id);
            else im[i].pend.push_back({p.id, p.val, now + (rel + im[i].delay) * per});
        }
        if (rel == 0 && ctx.rng.chance(1, 2)) out[o]->send(p); else out[o]->send(p, rel);
        quiet = save;
        for (auto i : direct) for (auto id : im[i].imm) if (id == p.id) err("lost", "a zero-cycle send was not delivered at once");
        ctx.count("sends"); if (!direct.empty()) ctx.count("direct");
    };
    uint64_t slack = 0;
    auto drop = [&](InModel &x, std::function<bool(const Pend &)> f) { uint64_t n = 0; for (auto &b : x.busy) slack += f(b); for (size_t k = 0; k < x.pend.size();) if (f(x.pend[k])) { x.pend.erase(x.pend.begin() + k); ++n; } else ++k; return n; };
    uint64_t ncancel = 0;
    act = [&] {
        const unsigned what = ctx.rng.below(20), o = ctx.rng.below(no), i = ctx.rng.below(ni);
        if (what < 12) { sendOn(o, ctx.rng.of<uint64_t>({0, 0, 1, 2, 3, 7})); return; }
        uint64_t want = 0, got = 0; slack = 0;
        if (what == 12) { want = drop(im[i], [](const Pend &) { return true; }); got = in[i]->cancel(); }
        else if (what == 13) { unsigned v = ctx.rng.below(4); want = drop(im[i], [v](const Pend &p) { return p.val == v; }); got = in[i]->cancelIf(Pay(0, v)); }
        else if (what == 14) { uint64_t k = ctx.rng.below(3); want = drop(im[i], [k](const Pend &p) { return p.id % 3 == k; }); got = in[i]->cancelIf([k](const Pay &p) { return p.id % 3 == k; }); }
        else if (what == 15 && ctx.rng.chance(1, 2)) {
            switch (ctx.rng.below(3)) {
                case 0: for (auto b : bound[o]) want += drop(im[b], [](const Pend &) { return true; }); got = out[o]->cancel(); break;
                case 1: { unsigned v = ctx.rng.below(4); for (auto b : bound[o]) want += drop(im[b], [v](const Pend &p) { return p.val == v; }); got = out[o]->cancelIf(Pay(0, v)); break; }
                default: { uint64_t k = ctx.rng.below(3); for (auto b : bound[o]) want += drop(im[b], [k](const Pend &p) { return p.id % 3 == k; }); got = out[o]->cancelIf([k](const Pay &p) { return p.id % 3 == k; }); }
            }
        }
        else if (what == 16) {
            uint64_t rel = ctx.rng.below(8), due = m.now() + rel * per; bool w = false;
            for (auto &p : im[i].pend) w |= p.due == due;
            if (in[i]->isDriven(rel) != w) err("driven", "in" + std::to_string(i) + ".isDriven(" + std::to_string(rel) + ")");
            bool w2 = false; for (auto b : bound[o]) for (auto &p : im[b].pend) w2 |= p.due == due;
            if (out[o]->isDriven(rel) != w2) err("driven", "out" + std::to_string(o) + ".isDriven(" + std::to_string(rel) + ")");
        }
        else if (what == 17) {
            if (im[i].busy.empty() && in[i]->isDriven() != !im[i].pend.empty()) err("driven", "in" + std::to_string(i) + ".isDriven()");
            bool w2 = false, bz = false; for (auto b : bound[o]) { w2 |= !im[b].pend.empty(); bz |= !im[b].busy.empty(); }
            if (!bz && out[o]->isDriven() != w2) err("driven", "out" + std::to_string(o) + ".isDriven()");
        }
        else {
            InModel &x = im[i];
            if (in[i]->dataReceived() != x.valid) err("received", "dataReceived");
            if (in[i]->dataReceivedThisCycle() != (x.valid && x.lastTick == m.now())) err("received", "dataReceivedThisCycle");
            if (x.valid && depth == 0) {
                if (in[i]->getReceivedTimeStamp() != x.lastTick / per) err("received", "getReceivedTimeStamp");
                if (what == 18) { if (in[i]->peekData().id != x.lastId || !in[i]->peekData().ok()) err("received", "peekData"); }
                else if (ctx.rng.chance(1, 2)) { Pay p = in[i]->pullData(); if (p.id != x.lastId || !p.ok()) err("received", "pullData"); x.valid = false; }
                else { in[i]->clearData(); x.valid = false; }
            } else if (!x.valid && !vf::throws<SpartaException>([&] { in[i]->peekData(); })) err("received", "peekData of nothing");
        }
        if (got < want || got > want + slack) err("cancel-count", "cancelled " + std::to_string(got) + " want " + std::to_string(want) + " kind " + std::to_string(what));
        if (want) ncancel += want;
    };
    for (unsigned ph = 0; ph < 7; ++ph) tk[ph]->go(0);
    if (ordered) { prod->go(0); cons->go(0); }
    const unsigned steps = 3 + ctx.rng.below(5);
    auto settle = [&] {
        VF_CHECK(ctx, bad.empty(), badk.c_str(), bad);
        for (unsigned i = 0; i < ni; ++i) { VF_CHECK(ctx, im[i].imm.empty(), "lost", "in" << i << ": direct delivery missing");
            for (auto &p : im[i].pend) VF_CHECK(ctx, p.due >= m.now(), "lost", "in" << i << ": value " << p.id << " due at " << p.due << " not delivered by " << m.now()); }
    };
    for (unsigned s = 0; s < steps; ++s) {
        running = true; m.sched.run(per * (1 + ctx.rng.below(6)), true); running = false;
        settle();
    }
    quiet = true; running = true;
    m.sched.run(per * 20, true);
    settle();
    for (unsigned i = 0; i < ni; ++i) VF_CHECK(ctx, im[i].pend.empty(), "lost", "in" << i << ": " << im[i].pend.size() << " deliveries never made");
    ctx.count("cancelled", ncancel); if (ordered) ctx.count("ordered");
    uint64_t g = 0; for (auto &x : im) g += x.got; ctx.count("deliveries", g);
}

VF_SECTION(signal, 3500, 60000)
{
    Quiet q;
    vf::Multi m({{uint32_t(1 + ctx.rng.below(3)), uint32_t(1 + ctx.rng.below(3))}});
    const unsigned ci = ctx.rng.below(2); const uint64_t per = m.period[ci];
    PortSet ps(m.nodes[ci].get()); std::vector<std::unique_ptr<TreeNode>> extra;   // events must outlive the DAG's use of them
    const unsigned no = 1 + ctx.rng.below(3), ni = 1 + ctx.rng.below(3);
    std::vector<std::unique_ptr<SignalOutPort>> out; std::vector<std::unique_ptr<SignalInPort>> in;
    struct SM { unsigned phase; uint64_t delay; std::map<uint64_t, unsigned> due; unsigned imm = 0; uint64_t got = 0, last = 0; bool valid = false; };
    std::vector<SM> im(ni); std::vector<std::vector<unsigned>> bound(no); std::vector<std::unique_ptr<vf::Fn>> hs;
    std::string bad, badk; auto err = [&](const char *k, const std::string &msg) { if (bad.empty()) { badk = k; bad = msg + " @" + std::to_string(m.now()); } };
    for (unsigned i = 0; i < no; ++i) out.emplace_back(new SignalOutPort(&ps, "out" + std::to_string(i)));
    bool quiet = false, running = false; unsigned depth = 0; std::function<void()> act; std::function<bool(unsigned)> produced;
    for (unsigned i = 0; i < ni; ++i) {
        im[i].delay = ctx.rng.of({0, 0, 1, 1, 2, 5});
        if (ctx.rng.chance(1, 2)) { im[i].phase = im[i].delay ? PORTUPDATE : TICK; in.emplace_back(new SignalInPort(&ps, "in" + std::to_string(i), im[i].delay)); }
        else { im[i].phase = ctx.rng.below(7); in.emplace_back(new SignalInPort(&ps, "in" + std::to_string(i), SchedulingPhase(im[i].phase), im[i].delay)); }
        hs.emplace_back(new vf::Fn);
        hs[i]->f = [&, i] {
            SM &x = im[i]; const uint64_t now = m.now(); ctx.obs(now * 7 + i); ++x.got;
            if (x.imm) --x.imm;
            else if (x.due.erase(now) == 0) err("spurious", "in" + std::to_string(i) + " got a signal at a tick nothing is due");
            else if (produced && produced(i)) err("precedence", "in" + std::to_string(i) + ", a zero-delay port, delivered before the registered producer of a port bound to it had fired in that tick");
            if (!in[i]->dataReceived() || !in[i]->dataReceivedThisCycle()) err("received", "dataReceived false inside the handler");
            x.valid = true; x.last = now;
            if (!quiet && depth < 3 && ctx.rng.chance(1, 4)) { ++depth; act(); --depth; }
        };
        in[i]->registerConsumerHandler(hs[i]->h());
    }
    std::vector<std::unique_ptr<vf::Fn>> tf; std::vector<std::unique_ptr<Tick0>> tk;
    for (unsigned ph = 0; ph < 7; ++ph) {
        tf.emplace_back(new vf::Fn);
        tf[ph]->f = [&, ph] { tk[ph]->go(1); if (!quiet) { unsigned k = ctx.rng.below(3); while (k--) act(); } };
        tk.push_back(mkTick(ph, m.sets[ci].get(), "t" + std::to_string(ph), *tf[ph]));
    }
    vf::Fn prodf, consf; std::unique_ptr<Tick0> prod, cons; uint64_t prodTick = ~0ull; const bool ordered = ctx.rng.chance(1, 3);
    if (ordered) {
        prodf.f = [&] { prod->go(1); prodTick = m.now(); if (!quiet) act(); };
        consf.f = [&] { cons->go(1); if (im[0].due.count(m.now())) err("precedence", "the consumer event fired before a signal due in its tick"); };
        prod = mkTick(im[0].phase, m.sets[ci].get(), "prod", prodf); cons = mkTick(im[0].phase, m.sets[ci].get(), "cons", consf);
        for (auto &o : out) o->registerProducingEvent(prod->s());
        in[0]->registerConsumerEvent(cons->s());
        produced = [&](unsigned i) {
            if (!running || im[i].delay || im[i].phase != im[0].phase) return false;
            bool b = false; for (auto &v : bound) for (auto k : v) b |= k == i;
            if (b) ctx.count("produced"); return b && prodTick != m.now();
        };
    }
    for (unsigned o = 0; o < no; ++o) {
        std::vector<unsigned> v; for (unsigned i = 0; i < ni; ++i) v.push_back(i);
        ctx.rng.shuffle(v); v.resize(1 + ctx.rng.below(ni));
        for (auto i : v) { if (ctx.rng.chance(1, 2)) out[o]->bind(*in[i]); else in[i]->bind(*out[o]); bound[o].push_back(i); }
    }
    if (ctx.rng.chance(1, 8)) {
        auto &other = *new DataInPort<uint32_t>(&ps, "other"); extra.emplace_back(&other);
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { out[0]->bind(other); }), "types", "binding a signal to a data port was accepted");
    }
    m.finalize();
    act = [&] {
        const unsigned o = ctx.rng.below(no); const uint64_t rel = ctx.rng.of<uint64_t>({0, 0, 1, 2, 3, 7}), now = m.now();
        const unsigned ph = unsigned(m.sched.getCurrentSchedulingPhase());
        if (ctx.rng.chance(1, 8)) {
            const unsigned i = ctx.rng.below(ni); SM &x = im[i];
            if (in[i]->dataReceived() != x.valid) err("received", "dataReceived");
            if (in[i]->dataReceivedThisCycle() != (x.valid && x.last == now)) err("received", "dataReceivedThisCycle");
            if (x.valid && depth == 0) { if (in[i]->getReceivedTimeStamp() != x.last / per) err("received", "time stamp"); in[i]->clearData(); x.valid = false; }
            return;
        }
        bool refuse = false; unsigned nd = 0;
        for (auto i : bound[o]) if (rel + im[i].delay == 0) { if (im[i].phase < ph) refuse = true; if (im[i].phase == ph) ++nd; }
        if (refuse) {
            if (bound[o].size() == 1 && running && !vf::throws<SpartaException>([&] { out[o]->send(rel); })) err("phase-refusal", "zero-cycle send to a past phase was accepted");
            return;
        }
        ctx.op([&](std::ostream &os) { os << "@" << now << " out" << o << ".send(+" << rel << ") phase " << ph; });
        bool save = quiet; if (nd) quiet = true;
        for (auto i : bound[o]) { if (rel + im[i].delay == 0 && im[i].phase == ph) ++im[i].imm; else ++im[i].due[now + (rel + im[i].delay) * per]; }
        out[o]->send(rel); quiet = save; ctx.count("sends");
        for (auto i : bound[o]) if (im[i].imm) err("lost", "a zero-cycle signal was not delivered at once");
    };
    for (unsigned ph = 0; ph < 7; ++ph) tk[ph]->go(0);
    if (ordered) { prod->go(0); cons->go(0); }
    auto settle = [&] {
        VF_CHECK(ctx, bad.empty(), badk.c_str(), bad);
        for (unsigned i = 0; i < ni; ++i) for (auto &p : im[i].due) VF_CHECK(ctx, p.first >= m.now(), "lost", "in" << i << ": signal due at " << p.first << " not delivered by " << m.now());
    };
    const unsigned steps = 3 + ctx.rng.below(5);
    for (unsigned s = 0; s < steps; ++s) { running = true; m.sched.run(per * (1 + ctx.rng.below(6)), true); running = false; settle(); }
    quiet = true; m.sched.run(per * 20, true); settle();
    for (unsigned i = 0; i < ni; ++i) VF_CHECK(ctx, im[i].due.empty(), "lost", "in" << i << ": signals never delivered");
    uint64_t g = 0; for (auto &x : im) g += x.got; ctx.count("deliveries", g);
}

// Long delays, exported ports and buses: plain conservation.
VF_SECTION(routes, 1500, 20000)
{
    Quiet q;
    vf::Multi m({{uint32_t(1 + ctx.rng.below(3)), uint32_t(1 + ctx.rng.below(3))}});
    const unsigned ci = ctx.rng.below(2); const uint64_t per = m.period[ci];
    struct Got { unsigned port; uint64_t id, tick; };
    std::vector<Got> got, want;
    TreeNode unitA(m.nodes[ci].get(), "ua", "a"), unitB(m.nodes[ci].get(), "ub", "b"), top(m.nodes[ci].get(), "ut", "t");
    PortSet pa(&unitA), pb(&unitB), pt(&top), pfar(m.nodes[1 - ci].get()); std::vector<std::unique_ptr<TreeNode>> extra;
    BusSet bsa(&unitA, "the buses"), bsb(&unitB, "the buses");
    Bus ba(&bsa, "left", TreeNode::GROUP_NAME_NONE, TreeNode::GROUP_IDX_NONE, "a bus"), bb(&bsb, "right", TreeNode::GROUP_NAME_NONE, TreeNode::GROUP_IDX_NONE, "a bus");
    std::vector<std::unique_ptr<DataOutPort<Pay>>> out; std::vector<std::unique_ptr<DataInPort<Pay>>> in;
    std::vector<std::unique_ptr<SignalOutPort>> sout; std::vector<std::unique_ptr<SignalInPort>> sin;
    std::vector<std::unique_ptr<vf::Fn1<Pay>>> hs; std::vector<std::unique_ptr<vf::Fn>> shs;
    std::vector<std::unique_ptr<ExportedPort>> ex; std::vector<std::pair<unsigned, unsigned>> route; // out -> in
    std::vector<uint64_t> delay, sdelay;
    const bool useBus = ctx.rng.chance(1, 2); const unsigned n = 1 + ctx.rng.below(3);
    auto addIn = [&](PortSet &p, const std::string &nm) {
        unsigned i = in.size(); delay.push_back(ctx.rng.below(4)); in.emplace_back(new DataInPort<Pay>(&p, nm, delay[i])); hs.emplace_back(new vf::Fn1<Pay>);
        hs[i]->f = [&, i](const Pay &v) { if (!v.ok()) ctx.fail("modified", "value arrived modified"); got.push_back({i, v.id, m.now()}); ctx.obs(v.id * 31 + m.now()); };
        in[i]->registerConsumerHandler(hs[i]->h());
    };
    auto addSIn = [&](PortSet &p, const std::string &nm) {
        unsigned i = sin.size(); sdelay.push_back(ctx.rng.below(4)); sin.emplace_back(new SignalInPort(&p, nm, sdelay[i])); shs.emplace_back(new vf::Fn);
        shs[i]->f = [&, i] { got.push_back({100 + i, 0, m.now()}); ctx.obs(m.now()); };
        sin[i]->registerConsumerHandler(shs[i]->h());
    };
    if (useBus) {
        const bool tail = ctx.rng.chance(1, 3);
        auto nm = [&](const char *dir, const std::string &b) { return tail ? b + "_" + dir : std::string(dir) + "_" + b; };
        for (unsigned k = 0; k < n; ++k) {
            bool fromA = ctx.rng.chance(1, 2); PortSet &po = fromA ? ba.getPortSet() : bb.getPortSet(), &pi = fromA ? bb.getPortSet() : ba.getPortSet();
            std::string b = std::string(1, 'p' + k) + "data";
            out.emplace_back(new DataOutPort<Pay>(&po, nm("out", b))); addIn(pi, nm("in", b)); route.push_back({k, k});
        }
        if (ctx.rng.chance(1, 3)) {       // a port without counterpart: refused as a whole
            DataOutPort<Pay> lone(&ba.getPortSet(), nm("out", "zlone"));
            bool t = vf::throws<SpartaException>([&] { bind(ba, bb); });
            VF_CHECK(ctx, t, "bus-unmatched", "binding buses with an unmatched port was accepted");
            for (auto &o : out) VF_CHECK(ctx, !o->isBound(), "bus-unmatched", "a refused bus binding bound some ports");
            return;
        }
        if (ctx.rng.chance(1, 2)) bind(ba, bb); else bind(bb, ba);
        ctx.count("bus");
    } else {
        for (unsigned k = 0; k < n; ++k) { out.emplace_back(new DataOutPort<Pay>(&pa, "o" + std::to_string(k))); addIn(pb, "i" + std::to_string(k)); route.push_back({k, k}); }
        for (unsigned k = 0; k < n; ++k) {
            Port *po = out[k].get(), *pi = in[k].get();
            switch (ctx.rng.below(3)) {
                case 0: ex.emplace_back(new ExportedPort(&pt, "eo" + std::to_string(k), out[k].get())); po = ex.back().get(); break;
                case 1: ex.emplace_back(new ExportedPort(&pt, ctx.rng.chance(1, 2) ? "eo" + std::to_string(k) : "o" + std::to_string(k), &unitA, "o" + std::to_string(k))); po = ex.back().get(); break;
                default: break;
            }
            switch (ctx.rng.below(3)) {
                case 0: ex.emplace_back(new ExportedPort(&pt, "ei" + std::to_string(k), in[k].get())); pi = ex.back().get(); break;
                case 1: ex.emplace_back(new ExportedPort(&pt, "ei" + std::to_string(k), &unitB, "i" + std::to_string(k))); pi = ex.back().get(); break;
                default: break;
            }
            const bool poEx = po != out[k].get(), piEx = pi != in[k].get();
            if (poEx && (piEx || ctx.rng.chance(1, 2))) { po->bind(pi); }
            else if (piEx) pi->bind(po);
            else if (poEx) po->bind(pi);
            else sparta::bind(po, pi);
            VF_CHECK(ctx, po->isBound() && pi->isBound(), "exported-bound", "isBound of an exported port");
            if (poEx) VF_CHECK(ctx, dynamic_cast<ExportedPort *>(po)->getInternalPort() == out[k].get() && po->getDirection() == Port::OUT, "exported", "resolution of the exported out port");
            if (piEx) VF_CHECK(ctx, dynamic_cast<ExportedPort *>(pi)->getInternalPort() == in[k].get() && pi->getDirection() == Port::IN, "exported", "resolution of the exported in port");
        }
        if (ctx.rng.chance(1, 4)) {
            ExportedPort bogus(&pt, "bogus", &unitA, "nosuch");
            VF_CHECK(ctx, vf::throws<SpartaException>([&] { bogus.bind(in[0].get()); }), "exported-missing", "an exported port without target was bound");
            VF_CHECK(ctx, !bogus.isBound(), "exported-missing", "a refused exported port says it is bound");
        }
        ctx.count("exported", ex.size());
    }
    sout.emplace_back(new SignalOutPort(&pa, "so")); addSIn(pb, "si"); sout[0]->bind(*sin[0]);
    // different frequencies are refused
    if (m.clks[0]->getFrequencyMhz() != m.clks[1]->getFrequencyMhz()) {
        auto &x = *new DataInPort<Pay>(&pfar, "far"); extra.emplace_back(&x);
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { out[0]->bind(x); }), "frequency", "binding across frequencies was accepted");
        ctx.count("freq-refused");
        // leave the tree without it
        m.finalize();
        m.sched.run(1, true);
        return;
    }
    m.finalize();
    m.sched.run(1, true);
    while (m.now() % per) m.sched.run(1, true);
    uint64_t id = 1;
    for (unsigned r = 0; r < 5; ++r) {
        const uint64_t now = m.now();
        for (unsigned k = 0; k < route.size(); ++k) {
            uint64_t rel = ctx.rng.of<uint64_t>({1, 2, 9, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x1ffffffffull, ctx.rng.below(1ull << 34) + 1});
            out[k]->send(Pay(id, 0), rel); want.push_back({k, id, now + (rel + delay[k]) * per}); ++id;
            ctx.op([&](std::ostream &o) { o << "@" << now << " send +" << rel; });
        }
        uint64_t rel = ctx.rng.of<uint64_t>({1, 2, 9, 0xffffffffull, 0x100000000ull, 0x100000007ull});
        uint64_t due = now + (rel + sdelay[0]) * per; sout[0]->send(rel);
        bool dup = false; for (auto &w : want) dup |= w.port == 100 && w.tick == due;
        if (!dup) want.push_back({100, 0, due});
        m.sched.run(per * (1 + ctx.rng.below(4)), true);
    }
    m.sched.run(per * (1ull << 36), true);
    auto cmp = [](const Got &a, const Got &b) { return std::tie(a.tick, a.port, a.id) < std::tie(b.tick, b.port, b.id); };
    for (size_t i = 1; i < got.size(); ++i) VF_CHECK(ctx, got[i - 1].tick <= got[i].tick, "order", "deliveries went back in time");
    std::sort(got.begin(), got.end(), cmp); std::sort(want.begin(), want.end(), cmp);
    VF_EQ(ctx, got.size(), want.size(), "long-count", "number of deliveries");
    for (size_t i = 0; i < got.size(); ++i) VF_CHECK(ctx, got[i].tick == want[i].tick && got[i].port == want[i].port && got[i].id == want[i].id, "long-delay",
        "delivery " << got[i].id << " on port " << got[i].port << " at " << got[i].tick << ", expected " << want[i].id << " on " << want[i].port << " at " << want[i].tick);
}
