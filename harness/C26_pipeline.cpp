// C26: pipeline collection databases against a model of what every collected location showed and when, read back with a
// parser of our own and with the reader of the viewer.
#include "simenv.hpp"
#include "sparta/collection/PipelineCollector.hpp"
#include "sparta/collection/Collectable.hpp"
#include "sparta/collection/DelayedCollectable.hpp"
#include "sparta/collection/IterableCollector.hpp"
#include "sparta/pairs/SpartaKeyPairs.hpp"
#include "sparta/resources/Buffer.hpp"
#include "sparta/resources/Queue.hpp"
#include "sparta/resources/Array.hpp"
#include "sparta/resources/CircularBuffer.hpp"
#include "sparta/resources/Pipe.hpp"
#include "sparta/resources/Pipeline.hpp"
#include "sparta/ports/DataPort.hpp"
#include "sparta/ports/SyncPort.hpp"
#include "sparta/ports/PortSet.hpp"
#include "helios/pipeViewer/pipe_view/transactiondb/src/Reader.hpp"
#include <deque>
#include <fstream>
#include <map>
#include <set>
using namespace sparta;
using collection::Collectable; using collection::IterableCollector; using collection::DelayedCollectable; using collection::CollectableTreeNode;
namespace c26 {
enum class Kind : uint16_t { ALU, FPU, LSU };
std::ostream &operator<<(std::ostream &o, const Kind &u) { static const char *n[] = {"alu", "Unit::FPU", "load store"}; return o << n[unsigned(u)]; }
class InstDef; class OpDef;
struct Inst {
    using SpartaPairDefinitionType = InstDef; uint64_t id = 0; uint32_t addr = 0; uint8_t small = 0; Kind unit = Kind::ALU; std::string text = "t"; bool done = false; double rate = 0;
    uint64_t getId() const { return id; } uint32_t getAddr() const { return addr; } uint8_t getSmall() const { return small; } Kind getUnit() const { return unit; } std::string getText() const { return text; } bool getDone() const { return done; } double getRate() const { return rate; }
};
class InstDef : public PairDefinition<Inst> { public: InstDef() { SPARTA_INVOKE_PAIRS(Inst); }
    SPARTA_REGISTER_PAIRS(SPARTA_ADDPAIR("DID", &Inst::getId), SPARTA_ADDPAIR("addr", &Inst::getAddr, std::ios::hex), SPARTA_ADDPAIR("small", &Inst::getSmall, std::ios::oct), SPARTA_ADDPAIR("unit", &Inst::getUnit), SPARTA_ADDPAIR("text", &Inst::getText), SPARTA_ADDPAIR("done", &Inst::getDone), SPARTA_ADDPAIR("rate", &Inst::getRate)) };
struct Op { using SpartaPairDefinitionType = OpDef; uint16_t tag = 0; std::string name = "n"; Inst inner; uint16_t getTag() const { return tag; } std::string getName() const { return name; } const Inst &getInner() const { return inner; } };
class OpDef : public PairDefinition<Op> { public: OpDef() { SPARTA_INVOKE_PAIRS(Op); }
    SPARTA_REGISTER_PAIRS(SPARTA_ADDPAIR("tag", &Op::getTag), SPARTA_ADDPAIR("name", &Op::getName), SPARTA_FLATTEN(&Op::getInner)) };
std::string oct(uint64_t v) { std::ostringstream s; s << "0" << std::oct << v; return s.str(); }
std::string hex(uint64_t v) { std::ostringstream s; s << "0x" << std::hex << v; return s.str(); }
std::string show(const Inst &i) { std::ostringstream s; s << "DID=" << i.id << "|addr=" << hex(i.addr) << "|small=" << oct(i.small) << "|unit=" << i.unit << "|text=" << i.text << "|done=" << (i.done ? "true" : "false") << "|rate=" << std::to_string(i.rate) << "|"; return s.str(); }
std::string show(const Op &o) { return "tag=" + std::to_string(o.tag) + "|name=" + o.name + "|" + show(o.inner); }
} // namespace c26
using namespace c26;
namespace {
struct Rec { uint64_t s, e; std::string text; };
struct Loc { // what one location should show
    TreeNode *node = nullptr; bool collected = false, open = false, pair = false; std::string text; uint64_t start = 0, parent = 0; std::vector<Rec> recs; bool did = false;
    void sample(uint64_t now, const std::string &t) { if (!collected || (open && t == text)) return; close(now); text = t; if (!t.empty()) { open = true; start = now; } }
    void close(uint64_t now, unsigned end = 0) { if (!collected || !open) return; if (start < now + end) recs.push_back({start, now + end, text}); open = false; }
};
struct Raw { transaction_t t; std::string text; uint64_t pos; };
struct Got { uint64_t s, e, id, disp, parent; uint32_t loc; uint16_t flags; std::string text; };
struct Catch : pipeViewer::PipelineDataCallback {
    std::vector<Got> got;
    void add(const transaction_t *t, std::string s) { got.push_back({t->time_Start, t->time_End, t->transaction_ID, t->display_ID, t->parent_ID, t->location_ID, t->flags, s}); }
    void foundInstRecord(const instruction_t *) override { throw SpartaException("instruction record"); }
    void foundMemRecord(const memoryoperation_t *) override { throw SpartaException("memory record"); }
    void foundAnnotationRecord(const annotation_t *a) override { add(a, a->annt); }
    void foundPairRecord(const pair_t *p) override { std::string s; for (size_t i = 1; i < p->length; ++i) s += p->nameVector.at(i) + "=" + p->stringVector.at(i) + "|"; add(p, s); }
};
// One thing the simulated model keeps in view.
struct Item { std::string name; unsigned clk; SchedulingPhase ph = SchedulingPhase::Collection; bool automatic = true; CollectableTreeNode *node = nullptr; std::vector<size_t> locs; std::function<void(vf::Rng &, uint64_t)> act; std::function<std::vector<std::string>()> view; bool on = false; uint64_t since = 0; };
struct World {
    vf::Ctx &ctx; vf::Rng &r; vf::Multi m; std::unique_ptr<collection::PipelineCollector> pc; uint64_t hb, hyper = 1; std::vector<Loc> locs; std::vector<Item> items; std::vector<std::shared_ptr<void>> keep;
    std::multimap<uint64_t, size_t> closes; std::multimap<uint64_t, std::function<void()>> delayed; std::string path; unsigned session = 0; bool active = false, opened = false; std::set<TreeNode *> started; vf::Fn mut, ctl; std::unique_ptr<UniqueEvent<SchedulingPhase::Update>> emut; std::unique_ptr<UniqueEvent<SchedulingPhase::PostTick>> ectl; uint64_t nrec = 0, splits = 0;
    World(vf::Ctx &c, vf::Rng &rr, const std::vector<std::pair<uint32_t, uint32_t>> &ratios) : ctx(c), r(rr), m(ratios) {}
    ~World() { try { if (pc) pc->destroy(); } catch (...) { pc.release(); } m.rtn.enterTeardown(); pc.reset(); emut.reset(); ectl.reset(); keep.clear(); } // a collector that is not destroyed aborts
    std::string txt() { static const char *w[] = {"", "a", "bb", "fetch 0x80", "line\nbreak", "x:y:z", "#3 u7 br"}; if (r.chance(1, 25)) return std::string(size_t(r.range(100, 3000)), char('a' + r.below(26))); return w[r.below(7)]; }
    Inst inst() { Inst i; i.id = r.chance(1, 2) ? r.below(5) : r.below(100000); i.addr = uint32_t(r.next()); i.small = uint8_t(r.next()); i.unit = Kind(r.below(3)); static const char *w[] = {"t", "a b", "mul x1, x2", ""}; i.text = w[r.below(4)]; i.done = r.chance(1, 2); i.rate = double(r.below(40)) / 8; return i; }
    size_t loc(TreeNode *n, bool pair = false, bool did = false, uint64_t parent = 0) { Loc l; l.node = n; l.pair = pair; l.did = did; l.parent = parent; locs.push_back(l); return locs.size() - 1; }
    uint64_t now() { return m.sched.getCurrentTick(); }
    void manualClose(size_t l, uint64_t when) { closes.emplace(when, l); }
    // ---- the collected things
    template <SchedulingPhase P> void autoString(unsigned ci, const std::string &nm)
    {
        auto obj = std::make_shared<std::string>(txt()); auto c = std::make_shared<Collectable<std::string, P>>(m.nodes[ci].get(), nm, obj.get(), 7); keep.push_back(obj); keep.push_back(c);
        Item it; it.name = nm; it.clk = ci; it.ph = P; it.node = c.get(); it.locs = {loc(c.get(), false, false, 7)}; auto *o = obj.get(); it.act = [this, o](vf::Rng &, uint64_t) { *o = txt(); }; it.view = [o] { return std::vector<std::string>{*o}; }; items.push_back(it);
    }
    void autoInt(unsigned ci, const std::string &nm)
    {
        auto obj = std::make_shared<uint32_t>(3); auto c = std::make_shared<Collectable<uint32_t>>(m.nodes[ci].get(), nm, obj.get()); keep.push_back(obj); keep.push_back(c);
        Item it; it.name = nm; it.clk = ci; it.node = c.get(); it.locs = {loc(c.get())}; auto *o = obj.get(); it.act = [o](vf::Rng &q, uint64_t) { *o = uint32_t(q.below(3)); }; it.view = [o] { return std::vector<std::string>{std::to_string(*o)}; }; items.push_back(it);
    }
    template <class T> void autoPair(unsigned ci, const std::string &nm, T (*gen)(World &), bool did)
    {
        auto obj = std::make_shared<T>(); auto c = std::make_shared<Collectable<T>>(m.nodes[ci].get(), nm, obj.get(), 5); keep.push_back(obj); keep.push_back(c);
        Item it; it.name = nm; it.clk = ci; it.node = c.get(); it.locs = {loc(c.get(), true, did, 5)}; auto *o = obj.get(); it.act = [this, o, gen](vf::Rng &, uint64_t) { *o = gen(*this); }; it.view = [o] { return std::vector<std::string>{show(*o)}; }; items.push_back(it);
    }
    // Values handed over by the model itself, with and without a duration (never while an earlier duration is pending).
    template <class C, class V> void manual(unsigned ci, const std::string &nm, V (*gen)(World &), std::string (*str)(const V &), bool pair, bool did)
    {
        auto c = std::make_shared<C>(m.nodes[ci].get(), nm, 9); keep.push_back(c); size_t l = loc(c.get(), pair, did, 9); Item it; it.name = nm; it.clk = ci; it.automatic = false; it.node = c.get(); it.locs = {l}; uint64_t p = m.period[ci]; auto busy = std::make_shared<uint64_t>(0); C *cp = c.get();
        it.act = [=, this](vf::Rng &q, uint64_t t) {
            if (t % p || t <= *busy) return; V v = gen(*this); unsigned k = unsigned(q.below(6));
            if (k == 0) { ctx.op("close", nm); cp->closeRecord(); locs[l].close(t); }
            else if (k < 3) { uint64_t d = q.below(5); ctx.op("collectWithDuration", nm, d); if (d && locs[l].collected) { manualClose(l, t + d * p); *busy = t + d * p; } cp->collectWithDuration(v, d); locs[l].sample(t, str(v)); ctx.count("values with a duration"); }
            else { ctx.op("collect", nm); cp->collect(v); locs[l].sample(t, str(v)); if (q.chance(1, 5)) { V w = gen(*this); cp->collect(w); locs[l].sample(t, str(w)); ctx.count("two values in a tick"); } }
        };
        items.push_back(it);
    }
    void delayedOne(unsigned ci, const std::string &nm)
    {
        using C = DelayedCollectable<std::string>; std::shared_ptr<C> c; uint64_t par = 11;
        if (r.chance(1, 2)) c = std::make_shared<C>(m.nodes[ci].get(), nm, par); else c = std::make_shared<C>(m.nodes[ci].get(), nm, "grp_" + nm, 3, par);
        keep.push_back(c); size_t l = loc(c.get(), false, false, par); Item it; it.name = nm; it.clk = ci; it.automatic = false; it.node = c.get(); it.locs = {l}; uint64_t p = m.period[ci]; auto busy = std::make_shared<uint64_t>(0); C *cp = c.get();
        it.act = [=, this](vf::Rng &q, uint64_t t) {
            if (t % p || (*busy && t <= *busy)) return; std::string v = txt(); uint64_t de = q.below(4), du = q.chance(1, 2) ? q.below(4) : 0; bool dur = q.chance(1, 2); ctx.op("delayed", nm, de, dur ? int(du) : -1); bool on = locs[l].collected;
            if (dur) { cp->collectWithDuration(v, de, du); } else { cp->collect(v, de); du = 0; }
            if (!on) return;
            auto go = [=, this] { uint64_t n = now(); if (dur && du && locs[l].collected) manualClose(l, n + du * p); locs[l].sample(n, v); };
            if (de) delayed.emplace(t + de * p, go); else go();
            *busy = t + (de + (dur ? du : 0)) * p; ctx.count("delayed values");
        };
        items.push_back(it);
    }
    template <class It> void iterable(unsigned ci, const std::string &nm, std::shared_ptr<It> col, size_t cap, std::function<void(vf::Rng &)> change, std::function<std::vector<std::string>()> view, bool automatic = true)
    {
        keep.push_back(col); Item it; it.name = nm; it.clk = ci; it.automatic = automatic; it.node = col.get(); size_t n = 0; std::vector<TreeNode *> ch; for (auto c : TreeNodePrivateAttorney::getAllChildren(col.get())) if (dynamic_cast<CollectableTreeNode *>(c)) { ch.push_back(c); ++n; }
        VF_EQ(ctx, n, cap, "iterable/positions", "positions of " << nm); for (auto c : ch) it.locs.push_back(loc(c)); auto *cp = col.get(); auto ls = it.locs; uint64_t p = m.period[ci]; size_t idx = items.size();
        it.view = [view, cap] { auto v = view(); v.resize(cap); return v; };
        if (automatic) it.act = [change](vf::Rng &q, uint64_t) { change(q); };
        else { auto busy = std::make_shared<uint64_t>(0); it.act = [=, this](vf::Rng &q, uint64_t t) {
            change(q); if (t % p || t <= *busy || !q.chance(1, 2)) return; auto v = view(); v.resize(cap); if (q.chance(1, 3)) { uint64_t d = q.below(4); ctx.op("iterable for", nm, d); cp->collectWithDuration(d); if (d && items[idx].on) { for (auto l : ls) manualClose(l, t + d * p); *busy = t + d * p; } } else { ctx.op("iterable", nm); cp->collect(); }
            if (items[idx].on) for (size_t i = 0; i < ls.size(); ++i) at(ls[i], t, v[i]); }; }
        items.push_back(it);
    }
    // A container which made its own collector.
    void enabled(unsigned ci, const std::string &nm, size_t cap, std::function<void(vf::Rng &)> change, std::function<std::vector<std::string>()> view)
    {
        auto n = dynamic_cast<CollectableTreeNode *>(m.nodes[ci]->getChild(nm)); VF_CHECK(ctx, n, "enabled/node", "no collectable " << nm); Item it; it.name = nm; it.clk = ci; it.node = n;
        for (auto c : TreeNodePrivateAttorney::getAllChildren(n)) if (dynamic_cast<CollectableTreeNode *>(c)) it.locs.push_back(loc(c));
        VF_EQ(ctx, it.locs.size(), cap, "iterable/positions", "positions of " << nm); it.view = [view, cap] { auto v = view(); v.resize(cap); return v; }; it.act = [change](vf::Rng &q, uint64_t) { change(q); }; items.push_back(it); ctx.count("containers with their own collector");
    }
    template <class T> std::shared_ptr<T> hold(std::shared_ptr<T> p) { keep.push_back(p); return p; }
    static std::string str(uint32_t v) { return std::to_string(v); }
    void resource(unsigned kind, unsigned c, const std::string &nm)
    {
        TreeNode *n = m.nodes[c].get(); const Clock *k = m.clks[c].get(); size_t cap = size_t(r.range(1, 5)); using V = std::vector<std::string>;
        switch (kind) {
        case 0: { auto b = hold(std::make_shared<Queue<uint32_t>>(nm, cap, k)).get(); b->enableCollection(n); enabled(c, nm, cap, [b](vf::Rng &q) { if (b->size() && q.chance(1, 2)) { if (q.chance(1, 3)) b->pop_back(); else b->pop(); } else if (b->numFree()) b->push(uint32_t(q.below(20))); if (q.chance(1, 20)) b->clear(); }, [b] { V o; for (uint32_t i = 0; i < b->size(); ++i) o.push_back(str(b->read(i))); return o; }); break; }
        case 1: { // a buffer which is moved to another place now and then
            auto h = hold(std::make_shared<std::unique_ptr<Buffer<uint32_t>>>(new Buffer<uint32_t>(nm, cap, k))).get(); (*h)->enableCollection(n); auto *cx = &ctx; enabled(c, nm, cap, [h, cx](vf::Rng &q) { auto &b = **h; if (b.size() && q.chance(1, 2)) b.erase(uint32_t(q.below(b.size()))); else if (b.numFree()) b.insert(uint32_t(q.below(b.size() + 1)), uint32_t(q.below(20))); if (q.chance(1, 8)) { h->reset(new Buffer<uint32_t>(std::move(b))); cx->count("collected buffers moved"); } }, [h] { V o; for (uint32_t i = 0; i < (*h)->size(); ++i) o.push_back(str((*h)->read(i))); return o; }); break; }
        case 2: { auto b = hold(std::make_shared<CircularBuffer<uint32_t>>(nm, cap, k)).get(); auto d = hold(std::make_shared<std::deque<uint32_t>>()).get(); b->enableCollection(n); enabled(c, nm, cap, [=](vf::Rng &q) { if (d->size() && q.chance(1, 2)) { size_t i = q.below(d->size()); b->erase(std::next(b->begin(), long(i))); d->erase(d->begin() + long(i)); } else if (d->size() < cap) { uint32_t v = uint32_t(q.below(20)); b->push_back(v); d->push_back(v); } }, [d] { V o; for (auto v : *d) o.push_back(str(v)); return o; }); break; }
        case 3: { // an aged array shows its positions and its entries in order of age
            using A = Array<uint32_t, ArrayType::AGED>; auto b = hold(std::make_shared<A>(nm, cap, k)).get(); auto ages = hold(std::make_shared<std::vector<uint32_t>>()).get(); b->enableCollection(n);
            enabled(c, nm, cap, [=](vf::Rng &q) { uint32_t i = uint32_t(q.below(cap)); if (b->isValid(i)) { b->erase(i); ages->erase(std::find(ages->begin(), ages->end(), i)); } if (q.chance(1, 2)) { b->write(i, uint32_t(q.below(20))); ages->push_back(i); } }, [=] { V o; for (uint32_t i = 0; i < cap; ++i) o.push_back(b->isValid(i) ? str(b->read(i)) : ""); return o; });
            enabled(c, nm + "_age_ordered", cap, [](vf::Rng &) {}, [=] { V o; for (auto i : *ages) o.push_back(str(b->read(i))); return o; }); break; }
        case 4: { auto b = hold(std::make_shared<Pipe<uint32_t>>(nm, cap, k)).get(); auto d = hold(std::make_shared<std::pair<std::vector<std::optional<uint32_t>>, std::optional<uint32_t>>>()).get(); d->first.resize(cap); bool ph = r.chance(1, 2); if (ph) b->enableCollection<SchedulingPhase::Tick>(n); else b->enableCollection(n);
            enabled(c, nm, cap, [=](vf::Rng &q) {
                if (!d->second && q.chance(1, 2)) { d->second = uint32_t(q.below(20)); b->append(*d->second); } if (q.chance(1, 6)) { uint32_t i = uint32_t(q.below(cap)); if (d->first[i]) { b->invalidatePS(i); d->first[i].reset(); } else { d->first[i] = 7; b->writePS(i, 7); } }
                if (q.chance(2, 3)) { b->update(); d->first.pop_back(); d->first.insert(d->first.begin(), d->second); d->second.reset(); } }, [d] { V o; for (auto &x : d->first) o.push_back(x ? str(*x) : ""); return o; });
            if (ph) items.back().ph = SchedulingPhase::Tick; break; }
        case 5: { auto b = hold(std::make_shared<Pipeline<uint32_t>>(nm, cap, k)).get(); auto d = hold(std::make_shared<std::pair<std::vector<std::optional<uint32_t>>, std::optional<uint32_t>>>()).get(); d->first.resize(cap); b->enableCollection(n);
            enabled(c, nm, cap, [=](vf::Rng &q) {
                if (!d->second && q.chance(1, 2)) { d->second = uint32_t(q.below(20)); b->append(*d->second); } if (q.chance(1, 6)) { uint32_t i = uint32_t(q.below(cap)); if (d->first[i]) { b->invalidateStage(i); d->first[i].reset(); } else { d->first[i] = 7; b->writeStage(i, 7); } }
                if (q.chance(2, 3)) { b->update(); d->first.pop_back(); d->first.insert(d->first.begin(), d->second); d->second.reset(); } }, [d] { V o; for (auto &x : d->first) o.push_back(x ? str(*x) : ""); return o; }); break; }
        default: port(kind == 6, c, nm); } 
    }
    // A pair of ports: the data which arrives, and for clocked ports the data which leaves, is shown.
    struct Ends { std::unique_ptr<TreeNode> n; std::unique_ptr<PortSet> ps; std::unique_ptr<DataOutPort<std::string>> dout; std::unique_ptr<DataInPort<std::string>> din; std::unique_ptr<SyncOutPort<std::string>> sout; std::unique_ptr<SyncInPort<std::string>> sin; vf::Fn1<std::string> got; uint64_t next = 0; std::vector<size_t> locs; };
    void port(bool data, unsigned c, const std::string &nm)
    {
        auto e = hold(std::make_shared<Ends>()).get(); TreeNode *n = m.nodes[c].get(); const Clock *k = m.clks[c].get(); uint64_t p = m.period[c]; e->n.reset(new TreeNode(n, nm + "_unit", "unit")); e->ps.reset(new PortSet(e->n.get()));
        auto node = [&](const std::string &s) { auto x = dynamic_cast<CollectableTreeNode *>(n->getChild(s)); VF_CHECK(ctx, x, "enabled/node", "no collectable " << s); Item it; it.name = s; it.clk = c; it.automatic = false; it.node = x; it.locs = {loc(x)}; e->locs.push_back(it.locs[0]); items.push_back(it); };
        if (data) {
            e->dout.reset(new DataOutPort<std::string>(e->ps.get(), nm + "o")); e->din.reset(new DataInPort<std::string>(e->ps.get(), nm + "i")); sparta::bind(e->dout.get(), e->din.get()); e->din->enableCollection(n); node(nm + "i"); size_t l = e->locs[0];
            e->got.f = [=, this](const std::string &s) { locs[l].sample(now(), s); ctx.count("port data seen"); }; e->din->registerConsumerHandler(e->got.h());
            items.back().act = [=, this](vf::Rng &q, uint64_t t) { if (t % p) return; for (unsigned i = unsigned(q.below(3)); i; --i) { auto v = txt(); uint64_t d = q.below(4); ctx.op("send", nm, d); e->dout->send(v, d); } };
        } else {
            e->sout.reset(new SyncOutPort<std::string>(e->ps.get(), nm + "o", k)); e->sin.reset(new SyncInPort<std::string>(e->ps.get(), nm + "i", k)); sparta::bind(e->sout.get(), e->sin.get()); e->sin->enableCollection(n); e->sout->enableCollection(n); node(nm + "i"); node(nm + "o"); size_t l = e->locs[0], o = e->locs[1];
            e->got.f = [=, this](const std::string &s) { if (locs[l].collected) manualClose(l, now() + p); locs[l].sample(now(), s); ctx.count("port data seen"); }; e->sin->registerConsumerHandler(e->got.h());
            items.back().act = [=, this](vf::Rng &q, uint64_t t) {
                if (t % p || t < e->next) return; auto v = txt(); uint64_t d = q.chance(1, 2) ? 0 : q.below(4); ctx.op("sync send", nm, d); bool on = locs[o].collected; e->sout->send(v, d); e->next = t + (d + 1) * p; if (!on) return;
                auto go = [=, this] { uint64_t w = now(); if (locs[o].collected) manualClose(o, w + p); locs[o].sample(w, v); }; if (d) delayed.emplace(t + d * p, go); else go(); };
        }
    }
    void at(size_t l, uint64_t t, const std::string &s) { if (s.empty()) locs[l].close(t); else locs[l].sample(t, s); }
    // ---- the model's time
    void autos(SchedulingPhase ph, uint64_t t) { for (auto &it : items) if (it.automatic && it.on && it.ph == ph && t % m.period[it.clk] == 0 && t > it.since) { auto v = it.view(); if (it.locs.size() == 1 && it.node == locs[it.locs[0]].node) locs[it.locs[0]].sample(t, v[0]); else for (size_t i = 0; i < it.locs.size(); ++i) at(it.locs[i], t, v[i]); ctx.count("automatic samples", v.size()); } }
    void tick()
    {
        uint64_t t = now(); auto c = closes.equal_range(t); for (auto i = c.first; i != c.second; ++i) locs[i->second].close(t); closes.erase(c.first, c.second);
        autos(SchedulingPhase::Trigger, t);
        for (auto &it : items) if (it.act && r.chance(1, 3)) it.act(r, t);
        for (auto ph : {SchedulingPhase::PortUpdate, SchedulingPhase::Flush}) autos(ph, t);
        autos(SchedulingPhase::Collection, t); autos(SchedulingPhase::Tick, t);
        emut->scheduleRelativeTick(1, &m.sched);
    }
    void late() { uint64_t t = now(); auto d = delayed.equal_range(t); std::vector<std::function<void()>> fs; for (auto i = d.first; i != d.second; ++i) fs.push_back(i->second); delayed.erase(d.first, d.second); for (auto &f : fs) f(); if (t % hyper == 0) control(t, true); ectl->scheduleRelativeTick(1, &m.sched); }
    bool below(TreeNode *n, TreeNode *top) { for (; n; n = n->getParent()) if (n == top) return true; return false; }
    TreeNode *some() { switch (r.below(5)) { case 0: case 1: return &m.rtn; case 2: return m.nodes[r.below(m.nodes.size())].get(); case 3: return r.pick(items).node; default: return r.pick(locs).node; } }
    void start(TreeNode *n, uint64_t t)
    {
        ctx.op("start", n->getLocation(), t); 
        pc->startCollection(n);
        for (auto &it : items) if (below(it.node, n)) { if (!it.on) it.since = t; it.on = true; }
        for (auto &l : locs) if (below(l.node, n)) { if (!l.collected) { l.collected = true; l.open = false; } }
        opened = true; active = true; for (auto &l : locs) if (l.collected) started.insert(l.node);
    }
    bool anyOn() { for (auto &it : items) if (it.on) return true; for (auto &l : locs) if (l.collected) return true; return false; }
    void stopped(TreeNode *n, uint64_t t) { for (auto &it : items) if (below(it.node, n)) { if (it.on) for (auto l : it.locs) locs[l].close(t); it.on = false; } for (auto &l : locs) if (below(l.node, n)) { l.close(t); l.collected = false; } }
    void control(uint64_t t, bool inside)
    {
        unsigned k = unsigned(r.below(inside ? 60 : 2));
        if (k < 2) start(some(), t);
        else if (k == 6 ? !opened : !active) return;
        else if (k < 5) { TreeNode *n = some(); ctx.op("stop", n->getLocation(), t); pc->stopCollection(n); stopped(n, t); active = anyOn(); ctx.count("partial stops"); }
        else if (k == 5) { ctx.op("stop all", t); pc->stopCollection(); stopped(&m.rtn, t); ctx.count("full stops"); }
        else if (k == 6 && r.chance(1, 2)) { ctx.op("new session", t); if (r.chance(1, 2)) pc->stopCollection(); else pc->stopCollection(&m.rtn); stopped(&m.rtn, t); pc->destroy(); active = false; verify(); path = ctx.scratch + "/s" + std::to_string(++session) + "_"; pc->reactivate(path); ctx.count("sessions reactivated"); }
    }
    // ---- reading it back
    std::string slurp(const std::string &f) { std::ifstream i(path + f, std::ios::binary); VF_CHECK(ctx, bool(i), "files/missing", "no file " << f); std::stringstream s; s << i.rdbuf(); return s.str(); }
    static std::vector<std::string> split(const std::string &s, char c, size_t max = ~size_t(0)) { std::vector<std::string> v; size_t b = 0; while (v.size() + 1 < max) { size_t e = s.find(c, b); if (e == std::string::npos) break; v.push_back(s.substr(b, e - b)); b = e + 1; } v.push_back(s.substr(b)); return v; }
    static std::vector<std::string> lines(const std::string &s) { std::vector<std::string> v = split(s, '\n'); if (!v.empty() && v.back().empty()) v.pop_back(); return v; }
    void verify()
    {
        if (!opened) return; opened = false; std::string rec = slurp("record.bin"), idx = slurp("index.bin");
        // auxiliary tables
        std::map<uint32_t, unsigned> lm; for (auto &l : lines(slurp("map.dat"))) { auto f = split(l, ':'); VF_CHECK(ctx, f.size() == 2 && lm.emplace(std::stoul(f[0]), std::stoul(f[1])).second, "files/map", "line of map.dat: " << l); }
        struct Fd { std::string n; unsigned sz; bool str; int fmt = 0; }; std::map<unsigned, std::vector<Fd>> defs; for (auto &l : lines(slurp("data.dat"))) { auto f = split(l, ':'); unsigned n = unsigned(std::stoul(f.at(1))); std::vector<Fd> d; VF_EQ(ctx, f.size(), 2 + 3 * size_t(n), "files/data", "fields in line of data.dat: " << l); for (unsigned i = 0; i < n; ++i) d.push_back({f[2 + 3 * i], unsigned(std::stoul(f[3 + 3 * i])), f[4 + 3 * i] == "1"}); VF_CHECK(ctx, defs.emplace(std::stoul(f[0]), d).second, "files/data", "two definitions of pair " << f[0]); }
        for (auto &l : lines(slurp("display_format.dat"))) { auto f = split(l, ':'); auto it = defs.find(unsigned(std::stoul(f[0]))); VF_CHECK(ctx, it != defs.end() && it->second.size() == f.size() - 1, "files/format", "line of display_format.dat: " << l); for (size_t i = 1; i < f.size(); ++i) it->second[i - 1].fmt = std::stoi(f[i]); }
        std::map<std::array<uint64_t, 3>, std::string> sm; for (auto &l : lines(slurp("string_map.dat"))) { auto f = split(l, ':', 4); VF_CHECK(ctx, f.size() == 4 && sm.emplace(std::array<uint64_t, 3>{std::stoull(f[0]), std::stoull(f[1]), std::stoull(f[2])}, f[3]).second, "files/strings", "line of string_map.dat: " << l); }
        // index
        VF_CHECK(ctx, idx.size() >= 36 && idx.substr(0, 28) == "sparta_pipeout_version:   2\n" && (idx.size() - 36) % 8 == 0, "index/header", "header of index.bin"); auto u64 = [&](size_t o) { uint64_t v; std::memcpy(&v, idx.data() + o, 8); return v; }; if (!hb) { hb = u64(28); VF_CHECK(ctx, hb && hb % 100 == 0, "index/interval", "default interval " << hb); } VF_EQ(ctx, u64(28), hb, "index/interval", "interval in index.bin"); std::vector<uint64_t> ix; for (size_t o = 36; o < idx.size(); o += 8) ix.push_back(u64(o));
        // records
        std::vector<Raw> raw; size_t p = 0; auto need = [&](size_t n) { VF_CHECK(ctx, p + n <= rec.size(), "records/truncated", "record.bin ends within a record at " << p); };
        std::map<uint32_t, Loc *> byId; for (auto &l : locs) byId[uint32_t(l.node->getNodeUID())] = &l;
        while (p < rec.size()) {
            Raw x; x.pos = p; need(sizeof(transaction_t)); std::memcpy(static_cast<void *>(&x.t), rec.data() + p, sizeof(transaction_t)); p += sizeof(transaction_t); auto it = byId.find(x.t.location_ID); VF_CHECK(ctx, it != byId.end(), "records/location", "record of unknown location " << x.t.location_ID); Loc &l = *it->second;
            VF_EQ(ctx, unsigned(x.t.flags & TYPE_MASK), unsigned(l.pair ? is_Pair : is_Annotation), "records/type", "type of a record of " << l.node->getLocation()); VF_EQ(ctx, x.t.parent_ID, l.parent, "records/parent", "parent of " << l.node->getLocation());
            if (!l.pair) { uint16_t n; need(2); std::memcpy(&n, rec.data() + p, 2); p += 2; need(n); x.text = rec.substr(p, n); p += n; VF_EQ(ctx, x.t.display_ID, 0x1000, "records/display", "display id of an annotation"); }
            else {
                VF_CHECK(ctx, lm.count(x.t.location_ID) && defs.count(lm[x.t.location_ID]), "files/definition", "location " << l.node->getLocation() << " has no pair definition"); unsigned id = lm[x.t.location_ID], i = 0; uint64_t did = 0;
                for (auto &f : defs[id]) { x.text += f.n + "="; if (f.str) { uint16_t n; need(2); std::memcpy(&n, rec.data() + p, 2); p += 2; need(n); x.text += rec.substr(p, n); p += n; } else { uint64_t v = 0; VF_CHECK(ctx, f.sz <= 8, "files/size", "size of " << f.n); need(f.sz); std::memcpy(&v, rec.data() + p, f.sz); p += f.sz; if (!i) did = v; auto s = sm.find({id, i, v}); x.text += s != sm.end() ? s->second : f.fmt == 2 ? hex(v) : f.fmt == 1 ? oct(v) : std::to_string(v); } x.text += "|"; ++i; }
                VF_EQ(ctx, x.t.display_ID, l.did ? (did & 0xfff) : 0x1000, "records/display", "display id");
            }
            VF_CHECK(ctx, x.t.time_Start < x.t.time_End, "records/empty", "a record from " << x.t.time_Start << " to " << x.t.time_End); VF_CHECK(ctx, x.t.time_Start / hb == (x.t.time_End - 1) / hb, "records/chunk", "record [" << x.t.time_Start << "," << x.t.time_End << ") spans heartbeats of " << hb);
            if (!raw.empty()) VF_CHECK(ctx, x.t.transaction_ID > raw.back().t.transaction_ID, "records/ids", "transaction id " << x.t.transaction_ID << " after " << raw.back().t.transaction_ID);
            raw.push_back(x);
        }
        VF_CHECK(ctx, ix.size() >= 2, "index/entries", "only " << ix.size() << " index entries"); VF_EQ(ctx, ix.back(), raw.empty() ? 0 : raw.back().pos, "index/last", "position of the last record"); ix.pop_back();
        for (auto &x : raw) { uint64_t c = x.t.time_Start / hb; VF_CHECK(ctx, c < ix.size(), "index/short", "record of chunk " << c << " but " << ix.size() << " index entries"); VF_CHECK(ctx, x.pos >= ix[c] && (c + 1 >= ix.size() || x.pos < ix[c + 1]), "index/position", "record at " << x.pos << " of chunk " << c << " is not between " << ix[c] << " and " << (c + 1 < ix.size() ? ix[c + 1] : rec.size())); }
        // what each location showed
        std::map<uint32_t, std::vector<Rec>> tl; std::map<uint32_t, bool> cont;
        for (auto &x : raw) { auto &v = tl[x.t.location_ID]; bool &c = cont[x.t.location_ID]; if (c) { VF_CHECK(ctx, v.back().e == x.t.time_Start && v.back().text == x.text && x.t.time_Start % hb == 0, "records/continued", "the record of " << byId[x.t.location_ID]->node->getLocation() << " continued at " << v.back().e << " goes on at " << x.t.time_Start); v.back().e = x.t.time_End; ++splits; } else v.push_back({x.t.time_Start, x.t.time_End, x.text}); c = x.t.flags & CONTINUE_FLAG; if (c) VF_EQ(ctx, x.t.time_End % hb, 0, "records/continued", "continued record ends at " << x.t.time_End); }
        for (auto &c : cont) VF_CHECK(ctx, !c.second, "records/continued", "continued record of " << byId[c.first]->node->getLocation() << " never ends");
        for (auto &l : locs) {
            auto &g = tl[uint32_t(l.node->getNodeUID())]; size_t n = std::min(g.size(), l.recs.size());
            for (size_t i = 0; i < n; ++i) VF_CHECK(ctx, g[i].s == l.recs[i].s && g[i].e == l.recs[i].e && g[i].text == l.recs[i].text, "records/content", l.node->getLocation() << " record " << i << " is [" << g[i].s << "," << g[i].e << ") \"" << g[i].text << "\" not [" << l.recs[i].s << "," << l.recs[i].e << ") \"" << l.recs[i].text << "\"");
            VF_EQ(ctx, g.size(), l.recs.size(), "records/number", "records of " << l.node->getLocation() << (g.size() < l.recs.size() ? " next expected from " + std::to_string(l.recs[n].s) : g.size() > l.recs.size() ? " next found from " + std::to_string(g[n].s) : "")); nrec += n; ctx.obs(n); l.recs.clear();
        }
        // names of locations and clocks
        std::set<std::string> ll; for (auto &l : lines(slurp("location.dat"))) ll.insert(l); VF_CHECK(ctx, ll.count("1 # Version Number"), "files/location", "version of location.dat");
        for (auto n : started) { auto line = std::to_string(n->getNodeUID()) + "," + n->getLocation() + "," + std::to_string(n->getClock()->getNodeUID()); VF_CHECK(ctx, ll.count(line), "files/location", "location.dat lacks " << line); if (!n->getGroup().empty()) VF_CHECK(ctx, ll.count(std::to_string(n->getNodeUID()) + "," + n->getParent()->getLocation() + "." + n->getGroup() + "[" + std::to_string(n->getGroupIdx()) + "]," + std::to_string(n->getClock()->getNodeUID())), "files/location", "location.dat lacks the group entry of " << line); }
        started.clear(); std::set<std::string> cl; for (auto &l : lines(slurp("clock.dat"))) cl.insert(l);
        for (auto &k : m.clks) { std::ostringstream o; o << k->getNodeUID() << "," << k->getName() << "," << k->getPeriod() << "," << k->getRatio().getNumerator() << "," << k->getRatio().getDenominator(); VF_CHECK(ctx, cl.count(o.str()), "files/clock", "clock.dat lacks " << o.str()); }
        // the reader of the viewer
        if (raw.empty()) { ctx.count("empty databases"); return; }
        auto rd = pipeViewer::Reader::construct<Catch>(path); VF_EQ(ctx, rd.getChunkSize(), hb, "reader/interval", "interval"); VF_EQ(ctx, rd.getVersion(), 2, "reader/version", "version"); VF_EQ(ctx, rd.getCycleLast(), raw.back().t.time_End - 1, "reader/last", "last cycle"); uint64_t end = raw.back().t.time_End + hb;
        for (unsigned w = 0; w < 8; ++w) {
            uint64_t a = w == 0 ? 0 : r.below(end), b = w == 0 ? end : a + (r.chance(1, 2) ? r.below(2 * hb) : r.below(end)); if (r.chance(1, 4)) a -= a % hb; if (b < a) b = a; auto &cb = rd.getCallbackAs<Catch>(); cb.got.clear(); rd.getWindow(a, b); std::map<uint64_t, Got *> ids;
            for (auto &g : cb.got) { VF_CHECK(ctx, ids.emplace(g.id, &g).second, "reader/twice", "transaction " << g.id << " reported twice"); VF_CHECK(ctx, g.e + hb >= a && g.s <= b + hb, "reader/outside", "window [" << a << "," << b << ") reports [" << g.s << "," << g.e << ")"); if ((g.flags & TYPE_MASK) == is_Annotation) VF_CHECK(ctx, g.e >= a && g.s <= b, "reader/outside", "window [" << a << "," << b << ") reports annotation [" << g.s << "," << g.e << ")"); }
            size_t seen = 0; for (auto &x : raw) if (x.t.time_Start < b && x.t.time_End > a) { auto it = ids.find(x.t.transaction_ID); VF_CHECK(ctx, it != ids.end(), "reader/missing", "window [" << a << "," << b << ") lacks record [" << x.t.time_Start << "," << x.t.time_End << ")"); Got &g = *it->second; VF_CHECK(ctx, g.s == x.t.time_Start && g.e == x.t.time_End && g.loc == x.t.location_ID && g.flags == x.t.flags && g.parent == x.t.parent_ID && g.disp == x.t.display_ID && g.text == x.text, "reader/content", "reader shows [" << g.s << "," << g.e << ") of " << g.loc << " \"" << g.text << "\" not \"" << x.text << "\""); ++seen; }
            ctx.count("records read back", seen);
        }
        VF_CHECK(ctx, ctx.scratch.size() > 3, "harness", "scratch"); for (auto f : {"record.bin", "index.bin", "map.dat", "data.dat", "string_map.dat", "display_format.dat", "location.dat", "clock.dat"}) ::unlink((path + f).c_str());
    }
};
} // namespace
VF_SECTION(database, 40, 60)
{
    Quiet q; auto &r = ctx.rng; std::vector<std::pair<uint32_t, uint32_t>> ratios; static const std::pair<uint32_t, uint32_t> choice[] = {{1, 1}, {2, 1}, {3, 1}, {1, 2}, {3, 2}, {1, 1}}; unsigned nc = unsigned(r.range(1, 3)); for (unsigned i = 1; i < nc; ++i) ratios.push_back(choice[r.below(6)]);
    World w(ctx, r, ratios); for (auto p : w.m.period) w.hyper = std::lcm(w.hyper, p); auto C = [&] { return unsigned(r.below(nc)); };
    unsigned n = unsigned(r.range(1, 6)); bool pairs = r.chance(2, 3);
    for (unsigned i = 0; i < n; ++i) { std::string nm = "it" + std::to_string(i) + "x"; switch (r.below(19)) {
        case 13: case 14: case 15: case 16: case 17: w.resource(unsigned(r.below(8)), C(), nm); break;
        case 0: w.autoString<SchedulingPhase::Trigger>(C(), nm); break; case 1: w.autoString<SchedulingPhase::Collection>(C(), nm); break; case 2: w.autoString<SchedulingPhase::Tick>(C(), nm); break; case 3: w.autoString<SchedulingPhase::Flush>(C(), nm); break; case 4: w.autoInt(C(), nm); break;
        case 5: w.manual<Collectable<std::string>, std::string>(C(), nm, [](World &x) { return x.txt(); }, [](const std::string &s) { return s; }, false, false); break;
        case 6: w.delayedOne(C(), nm); break;
        case 7: { unsigned c = C(); auto v = std::make_shared<std::vector<std::string>>(); w.keep.push_back(v); auto *vp = v.get(); size_t cap = size_t(r.range(1, 4)); bool man = r.chance(1, 3); using I = IterableCollector<std::vector<std::string>>; std::shared_ptr<I> col = man ? nullptr : std::make_shared<I>(w.m.nodes[c].get(), nm, *vp, cap); if (man) { col = std::make_shared<I>(w.m.nodes[c].get(), nm, cap); col->reattach(vp); }
            w.iterable(c, nm, col, cap, [vp, &w](vf::Rng &q) { vp->resize(q.below(6)); for (auto &s : *vp) if (s.empty() || q.chance(1, 3)) { s = w.txt(); if (s.empty()) s = "e"; } }, [vp] { return *vp; }, !man); break; }
        case 8: { unsigned c = C(); auto v = std::make_shared<Buffer<uint32_t>>(nm, 4, w.m.clks[c].get()); w.keep.push_back(v); auto *b = v.get(); using I = IterableCollector<Buffer<uint32_t>>; w.iterable(c, nm, std::make_shared<I>(w.m.nodes[c].get(), nm, b, b->capacity()), 4, [b](vf::Rng &q) { if (b->size() && q.chance(1, 2)) b->erase(uint32_t(q.below(b->size()))); else if (b->numFree()) b->push_back(uint32_t(q.below(20))); }, [b] { std::vector<std::string> o; for (uint32_t k = 0; k < b->size(); ++k) o.push_back(std::to_string(b->read(k))); return o; }); break; }
        case 9: { unsigned c = C(); auto v = std::make_shared<Queue<uint32_t>>(nm, 3, w.m.clks[c].get()); w.keep.push_back(v); auto *b = v.get(); using I = IterableCollector<Queue<uint32_t>>; w.iterable(c, nm, std::make_shared<I>(w.m.nodes[c].get(), nm, b, b->capacity()), 3, [b](vf::Rng &q) { if (b->size() && q.chance(1, 2)) b->pop(); else if (b->numFree()) b->push(uint32_t(q.below(20))); }, [b] { std::vector<std::string> o; for (uint32_t k = 0; k < b->size(); ++k) o.push_back(std::to_string(b->read(k))); return o; }); break; }
        case 10: { unsigned c = C(); using A = Array<uint32_t, ArrayType::NORMAL>; auto v = std::make_shared<A>(nm, 4, w.m.clks[c].get()); w.keep.push_back(v); auto *b = v.get(); using I = IterableCollector<A, SchedulingPhase::Collection, true>; w.iterable(c, nm, std::make_shared<I>(w.m.nodes[c].get(), nm, b, b->capacity()), 4, [b](vf::Rng &q) { uint32_t i = uint32_t(q.below(4)); if (b->isValid(i) && q.chance(1, 2)) b->erase(i); else b->write(i, uint32_t(q.below(20))); }, [b] { std::vector<std::string> o; for (uint32_t k = 0; k < 4; ++k) o.push_back(b->isValid(k) ? std::to_string(b->read(k)) : ""); return o; }); break; }
        default: if (!pairs) { --i; continue; } switch (r.below(4)) { case 0: w.autoPair<Inst>(C(), nm, [](World &x) { return x.inst(); }, true); break; case 1: w.autoPair<Op>(C(), nm, [](World &x) { Op o; o.tag = uint16_t(x.r.below(4)); o.name = x.r.chance(1, 2) ? "p" : "long name"; if (x.r.chance(1, 2)) o.inner = x.inst(); return o; }, false); break; default: w.manual<Collectable<Inst>, Inst>(C(), nm, [](World &x) { return x.inst(); }, [](const Inst &s) { return show(s); }, true, true); } } }
    World *wp = &w; w.mut.f = [wp] { wp->tick(); }; w.ctl.f = [wp] { wp->late(); }; w.emut.reset(new UniqueEvent<SchedulingPhase::Update>(w.m.sets[0].get(), "mutate", w.mut.h())); w.ectl.reset(new UniqueEvent<SchedulingPhase::PostTick>(w.m.sets[0].get(), "control", w.ctl.h()));
    w.m.rtn.enterConfiguring(); w.m.rtn.enterFinalized(); w.hb = r.chance(1, 12) ? 0 : uint64_t(r.range(2, 60)); w.path = ctx.scratch + "/s0_"; ctx.op("heartbeat", w.hb, "clocks", nc); w.pc.reset(new collection::PipelineCollector(w.path, w.hb, w.m.clks[0].get(), &w.m.rtn)); w.m.sched.finalize();
    w.emut->scheduleRelativeTick(1, &w.m.sched); w.ectl->scheduleRelativeTick(1, &w.m.sched); if (r.chance(2, 3)) w.start(r.chance(1, 2) ? &w.m.rtn : w.some(), 0);
    uint64_t total = uint64_t(r.range(20, 260)); if (w.hb && r.chance(1, 3)) total += w.hb - total % w.hb; while (w.now() < total) { uint64_t step = std::min<uint64_t>(uint64_t(r.range(1, 60)), total - w.now()); uint64_t b = w.now(); w.m.sched.run(step, true, false); if (w.now() == b) break; }
    ctx.op("destroy", w.now()); uint64_t t = w.now(); if (w.active && r.chance(1, 3)) { w.pc->stopCollection(&w.m.rtn); w.stopped(&w.m.rtn, t); } else if (w.active) for (auto &l : w.locs) { l.close(t, 1); l.collected = false; }
    w.pc->destroy(); w.verify(); ctx.count("records checked", w.nrec); ctx.count("records split at heartbeats", w.splits);
}
