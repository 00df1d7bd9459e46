// C15: register sets and memories mirrored by byte arrays; every checkpoint ever taken has a full copy of the mirror.
#include "simenv.hpp"
#include "sparta/functional/ArchData.hpp"
#include "sparta/functional/Register.hpp"
#include "sparta/functional/RegisterSet.hpp"
#include "sparta/memory/MemoryObject.hpp"
#include "sparta/serialization/checkpoint/FastCheckpointer.hpp"
#include "sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp"
#include "sparta/serialization/checkpoint/FILEStream.hpp"
#include <fstream>
#include <unistd.h>
using namespace sparta; using namespace sparta::serialization::checkpoint;
namespace {
using Bytes = std::vector<uint8_t>;
using Id = Checkpointer::chkpt_id_t;
const Id NONE = Checkpoint::UNIDENTIFIED_CHECKPOINT;
struct State { std::vector<Bytes> b; bool operator==(const State &o) const { return b == o.b; } };
std::vector<RegisterBase::Definition> regDefs(int n)
{
    static std::deque<std::string> names; while (int(names.size()) < n) names.push_back("r" + std::to_string(names.size()));
    std::vector<RegisterBase::Definition> v; v.reserve(n + 1);
    for (int i = 0; i < n; ++i) v.push_back({unsigned(i + 1), names[i].c_str(), RegisterBase::GROUP_NUM_NONE, "", +TreeNode::GROUP_IDX_NONE, "a register", i % 5 == 4 ? 64u : 8u, {}, {}, nullptr, RegisterBase::INVALID_ID, 0, nullptr, 0, 0});
    v.push_back({0, nullptr, 0, nullptr, 0, nullptr, 0, {}, {}, nullptr, 0, 0, nullptr, 0, 0});
    return v;
}
// a tree with register sets, raw memories and a memory object, and the mirror of all of them
struct World {
    vf::Ctx &ctx; Scheduler sched; Clock clk; RootTreeNode rtn; std::vector<std::unique_ptr<TreeNode>> nodes; std::vector<std::vector<RegisterBase::Definition>> defs; std::vector<std::unique_ptr<RegisterSet>> rs; std::vector<std::unique_ptr<ArchData>> ad; std::unique_ptr<memory::MemoryObject> mo; State cur;
    std::unique_ptr<Event<SchedulingPhase::Tick>> dummy; 
    World(vf::Ctx &c) : ctx(c), sched("s"), clk("c", &sched), rtn("top")
    {
        rtn.setClock(&clk); int nn = ctx.rng.range(1, 3); defs.reserve(nn);
        for (int i = 0; i < nn; ++i) {
            nodes.push_back(std::make_unique<TreeNode>(i && ctx.rng.chance(1, 2) ? nodes[0].get() : static_cast<TreeNode *>(&rtn), "n" + std::string(1, char('a' + i)), TreeNode::GROUP_NAME_NONE, +TreeNode::GROUP_IDX_NONE, "a node"));
            defs.push_back(regDefs(ctx.rng.range(1, 80))); rs.push_back(RegisterSet::create(nodes.back().get(), defs.back().data()));
            if (ctx.rng.chance(2, 3)) { uint64_t ls = 1ull << ctx.rng.range(4, 8); ad.push_back(std::make_unique<ArchData>(nodes.back().get(), ls, ctx.rng.below(256), 1, ctx.rng.chance(3, 4))); ad.back()->layoutRange(ls * ctx.rng.range(1, 30)); }
        }
        if (ctx.rng.chance(1, 2)) { mo.reset(new memory::MemoryObject(nodes.back().get(), 64, 64 * ctx.rng.range(1, 20), ctx.rng.below(256), 1)); }
        rtn.enterConfiguring(); rtn.enterFinalized(); rtn.bindTreeEarly(); rtn.bindTreeLate(); sched.finalize();
        cur = read();
    }
    ~World() { rtn.enterTeardown(); }
    State read()
    {
        State s;
        for (auto &r : rs) { Bytes b; for (auto *x : r->getRegisters()) { Bytes t(x->getNumBytes()); x->peek(t.data(), t.size(), 0); b.insert(b.end(), t.begin(), t.end()); } s.b.push_back(b); }
        for (auto &a : ad) { Bytes b(a->getSize()); const ArchData &ca = *a; for (uint64_t o = 0; o < b.size(); o += a->getLineSize()) if (auto *l = ca.tryGetLine(o)) l->read(0, a->getLineSize(), &b[o]); else ArchData::fillValue(&b[o], uint32_t(a->getLineSize()), a->getInitial(), uint32_t(a->getInitialValSize()), 0); s.b.push_back(b); }
        if (mo) { Bytes b(mo->getSize()); for (size_t o = 0; o < b.size(); o += 64) mo->read(o, 64, b.data() + o); s.b.push_back(b); }
        return s;
    }
    void modify()
    {
        int n = ctx.rng.range(1, 6);
        while (n--) {
            size_t k = ctx.rng.below(cur.b.size()); Bytes &m = cur.b[k];
            if (k < rs.size()) { auto &v = rs[k]->getRegisters(); size_t i = ctx.rng.below(v.size()), off = 0; for (size_t j = 0; j < i; ++j) off += v[j]->getNumBytes(); uint64_t x = ctx.rng.next(); size_t idx = ctx.rng.below(v[i]->getNumBytes() / 8);
                switch (ctx.rng.below(4)) { case 0: v[i]->write<uint64_t>(x, uint32_t(idx)); break; case 1: v[i]->poke<uint64_t>(x, uint32_t(idx)); break; case 2: v[i]->dmiWrite<uint64_t>(x, uint32_t(idx)); break; default: dynamic_cast<Register *>(v[i])->writeUnmasked<uint64_t>(x, uint32_t(idx)); }
                memcpy(&m[off + idx * 8], &x, 8); }
            else if (k < rs.size() + ad.size()) { auto &a = *ad[k - rs.size()]; uint64_t o = ctx.rng.below(m.size()); auto &l = a.getLine(o); uint64_t lo = o - l.getOffset(), sz = 1 + ctx.rng.below(std::min<uint64_t>(32, l.getLayoutSize() - lo)); Bytes b(sz); for (auto &x : b) x = uint8_t(ctx.rng.next()); l.write(lo, sz, b.data()); std::copy(b.begin(), b.end(), m.begin() + o); }
            else { uint64_t o = ctx.rng.below(m.size()), sz = 1 + ctx.rng.below(std::min<uint64_t>(64 - o % 64, m.size() - o)); Bytes b(sz); for (auto &x : b) x = uint8_t(ctx.rng.next()); mo->write(o, sz, b.data()); std::copy(b.begin(), b.end(), m.begin() + o); }
        }
    }
    void same(const char *k, const std::string &why) { State s = read(); for (size_t i = 0; i < s.b.size(); ++i) if (s.b[i] != cur.b[i]) { size_t j = 0; while (s.b[i][j] == cur.b[i][j]) ++j; VF_CHECK(ctx, false, k, why << ": part " << i << " byte " << j << " is " << unsigned(s.b[i][j]) << " want " << unsigned(cur.b[i][j])); } ctx.count("bytes_compared", [&] { size_t n = 0; for (auto &b : s.b) n += b.size(); return n; }()); }
};
struct CP { State s; uint64_t tick; Id parent; bool alive; };
struct Disk { std::vector<FastCheckpointer::checkpoint_ptr> got; void saveCheckpoints(std::vector<FastCheckpointer::checkpoint_ptr> &&v) { for (auto &x : v) got.push_back(std::move(x)); } ~Disk() { for (auto &x : got) if (!x->isFlaggedDeleted()) x->flagDeleted(); while (!got.empty()) got.pop_back(); } };

template<class CPR> struct Run {
    vf::Ctx &ctx; World w; std::unique_ptr<CPR> c; std::map<Id, CP> cp; Id cur = NONE, head = NONE; bool sched; std::vector<std::pair<std::string, State>> saved; std::vector<Id> order; uint64_t created = 0;
    Run(vf::Ctx &x) : ctx(x), w(x), sched(x.rng.chance(3, 4)) { std::vector<TreeNode *> roots; if (ctx.rng.chance(1, 3)) { c.reset(new CPR(w.rtn, sched ? &w.sched : nullptr)); } else { for (auto &n : w.nodes) if (n->getParent() == &w.rtn) roots.push_back(n.get()); c.reset(new CPR(roots, sched ? &w.sched : nullptr)); } c->setSnapshotThreshold(uint32_t(ctx.rng.below(6))); }
    uint64_t tick() { return sched ? w.sched.getCurrentTick() : 0; }
    void note(Id id, Id parent) { VF_CHECK(ctx, !cp.count(id), "id_reuse", "identifier " << id << " given twice"); cp[id] = {w.cur, tick(), parent, true}; order.push_back(id); ++created; }
    bool canCreate() { return head == NONE || (tick() >= cp[cur].tick); }
    void ensureHead() { if (head == NONE) { head = 0; } }
    void afterHead(Id id) { if (head == NONE) { VF_CHECK(ctx, c->getHead() != nullptr, "head", ""); head = c->getHeadID(); note(head, NONE); cur = head; } (void)id; }
    void create(bool force)
    {
        bool first = head == NONE; ctx.op("create", force); Id id = c->createCheckpoint(force);
        if (first) afterHead(id);
        VF_CHECK(ctx, id != NONE && id != head, "id", "identifier " << id); note(id, cur); cur = id; VF_EQ(ctx, c->getCurrentID(), id, "current", "after create"); VF_EQ(ctx, c->getCurrentTick(), tick(), "current_tick", "");
    }
    std::vector<Id> alive() { std::vector<Id> v; for (auto &[i, x] : cp) if (x.alive) v.push_back(i); return v; }
    void load(Id id)
    {
        ctx.op("load", id); c->loadCheckpoint(id); cur = id; w.cur = cp[id].s; VF_EQ(ctx, c->getCurrentID(), id, "current", "after load");
        if (sched) VF_EQ(ctx, w.sched.getCurrentTick(), cp[id].tick, "tick", "after loading " << id);
        w.same("restore", "after loading " + std::to_string(id)); ctx.count("loads");
    }
    void queries()
    {
        auto al = alive(); auto l = c->getCheckpoints(); std::sort(l.begin(), l.end()); VF_CHECK(ctx, std::vector<Id>(l.begin(), l.end()) == al, "list", "listing of " << l.size() << " want " << al.size());
        VF_EQ(ctx, c->getNumCheckpoints(), uint32_t(al.size()), "num", ""); VF_EQ(ctx, c->getTotalCheckpointsCreated(), created, "created", "");
        VF_EQ(ctx, c->getHeadID(), head, "head_id", "");
        for (auto &[i, x] : cp) { VF_EQ(ctx, c->hasCheckpoint(i), x.alive, "has", "checkpoint " << i); VF_EQ(ctx, c->findCheckpoint(i) != nullptr, x.alive, "find", "checkpoint " << i); if (x.alive) { auto *f = c->findCheckpoint(i); VF_EQ(ctx, f->getID(), i, "find", ""); VF_EQ(ctx, f->getTick(), x.tick, "cp_tick", "checkpoint " << i); } }
        uint32_t snaps = 0; for (auto i : al) snaps += c->findCheckpoint(i)->isSnapshot(); VF_EQ(ctx, c->getNumSnapshots(), snaps, "num_snapshots", ""); VF_EQ(ctx, c->getNumDeltas(), uint32_t(al.size()) - snaps, "num_deltas", "");
        VF_CHECK(ctx, c->getNumDeadCheckpoints() <= created, "dead", "count of dead ones " << c->getNumDeadCheckpoints()); VF_CHECK(ctx, !c->hasCheckpoint(NONE), "has_none", "");
        if (al.empty()) return;
        Id i = ctx.rng.pick(al); uint64_t t = cp[i].tick; std::vector<Id> at; for (auto a : al) if (cp[a].tick == t) at.push_back(a); auto g = c->getCheckpointsAt(t); std::sort(g.begin(), g.end()); VF_CHECK(ctx, g == at, "at_tick", "tick " << t);
        // the chain back to the head: the living ancestors, in order
        std::vector<Id> want; for (Id k = i; k != NONE; k = cp[k].parent) if (cp[k].alive) want.push_back(k);
        auto ch = c->getCheckpointChain(i); std::vector<Id> got; for (auto k : ch) if (k != NONE) got.push_back(k); VF_CHECK(ctx, got == want, "chain", "chain of " << i << " has " << got.size() << " living, want " << want.size()); VF_CHECK(ctx, ch.front() == i && ch.back() == head, "chain_ends", "");
        for (auto n : c->getNextIDs(i)) { VF_CHECK(ctx, cp.count(n) && cp[n].alive, "next_alive", ""); bool desc = false; for (Id k = cp[n].parent; k != NONE; k = cp[k].parent) if (k == i) desc = true; VF_CHECK(ctx, desc, "next_desc", "checkpoint " << n << " listed after " << i); }
        for (auto &[n, x] : cp) if (x.alive && x.parent == i) { auto v = c->getNextIDs(i); VF_CHECK(ctx, std::count(v.begin(), v.end(), n) == 1, "next", "child " << n << " of " << i << " not listed once"); }
    }
    void rejected()
    {
        if (head == NONE || !ctx.rng.chance(1, 4)) return; std::vector<Id> dead; for (auto &[i, x] : cp) if (!x.alive) dead.push_back(i); Id bad = dead.empty() || ctx.rng.chance(1, 3) ? Id(1000000 + ctx.rng.below(10)) : ctx.rng.pick(dead); if (ctx.rng.chance(1, 6)) bad = NONE; ctx.op("bad", bad);
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { c->loadCheckpoint(bad); }), "load_missing", "checkpoint " << bad << " loaded"); VF_CHECK(ctx, vf::throws<SpartaException>([&] { c->deleteCheckpoint(bad); }), "delete_missing", "checkpoint " << bad << " deleted (again)");
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { c->deleteCheckpoint(head); }), "delete_head", ""); VF_CHECK(ctx, vf::throws<SpartaException>([&] { c->createHead(); }), "second_head", ""); ctx.count("rejected");
    }
    void step()
    {
        switch (ctx.rng.below(14)) {
        case 0: case 1: case 2: w.modify(); ctx.op("modify"); break;
        case 3: case 4: case 5: case 6: if (ctx.rng.chance(1, 2)) w.modify(); if (canCreate()) create(ctx.rng.chance(1, 8)); break;
        case 7: case 8: if (head != NONE) load(ctx.rng.pick(alive()));  break;
        case 9: case 10: { auto a = alive(); if (a.size() < 2) break; Id id = ctx.rng.pick(a); if (id == head) break; ctx.op("delete", id); c->deleteCheckpoint(id); cp[id].alive = false; ctx.count("deletes"); break; }
        case 11: if (sched) { int n = ctx.rng.range(1, 5); ctx.op("run", n); w.sched.run(n, true, false); } break;
        case 12: if (ctx.rng.chance(1, 6)) c->setSnapshotThreshold(uint32_t(ctx.rng.below(6))); else if (head == NONE && ctx.rng.chance(1, 3)) { c->createHead(); afterHead(0); ctx.op("head"); } else if (head != NONE && ctx.rng.chance(1, 12)) { ctx.op("forget"); c->forgetCurrent(); cur = head; w.modify(); ctx.count("forgets"); } break;
        default: extra();
        }
        if (head != NONE) VF_EQ(ctx, c->getTotalMemoryUse() >= c->getContentMemoryUse(), true, "memory", "");
        w.same("disturbed", "state after an operation"); queries(); rejected(); ctx.obs(cp.size(), cur, tick());
    }
    void extra();
    void final()
    {
        for (int k = 0; k < 4 && head != NONE; ++k) for (auto i : alive()) { load(i); if (ctx.rng.chance(1, 6)) { w.modify(); } }
        ctx.count("checkpoints", cp.size());
    }
};
template<> void Run<FastCheckpointer>::extra()
{
    if (!ctx.rng.chance(1, 8) || head == NONE || !cp[cur].alive) return;
    // storing the current branch: what stays can still be restored, what went is handed over in order from the head
    bool deadOnPath = false; for (Id k = cur; k != NONE; k = cp[k].parent) { auto ch = c->getCheckpointChain(cur); if (std::count(ch.begin(), ch.end(), NONE)) deadOnPath = true; break; }
    bool force = ctx.rng.chance(1, 2) && tick() >= cp[cur].tick; Disk d; ctx.op("squash", force);
    if (deadOnPath) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { c->squashCurrentBranch(d, force); }), "squash_dead", "branch with deleted checkpoints stored"); return; }
    std::vector<Id> path; for (Id k = cur; k != NONE; k = cp[k].parent) if (cp[k].alive) path.insert(path.begin(), k);
    size_t lastSnap = 0; for (size_t i = 0; i < path.size(); ++i) if (c->findCheckpoint(path[i])->isSnapshot()) lastSnap = i;
    c->squashCurrentBranch(d, force); size_t gone = force ? path.size() : lastSnap;
    VF_EQ(ctx, d.got.size(), gone, "squash_count", "checkpoints handed over"); for (size_t i = 0; i < gone; ++i) { VF_EQ(ctx, d.got[i]->getID(), path[i], "squash_order", ""); VF_EQ(ctx, d.got[i]->getTick(), cp[path[i]].tick, "squash_tick", ""); }
    // what was handed over, replayed from its first snapshot, gives the saved states
    { std::vector<ArchData *> dats; for (auto *r : c->getRoots()) { std::function<void(TreeNode *)> rec = [&](TreeNode *n) { for (auto *a : n->getAssociatedArchDatas()) if (a) dats.push_back(a); for (auto *ch : TreeNodePrivateAttorney::getAllChildren(n)) rec(ch); }; rec(r); }
      if (gone) { State keep = w.cur; size_t i = ctx.rng.below(gone); d.got[i]->load(dats); w.cur = cp[path[i]].s; w.same("squash_load", "stored checkpoint " + std::to_string(path[i])); // back to where it was
        w.cur = keep; ctx.count("squash_loads"); } }
    for (auto &[i, x] : cp) if (x.alive) x.alive = !force && std::count(path.begin() + gone, path.end(), i);
    bool lost = gone > 0;
    if (force) { head = c->getHeadID(); cp[head] = {w.cur, tick(), NONE, true}; cur = head; order.push_back(head); } else { head = path[gone]; cp[head].parent = NONE; }
    VF_EQ(ctx, c->getCurrentID(), cur, "squash_current", ""); VF_EQ(ctx, c->getHeadID(), head, "squash_head", "");
    if (lost) { load(force ? head : ctx.rng.pick(alive())); }
    ctx.count("squashes");
}
template<> void Run<PersistentFastCheckpointer>::extra()
{
    if (!saved.empty() && ctx.rng.chance(1, 2)) {
        auto &s = ctx.rng.pick(saved); ctx.op("restore"); unsigned k = ctx.rng.below(3);
        if (k == 0) { std::istringstream is(s.first); c->restore(is); } else { std::string f = ctx.scratch + "/c15.data"; { std::ofstream o(f, std::ios::binary); o << s.first; } if (k == 1) c->restore(f); else { FILE *fp = fopen(f.c_str(), "rb"); { FILEIstream fi(fp); c->restore(fi.getStream()); } fclose(fp); } unlink(f.c_str()); }
        w.cur = s.second; w.same("restore_stored", "after restoring a stored checkpoint"); ctx.count("restores"); return;
    }
    if (!canCreate()) return;
    if (ctx.rng.chance(1, 2)) w.modify();
    bool first = head == NONE; Id id; std::string data; unsigned k = ctx.rng.below(3); ctx.op("save", k);
    if (k == 0) { std::ostringstream o; id = c->save(o); data = o.str(); }
    else { std::string f = ctx.scratch + "/c15.data"; if (k == 1) id = c->save(f); else { FILE *fp = fopen(f.c_str(), "wb"); { FILEOstream fo(fp); id = c->save(fo.getStream()); fo.getStream().flush(); } fclose(fp); } std::ifstream i(f, std::ios::binary); std::stringstream ss; ss << i.rdbuf(); data = ss.str(); unlink(f.c_str()); }
    if (first) afterHead(id);
    note(id, cur); cur = id; saved.push_back({data, w.cur}); VF_CHECK(ctx, c->findCheckpoint(id)->isSnapshot(), "saved_snapshot", ""); ctx.count("saves");
}
template<class CPR> void drive(vf::Ctx &ctx)
{
    Quiet q; Run<CPR> r(ctx); int n = ctx.rng.range(20, 120); while (n--) r.step(); r.final();
}
VF_SECTION(fast, 100, 1500) { drive<FastCheckpointer>(ctx); }
VF_SECTION(persistent, 80, 1200) { drive<PersistentFastCheckpointer>(ctx); }
// the current checkpoint and its ancestors deleted while branches, some starting with snapshots, leave from them
VF_SECTION(deadcurrent, 60, 900)
{
    Quiet q;
    for (int rep = 0; rep < 6; ++rep) {
        Run<FastCheckpointer> r(ctx); r.c->setSnapshotThreshold(1000); r.w.modify(); r.create(false); Id a = r.cur; std::vector<Id> line{a};
        for (int i = ctx.rng.range(0, 2); i > 0; --i) { r.w.modify(); r.create(false); line.push_back(r.cur); }
        Id from = ctx.rng.pick(line);
        for (int i = ctx.rng.range(1, 3); i > 0; --i) { if (r.cur != from) r.load(from); r.w.modify(); r.create(ctx.rng.chance(1, 2)); }
        for (int i = ctx.rng.range(1, 4); i > 0; --i) {
            if (ctx.rng.chance(2, 3) && r.cp[r.cur].alive && r.cur != r.head) { ctx.op("delete", r.cur); r.c->deleteCheckpoint(r.cur); r.cp[r.cur].alive = false; ctx.count("deleted_current"); }
            auto al = r.alive(); Id id = ctx.rng.pick(al); if (id != r.head) { ctx.op("delete", id); r.c->deleteCheckpoint(id); r.cp[id].alive = false; }
            if (ctx.rng.chance(1, 3)) { r.w.modify(); r.create(ctx.rng.chance(1, 4)); }
        }
        r.w.modify(); r.create(false); r.queries();
        auto al = r.alive(); ctx.rng.shuffle(al); for (auto i : al) r.load(i); ctx.obs(al.size());
    }
}
// deep chains at the default threshold, with branches
VF_SECTION(deep, 12, 150)
{
    Quiet q; Run<FastCheckpointer> r(ctx); r.c->setSnapshotThreshold(ctx.rng.chance(1, 2) ? 20 : 40);
    int n = ctx.rng.range(50, 150); for (int i = 0; i < n; ++i) { r.w.modify(); if (r.sched) r.w.sched.run(1, true, false); r.create(false); if (ctx.rng.chance(1, 12)) r.load(ctx.rng.pick(r.alive())); if (ctx.rng.chance(1, 10)) { auto a = r.alive(); Id id = ctx.rng.pick(a); if (id != r.head) { ctx.op("delete", id); r.c->deleteCheckpoint(id); r.cp[id].alive = false; } } ctx.obs(i, r.cur); }
    r.queries(); auto a = r.alive(); ctx.rng.shuffle(a); for (auto i : a) r.load(i);
    ctx.count("depth", n);
}
}
