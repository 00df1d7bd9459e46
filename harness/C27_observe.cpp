// C27: a random model run through the command-line simulator, plainly and under random sets of observers; the order of every
// handler the model executes and its final state must not differ, nor what the same observers write in two runs.
#include "simenv.hpp"
#include "sparta/app/Simulation.hpp"
#include "sparta/app/SimulationInfo.hpp"
#include "sparta/app/CommandLineSimulator.hpp"
#include "sparta/simulation/Unit.hpp"
#include "sparta/simulation/ResourceFactory.hpp"
#include "sparta/simulation/ResourceTreeNode.hpp"
#include "sparta/simulation/State.hpp"
#include "sparta/simulation/StateTracker.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/simulation/Parameter.hpp"
#include "sparta/ports/DataPort.hpp"
#include "sparta/ports/SignalPort.hpp"
#include "sparta/ports/SyncPort.hpp"
#include "sparta/events/StartupEvent.hpp"
#include "sparta/events/GlobalEvent.hpp"
#include "sparta/resources/Queue.hpp"
#include "sparta/resources/Buffer.hpp"
#include "sparta/resources/Pipeline.hpp"
#include "sparta/collection/Collectable.hpp"
#include "sparta/pevents/NestedPeventCollector.hpp"
#include "sparta/pairs/SpartaKeyPairs.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/CycleCounter.hpp"
#include "sparta/statistics/BasicHistogram.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/functional/RegisterSet.hpp"
#include "sparta/functional/Register.hpp"
#include "sparta/serialization/checkpoint/FastCheckpointer.hpp"
#include "sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp"
#include "sparta/kernel/SleeperThread.hpp"
#include <filesystem>
#include <fstream>
#include <regex>
#include <unistd.h>
using namespace sparta;
namespace c27 {
class ItemDef;
struct Item { using SpartaPairDefinitionType = ItemDef; uint64_t id = 0; uint32_t kind = 0; uint64_t getId() const { return id; } uint32_t getKind() const { return kind; } };
std::ostream &operator<<(std::ostream &o, const Item &i) { return o << i.id << "/" << i.kind; }
class ItemDef : public PairDefinition<Item> { public: ItemDef() { SPARTA_INVOKE_PAIRS(Item); } SPARTA_REGISTER_PAIRS(SPARTA_ADDPAIR("DID", &Item::getId), SPARTA_ADDPAIR("kind", &Item::getKind, std::ios::hex)) };
enum class Mode : uint64_t { IDLE, __FIRST = IDLE, BUSY, WAIT, __LAST };
std::ostream &operator<<(std::ostream &o, const Mode &m) { return o << "M" << uint64_t(m); }
struct Step { uint64_t tick; uint32_t unit, kind; uint64_t data; bool operator==(const Step &o) const { return tick == o.tick && unit == o.unit && kind == o.kind && data == o.data; } };
// What one run shares with its units. The recorder is on the model's side, so it sees every run alike.
struct World { std::vector<Step> trace; uint64_t stopAt = 0; std::function<void()> peek; };
World *W = nullptr;
const char *const DEFN[] = {"r0", "r1", "r2"};
RegisterBase::Definition regs[] = {{1, "r0", RegisterBase::GROUP_NUM_NONE, "", +TreeNode::GROUP_IDX_NONE, "d", 8, {}, {}, nullptr, RegisterBase::INVALID_ID, 0, nullptr, 0, 0}, {2, "r1", RegisterBase::GROUP_NUM_NONE, "", +TreeNode::GROUP_IDX_NONE, "d", 8, {}, {}, nullptr, RegisterBase::INVALID_ID, 0, nullptr, 0, 0}, {0, nullptr, 0, nullptr, 0, nullptr, 0, {}, {}, nullptr, 0, 0, nullptr, 0, 0}};
class Worker : public Unit {
public:
    static constexpr char name[] = "worker";
    struct Params : ParameterSet {
        Params(TreeNode *n) : ParameterSet(n) {}
        Parameter<uint32_t> id{"id", 0, "d", this}; Parameter<uint64_t> seed{"seed", 1, "d", this}; Parameter<uint32_t> limit{"limit", 100, "d", this}; Parameter<uint32_t> shape{"shape", 0, "d", this};
    };
    Worker(TreeNode *n, const Params *p) : Unit(n), id(p->id), limit(p->limit), shape(p->shape), h(p->seed), clk(n->getClock()),
        din(&unit_port_set_, "din", SchedulingPhase::Tick, 1 + p->shape % 2), sig(&unit_port_set_, "sig", SchedulingPhase::Update, 1), dout(&unit_port_set_, "dout"), sout(&unit_port_set_, "sout"), syi(&unit_port_set_, "syi", clk), syo(&unit_port_set_, "syo", clk),
        tick(&unit_event_set_, "tick", CREATE_SPARTA_HANDLER(Worker, onTick)), tock(&unit_event_set_, "tock", CREATE_SPARTA_HANDLER(Worker, onTock)), flush(&unit_event_set_, "flush", CREATE_SPARTA_HANDLER(Worker, onFlush)), upd(&unit_event_set_, "upd", CREATE_SPARTA_HANDLER(Worker, onUpd)), coll(&unit_event_set_, "coll", CREATE_SPARTA_HANDLER(Worker, onColl)), trig(&unit_event_set_, "trig", CREATE_SPARTA_HANDLER(Worker, onTrig)), post(&unit_event_set_, "post", CREATE_SPARTA_HANDLER(Worker, onPost)), pay(&unit_event_set_, "pay", CREATE_SPARTA_HANDLER_WITH_DATA(Worker, onPay, uint64_t)), payFlush(&unit_event_set_, "payflush", CREATE_SPARTA_HANDLER_WITH_DATA(Worker, onPayFlush, uint64_t)), glob(clk, CREATE_SPARTA_HANDLER(Worker, onGlob)),
        c0(&unit_stat_set_, "c0", "d", Counter::COUNT_NORMAL), c1(&unit_stat_set_, "c1", "d", Counter::COUNT_NORMAL), late(&unit_stat_set_, "latest", "d", Counter::COUNT_LATEST), cc(&unit_stat_set_, "cc", "d", CounterBase::COUNT_NORMAL, clk), sd(&unit_stat_set_, "ratio", "d", &unit_stat_set_, "c0/c1"), hist(unit_stat_set_, "hist", "d", std::vector<uint64_t>{2, 8, 32}), noise(n, "noise", "d", "noise"), rs(RegisterSet::create(n, regs)),
        q("q", 6, clk, &unit_stat_set_), b("b", 5, clk, &unit_stat_set_), pipe("pipe", 4, clk), item(n, "item", 0, "d"), num(n, "num", 0, "d"), pev("ITEM", n, clk), vpev("ITEM", n, clk, true), mode(Mode::IDLE)
    {
        din.registerConsumerHandler(CREATE_SPARTA_HANDLER_WITH_DATA(Worker, onData, uint64_t)); sig.registerConsumerHandler(CREATE_SPARTA_HANDLER(Worker, onSig)); syi.registerConsumerHandler(CREATE_SPARTA_HANDLER_WITH_DATA(Worker, onSync, uint64_t)); syi.setPortDelay(Clock::Cycle(1));
        q.enableCollection(n); b.enableCollection(n); pipe.enableCollection(n); pipe.performOwnUpdates();
        if (shape & 4) tick >> tock; else if ((shape & 8) && (shape & 48) != 48) tock >> tick; if (shape & 16) tick >> pay; if (shape & 32) pay >> tock;
        StartupEvent(n, CREATE_SPARTA_HANDLER(Worker, start));
    }
    uint64_t state() const { return h; } uint64_t ran() const { return done; }
    std::string contents() { std::ostringstream o; o << "h=" << h << " q="; for (auto &x : q) o << x << ","; o << " b="; for (auto &x : b) o << x << ","; o << " pipe=" << pipe.numValid() << " mode=" << uint64_t(mode.getValue()) << " r=" << rs->getRegister("r0")->read<uint64_t>() << "," << rs->getRegister("r1")->read<uint64_t>(); return o.str(); }
    uint32_t id, limit, shape; uint64_t h, done = 0, local = 0, appended = ~0ull; const Clock *clk;
private:
    DataInPort<uint64_t> din; SignalInPort sig; DataOutPort<uint64_t> dout; SignalOutPort sout; SyncInPort<uint64_t> syi; SyncOutPort<uint64_t> syo;
    UniqueEvent<SchedulingPhase::Tick> tick, tock; UniqueEvent<SchedulingPhase::Flush> flush; UniqueEvent<SchedulingPhase::Update> upd; UniqueEvent<SchedulingPhase::Collection> coll; UniqueEvent<SchedulingPhase::Trigger> trig; UniqueEvent<SchedulingPhase::PostTick> post; PayloadEvent<uint64_t> pay; PayloadEvent<uint64_t, SchedulingPhase::Flush> payFlush; GlobalEvent<SchedulingPhase::Tick> glob;
public:
    Counter c0, c1, late; CycleCounter cc; StatisticDef sd; BasicHistogram<uint64_t> hist; NotificationSource<uint64_t> noise; std::unique_ptr<RegisterSet> rs;
private:
    Queue<uint64_t> q; Buffer<uint64_t> b; Pipeline<uint64_t> pipe; collection::Collectable<Item> item; collection::Collectable<uint64_t> num; pevents::NestedPeventCollector<Item> pev, vpev; State<Mode> mode;
    uint64_t rnd(uint64_t n) { local += 0x9e3779b97f4a7c15ull; uint64_t z = local; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return (z ^ (z >> 31)) % n; }
    void start() { tick.schedule(rnd(4)); step(0, 0); }
    void onTick() { step(1, 0); if (done < limit) tick.schedule(1 + rnd(shape & 64 ? 2 : 9)); }
    void onTock() { step(2, 0); } void onFlush() { step(3, 0); } void onUpd() { step(4, 0); } void onColl() { step(5, 0); } void onTrig() { step(6, 0); } void onPost() { step(7, 0); }
    void onPay(const uint64_t &d) { step(8, d); } void onPayFlush(const uint64_t &d) { step(9, d); } void onGlob() { step(10, 0); } void onData(const uint64_t &d) { step(11, d); } void onSig() { step(12, 0); } void onSync(const uint64_t &d) { step(13, d); }
    void step(uint32_t kind, uint64_t d)
    {
        uint64_t now = clk->getScheduler()->getCurrentTick(); W->trace.push_back({now, id, kind, d}); ++done; h = (h ^ (d + kind * 0x100000001b3ull + now)) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; local = h;
        if (W->peek) W->peek();
        if (W->stopAt && W->trace.size() == W->stopAt) clk->getScheduler()->stopRunning();
        ++c0; if (done >= limit) return;
        bool early = kind == 3 || kind == 9; // handlers before the Tick phase may schedule into this cycle
        for (unsigned n = unsigned(1 + rnd(4)); n--;) switch (rnd(22)) {
        case 0: tock.schedule(early ? rnd(2) : 1 + rnd(3)); break;
        case 1: flush.schedule(1 + rnd(3)); break;
        case 2: upd.schedule(1 + rnd(5)); break;
        case 3: coll.schedule(1 + rnd(5)); break;
        case 4: trig.schedule(1 + rnd(5)); break;
        case 5: post.schedule(kind < 7 ? rnd(3) : 1 + rnd(3)); break;
        case 6: pay.preparePayload(h)->schedule(1 + rnd(6)); break;
        case 7: payFlush.preparePayload(h >> 7)->schedule(1 + rnd(6)); break;
        case 8: glob.schedule(1 + rnd(7), clk); break;
        case 9: dout.send(h >> 3, rnd(3)); break;
        case 10: sout.send(1 + rnd(3)); break;
        case 11: if (kind == 1 && syo.isReady()) syo.send(h >> 5); break;
        case 12: c1 += rnd(5); late.set(rnd(100)); hist.addValue(rnd(50)); break;
        case 13: if (q.size() < 6) q.push(h >> 40); break;
        case 14: if (q.size()) { h += q.front(); q.pop(); } break;
        case 15: if (b.numFree()) b.push_back(h >> 41); else { h ^= b.read(1); b.erase(1); } break;
        case 16: if (kind == 1 && !(shape & 128) && appended != now) { appended = now; pipe.append(h >> 42); } break;
        case 17: { Item i{h >> 32, uint32_t(h & 15)}; item.collect(i); num.collect(h & 255); if (pev.isCollecting()) pev.collect(i); if (vpev.isCollecting()) vpev.collect(i); break; }
        case 18: if (info_logger_) info_logger_ << "step " << kind << " of " << id << " data " << d; debug_logger_ << "h " << h; if (rnd(4) == 0) warn_logger_ << "odd"; break;
        case 19: noise.postNotification(h & 7); break;
        case 20: { auto *r = rs->getRegister(DEFN[rnd(2)]); r->write<uint64_t>(r->read<uint64_t>() * 3 + h); break; }
        default: mode.setValue(Mode(rnd(3))); if (rnd(2)) { tock.cancel(); } else if (rnd(3) == 0) { pay.cancel(); } break;
        }
    }
};
constexpr char Worker::name[];
struct Shape { std::vector<std::pair<uint32_t, uint32_t>> clocks; std::vector<unsigned> clk, data, sync, sig; std::vector<uint64_t> seed; std::vector<uint32_t> limit, shape; };
struct Sim : app::Simulation {
    const Shape &s; ResourceFactory<Worker, Worker::Params> fact; std::vector<std::unique_ptr<ResourceTreeNode>> nodes; std::vector<Clock::Handle> clks;
    Sim(Scheduler *sc, const Shape &sh) : app::Simulation("model", sc), s(sh) {}
    ~Sim() { getRoot()->enterTeardown(); }
    static std::string nm(size_t i) { return std::string("u") + char('a' + i); }
    void buildTree_() override
    {
        for (size_t i = 0; i < s.clocks.size(); ++i) clks.push_back(getClockManager().makeClock("clk" + std::string(1, char('a' + i)), getClockManager().getRoot(), s.clocks[i].first, s.clocks[i].second));
        for (size_t i = 0; i < s.clk.size(); ++i) { nodes.emplace_back(new ResourceTreeNode(getRoot(), nm(i), TreeNode::GROUP_NAME_NONE, TreeNode::GROUP_IDX_NONE, "unit", &fact)); if (s.clk[i]) nodes.back()->setClock(clks[s.clk[i] - 1].get()); }
    }
    void configureTree_() override {}
    void bindTree_() override
    {
        auto port = [&](size_t i, const char *p) { return getRoot()->getChildAs<Port>(nm(i) + ".ports." + p); };
        for (size_t i = 0; i < s.clk.size(); ++i) { bind(port(i, "dout"), port(s.data[i], "din")); bind(port(i, "sout"), port(s.sig[i], "sig")); bind(port(i, "syo"), port(s.sync[i], "syi")); }
    }
    const CounterBase *findSemanticCounter_(CounterSemantic) const override { return const_cast<Sim *>(this)->getRoot()->getChildAs<CounterBase>("ua.stats.c0"); }
    Worker *worker(size_t i) { return nodes[i]->getResourceAs<Worker *>(); }
};
} // namespace c27
using namespace c27;
namespace {
namespace fs = std::filesystem;
struct Out { std::vector<Step> trace; std::string state, text, error; std::map<std::string, std::string> files; uint64_t looks = 0; };
struct Watch { std::vector<std::string> args; std::map<std::string, std::string> files; bool snaps = false, persist = false, observe = false; uint64_t seed = 0; };
void counters(TreeNode *n, std::ostream &o) { for (auto *c : TreeNodePrivateAttorney::getAllChildren(n)) { if (auto *k = dynamic_cast<CounterBase *>(c)) o << c->getLocation() << "=" << k->get() << "\n"; counters(c, o); } }
struct Peeper { uint64_t n = 0; void reg(const Register::PostWriteAccess &) { ++n; } void noise(const uint64_t &) { ++n; } };
Out run(vf::Ctx &ctx, const Shape &s, const std::vector<std::string> &base, const Watch &w, uint64_t stopAt, const std::string &dir)
{
    Out o; World world; W = &world; world.stopAt = stopAt; fs::create_directories(dir); fs::path back = fs::current_path(); fs::current_path(dir); for (auto &f : w.files) std::ofstream(f.first) << f.second;
    std::vector<std::string> a{"model"}; a.insert(a.end(), base.begin(), base.end()); static unsigned serial = 0; std::string tag = std::to_string(100000 + serial++); for (auto x : w.args) { auto at = x.find("@RUN@"); if (at != x.npos) x.replace(at, 5, "R" + tag); a.push_back(x); } std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(nullptr);
    Quiet q; vf::Rng pr(w.seed);
    static const bool alone = (SleeperThread::disableForever(), true); (void)alone; // the watchdog serves one simulation per process
    SimulationInfo::getInstance() = SimulationInfo("model", int(a.size()), av.data(), "", "", {});
    try {
        app::DefaultValues dv; dv.auto_summary_default = "off"; app::CommandLineSimulator cls("usage", dv); int err = 0; if (!cls.parse(int(a.size()), av.data(), err)) throw SpartaException("options refused");
        Scheduler sched; Peeper peeper; std::unique_ptr<serialization::checkpoint::FastCheckpointer> fcp; std::unique_ptr<serialization::checkpoint::PersistentFastCheckpointer> pcp;
        {
            Sim sim(&sched, s); cls.populateSimulation(&sim);
            if (w.observe) for (size_t i = 0; i < s.clk.size(); ++i) { for (auto &r : {"r0", "r1"}) sim.worker(i)->rs->getRegister(r)->getPostWriteNotificationSource().registerForThis<Peeper, &Peeper::reg>(&peeper); sim.worker(i)->noise.registerForThis<Peeper, &Peeper::noise>(&peeper); }
            if (w.snaps) fcp.reset(new serialization::checkpoint::FastCheckpointer(*sim.getRoot(), &sched)), fcp->createHead(), fcp->setSnapshotThreshold(uint32_t(pr.range(1, 20)));
            if (w.persist) pcp.reset(new serialization::checkpoint::PersistentFastCheckpointer(*sim.getRoot(), &sched)), pcp->createHead();
            if (w.snaps || w.persist || w.observe) world.peek = [&] { if (!pr.chance(1, 12)) return; ++o.looks; if (fcp) fcp->createCheckpoint(); if (pcp && pr.chance(1, 4)) { std::ostringstream t; pcp->save(t); } if (w.observe && pr.chance(1, 4)) { std::ostringstream t; counters(sim.getRoot(), t); t << sim.getRoot()->renderSubtree(); } };
            cls.runSimulator(&sim);
            std::ostringstream st; st << "elapsed " << sched.getElapsedTicks() << "\n"; for (size_t i = 0; i < s.clk.size(); ++i) { st << sim.worker(i)->contents() << "\n"; counters(sim.nodes[i].get(), st); } o.state = st.str();
            cls.postProcess(&sim); o.looks += peeper.n; world.peek = nullptr; fcp.reset(); pcp.reset();
        }
    } catch (const std::exception &e) { o.error = std::string("exception: ") + e.what(); }
    fs::current_path(back); o.trace = std::move(world.trace); o.text = q.sink.str(); W = nullptr; return o;
}

// Wall-clock times are the only things two runs may write differently.
std::string plain(const std::string &t)
{
    static const std::regex when("(Simulation (started|ended) at|[Ss]tart time|Elapsed|elapsed|EXE|CWD|\"date\"|Generated)[^\n]*|[A-Z][a-z][a-z] [A-Z][a-z][a-z] +[0-9]+ [0-9:]+ [0-9]{4}|R1[0-9]{5}"); return std::regex_replace(t, when, "-");
}
std::map<std::string, std::string> files(const std::string &dir) { std::map<std::string, std::string> m; for (auto &e : fs::recursive_directory_iterator(dir)) if (e.is_regular_file()) { std::ifstream in(e.path(), std::ios::binary); std::ostringstream o; o << in.rdbuf(); std::string f = fs::relative(e.path(), dir).string(); if (f.size() > 7 && f[0] == 'R') f = f.substr(7); m[f] = o.str(); } return m; }
Shape shape(vf::Rng &r)
{
    Shape s; for (int i = int(r.below(3)); i--;) { static const uint32_t R[][2] = {{1, 1}, {1, 2}, {2, 1}, {3, 1}, {2, 3}, {3, 2}, {1, 3}}; auto &x = R[r.below(7)]; s.clocks.push_back({x[0], x[1]}); }
    size_t n = size_t(r.range(1, 5)); for (size_t i = 0; i < n; ++i) { s.clk.push_back(unsigned(r.below(s.clocks.size() + 1))); s.seed.push_back(r.next()); s.limit.push_back(uint32_t(r.range(5, 150))); s.shape.push_back(uint32_t(r.below(512))); s.sync.push_back(unsigned(i)); }
    for (size_t i = n; i-- > 1;) std::swap(s.sync[i], s.sync[r.below(i + 1)]);
    for (size_t i = 0; i < n; ++i) for (auto *v : {&s.data, &s.sig}) { unsigned j; do j = unsigned(r.below(n)); while (s.clk[j] != s.clk[i]); v->push_back(j); }
    return s;
}
std::string unitPat(vf::Rng &r, const Shape &s) { switch (r.below(4)) { case 0: return "top"; case 1: return "top.*"; default: return "top." + Sim::nm(r.below(s.clk.size())); } }
std::string descriptor(vf::Rng &r, const Shape &s, int k)
{
    std::ostringstream o; auto ctr = [&] { return "top." + Sim::nm(r.below(s.clk.size())) + ".stats." + (r.chance(2, 3) ? "c0" : "c1"); };
    static const char *const F[] = {"csv", "csv_cumulative", "txt", "json", "json_reduced", "json_detail", "html", "python", "js_json", "gnuplot", "stats_mapping"}; bool ts = r.chance(2, 3); const char *f = ts ? F[r.below(2)] : F[2 + r.below(9)];
    std::string pat = r.chance(1, 3) ? "_global" : r.chance(1, 2) ? "top" : "top." + Sim::nm(r.below(s.clk.size()));
    o << "  report:\n    pattern: " << pat << "\n    def_file: \"@\"\n    dest_file: rep" << (pat == "_global" ? "g" : "") << k << "." << f << "\n    format: " << f << "\n";
    if (pat == "_global") { std::string t = o.str(); o.str(""); o << t.replace(t.find("\"@\""), 3, "auto.yaml"); }
    if (r.chance(3, 4)) {
        std::ostringstream t; if (r.chance(1, 3)) { if (r.chance(1, 4)) t << "      start: \"notif.noise == " << r.below(8) << "\"\n"; else t << "      start: \"" << ctr() << " >= " << r.range(1, 60) << "\"\n"; }
        if (ts) switch (r.below(4)) { case 0: t << "      update-cycles: " << r.range(1, 40) << "\n"; break; case 1: t << "      update-time: " << r.range(1, 40) << " ps\n"; break; case 2: t << "      update-count: \"" << ctr() << " " << r.range(1, 20) << (r.chance(1, 3) ? " noalign" : "") << "\"\n"; break; default: t << "      update-whenever: notif.noise\n"; }
        if (r.chance(1, 4)) t << "      stop: \"" << ctr() << " >= " << r.range(60, 120) << "\"\n"; if (t.str().size()) o << "    trigger:\n" << t.str();
    }
    return o.str();
}
Watch watch(vf::Ctx &ctx, vf::Rng &r, const Shape &s)
{
    Watch w; w.seed = r.next(); auto add = [&](std::initializer_list<std::string> l) { for (auto &x : l) w.args.push_back(x); }; auto unit = [&] { return "top." + Sim::nm(r.below(s.clk.size())); }; auto num = [&](int a, int b) { return std::to_string(r.range(a, b)); };
    unsigned dens = unsigned(r.range(1, 3)); auto yes = [&](unsigned d) { return r.chance(dens, 3 * d / 2 + 1); }; bool z = yes(2), pe = yes(3);
    if (z) { add({"-z", r.chance(1, 2) ? "pipe_" : "p"}); ctx.count("pipeline collection"); if (r.chance(1, 3)) add({"-k", unit()}); if (r.chance(1, 2)) add({"--heartbeat", num(1, 5) + "00"}); }
    if (pe) { ctx.count("pevents"); switch (r.below(3)) { case 0: add({"--pevents", "@RUN@pev.log", "ITEM"}); break; case 1: add({"--verbose-pevents", "@RUN@vpev.log", "ALL"}); break; default: add({"--pevents-at", "@RUN@pevat.log", unit(), "ITEM"}); } }
    if ((z || pe) && r.chance(1, 2)) { ctx.count("delayed start"); if (r.chance(1, 3)) add({"--debug-on-icount", num(1, 40)}); else if (r.chance(1, 3) && s.clocks.size()) add({"--debug-on", "clka", num(1, 60)}); else add({"--debug-on", num(1, 60)}); }
    for (int i = 0; i < 3; ++i) if (yes(3)) { static const char *const C[] = {"info", "debug", "warning", ""}; static const char *const E[] = {".log", ".log.basic", ".log.raw"}; add({"-l", unitPat(r, s), C[r.below(4)], "@RUN@out" + std::to_string(i) + E[r.below(3)]}); ctx.count("taps"); }
    if (yes(3)) { add({"--report-all", "all." + num(0, 9), r.chance(1, 2) ? "csv" : "json"}); ctx.count("reports"); } if (yes(3)) { add({"--report", unit(), "@", "one.rep", r.chance(1, 2) ? "txt" : "html"}); ctx.count("reports"); }
    if (yes(2)) { std::string t = "content:\n"; for (int k = int(r.range(1, 4)); k--;) t += descriptor(r, s, k); w.files["desc.yaml"] = t; w.files["auto.yaml"] = "content:\n  top:\n    autopopulate:\n      attributes: \"\"\n      max_recursion_depth: -1\n"; add({"--report", "desc.yaml"}); ctx.count("report descriptors"); if (r.chance(1, 3)) add({"--verbose-report-triggers"}); }
    static const char *const SHOW[] = {"--show-tree", "--show-parameters", "--show-ports", "--show-counters", "--show-stats", "--show-notifications", "--show-loggers", "--show-dag", "--show-clocks", "--show-hidden", "--verbose-config", "--debug-sim", "--show-options", "--validate-post-run", "--no-warn-stderr", "--no-json-pretty-print", "--omit-zero-value-stats-from-json_reduced", "--generate-stats-mapping", "--report-on-error", "--no-colors"};
    for (auto *x : SHOW) if (r.chance(dens, 20)) { add({x}); ctx.count("displays"); }
    if (yes(4)) add({"--auto-summary", r.chance(1, 2) ? "on" : "verbose"}); if (yes(4)) add({"--write-final-config", "final.yaml"}); if (yes(4)) add({"--write-final-config-verbose", "finalv.yaml"}); if (yes(4)) add({"--warn-file", "@RUN@warn.log"});
    if (yes(4)) { add({"--enable-state-tracking", "states.txt"}); ctx.count("state tracking"); } if (yes(4)) add({"--debug-dump", r.chance(1, 2) ? "never" : "always", "--debug-dump-filename", "dump.txt"});
    w.snaps = yes(3); w.persist = yes(5); w.observe = yes(3); if (w.snaps || w.persist) ctx.count("checkpointers"); if (w.observe) ctx.count("notification observers");
    return w;
}
std::string at(const Step &s) { std::ostringstream o; o << "tick " << s.tick << " unit " << s.unit << " handler " << s.kind << " data " << s.data; return o.str(); }
void same(vf::Ctx &ctx, const Out &a, const Out &b, const std::string &k)
{
    VF_CHECK(ctx, b.error.empty(), k + "/error " + b.error.substr(0, 60), b.error);
    for (size_t i = 0; i < std::min(a.trace.size(), b.trace.size()); ++i) VF_CHECK(ctx, a.trace[i] == b.trace[i], k + "/order", "step " << i << " is " << at(b.trace[i]) << ", in the plain run " << at(a.trace[i]));
    VF_EQ(ctx, b.trace.size(), a.trace.size(), k + "/length", "steps"); VF_EQ(ctx, b.state, a.state, k + "/state", "final state");
}
VF_SECTION(observe, 200, 3000)
{
    auto &r = ctx.rng; Shape s = shape(r); std::vector<std::string> base; size_t n = s.clk.size();
    for (size_t i = 0; i < n; ++i) { std::string u = "top." + Sim::nm(i) + ".params."; auto p = [&](const char *k, uint64_t v) { base.insert(base.end(), {"-p", u + k, std::to_string(v)}); }; p("id", i); p("seed", s.seed[i]); p("limit", s.limit[i]); p("shape", s.shape[i]); }
    uint64_t stopAt = r.chance(1, 5) ? uint64_t(r.range(1, 300)) : 0; if (r.chance(1, 3)) { base.push_back("-r"); if (s.clocks.size() && r.chance(1, 2)) base.push_back("clka"); base.push_back(std::to_string(r.range(1, 200))); ctx.count("run lengths"); }
    ctx.op([&](std::ostream &o) { o << "units " << n << " clocks"; for (auto &c : s.clocks) o << " " << c.first << "/" << c.second; o << " on"; for (auto c : s.clk) o << " " << c; o << " data"; for (auto c : s.data) o << " " << c; o << " sig"; for (auto c : s.sig) o << " " << c; o << " sync"; for (auto c : s.sync) o << " " << c; for (auto &b : base) o << " " << b; o << " stop " << stopAt; });
    std::string d = ctx.scratch + "/observe"; fs::remove_all(d); Out a = run(ctx, s, base, {}, stopAt, d + "/a"); VF_CHECK(ctx, a.error.empty(), "plain/error", a.error); for (auto &x : a.trace) ctx.obs(x.tick, x.unit, x.kind);
    ctx.count("steps", a.trace.size()); Out b = run(ctx, s, base, {}, stopAt, d + "/b"); same(ctx, a, b, "repeat");
    for (int k = 0; k < 2; ++k) {
        Watch w = watch(ctx, r, s); ctx.op([&](std::ostream &o) { o << "watch"; for (auto &x : w.args) o << " " << x; o << " snaps " << w.snaps << " persist " << w.persist << " observe " << w.observe; for (auto &f : w.files) o << "\n" << f.first << ":\n" << f.second; });
        std::string c1 = d + "/c" + std::to_string(k), c2 = d + "/d" + std::to_string(k); Out c = run(ctx, s, base, w, stopAt, c1); same(ctx, a, c, "observed"); ctx.count("observed runs"); ctx.count("looks", c.looks);
        if (r.chance(1, 2)) { Out e = run(ctx, s, base, w, stopAt, c2); same(ctx, a, e, "observed"); auto f = files(c1), g = files(c2); for (auto &x : f) { VF_CHECK(ctx, g.count(x.first), "files/missing", x.first); bool ids = x.first.size() > 4 && x.first[0] == 'p' && (x.first.find(".dat") != x.first.npos || x.first.find(".bin") != x.first.npos); if (ids || x.first.substr(0, 4) == "all." || x.first.substr(0, 4) == "repg") continue; /* node numbers, given out per process; statistics of the host */ std::string p = plain(x.second), q = plain(g[x.first]); size_t i = 0; while (i < std::min(p.size(), q.size()) && p[i] == q[i]) ++i; VF_CHECK(ctx, p == q, "files/differ", x.first << " differs at " << i << ": '" << p.substr(i > 40 ? i - 40 : 0, 120) << "' and '" << q.substr(i > 40 ? i - 40 : 0, 120) << "'"); ctx.count("output files compared"); } VF_EQ(ctx, g.size(), f.size(), "files/count", "output files"); }
    }
    if (!getenv("KEEP")) fs::remove_all(d);
}
} // namespace
