// Deterministic simulator for hsm machines: world, scheduler, fault injection, reference model,
// trace generation, comparison and replay. This file never includes the library under test.
#include "sim.h"

#include <algorithm>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0";
}
#endif

namespace sim {

// ---------------------------------------------------------------------------------------------
// PRNG (splitmix64): the only source of choices, used only while a trace is generated
// ---------------------------------------------------------------------------------------------
struct Rng {
    u64 s;
    u64 next()
    {
        u64 z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool chance(int permille) { return int(below(1000)) < permille; }
};

u64 mix(u64 a, u64 b)
{
    u64 z = a * 0x9e3779b97f4a7c15ULL + b + 0x2545f4914f6cdd1dULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    return z ^ (z >> 27);
}

// ---------------------------------------------------------------------------------------------
// Accounting of allocations and objects of the library
// ---------------------------------------------------------------------------------------------
bool g_inLib = false;
long g_libAllocs = 0;      // live allocations made inside the library
long g_libBytes = 0;
long g_data = 0;           // live state data objects of the real machines
long g_events = 0;         // live event objects
long g_failAt = 0;         // >0: countdown to a failing allocation
bool g_failSticky = false;
long g_failFired = 0;
bool g_copyFail = false;
long g_copyFired = 0;
long g_libAllocCount = 0;  // allocations seen in the library since reset

LibScope::LibScope() : saved(g_inLib) { g_inLib = true; }
LibScope::~LibScope() { g_inLib = saved; }

UserScope::UserScope() : saved(g_inLib) { g_inLib = false; }
UserScope::~UserScope() { g_inLib = saved; }

} // namespace sim

// ---------------------------------------------------------------------------------------------
// Allocator seam
// ---------------------------------------------------------------------------------------------
namespace {
struct alignas(16) Header {
    unsigned long long tag;
    unsigned long long size;
};
constexpr unsigned long long TAG_LIB = 0x11b11b11b11b11b1ULL, TAG_USER = 0x05e105e105e105e1ULL;

void* sim_alloc(std::size_t n, bool nothrow)
{
    using namespace sim;
    if (g_inLib) {
        ++g_libAllocCount;
        if (g_failAt > 0 && --g_failAt == 0) {
            if (g_failSticky) g_failAt = 1;
            ++g_failFired;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
        if (g_libBytes > (256l << 20)) {
            static const char msg[] = "SIM-FATAL: memory of the machine grows without bound\n";
            (void)!write(2, msg, sizeof msg - 1);
            _exit(78);
        }
    }
    auto* h = static_cast<Header*>(std::malloc(n + sizeof(Header)));
    if (!h) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    h->size = n;
    if (g_inLib) {
        h->tag = TAG_LIB;
        ++g_libAllocs;
        g_libBytes += long(n);
        std::memset(h + 1, 0xa5, n);    // what is read before it was written is never accidentally zero
    } else {
        h->tag = TAG_USER;
    }
    return h + 1;
}
void sim_free(void* p) noexcept
{
    if (!p) return;
    auto* h = static_cast<Header*>(p) - 1;
    if (h->tag == TAG_LIB) {
        --sim::g_libAllocs;
        sim::g_libBytes -= long(h->size);
        std::memset(p, 0x5a, h->size);  // and what is read after it was released never accidentally right
        asm volatile("" : : "r"(p) : "memory");
    }
    h->tag = 0;
    std::free(h);
}
}
void* operator new(std::size_t n) { return sim_alloc(n, false); }
void* operator new[](std::size_t n) { return sim_alloc(n, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, true); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, std::size_t) noexcept { sim_free(p); }
void operator delete[](void* p, std::size_t) noexcept { sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p); }

namespace sim {

void data_born() { ++g_data; }
void data_died() { --g_data; }
void event_born() { ++g_events; }
void event_died() { --g_events; }
void event_copied()
{
    if (g_copyFail && g_inLib) {
        ++g_copyFired;
        throw CopyFault { 1 };
    }
}

// ---------------------------------------------------------------------------------------------
// Registry
// ---------------------------------------------------------------------------------------------
std::vector<MachineDef>& registry()
{
    static std::vector<MachineDef> r;
    return r;
}
Registrar::Registrar(const MachineDef& d) { registry().push_back(d); }

const MachineDef* find_machine(const std::string& name)
{
    for (auto& d : registry())
        if (name == d.spec()->name) return &d;
    return nullptr;
}

// ---------------------------------------------------------------------------------------------
// Traces
// ---------------------------------------------------------------------------------------------
enum Op { OP_SEND = 0, OP_SENSOR, OP_SETDEP, OP_MOVE, OP_MOVEASSIGN, OP_SET, OP_RESTART, OP_PROBE, OP_NOPS };
const char* const opName[] = { "send", "sensor", "setdep", "move", "moveassign", "set", "restart", "construct-fail" };
enum PlanKind { P_THROW = 0, P_YIELD, P_POST, P_SENSOR, P_SETDEP, P_CRASH, P_GTHROW, P_SET, P_LOGTHROW, P_LOGDEAD, P_NKINDS };
const char* const planName[] = { "throw", "yield", "post", "sensor", "setdep", "crash", "guardthrow", "set", "log-stream-throws", "log-stream-fails" };

struct Plan {
    int at = 0;      // ordinal of the non-guard callback within the step
    int kind = 0;
    long a = 0;      // event | sensor | guard | ticks | pair
    u64 b = 0;       // payload | value
    int c = 0;       // post: 1 = callback catches what the nested call throws, 2 = lvalue
};
struct Step {
    int inst = 0;
    int op = OP_SEND;
    long a = 0;      // event | sensor | pair
    u64 b = 0;       // payload | value | region
    int c = 0;       // lvalue | form
    int allocFail = 0; // 0 none, 1 one-shot, 2 sticky
    int copyFail = 0;
    int persist = 1; // the client records the reported configuration afterwards
    u64 time = 0;    // simulated time of delivery
    int net = 0;     // bit 0 duplicate, bit 1 delayed, bit 2 overtook another message
    std::vector<Plan> plan;
};
struct Trace {
    std::vector<std::string> machines; // per instance
    u64 seed = 0;
    std::vector<Step> steps;
};

std::string to_text(const Trace& t)
{
    std::ostringstream o;
    o << "trace 1\nseed " << t.seed << "\n";
    for (auto& m : t.machines) o << "instance " << m << "\n";
    for (auto& s : t.steps) {
        o << "step " << opName[s.op] << " i=" << s.inst << " a=" << s.a << " b=" << s.b << " c=" << s.c << " af=" << s.allocFail
          << " cf=" << s.copyFail << " p=" << s.persist << " t=" << s.time << " n=" << s.net << "\n";
        for (auto& p : s.plan) o << "  plan " << planName[p.kind] << " at=" << p.at << " a=" << p.a << " b=" << p.b << " c=" << p.c << "\n";
    }
    o << "end\n";
    return o.str();
}

bool parse_trace(std::istream& in, Trace& t)
{
    std::string line;
    auto num = [](const std::string& l, const char* key) -> long long {
        auto p = l.find(std::string(" ") + key + "=");
        if (p == std::string::npos) return 0;
        return (long long)std::strtoull(l.c_str() + p + 2 + std::strlen(key), nullptr, 10);
    };
    auto snum = [](const std::string& l, const char* key) -> long {
        auto p = l.find(std::string(" ") + key + "=");
        if (p == std::string::npos) return 0;
        return std::strtol(l.c_str() + p + 2 + std::strlen(key), nullptr, 10);
    };
    bool ok = false;
    while (std::getline(in, line)) {
        std::istringstream w(line);
        std::string k, v;
        w >> k;
        if (k == "trace") ok = true;
        else if (k == "seed") w >> t.seed;
        else if (k == "instance") { w >> v; t.machines.push_back(v); }
        else if (k == "step") {
            w >> v;
            Step s;
            s.op = -1;
            for (int i = 0; i < OP_NOPS; ++i) if (v == opName[i]) s.op = i;
            if (s.op < 0) return false;
            s.inst = int(snum(line, "i")); s.a = snum(line, "a"); s.b = u64(num(line, "b")); s.c = int(snum(line, "c"));
            s.allocFail = int(snum(line, "af")); s.copyFail = int(snum(line, "cf")); s.persist = int(snum(line, "p"));
            s.time = u64(num(line, "t")); s.net = int(snum(line, "n"));
            t.steps.push_back(s);
        } else if (k == "end") {
            return ok;
        } else if (k == "plan") {
            w >> v;
            Plan p;
            p.kind = -1;
            for (int i = 0; i < P_NKINDS; ++i) if (v == planName[i]) p.kind = i;
            if (p.kind < 0 || t.steps.empty()) return false;
            p.at = int(snum(line, "at")); p.a = snum(line, "a"); p.b = u64(num(line, "b")); p.c = int(snum(line, "c"));
            t.steps.back().plan.push_back(p);
        }
    }
    return ok;
}

// ---------------------------------------------------------------------------------------------
// Logs
// ---------------------------------------------------------------------------------------------
enum RecType { R_STEP = 0, R_CB, R_RET, R_THROW, R_CONFIG, R_NEST, R_NESTRET, R_NESTTHROW, R_RESTART, R_RESUME, R_PAYLOAD, R_LEAK, R_HELD, R_LOG, R_END };
const char* const recName[] = { "step", "callback", "returns", "throws", "config", "post", "post-returns", "post-throws", "restart", "resume", "lvalue-event-changed", "leak", "memory-held", "logs", "end" };
struct Rec {
    int type = 0;
    int step = -1;
    int inst = -1;
    std::array<u64, 12> v {};
    bool operator==(const Rec& o) const { return type == o.type && step == o.step && inst == o.inst && v == o.v; }
};
struct GRec {
    int step = -1;
    u64 key = 0;
    Rec full;
};

const char* const kindName[] = { "guard", "action", "entry", "exit", "handler", "factory" };

enum ThrowKind { T_FAULT = 1, T_BADALLOC, T_COPY, T_RUNAWAY, T_OTHER, T_CRASH };
const char* const throwName[] = { "-", "callback-fault", "bad_alloc", "copy-fault", "runaway", "other", "crash" };

// ---------------------------------------------------------------------------------------------
// Counters
// ---------------------------------------------------------------------------------------------
struct Stats {
    u64 runs = 0, steps = 0, callbacks = 0, simTime = 0, distinctRuns = 0, tolerated = 0;
    std::map<std::string, u64> fired;      // fault kinds that actually happened
    std::map<std::string, u64> probes;     // rare conditions that were reached
    std::set<u64> configs, edges, schedules, logs;
} g_stats;

// ---------------------------------------------------------------------------------------------
// World
// ---------------------------------------------------------------------------------------------
struct World;
World* W = nullptr;

struct Fiber {
    ucontext_t ctx {};
    char* stack = nullptr;
    std::size_t size = 0;
    int inst = -1;
    bool done = true;
    int wake = 0;
    void* fake = nullptr;
    bool savedInLib = false;
};

struct Instance {
    const MachineDef* def = nullptr;
    const Spec* spec = nullptr;
    IMachine* m = nullptr;
    int idx = 0;
    int incarnation = 0;
    bool busy = false;
    std::vector<int> sensors;
    std::vector<std::unique_ptr<DepSet>> deps;  // last one is current
    int depSerial = 0;
    std::vector<int> snapshot;                  // durable: pair per region
    // the running step
    const Step* step = nullptr;
    int stepIdx = -1;
    int cb = 0;                                 // non-guard callbacks so far
    int guards = 0;
    int lines = 0;                              // begun by hsm::log so far
    bool logDead = false;                       // the stream of this step has failed
    int nest = 0;
    std::vector<char> used;                     // plan items that fired
    bool allocFailPending = false;              // model: the next deferral fails
    int failFired = 0;
    Fiber* fiber = nullptr;
    int nregions = 1;
    std::set<int> built;                        // factories that have delivered an object
    u64 lastWord = ~0ull;                       // what the machine reported last
    int peaks = 0;                              // deferred events of former incarnations
    std::map<u64, std::string> statusOf;        // status() text of the configurations seen so far
    std::map<std::string, u64> configOf;
    int owner() const { return idx * 1000 + incarnation; }
};

int regions_in(const Spec& s, int parent)
{
    std::set<int> ini;
    for (auto& r : s.states[std::size_t(parent)].rows) if (r.srcKind == SRC_INITIAL) ini.insert(r.src);
    return int(ini.size());
}
int regions_of(const Spec& s)
{
    int n = 1;
    for (std::size_t p = 0; p < s.states.size(); ++p)
        if (s.states[p].composite) n = std::max(n, regions_in(s, int(p)));
    return n;
}

IMachine* make_model(const Spec* spec, DepSet& deps, int quirks);
void model_hint(IMachine* m, std::vector<int>& enabled, std::vector<int>& deferring, int& pending);
int model_peak(IMachine* m);   // the most deferred events it ever had at a time

struct Config;

struct World {
    bool real = false;
    u64 seed = 0;
    const World* ref = nullptr;                          // the reference run, if there is one
    int quirks = ~0;
    const Trace* trace = nullptr;                        // replay
    std::function<bool(World&, Step&)> source;           // or generation
    Trace recorded;                                      // what was executed
    std::vector<Instance> inst;
    std::vector<Rec> log;
    std::vector<GRec> glog;
    std::vector<int> stepFired;                          // injected library faults per step
    Instance* cur = nullptr;
    Fiber* curFiber = nullptr;
    ucontext_t mainCtx {};
    void* mainFake = nullptr;
    const void* mainStack = nullptr;
    std::size_t mainSize = 0;
    int ticks = 0;
    u64 callbacks = 0;
    bool overflow = false;
    std::vector<std::string> lines;                      // that hsm::log wrote

    void rec(int type, int inst_, std::initializer_list<u64> v, int step = -2)
    {
        Rec r;
        r.type = type;
        r.inst = inst_;
        r.step = step == -2 ? (inst_ >= 0 ? inst[inst_].stepIdx : -1) : step;
        int i = 0;
        for (auto x : v) r.v[i++] = x;
        log.push_back(r);
    }
};

int current_owner() { return W && W->cur ? W->cur->owner() : -1; }

void payload_check(u64 sent, u64 after)
{
    after &= ~EV_TOUCHED;
    if (sent != after && W && W->cur) W->rec(R_PAYLOAD, W->cur->idx, { sent, after });
}

// ---------------------------------------------------------------------------------------------
// Fibers
// ---------------------------------------------------------------------------------------------
std::vector<Fiber*> g_pool;
constexpr std::size_t STACK = 1 << 20;

void to_main()
{
    Fiber* f = W->curFiber;
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(f->done ? nullptr : &f->fake, W->mainStack, W->mainSize);
#endif
    swapcontext(&f->ctx, &W->mainCtx);
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(f->fake, &W->mainStack, &W->mainSize);
#endif
}
void execute_step(Instance& I);

void fiber_main()
{
    while (true) {
#ifdef SIM_ASAN
        __sanitizer_finish_switch_fiber(nullptr, &W->mainStack, &W->mainSize);
#endif
        Fiber* f = W->curFiber;
        execute_step(W->inst[f->inst]);
        f->done = true;
        to_main();
        std::abort();
    }
}
void enter(Fiber* f)
{
    Fiber* prev = W->curFiber;
    Instance* prevI = W->cur;
    W->curFiber = f;
    W->cur = &W->inst[f->inst];
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(&W->mainFake, f->stack, f->size);
#endif
    swapcontext(&W->mainCtx, &f->ctx);
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(W->mainFake, nullptr, nullptr);
#endif
    W->curFiber = prev;
    W->cur = prevI;
}
Fiber* new_fiber(int inst)
{
    Fiber* f;
    if (!g_pool.empty()) {
        f = g_pool.back();
        g_pool.pop_back();
    } else {
        f = new Fiber;
        f->size = STACK;
        f->stack = static_cast<char*>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (f->stack == MAP_FAILED) std::abort();
    }
#ifdef SIM_ASAN
    __asan_unpoison_memory_region(f->stack, f->size);
#endif
    f->inst = inst;
    f->done = false;
    f->wake = 0;
    f->fake = nullptr;
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack;
    f->ctx.uc_stack.ss_size = f->size;
    f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, fiber_main, 0);
    return f;
}

// ---------------------------------------------------------------------------------------------
// The output stream of hsm::log
// ---------------------------------------------------------------------------------------------
void throw_fault(int id, int kind);

// A line is begun: false if the stream has failed, and a fault if it throws
bool begin_line()
{
    Instance* I = W->cur;
    if (!I || !I->step) return true;
    if (I->logDead) return false;
    const int n = I->lines++;
    const auto& plan = I->step->plan;
    const bool throws = std::any_of(plan.begin(), plan.end(), [](const Plan& p) { return p.kind == P_LOGTHROW; });
    for (std::size_t i = 0; i < I->step->plan.size(); ++i) {
        auto& p = I->step->plan[i];
        if (p.at != n || I->used[i]) continue;
        if (p.kind == P_LOGTHROW) {
            I->used[i] = 1;
            throw_fault(200000 + n, n);
        }
        if (p.kind == P_LOGDEAD && !throws) {
            I->used[i] = 1;
            I->logDead = true;
            return false;
        }
    }
    return true;
}
void end_line(std::string text)
{
    Instance* I = W->cur;
    // what a row into a history state has for a target is not known before it fires
    if (I && I->spec->maskTarget) text = text.substr(0, text.find(" = ") + 3);
    u64 h = text.size();
    for (char c : text) h = mix(h, u64(static_cast<unsigned char>(c)));
    W->rec(R_LOG, I ? I->idx : -1, { h, u64(W->lines.size()) });
    W->lines.push_back(text);
}

struct LogSink final : std::streambuf {
    std::string line;
    bool put(char c)
    {
        UserScope user;
        if (line.empty() && !begin_line()) return false;
        if (c == '\n') {
            std::string t;
            t.swap(line);
            end_line(t);
        } else {
            line += c;
        }
        return true;
    }
    int overflow(int c) override { return c == EOF ? 0 : put(char(c)) ? c : EOF; }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        for (std::streamsize i = 0; i < n; ++i) if (!put(s[i])) return i;
        return n;
    }
};
// the state of std::cout belongs to the step that writes to it
struct StreamState {
    std::ios_base::iostate state = std::ios_base::goodbit, mask = std::ios_base::goodbit;
    std::string line;
};
LogSink g_sink;
StreamState stream_save()
{
    return { std::cout.rdstate(), std::cout.exceptions(), g_sink.line };
}
void stream_restore(const StreamState& s)
{
    std::cout.exceptions(std::ios_base::goodbit);
    std::cout.clear(s.state & ~s.mask);
    std::cout.exceptions(s.mask);
    g_sink.line = s.line;
}
StreamState stream_of(const Step& s)
{
    StreamState r;
    for (auto& p : s.plan) if (p.kind == P_LOGTHROW) r.mask = std::ios_base::badbit;
    return r;
}

// ---------------------------------------------------------------------------------------------
// Callbacks: all user code of all machines, real and model
// ---------------------------------------------------------------------------------------------
constexpr int CB_BUDGET = 4000;
constexpr int GUARD_BUDGET = 400000;

// What the machine reports for all its regions. The reference's answer serves as a hint which
// question to ask first: if it is confirmed, the other questions are only asked in `full` reports.
u64 config_word(Instance& I, bool full = false)
{
    u64 h = 0;
    u64 hint = full ? ~0ull : I.lastWord;
    if (!full && W->ref && W->log.size() < W->ref->log.size()) {
        const Rec& r = W->ref->log[W->log.size()];
        switch (r.type) {
        case R_CB: hint = r.v[9]; break;
        case R_CONFIG: hint = r.v[0]; break;
        case R_NESTRET: hint = r.v[1]; break;
        case R_NESTTHROW: hint = r.v[2]; break;
        case R_RESTART: hint = r.v[1]; break;
        default: break;
        }
    }
    for (int r = 0; r < I.nregions; ++r) {
        int hi = int(hint >> (8 * (I.nregions - 1 - r)) & 0xff);
        if (hi >= int(I.spec->pairs.size())) hi = -1;
        h = h << 8 | u64(I.m->config(r, hi) & 0xff);
    }
    I.lastWord = h;
    return h;
}

// status() has no specified format, but it must tell configurations apart. Only regions that are
// active count.
bool status_wrong(Instance& I, u64 word)
{
    const Spec& S = *I.spec;
    const u64 first = word >> (8 * (I.nregions - 1)) & 0xff;
    if (first >= S.pairs.size()) return false;
    const int active = std::max(regions_in(S, 0), regions_in(S, S.pairs[first].first));
    const u64 key = word >> (8 * (I.nregions - std::min(active, I.nregions)));
    const std::string text = I.m->status();
    const u64 tagged = key | u64(active) << 56;
    return I.statusOf.emplace(tagged, text).first->second != text || I.configOf.emplace(text, tagged).first->second != tagged;
}

u64 record_config(Instance& I)
{
    // the remaining queries are asked after every fourth step or so
    const bool full = I.stepIdx < 0 || (mix(W->seed, u64(I.stepIdx)) & 3) == 0;
    const u64 word = config_word(I, full);
    if (full) W->rec(R_CONFIG, I.idx, { word, I.m->is_mask(), I.m->is2_mask(), I.m->parent_mask(), u64(W->real && status_wrong(I, word)) });
    else W->rec(R_CONFIG, I.idx, { word });
    return word;
}

void new_deps(Instance& I)
{
    I.deps.push_back(std::make_unique<DepSet>(++I.depSerial));
    I.m->set_dependency(*I.deps.back());
}

void throw_fault(int id, int kind)
{
    static const char* const names[] = { "thrown-plain-object", "thrown-derived-object", "thrown-std-exception", "thrown-derived-exception", "thrown-number" };
    if (W->real) ++g_stats.fired[names[kind % 5]];
    switch (kind % 5) {
    case 0: throw Fault { id };
    case 1: throw DerivedFault(id);
    case 2: throw ErrorFault(id);
    case 3: throw DerivedErrorFault(id);
    default: throw id;
    }
}

// what arrived, down to its most derived type: an object that was sliced, wrapped or replaced on its
// way shows up as a different number
long current_fault()
{
    const auto number = [](long id, long kind) { return id * 8 + kind; };
    try {
        throw;
    } catch (const DerivedFault& f) {
        return number(f.id, f.kind == 1 ? 1 : 7);
    } catch (const Fault& f) {
        return number(f.id, 0);
    } catch (const DerivedErrorFault& f) {
        return number(f.id, std::strcmp(f.what(), "fault") ? 7 : 3);
    } catch (const ErrorFault& f) {
        return number(f.id, std::strcmp(f.what(), "fault") ? 7 : 2);
    } catch (int f) {
        return number(f, 4);
    } catch (...) {
        return -1;
    }
}

u64 callback(int kind, int id, int ev, const u64* payload, Ref src, Ref tgt, Dep* const* deps, int ndeps)
{
    UserScope user;
    Instance& I = *W->cur;
    const bool mask = I.spec->maskTarget;
    // the target has no object yet: user code that fails now would leave the machine in a state
    // without object (known finding), so such faults are only injected when a trace insists
    bool noObject = !tgt.absent && !tgt.d;
    if (kind == K_FACTORY) noObject = !I.built.count(id);
    if (mask) tgt = Ref { nullptr, true };

    Rec r;
    r.type = R_CB;
    r.step = I.stepIdx;
    r.inst = I.idx;
    r.v[0] = u64(kind) << 32 | u64(id);
    r.v[1] = u64(ev + 1);
    // guards may be asked at any time, also before the callbacks of another region write to the event
    r.v[2] = payload ? kind == K_GUARD ? *payload & ~EV_TOUCHED : *payload : 0;
    auto look = [](const Ref& x, u64& sid, u64& val) {
        if (x.absent) {
            sid = 0xabc;
        } else if (!x.d) {
            sid = 0xdef;                            // no object
        } else {
            sid = u64(x.d->sid + 1) << 32 | u64(u64(x.d->owner) & 0xffffff) | (x.d->alive == DATA_ALIVE ? 0 : u64(1) << 63);
            val = x.d->val;
        }
    };
    look(src, r.v[3], r.v[4]);
    look(tgt, r.v[5], r.v[6]);
    u64 dh = u64(ndeps);
    for (int i = 0; i < ndeps; ++i) {
        if (i > 3) dh = mix(dh, 1);
        dh = dh * 4096 + u64(deps[i]->type * 1024 + deps[i]->serial % 1024) + (deps[i]->alive == DATA_ALIVE ? 0 : 7);
        r.v[8] = mix(r.v[8], deps[i]->n);
    }
    r.v[7] = dh;

    if (kind == K_GUARD) {
        if (++I.guards > GUARD_BUDGET) throw Runaway { 1 };
        r.v[9] = config_word(I);     // a guard decides before anything changes
        GRec g;
        g.step = I.stepIdx;
        g.full = r;
        u64 h = u64(I.idx);
        for (auto x : r.v) h = mix(h, x);
        g.key = h;
        if (W->glog.size() < 200000) W->glog.push_back(g);
        if (I.step) {
            for (std::size_t i = 0; i < I.step->plan.size(); ++i) {
                auto& p = I.step->plan[i];
                if (p.kind == P_GTHROW && p.a == id && I.cb >= p.at) {
                    I.used[i] = 1;
                    throw_fault(100000 + id, id + p.at);
                }
            }
        }
        return u64(I.sensors[std::size_t(id)]);
    }

    const int ordinal = I.cb++;
    ++W->callbacks;
    if (ordinal > CB_BUDGET) throw Runaway { 0 };
    if (kind != K_HANDLER) {
        r.v[9] = config_word(I);     // what the machine reports while the callback runs
    } else {
        r.v[9] = config_word(I);
    }
    r.v[10] = u64(I.nest);
    W->log.push_back(r);

    // what the callback does: data of states and dependencies, sensors
    const u64 base = u64(kind * 1000 + id + 1);
    const u64 pay = payload ? *payload & ~EV_TOUCHED : 0;
    u64 result = mix(base, pay + (src.d ? src.d->val : 0));
    if (src.d && kind != K_FACTORY) src.d->val = mix(src.d->val, base * 3 + pay);
    if (tgt.d) tgt.d->val = mix(tgt.d->val, base * 5 + pay);
    // later callbacks of the same event see what this one leaves in it (reuse_state and create_state pass copies)
    if (payload && ev >= 0 && (kind == K_ENTRY || kind == K_EXIT || (kind == K_ACTION && !I.spec->reuseActions.count(id))))
        *const_cast<u64*>(payload) += EV_TOUCH;
    for (int i = 0; i < ndeps; ++i) ++deps[i]->n;
    if (kind == K_ACTION)
        for (auto& e : I.spec->effects)
            if (e.action == id) {
                int& sensor = I.sensors[std::size_t(e.guard)];
                if (e.value >= 0) sensor = e.value;
                else if (sensor > 0) --sensor;          // a counter that runs down
            }

    if (!I.step) {
        if (kind == K_FACTORY) I.built.insert(id);
        return result;
    }
    for (std::size_t i = 0; i < I.step->plan.size(); ++i) {
        const Plan p = I.step->plan[i];
        if (p.at != ordinal || I.used[i] || p.kind == P_GTHROW || p.kind >= P_LOGTHROW) continue;
        switch (p.kind) {
        case P_THROW:
            if (noObject && p.c == 0) continue;
            I.used[i] = 1;
            throw_fault(int(kind) * 1000 + id, id + p.at);
        case P_CRASH:
            I.used[i] = 1;
            throw Crash { 1 };
        case P_SENSOR:
            I.used[i] = 1;
            if (std::size_t(p.a) < I.sensors.size()) I.sensors[std::size_t(p.a)] = int(p.b);
            break;
        case P_SETDEP:
            I.used[i] = 1;
            new_deps(I);
            break;
        case P_SET: {
            I.used[i] = 1;
            if (std::size_t(p.a) < I.spec->pairs.size() && int(p.b) < I.nregions) I.m->set(int(p.b), int(p.a), p.c);
            break;
        }
        case P_YIELD:
            I.used[i] = 1;
            if (I.fiber) {
                I.fiber->wake = int(p.a);
                const bool inLib = g_inLib;
                const long fa = g_failAt;
                const bool fs = g_failSticky, cf = g_copyFail;
                const StreamState out = stream_save();
                g_failAt = 0;
                g_copyFail = false;
                to_main();
                g_inLib = inLib;
                g_failAt = fa;
                g_failSticky = fs;
                g_copyFail = cf;
                if (W->real) stream_restore(out);
                W->rec(R_RESUME, I.idx, { u64(ordinal) });
            }
            break;
        case P_POST: {
            if (noObject) continue;
            I.used[i] = 1;
            W->rec(R_NEST, I.idx, { u64(p.a), p.b });
            ++I.nest;
            const int depth = I.nest;
            try {
                const bool res = I.m->send(int(p.a), p.b, (p.c & 2) != 0);
                I.nest = depth - 1;
                W->rec(R_NESTRET, I.idx, { u64(res), config_word(I) });
            } catch (...) {
                I.nest = depth - 1;
                const long f = current_fault();
                if (f < 0) throw;
                if (W->real) stream_restore(stream_of(*I.step));
                W->rec(R_NESTTHROW, I.idx, { u64(T_FAULT), u64(f), config_word(I) });
                if (!(p.c & 1)) throw;
            }
            break;
        }
        default: break;
        }
    }
    if (kind == K_FACTORY) I.built.insert(id);
    return result;
}

// ---------------------------------------------------------------------------------------------
// Reference model
// ---------------------------------------------------------------------------------------------
enum Quirk { Q_ANON = 1, Q_NEST = 2, Q_DEEP = 4, Q_INNER = 8, Q_FACTORY = 16, Q_REPLACE = 32 };

struct Model final : IMachine {
    struct Cand {
        int level;            // 0 state row, 1 composite row, 2 internal
        const Row* row;
        const IRow* irow;
        int owner;            // table that contains the row
        int src;              // state whose object is the source
    };
    struct Pair { int p, s; bool operator==(const Pair& o) const { return p == o.p && s == o.s; } };
    struct Deferred { int ev; u64 payload; };

    const Spec* S;
    int quirks;
    std::vector<std::vector<int>> initials;    // per parent
    std::vector<int> enclosing;                // composite -> parent that contains it
    int maxRegions;
    std::vector<Pair> cfg;
    std::vector<std::vector<Pair>> hist;
    std::deque<Deferred> q;
    std::vector<std::unique_ptr<Data>> data;
    DepSet* deps;
    bool hasHistory = false;
    int peak = 0;

    Model(const Spec* s, DepSet& d, int quirks) : S(s), quirks(quirks), deps(&d)
    {
        const auto n = S->states.size();
        initials.resize(n);
        enclosing.assign(n, -1);
        for (std::size_t p = 0; p < n; ++p) {
            for (auto& r : S->states[p].rows) {
                if (r.srcKind == SRC_INITIAL && std::find(initials[p].begin(), initials[p].end(), r.src) == initials[p].end())
                    initials[p].push_back(r.src);
                if (r.tgtKind == TGT_PLAIN && S->states[r.tgt].composite && r.tgt != int(p) && r.tgt != 0 && enclosing[r.tgt] < 0)
                    enclosing[r.tgt] = int(p);
                if (r.tgtKind == TGT_HISTORY) hasHistory = true;
            }
        }
        for (std::size_t p = 0; p < n; ++p)      // composites that are only entered through pseudo states
            for (auto& r : S->states[p].rows)
                if (r.tgtKind != TGT_PLAIN && enclosing[r.tgtParent] < 0 && r.tgtParent != int(p)) enclosing[r.tgtParent] = int(p);
        maxRegions = regions_of(*S);
        cfg.assign(std::size_t(maxRegions), Pair { 0, initials[0][0] });
        for (std::size_t r = 0; r < initials[0].size(); ++r) cfg[r] = { 0, initials[0][r] };
        hist.resize(n);
        for (std::size_t p = 0; p < n; ++p)
            if (!initials[p].empty())
                for (int r = 0; r < maxRegions; ++r)
                    hist[p].push_back({ int(p), std::size_t(r) < initials[p].size() ? initials[p][r] : initials[p][0] });
        for (std::size_t i = 0; i < n; ++i)
            data.push_back(S->states[i].custom ? nullptr : std::make_unique<Data>(int(i)));
    }

    int regions() const
    {
        if (maxRegions <= 1) return 1;
        return int(std::max(initials[0].size(), initials[cfg[0].p].size()));
    }
    bool deferred_in(const Pair& c, int ev) const
    {
        if (ev < 0) return false;
        auto& d = S->states[c.s].defers;
        return std::find(d.begin(), d.end(), ev) != d.end();
    }
    bool deferred(int ev) const
    {
        for (int r = 0; r < regions(); ++r) if (deferred_in(cfg[r], ev)) return true;
        return false;
    }

    void candidates(const Pair& c, int ev, std::vector<Cand>& out) const
    {
        out.clear();
        std::vector<Cand> own, outer, inter;
        const int n = int(S->states.size());
        for (int p = 0; p < n; ++p)
            for (auto& r : S->states[p].rows) {
                if (r.ev != ev) continue;
                const int rp = (r.srcKind == SRC_EXIT || r.srcKind == SRC_DIRECT) ? r.srcParent : p;
                if (rp == c.p && r.src == c.s) own.push_back({ 0, &r, nullptr, p, r.src });
            }
        for (int a = c.p; a > 0; a = enclosing[a]) {
            std::vector<Cand> lvl;
            for (int p = 0; p < n; ++p)
                for (auto& r : S->states[p].rows)
                    if (r.ev == ev && r.srcKind == SRC_PLAIN && r.src == a) lvl.push_back({ 1, &r, nullptr, p, a });
            std::reverse(lvl.begin(), lvl.end());
            outer.insert(outer.end(), lvl.begin(), lvl.end());
            if (quirks & Q_DEEP) break;
        }
        // internal rows, outermost first (the order is reversed below)
        auto internalOf = [&](int a) {
            for (auto& r : S->states[a].irows)
                if (r.ev == ev) inter.push_back({ 2, nullptr, &r, c.p, c.s });
        };
        if (!(quirks & Q_DEEP)) {
            std::vector<int> around;
            for (int a = c.p; a > 0 && enclosing[a] >= 0; a = enclosing[a]) around.push_back(enclosing[a]);
            for (auto it = around.rbegin(); it != around.rend(); ++it) internalOf(*it);
        } else {
            for (int p = 0; p < n; ++p) {
                bool named = false;   // the table of p names this inner state of another composite
                for (auto& r : S->states[p].rows) {
                    named |= (r.srcKind == SRC_EXIT || r.srcKind == SRC_DIRECT) && r.srcParent == c.p && r.src == c.s;
                    named |= r.tgtKind == TGT_DIRECT && r.tgtParent == c.p && r.tgt == c.s;
                }
                if (named && p != c.p) internalOf(p);
            }
        }
        internalOf(c.p);
        if (!S->states[c.s].composite) internalOf(c.s);
        std::reverse(own.begin(), own.end());
        std::reverse(inter.begin(), inter.end());
        out.insert(out.end(), own.begin(), own.end());
        out.insert(out.end(), outer.begin(), outer.end());
        out.insert(out.end(), inter.begin(), inter.end());
    }

    // target configuration of a row; for history rows the region's memory decides
    Pair target(const Cand& c) const
    {
        const Row& r = *c.row;
        if (r.tgtKind == TGT_HISTORY) return { r.tgtParent, initials[r.tgtParent][0] };
        if (r.tgtKind != TGT_PLAIN) return { r.tgtParent, r.tgt };
        if (S->states[r.tgt].composite) return { r.tgt, initials[r.tgt][0] };
        // rows declared in a table lead to states of that table
        return { c.owner, r.tgt };
    }
    int srcObject(const Cand& c) const { return c.src; }
    Ref obj(int s) const { return Ref { data[s].get(), false }; }

    void currentDeps(Dep** d) const
    {
        d[0] = &deps->a;
        d[1] = &deps->b;
        d[2] = &deps->c;
        d[3] = &deps->d;
        d[4] = &deps->e;
        d[5] = &deps->f;
    }
    bool guard(const Cand& c, int ev, u64 payload)
    {
        const int g = c.row ? c.row->guard : c.irow->guard;
        if (g < 0) return true;
        Dep* d[MAX_DEPS];
        currentDeps(d);
        const int t = c.row ? target(c).s : c.src;
        return callback(K_GUARD, g, ev, &payload, obj(srcObject(c)), obj(t), d, S->ndeps) != 0;
    }
    void write_log(int ev, int src, int tgt)
    {
        if (!begin_line()) return;
        const auto& e = ev < 0 ? S->eventTypes.back() : S->eventTypes[std::size_t(ev)];
        end_line(S->stateTypes[std::size_t(src)] + " + " + e + " = " + S->stateTypes[std::size_t(tgt)]);
    }
    void fire(int region, const Cand& c, int ev, u64& payload)
    {
        Dep* d[MAX_DEPS];
        currentDeps(d);
        if (c.irow) {
            for (int a : c.irow->actions) if (a == LOG_ACTION) write_log(ev, c.src, c.src); else callback(K_ACTION, a, ev, &payload, obj(c.src), obj(c.src), d, S->ndeps);
            return;
        }
        const Row& r = *c.row;
        const Pair old = cfg[region];
        const Pair t = target(c);
        hist[old.p][region] = old;
        cfg[region] = r.tgtKind == TGT_HISTORY ? hist[r.tgtParent][region] : t;
        if (!(quirks & Q_NEST) && region == 0 && cfg[0].p != old.p)     // the other regions of a composite state
            for (std::size_t i = initials[0].size(); i < initials[cfg[0].p].size(); ++i)
                cfg[i] = r.tgtKind == TGT_HISTORY ? hist[cfg[0].p][i] : Pair { cfg[0].p, initials[cfg[0].p][i] };
        const int so = srcObject(c);
        std::unique_ptr<Data> replaced;     // a state that replaces itself stays the source of its own entry
        auto cb = [&](int kind, int id) {
            callback(kind, id, ev, &payload, replaced && so == t.s ? Ref { replaced.get(), false } : obj(so), obj(t.s), d, S->ndeps);
        };
        // exit
        if (!(quirks & Q_INNER) && (c.level == 1 || r.srcKind == SRC_EXIT || r.srcKind == SRC_DIRECT) && S->states[old.s].exit)
            cb(K_EXIT, old.s);
        if (r.srcKind == SRC_EXIT) {
            if (S->states[r.srcParent].exit) cb(K_EXIT, r.srcParent);
        } else if (r.srcKind == SRC_DIRECT) {
            if (!(quirks & Q_INNER) && S->states[r.srcParent].exit) cb(K_EXIT, r.srcParent);
        } else if (S->states[r.src].exit) {
            cb(K_EXIT, r.src);
        }
        // action
        if (r.mode == MODE_CREATE) {
            const u64 v = [&] {
                Data copy(*data[so]);
                try {
                    return callback(K_FACTORY, r.actions[0], ev, &payload, Ref { &copy, false }, Ref { nullptr, true }, nullptr, 0);
                } catch (...) {
                    if (!(quirks & Q_FACTORY)) cfg[region] = old;
                    throw;
                }
            }();
            replaced = std::exchange(data[t.s], std::make_unique<Data>(t.s, v));
        } else if (r.mode == MODE_REUSE) {
            Data copy(*data[so]);
            callback(K_ACTION, r.actions[0], ev, &payload, Ref { &copy, false }, obj(t.s), nullptr, 0);
        } else {
            for (int a : r.actions) if (a == LOG_ACTION) write_log(ev, so, t.s); else cb(K_ACTION, a);
        }
        // entry
        if (r.tgtKind == TGT_PLAIN) {
            if (S->states[r.tgt].entry) cb(K_ENTRY, r.tgt);
            if (S->states[r.tgt].composite && S->states[t.s].entry) cb(K_ENTRY, t.s);
        } else if (!(quirks & Q_INNER)) {
            if (S->states[r.tgtParent].entry) cb(K_ENTRY, r.tgtParent);
            if (S->states[cfg[region].s].entry) cb(K_ENTRY, cfg[region].s);
        }
    }

    enum Result { Invalid, Rejected, Processed, Deferred_ };
    Result internal(int ev, u64& payload)
    {
        if (deferred(ev)) {
            Instance& I = *W->cur;
            if (I.step && I.step->copyFail) {
                ++I.failFired;
                throw CopyFault { 1 };
            }
            if (I.allocFailPending) {
                ++I.failFired;
                if (I.step->allocFail == 1) I.allocFailPending = false;
                throw std::bad_alloc();
            }
            q.push_back({ ev, payload });
            peak = std::max(peak, int(q.size()));
            return Deferred_;
        }
        bool allInvalid = true, allRejected = true;
        const int n = regions();
        std::vector<Cand> cands;
        for (int r = 0; r < n; ++r) {
            if (deferred_in(cfg[r], ev)) {
                allInvalid = false;
                continue;
            }
            candidates(cfg[r], ev, cands);
            for (auto& c : cands) {
                allInvalid = false;
                if (!guard(c, ev, payload)) continue;
                allRejected = false;
                fire(r, c, ev, payload);
                break;
            }
        }
        if (allInvalid) return Invalid;
        if (allRejected) return Rejected;
        completion();
        return Processed;
    }
    void completion()
    {
        std::vector<Cand> cands;
        while (true) {
            bool fired = false;
            const int n = regions();
            for (int r = 0; r < n; ++r) {
                candidates(cfg[r], -1, cands);
                if (cands.empty()) {
                    if (quirks & Q_ANON) return;
                    continue;
                }
                for (auto& c : cands) {
                    if (!guard(c, -1, 0)) continue;
                    u64 nothing = 0;
                    fire(r, c, -1, nothing);
                    fired = true;
                    break;
                }
            }
            if (!fired) return;
        }
    }
    bool send(int ev, u64 payload, bool) override
    {
        switch (internal(ev, payload)) {
        case Invalid:
            if (S->handler) {
                Dep* d[MAX_DEPS];
                currentDeps(d);
                callback(K_HANDLER, 0, ev, &payload, obj(cfg[0].s), Ref { nullptr, true }, d, S->ndeps);
            }
            return false;
        case Rejected:
        case Deferred_: return false;
        case Processed: break;
        }
        while (true) {
            auto it = std::find_if(q.begin(), q.end(), [&](auto& e) { return !deferred(e.ev); });
            if (it == q.end()) break;
            auto e = *it;
            q.erase(it);
            internal(e.ev, e.payload);
        }
        return true;
    }
    int config(int region, int = -1) override
    {
        for (std::size_t i = 0; i < S->pairs.size(); ++i)
            if (S->pairs[i].first == cfg[region].p && S->pairs[i].second == cfg[region].s) return int(i);
        return -1;
    }
    u64 is_mask() override { return u64(1) << (cfg[0].s % 64); }
    u64 is2_mask() override
    {
        const int c = config(0);
        return c < 0 ? 0 : u64(1) << (c % 64);
    }
    u64 parent_mask() override { return u64(1) << (cfg[0].p % 64); }
    void set(int region, int pair, int form) override
    {
        if (form == 2 && (region != 0 || S->pairs[pair].first != 0)) form = 1;
        cfg[region] = { S->pairs[pair].first, S->pairs[pair].second };
    }
    void set_dependency(DepSet& d) override { deps = &d; }
    IMachine* move_out() override
    {
        auto* m = new Model(S, *deps, quirks);
        m->cfg = cfg;
        m->hist = hist;
        m->q = std::move(q);
        m->peak = peak;
        m->data = std::move(data);
        return m;
    }
    bool move_into(IMachine& t) override
    {
        auto& m = static_cast<Model&>(t);
        m.deps = deps;
        m.cfg = cfg;
        m.hist = hist;
        m.q = std::move(q);
        m.peak = std::max(peak, m.peak);
        m.data = std::move(data);
        return true;
    }
};

IMachine* make_model(const Spec* spec, DepSet& deps, int quirks) { return new Model(spec, deps, quirks); }

int model_peak(IMachine* m) { return static_cast<Model&>(*m).peak; }

void model_hint(IMachine* m, std::vector<int>& enabled, std::vector<int>& deferring, int& pending)
{
    auto& M = static_cast<Model&>(*m);
    enabled.clear();
    deferring.clear();
    pending = int(M.q.size());
    std::vector<Model::Cand> c;
    for (int e = 0; e < int(M.S->events.size()); ++e) {
        if (M.deferred(e)) {
            deferring.push_back(e);
            continue;
        }
        for (int r = 0; r < M.regions(); ++r) {
            M.candidates(M.cfg[r], e, c);
            if (!c.empty()) {
                enabled.push_back(e);
                break;
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Steps
// ---------------------------------------------------------------------------------------------
void create_instance(Instance& I)
{
    UserScope user;
    ++I.incarnation;
    I.built.clear();
    Instance* prev = W->cur;
    W->cur = &I;
    I.deps.push_back(std::make_unique<DepSet>(++I.depSerial));
    if (W->real) I.m = I.def->create(*I.deps.back());
    else I.m = make_model(I.spec, *I.deps.back(), W->quirks);
    W->cur = prev;
}
void destroy_instance(Instance& I)
{
    delete I.m;
    I.m = nullptr;
}

void restart(Instance& I)
{
    if (!W->real) I.peaks += model_peak(I.m);
    destroy_instance(I);
    I.deps.clear();
    create_instance(I);
    for (std::size_t r = 0; r < I.snapshot.size(); ++r)
        if (I.snapshot[r] < int(I.spec->pairs.size()) && !I.spec->states[std::size_t(I.spec->pairs[std::size_t(I.snapshot[r])].second)].custom)
            I.m->set(int(r), I.snapshot[r], (I.incarnation + int(r)) % 3);
    W->rec(R_RESTART, I.idx, { u64(I.incarnation), config_word(I) });
}

void run_step(Instance& I)
{
    const Step& s = *I.step;
    int thrown = 0;
    u64 detail = 0;
    bool ret = false;
    const long fired0 = g_failFired + g_copyFired;
    I.failFired = 0;
    if (W->real) stream_restore(stream_of(s));
    if (W->real) {
        g_failAt = s.allocFail ? 1 : 0;
        g_failSticky = s.allocFail == 2;
        g_copyFail = s.copyFail != 0;
    } else {
        I.allocFailPending = s.allocFail != 0;
    }
    auto disarm = [&] {
        g_failAt = 0;
        g_failSticky = false;
        g_copyFail = false;
        I.allocFailPending = false;
    };
    try {
        switch (s.op) {
        case OP_SEND: ret = I.m->send(int(s.a), s.b, s.c != 0); break;
        case OP_SENSOR:
            if (std::size_t(s.a) < I.sensors.size()) I.sensors[std::size_t(s.a)] = int(s.b);
            break;
        case OP_SETDEP: new_deps(I); break;
        case OP_MOVE: {
            disarm();
            IMachine* n = I.m->move_out();
            if (s.c & 1) {                      // the moved-from machine lives on for a while
                std::unique_ptr<IMachine> old(I.m);
                I.m = n;
                record_config(I);
            } else {
                delete I.m;
                I.m = n;
            }
            break;
        }
        case OP_MOVEASSIGN: {
            disarm();
            DepSet tmp(0);
            IMachine* n = W->real ? I.def->create(tmp) : make_model(I.spec, tmp, W->quirks);
            if (s.c & 2) {                      // the target of the assignment has a history of its own
                const int stepIdx = I.stepIdx;
                I.step = nullptr;
                n->set(0, int(u64(s.a) % I.spec->pairs.size()), 0);
                I.step = &s;
                I.stepIdx = stepIdx;
            }
            if (I.m->move_into(*n)) {
                delete I.m;
                I.m = n;
            } else {
                delete n;
            }
            break;
        }
        case OP_SET:
            if (std::size_t(s.a) < I.spec->pairs.size() && int(s.b) < I.nregions) I.m->set(int(s.b), int(s.a), s.c);
            break;
        case OP_RESTART: throw Crash { 0 };
        case OP_PROBE:
            // construction with a failing allocation, beside the running machine
            if (W->real) {
                const long a0 = g_libAllocs, d0 = g_data, e0 = g_events;
                auto tmp = std::make_unique<DepSet>(0);
                IMachine* n = nullptr;
                bool bad = false;
                g_failAt = s.a + 1;
                g_failSticky = s.b != 0;
                const long f0 = g_failFired;
                try {
                    n = I.def->create(*tmp);
                } catch (const std::bad_alloc&) {
                    bad = true;
                }
                g_failAt = 0;
                g_failSticky = false;
                const bool injected = g_failFired != f0;
                delete n;
                if (injected) ++g_stats.fired["alloc-failure-in-constructor"];
                if (injected != bad || g_libAllocs != a0 || g_data != d0 || g_events != e0)
                    W->rec(R_LEAK, I.idx, { u64(injected), u64(bad), u64(g_libAllocs - a0), u64(g_data - d0), u64(g_events - e0) });
            }
            break;
        default: break;
        }
    } catch (const Crash&) {
        thrown = T_CRASH;
    } catch (const CopyFault&) {
        thrown = T_COPY;
    } catch (const Runaway& r) {
        thrown = T_RUNAWAY;
        W->overflow = true;
    } catch (const std::bad_alloc&) {
        thrown = T_BADALLOC;
    } catch (...) {
        const long f = current_fault();
        thrown = f < 0 ? T_OTHER : T_FAULT;
        detail = u64(f);
    }
    disarm();
    I.nest = 0;
    W->stepFired[std::size_t(I.stepIdx)] = W->real ? int(g_failFired + g_copyFired - fired0) : I.failFired;
    if (thrown == T_CRASH) {
        restart(I);
    } else if (thrown) {
        W->rec(R_THROW, I.idx, { u64(thrown), detail });
    } else {
        W->rec(R_RET, I.idx, { u64(ret) });
    }
    const u64 word = record_config(I);
    if (s.persist) {
        I.snapshot.clear();
        for (int r = 0; r < I.nregions; ++r) I.snapshot.push_back(int(word >> (8 * (I.nregions - 1 - r)) & 0xff));
    }
    // dependencies that were replaced die now
    while (I.deps.size() > 1) I.deps.erase(I.deps.begin());
}

void execute_step(Instance& I)
{
    run_step(I);
}

void run_world(World& w)
{
    World* prev = W;
    W = &w;
    g_inLib = false;
    w.seed = w.trace ? w.trace->seed : w.recorded.seed;
    const auto& machines = w.trace ? w.trace->machines : w.recorded.machines;
    w.inst.resize(machines.size());
    for (std::size_t i = 0; i < machines.size(); ++i) {
        Instance& I = w.inst[i];
        I.idx = int(i);
        I.def = find_machine(machines[i]);
        if (!I.def) {
            std::fprintf(stderr, "SIM-ERROR: unknown machine %s\n", machines[i].c_str());
            _exit(3);
        }
        I.spec = I.def->spec();
        I.sensors = I.spec->guardDefault;
        I.nregions = regions_of(*I.spec);
    }
    const long a0 = g_libAllocs, d0 = g_data, e0 = g_events;
    const StreamState outer = stream_save();
    auto* const outerBuf = std::cout.rdbuf();
    if (w.real) std::cout.rdbuf(&g_sink);
    g_sink.line.clear();
    for (auto& I : w.inst) {
        create_instance(I);
        record_config(I);
    }
    const long builtAllocs = g_libAllocs, builtBytes = g_libBytes;
    std::vector<Fiber*> sleeping;
    std::vector<char> started;
    std::deque<Step> storage;
    if (w.trace) started.assign(w.trace->steps.size(), 0);
    if (w.trace) w.stepFired.assign(w.trace->steps.size(), 0);
    auto finish = [&](Fiber* f) {
        Instance& I = w.inst[f->inst];
        if (f->done) {
            I.busy = false;
            I.fiber = nullptr;
            for (std::size_t i = 0; i < I.used.size(); ++i)
                if (I.used[i] && w.real) ++g_stats.fired[planName[I.step->plan[i].kind]];
            I.step = nullptr;
            I.cb = I.guards = I.lines = 0;
            I.logDead = false;
            g_pool.push_back(f);
        } else {
            sleeping.push_back(f);
        }
    };
    while (!w.overflow) {
        ++w.ticks;
        // resume whoever is due
        Fiber* due = nullptr;
        for (auto* f : sleeping)
            if (f->wake <= 0) {
                due = f;
                break;
            }
        if (!due) {
            // next step whose machine is idle
            const Step* s = nullptr;
            int idx = -1;
            bool more = false;
            if (w.trace) {
                for (std::size_t i = 0; i < w.trace->steps.size(); ++i) {
                    if (started[i]) continue;
                    more = true;
                    if (std::size_t(w.trace->steps[i].inst) >= w.inst.size()) { started[i] = 1; continue; }
                    if (!w.inst[std::size_t(w.trace->steps[i].inst)].busy) {
                        s = &w.trace->steps[i];
                        idx = int(i);
                        started[i] = 1;
                        break;
                    }
                }
            } else {
                Step n;
                bool anyIdle = false;
                for (auto& I : w.inst) anyIdle |= !I.busy;
                more = true;
                if (anyIdle) {
                    more = w.source(w, n);
                    if (more) {
                        storage.push_back(n);
                        w.recorded.steps.push_back(n);
                        w.stepFired.push_back(0);
                        s = &storage.back();
                        idx = int(w.recorded.steps.size()) - 1;
                    }
                }
            }
            if (s) {
                Instance& I = w.inst[std::size_t(s->inst)];
                I.busy = true;
                I.step = s;
                I.stepIdx = idx;
                I.cb = I.guards = I.lines = 0;
                I.logDead = false;
                I.nest = 0;
                I.used.assign(s->plan.size(), 0);
                w.rec(R_STEP, s->inst, { u64(s->op), u64(s->a), s->b }, idx);
                bool yields = false;
                for (auto& p : s->plan) yields |= p.kind == P_YIELD;
                for (auto* f : sleeping) --f->wake;
                if (yields) {
                    Fiber* f = new_fiber(s->inst);
                    I.fiber = f;
                    enter(f);
                    finish(f);
                } else {
                    Instance* pc = w.cur;
                    w.cur = &I;
                    execute_step(I);
                    w.cur = pc;
                    I.busy = false;
                    for (std::size_t i = 0; i < I.used.size(); ++i)
                        if (I.used[i] && w.real) ++g_stats.fired[planName[I.step->plan[i].kind]];
                    I.step = nullptr;
                    I.cb = I.guards = I.lines = 0;
                I.logDead = false;
                }
                continue;
            }
            if (sleeping.empty()) {
                if (!more) break;
                continue;
            }
            due = sleeping.front();   // nothing else can run
            for (auto* f : sleeping) if (f->wake < due->wake) due = f;
        }
        sleeping.erase(std::find(sleeping.begin(), sleeping.end(), due));
        for (auto* f : sleeping) --f->wake;
        enter(due);
        finish(due);
    }
    // a run that overflowed may leave sleepers: let them finish
    while (!sleeping.empty()) {
        Fiber* f = sleeping.front();
        sleeping.erase(sleeping.begin());
        enter(f);
        finish(f);
    }
    // What the machines hold at the end of the run, beyond what they held when they were built, may
    // depend on the events they had to keep, but not on how long they ran.
    if (!w.real) {
        u64 peak = 0;
        for (auto& I : w.inst) peak += u64(model_peak(I.m) + I.peaks);
        w.rec(R_HELD, -1, { peak });
    } else if (w.ref && w.log.size() < w.ref->log.size() && w.ref->log[w.log.size()].type == R_HELD) {
        const long peak = long(w.ref->log[w.log.size()].v[0]);
        const long allocs = g_libAllocs - builtAllocs, bytes = g_libBytes - builtBytes;
        const bool over = allocs > 24 + 4 * peak || bytes > 4096 + 512 * peak;
        if (over) w.rec(R_HELD, -1, { u64(peak), 1, u64(allocs), u64(bytes) });
        else w.rec(R_HELD, -1, { u64(peak) });
    }
    for (auto& I : w.inst) destroy_instance(I);
    if (w.real) {
        std::cout.exceptions(std::ios_base::goodbit);
        std::cout.rdbuf(outerBuf);
        stream_restore(outer);
        w.rec(R_END, -1, { u64(g_libAllocs - a0), u64(g_data - d0), u64(g_events - e0) });
        g_libAllocs = a0;
        g_data = d0;
        g_events = e0;
    } else {
        w.rec(R_END, -1, { 0, 0, 0 });
        g_data = d0;
    }
    W = prev;
}

// ---------------------------------------------------------------------------------------------
// Comparison
// ---------------------------------------------------------------------------------------------
struct Verdict {
    bool ok = true;
    bool tolerated = false;
    std::size_t at = 0;
    std::string what;
};

std::string show(const Rec& r, const World& w)
{
    std::ostringstream o;
    const Spec* S = r.inst >= 0 ? w.inst[std::size_t(r.inst)].spec : nullptr;
    o << "[step " << r.step << " machine " << r.inst << "] " << recName[r.type];
    auto pair = [&](u64 word) {
        const int n = regions_of(*S);
        std::string s;
        for (int i = n - 1; i >= 0; --i) {
            const int p = int(word >> (8 * i) & 0xff);
            s += s.empty() ? "" : " | ";
            if (p == 0xff) s += "none";
            else if (p == 0xfe) s += "several";
            else if (std::size_t(p) < S->pairs.size()) s += std::string(S->states[S->pairs[p].first].name) + "." + S->states[S->pairs[p].second].name;
            else s += "?";
        }
        return s;
    };
    auto evn = [&](u64 e) { return e == 0 ? std::string("completion") : e - 1 < S->events.size() ? std::string(S->events[e - 1]) : "?"; };
    auto sto = [&](u64 sid, u64 val) {
        if (sid == 0xabc) return std::string("-");
        if (sid == 0xdef) return std::string("null");
        std::ostringstream x;
        const u64 id = (sid >> 32 & 0x7fffffff) - 1;
        x << (id < S->states.size() ? S->states[id].name : "?") << "@" << (sid & 0xffffff) << (sid >> 63 ? "(DEAD)" : "") << ":" << std::hex << (val & 0xffff);
        return x.str();
    };
    switch (r.type) {
    case R_STEP: o << " " << opName[r.v[0]];
        if (r.v[0] == OP_SEND) o << " " << evn(r.v[1] + 1) << " payload " << r.v[2];
        else o << " " << long(r.v[1]) << " " << r.v[2];
        break;
    case R_LOG: o << " \"" << (r.v[1] < w.lines.size() ? w.lines[r.v[1]] : std::string("?")) << "\""; break;
    case R_CB: {
        const int k = int(r.v[0] >> 32), id = int(r.v[0] & 0xffffffff);
        o << " " << kindName[k] << " ";
        if (k == K_ENTRY || k == K_EXIT) o << S->states[std::size_t(id)].name;
        else if (k == K_GUARD) o << S->guards[std::size_t(id)];
        else o << "#" << id;
        o << " on " << evn(r.v[1]) << " payload " << (r.v[2] & ~EV_TOUCHED);
        if (r.v[2] & EV_TOUCHED) o << " (written to " << ((r.v[2] & EV_TOUCHED) >> 32) << " times)";
        o << " source " << sto(r.v[3], r.v[4]) << " target " << sto(r.v[5], r.v[6])
          << " deps " << std::hex << r.v[7] << "/" << (r.v[8] & 0xffff) << std::dec << " while " << pair(r.v[9]) << " depth " << r.v[10];
        break;
    }
    case R_RET: o << " " << (r.v[0] ? "true" : "false"); break;
    case R_THROW: o << " " << throwName[r.v[0]] << " " << r.v[1]; break;
    case R_CONFIG: o << " " << pair(r.v[0]) << " is " << std::hex << r.v[1] << " is2 " << r.v[2] << " parent " << r.v[3] << (r.v[4] ? " but status() shows another one" : ""); break;
    case R_HELD: o << " within bounds for at most " << r.v[0] << " deferred events";
        if (r.v[1]) o << ": no, " << std::dec << long(r.v[2]) << " more allocations and " << long(r.v[3]) << " more bytes than after construction";
        break;
    case R_NEST: o << " " << evn(r.v[0] + 1) << " payload " << r.v[1]; break;
    case R_NESTRET: o << " " << (r.v[0] ? "true" : "false") << " " << pair(r.v[1]); break;
    case R_NESTTHROW: o << " " << throwName[r.v[0]] << " " << r.v[1] << " " << pair(r.v[2]); break;
    case R_RESTART: o << " incarnation " << r.v[0] << " " << pair(r.v[1]); break;
    case R_LEAK: o << " injected " << r.v[0] << " bad_alloc " << r.v[1] << " allocations " << long(r.v[2]) << " states " << long(r.v[3]) << " events " << long(r.v[4]); break;
    case R_END: o << " live allocations " << long(r.v[0]) << " states " << long(r.v[1]) << " events " << long(r.v[2]); break;
    default: o << " " << r.v[0] << " " << r.v[1]; break;
    }
    return o.str();
}

Verdict compare(const World& model, const World& real)
{
    Verdict v;
    const auto& a = model.log;
    const auto& b = real.log;
    const std::size_t n = std::min(a.size(), b.size());
    std::size_t i = 0;
    while (i < n && a[i] == b[i]) ++i;
    auto injectedDiffers = [&](int step) {
        return step >= 0 && std::size_t(step) < model.stepFired.size() && std::size_t(step) < real.stepFired.size()
            && (model.stepFired[std::size_t(step)] != 0) != (real.stepFired[std::size_t(step)] != 0);
    };
    if (i < a.size() || i < b.size()) {
        const int step = i < b.size() ? b[i].step : -1;
        const int mstep = i < a.size() ? a[i].step : -1;
        const bool leak = b.size() && b.back().type == R_END && (b.back().v[0] || b.back().v[1] || b.back().v[2]);
        if ((injectedDiffers(step) || injectedDiffers(mstep)) && !leak) {
            // an allocation or copy the model does not know of was hit: nothing to compare from here on
            v.tolerated = true;
            return v;
        }
        v.ok = false;
        v.at = i;
        std::ostringstream o;
        for (std::size_t k = i > 6 ? i - 6 : 0; k < i; ++k) o << "      agreed    " << show(a[k], model) << "\n";
        if (i < a.size()) o << "      expected  " << show(a[i], model) << "\n";
        else o << "      expected  nothing more\n";
        if (i < b.size()) o << "      observed  " << show(b[i], real) << "\n";
        else o << "      observed  nothing more\n";
        v.what = o.str();
        return v;
    }
    // guards: every evaluation must be one the reference makes in that step, with the same arguments
    std::set<std::pair<int, u64>> allowed;
    for (auto& g : model.glog) allowed.insert({ g.step, g.key });
    for (auto& g : real.glog)
        if (!allowed.count({ g.step, g.key })) {
            v.ok = false;
            v.at = i;
            v.what = "      unexpected guard evaluation " + show(g.full, real) + "\n";
            for (auto& m : model.glog)
                if (m.step == g.step) v.what += "      expected one of " + show(m.full, model) + "\n";
            return v;
        }
    // every guard the reference consults must have been consulted
    std::set<std::pair<int, u64>> seen;
    for (auto& g : real.glog) seen.insert({ g.step, g.key });
    for (auto& g : model.glog)
        if (!seen.count({ g.step, g.key })) {
            v.ok = false;
            v.at = i;
            v.what = "      guard was not evaluated: " + show(g.full, model) + "\n";
            return v;
        }
    return v;
}

u64 log_hash(const World& w)
{
    u64 h = 1;
    for (auto& r : w.log) {
        h = mix(h, u64(r.type));
        h = mix(h, u64(r.step) << 16 | u64(r.inst & 0xffff));
        for (auto x : r.v) h = mix(h, x);
    }
    return h;
}

// ---------------------------------------------------------------------------------------------
// Generation
// ---------------------------------------------------------------------------------------------
struct Profile {
    std::map<std::string, int> kv;
    int get(const char* k, int dflt) const
    {
        auto it = kv.find(k);
        return it == kv.end() ? dflt : it->second;
    }
    static Profile parse(const std::string& s)
    {
        Profile p;
        std::istringstream in(s);
        std::string item;
        while (std::getline(in, item, ',')) {
            auto e = item.find('=');
            if (e != std::string::npos) p.kv[item.substr(0, e)] = std::atoi(item.c_str() + e + 1);
        }
        return p;
    }
};

struct Generator {
    Rng rng;
    Profile prof;
    // swarm: per run
    int steps, nplan, pThrow, pYield, pPost, pSensor, pSetdepCb, pCrash, pGthrow, pSetCb, pLog;
    int oSensor, oSetdep, oMove, oSet, oRestart, oProbe, pAlloc, pCopy, pDrop, pDup, pDelay, guided, persist, deferBias;
    u64 now = 0, payload = 1;
    int emitted = 0;
    struct Flight { u64 at; u64 seq; Step s; };
    std::vector<Flight> flight;
    u64 seq = 0;

    Generator(u64 seed, const Profile& p) : rng { seed }, prof(p)
    {
        rng.next();
        auto onoff = [&](const char* k, int dflt) {
            const int v = prof.get(k, dflt);
            // a fault kind is enabled in about two thirds of the runs
            return v && rng.below(3) ? 1 + int(rng.below(u64(2 * v))) : 0;
        };
        const int maxSteps = prof.get("steps", 40);
        steps = 2 + int(rng.below(u64(maxSteps)));
        if (prof.get("long", 0) && rng.chance(prof.get("long", 0))) steps *= 8;
        if (prof.get("soak", 0) && rng.chance(prof.get("soak", 0))) steps *= 60;
        pThrow = onoff("throw", 0);
        pYield = onoff("yield", 0);
        pPost = onoff("post", 0);
        pSensor = onoff("cbsensor", 0);
        pSetdepCb = onoff("cbsetdep", 0);
        pCrash = onoff("crash", 0);
        pGthrow = onoff("gthrow", 0);
        pSetCb = onoff("cbset", 0);
        pLog = onoff("logfail", 0);
        oSensor = onoff("sensor", 250);
        oSetdep = onoff("setdep", 0);
        oMove = onoff("move", 0);
        oSet = onoff("set", 0);
        oRestart = onoff("restart", 0);
        oProbe = onoff("probe", 0);
        pAlloc = onoff("alloc", 0);
        pCopy = onoff("copy", 0);
        pDrop = onoff("drop", 30);
        pDup = onoff("dup", 40);
        pDelay = onoff("delay", 100);
        guided = 300 + int(rng.below(700));
        persist = 600 + int(rng.below(401));
        deferBias = rng.below(2) ? prof.get("defer", 0) : 0;
        nplan = 1 + int(rng.below(3));
    }

    // rows that reuse an object need one: such machines are only driven by events, because a
    // configuration that is imposed from outside may lack the object
    static bool needs_objects(const Spec& S)
    {
        for (auto& st : S.states)
            for (auto& r : st.rows) if (r.mode == MODE_REUSE) return true;
        return false;
    }
    // rows that replace an object destroy the previous one, also while a row that was interrupted
    // by the posted event still works with it (known finding)
    static bool replaces_objects(const Spec& S)
    {
        for (auto& st : S.states)
            for (auto& r : st.rows) if (r.mode == MODE_CREATE) return true;
        return false;
    }
    static bool logs(const Spec& S) { return !S.stateTypes.empty(); }
    void fault_plan(World& w, Instance& I, Step& s)
    {
        const Spec& S = *I.spec;
        const bool imposed = !needs_objects(S);
        for (int k = 0; k < nplan; ++k) {
            auto at = [&] {
                int n = 0;
                while (rng.below(2) && n < 9) ++n;
                return n;
            };
            auto add = [&](int kind, long a, u64 b, int c) { s.plan.push_back({ at(), kind, a, b, c }); };
            if (rng.chance(pThrow)) add(P_THROW, 0, 1, 0);
            if (rng.chance(pYield)) add(P_YIELD, 1 + long(rng.below(6)), 0, 0);
            if (rng.chance(pPost) && !S.events.empty() && !replaces_objects(S)) add(P_POST, pick_event(w, I), ++payload, int(rng.below(4)));
            if (rng.chance(pSensor) && !S.guards.empty()) {
                const long g = long(rng.below(S.guards.size()));
                // never re-arm a one-shot guard in the middle of a step
                bool oneShot = false;
                for (auto& e : S.effects) oneShot |= e.guard == g;
                add(P_SENSOR, g, oneShot ? 0 : rng.below(2), 0);
            }
            if (rng.chance(pSetdepCb) && S.ndeps) add(P_SETDEP, 0, 0, 0);
            if (rng.chance(pCrash) && imposed) add(P_CRASH, 0, 0, 0);
            if (rng.chance(pGthrow) && !S.guards.empty()) {
                Plan p;
                p.at = rng.below(2) ? 0 : int(rng.below(4));
                p.kind = P_GTHROW;
                p.a = long(rng.below(S.guards.size()));
                s.plan.push_back(p);
            }
            if (rng.chance(pLog) && logs(S)) add(rng.below(2) ? P_LOGTHROW : P_LOGDEAD, 0, 0, 0);
            if (rng.chance(pSetCb) && imposed && !S.pairs.empty()) add(P_SET, valid_pair(I), 0, int(rng.below(3)));
        }
    }
    long valid_pair(Instance& I)
    {
        const Spec& S = *I.spec;
        for (int tries = 0; tries < 50; ++tries) {
            const long p = long(rng.below(S.pairs.size()));
            if (S.states[std::size_t(S.pairs[std::size_t(p)].second)].custom) continue;
            return p;
        }
        return 0;
    }
    long pick_event(World&, Instance& I)
    {
        const Spec& S = *I.spec;
        std::vector<int> en, de;
        int pending = 0;
        model_hint(I.m, en, de, pending);
        if (deferBias && !de.empty() && pending < 40 && rng.chance(deferBias)) return de[rng.below(de.size())];
        if (!en.empty() && rng.chance(guided)) return en[rng.below(en.size())];
        return long(rng.below(S.events.size()));
    }

    bool operator()(World& w, Step& out)
    {
        // messages in flight that are due and whose receiver is idle
        std::vector<int> idle;
        for (auto& I : w.inst) if (!I.busy) idle.push_back(I.idx);
        const u64 dt = 1 + rng.below(20);
        if (emitted < steps) now += dt;
        Flight* best = nullptr;
        for (auto& f : flight)
            if (!w.inst[std::size_t(f.s.inst)].busy && (f.at <= now || emitted >= steps) && (!best || f.at < best->at || (f.at == best->at && f.seq < best->seq))) best = &f;
        if (best) {
            out = best->s;
            now = std::max(now, best->at);
            out.time = now;
            for (auto& f : flight)
                if (&f != best && f.seq < best->seq && f.s.inst == best->s.inst) out.net |= 4;
            flight.erase(flight.begin() + (best - &flight[0]));
            if (out.net & 1) ++g_stats.fired["message-duplicated"];
            if (out.net & 2) ++g_stats.fired["message-delayed"];
            if (out.net & 4) ++g_stats.fired["message-reordered"];
            return true;
        }
        if (emitted >= steps) return false;
        Instance& I = w.inst[std::size_t(idle[rng.below(idle.size())])];
        const Spec& S = *I.spec;
        out = Step {};
        out.inst = I.idx;
        out.time = now;
        out.persist = rng.chance(persist);
        ++emitted;
        if (rng.chance(oSensor) && !S.guards.empty()) {
            out.op = OP_SENSOR;
            out.a = long(rng.below(S.guards.size()));
            out.b = rng.below(2);
            for (auto& e : S.effects)
                if (e.guard == out.a && e.value < 0) out.b = rng.below(3) ? rng.below(12) : rng.below(300);
            return true;
        }
        if (rng.chance(oSetdep) && S.ndeps) { out.op = OP_SETDEP; return true; }
        if (rng.chance(oMove)) {
            out.op = rng.below(3) ? OP_MOVE : OP_MOVEASSIGN;
            out.a = long(rng.below(64));
            out.c = int(rng.below(4));
            // assignment onto a machine with custom states would need an object there
            return true;
        }
        if (rng.chance(oSet) && !needs_objects(S)) {
            out.op = OP_SET;
            out.b = rng.below(u64(regions_of(S)));
            out.a = valid_pair(I);
            out.c = int(rng.below(3));
            return true;
        }
        if (rng.chance(oRestart) && !needs_objects(S)) { out.op = OP_RESTART; return true; }
        if (rng.chance(oProbe)) {
            out.op = OP_PROBE;
            out.a = long(rng.below(rng.below(2) ? 12 : 120));
            out.b = rng.below(2);
            return true;
        }
        out.op = OP_SEND;
        out.a = pick_event(w, I);
        out.b = ++payload;
        out.c = int(rng.below(2));
        fault_plan(w, I, out);
        // hsm::log formats its output with streams, which allocate for themselves
        if (rng.chance(pAlloc) && !logs(S)) out.allocFail = 1 + int(rng.below(2));
        else if (rng.chance(pCopy) && !replaces_objects(S)) out.copyFail = 1;
        if (rng.chance(pDrop)) {
            ++g_stats.fired["message-lost"];
            out.op = OP_SENSOR;      // the message is lost: a step in which nothing arrives
            out.a = -1;
            out.plan.clear();
            out.allocFail = out.copyFail = 0;
            return true;
        }
        if (rng.chance(pDup)) {
            Flight f { now + 1 + rng.below(120), ++seq, out };
            f.s.net |= 1;
            f.s.plan.clear();
            flight.push_back(f);
        }
        if (rng.chance(pDelay)) {
            Flight f { now + 1 + rng.below(150), ++seq, out };
            f.s.net |= 2;
            flight.push_back(f);
            out = Step {};
            out.inst = I.idx;
            out.time = now;
            out.op = OP_SENSOR;
            out.a = -1;
            return true;
        }
        return true;
    }
};

Trace generate(u64 seed, const Profile& prof, const std::vector<std::string>& machines, int quirks, World& w)
{
    Rng top { seed ^ 0x73696d756c617465ULL };
    top.next();
    const int maxK = prof.get("instances", 1);
    const int K = 1 + int(top.below(u64(maxK)));
    const bool mixed = top.chance(prof.get("mixed", 300));
    w.real = false;
    w.quirks = quirks;
    const auto first = machines[top.below(machines.size())];
    for (int i = 0; i < K; ++i) w.recorded.machines.push_back(mixed ? machines[top.below(machines.size())] : first);
    w.recorded.seed = seed;
    Generator g(mix(seed, 77), prof);
    w.source = [&g](World& ww, Step& s) { return g(ww, s); };
    run_world(w);
    return w.recorded;
}

// ---------------------------------------------------------------------------------------------
// Reach: what the reference run touched
// ---------------------------------------------------------------------------------------------
void reach(const World& model, const World& real)
{
    auto& st = g_stats;
    ++st.runs;
    st.callbacks += real.callbacks;
    const auto& t = model.recorded;
    st.steps += t.steps.size();
    if (!t.steps.empty()) st.simTime += t.steps.back().time;
    u64 sched = 0;
    int maxNest = 0;
    std::vector<u64> last(model.inst.size(), ~0ull);
    std::vector<int> anon(model.inst.size(), 0), recalled(model.inst.size(), 0);
    std::vector<u64> stepPayload(t.steps.size(), 0), stepEv(t.steps.size(), 0);
    for (auto& r : real.log) {
        if (r.type == R_RESUME || r.type == R_STEP || r.type == R_NEST) sched = mix(sched, u64(r.type * 16 + r.inst));
        if (r.type == R_CB) {
            maxNest = std::max(maxNest, int(r.v[10]));
            if (r.v[1] == 0) ++anon[std::size_t(r.inst)];
            sched = mix(sched, r.v[0] + u64(r.inst) * 7919);
            if (r.step >= 0 && r.v[10] == 0 && r.v[1] != 0 && std::size_t(r.step) < t.steps.size() && t.steps[std::size_t(r.step)].op == OP_SEND
                && r.v[2] != t.steps[std::size_t(r.step)].b) {
                ++st.probes["callback-for-recalled-event"];
            }
        }
        if (r.type == R_STEP) {
            if (anon[std::size_t(r.inst)] >= 2) ++st.probes["chain-of-completions"];
            anon[std::size_t(r.inst)] = 0;
        }
        if (r.type == R_CONFIG) {
            const auto& I = real.inst[std::size_t(r.inst)];
            const u64 h = mix(u64(std::hash<std::string> {}(I.spec->name)), r.v[0]);
            st.configs.insert(h);
            if (r.step >= 0) {
                const auto& s = t.steps[std::size_t(r.step)];
                st.edges.insert(mix(mix(last[std::size_t(r.inst)], h), u64(s.op) * 1000 + u64(s.a)));
            }
            last[std::size_t(r.inst)] = h;
        }
        if (r.type == R_THROW) ++st.probes[std::string("escaped-") + throwName[r.v[0]]];
        if (r.type == R_NESTTHROW) ++st.probes["exception-crossed-nested-call"];
        if (r.type == R_RESTART) ++st.fired["crash-restart"];
        if (r.type == R_RESUME) ++st.probes["resumed-inside-callback"];
        if (r.type == R_CB && (r.v[0] >> 32) == K_HANDLER) ++st.probes["unexpected-handler"];
    }
    if (maxNest >= 2) ++st.probes["nesting-depth-2+"];
    for (auto& s : t.steps) {
        if (s.op == OP_SETDEP) ++st.fired["dependency-rebound"];
        if (s.op == OP_MOVE) ++st.fired["machine-moved"];
        if (s.op == OP_MOVEASSIGN) ++st.fired["machine-move-assigned"];
        if (s.op == OP_SET) ++st.fired["state-set"];
        if (s.op == OP_SENSOR && s.a >= 0) ++st.fired["sensor-flipped"];
    }
    for (std::size_t i = 0; i < real.stepFired.size(); ++i)
        if (real.stepFired[i]) ++st.fired[t.steps[i].copyFail ? "event-copy-failure" : "alloc-failure-in-deferral"];
    st.schedules.insert(sched);
    if (real.callbacks >= 3) st.logs.insert(log_hash(real));   // runs in which something happened
}

} // namespace sim

using namespace sim;

namespace {

std::string json_escape(const std::string& s)
{
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\', o += c;
        else if (c == '\n') o += "\\n";
        else if (static_cast<unsigned char>(c) < 32) o += ' ';
        else o += c;
    }
    return o;
}

void write_file(const std::string& path, const std::string& text)
{
    std::ofstream f(path);
    f << text;
}

void on_hang(int)
{
    static const char msg[] = "SIM-FATAL: a step does not terminate\n";
    (void)!write(2, msg, sizeof msg - 1);
    _exit(77);
}
void arm_hang(int seconds)
{
    struct itimerval it {};
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, nullptr);
}

Verdict replay(const Trace& t, int quirks, bool verbose, u64* hash = nullptr)
{
    World model, real;
    model.quirks = quirks;
    model.trace = &t;
    run_world(model);
    model.recorded = t;
    real.real = true;
    real.ref = &model;
    real.trace = &t;
    run_world(real);
    if (hash) *hash = log_hash(real);
    if (verbose) {
        for (std::size_t i = 0; i < real.log.size(); ++i) std::cout << "  real  " << show(real.log[i], real) << "\n";
    }
    return compare(model, real);
}

} // namespace

int main(int argc, char** argv)
{
    std::map<std::string, std::string> a;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        if (k.rfind("--", 0) == 0 && i + 1 < argc && std::string(argv[i + 1]).rfind("--", 0) != 0) a[k.substr(2)] = argv[++i];
        else if (k.rfind("--", 0) == 0) a[k.substr(2)] = "1";
    }
    signal(SIGPROF, on_hang);
    std::cout.setf(std::ios::unitbuf);
    const int quirks = a.count("quirks") ? std::atoi(a["quirks"].c_str()) : ~0;
    std::vector<std::string> machines;
    if (a.count("machines")) {
        std::istringstream in(a["machines"]);
        std::string m;
        while (std::getline(in, m, ',')) machines.push_back(m);
    } else {
        for (auto& d : registry()) machines.push_back(d.spec()->name);
        std::sort(machines.begin(), machines.end());
    }
    if (a.count("list")) {
        for (auto& m : machines) std::cout << m << "\n";
        return 0;
    }
    const Profile prof = Profile::parse(a.count("profile") ? a["profile"] : "");
    // hsm::log writes to std::cout: results go through a stream of our own
    if (a.count("replay")) {
        // one trace, or several that are executed one after another in this process
        std::vector<Trace> traces;
        std::ifstream f(a["replay"]);
        while (f) {
            Trace t;
            if (!parse_trace(f, t)) break;
            traces.push_back(t);
        }
        if (traces.empty()) {
            std::cerr << "SIM-ERROR: cannot read " << a["replay"] << "\n";
            return 3;
        }
        u64 h = 0;
        Verdict v;
        auto* old = std::cout.rdbuf(nullptr);
        for (auto& t : traces) {
            arm_hang(20);
            u64 one = 0;
            v = replay(t, quirks, false, &one);
            h = traces.size() == 1 ? one : mix(h, one);
            if (!v.ok) break;
        }
        std::cout.rdbuf(old);
        if (a.count("verbose")) {
            const Trace& t = traces.back();
            World real, model;
            model.quirks = quirks;
            model.trace = real.trace = &t;
            real.real = true;
            real.ref = &model;
            auto* o2 = std::cout.rdbuf(nullptr);
            run_world(model);
            run_world(real);
            std::cout.rdbuf(o2);
            for (auto& r : model.log) std::cout << "  model " << show(r, model) << "\n";
            for (auto& r : real.log) std::cout << "  real  " << show(r, real) << "\n";
        }
        std::cout << "hash " << h << "\n";
        if (v.ok) {
            std::cout << (v.tolerated ? "TOLERATED\n" : "AGREE\n");
            return 0;
        }
        std::cout << "DIVERGE\n" << v.what;
        return 1;
    }
    if (a.count("gen")) {   // print the trace of one seed
        World w;
        auto* old = std::cout.rdbuf(nullptr);
        const Trace t = generate(std::strtoull(a["gen"].c_str(), nullptr, 10), prof, machines, quirks, w);
        std::cout.rdbuf(old);
        std::cout << to_text(t);
        return 0;
    }
    if (a.count("batch")) {
        const u64 seed0 = std::strtoull(a["batch"].c_str(), nullptr, 10);
        const u64 count = std::strtoull(a["count"].c_str(), nullptr, 10);
        const double limit = a.count("time") ? std::atof(a["time"].c_str()) : 1e9;
        const std::string out = a["out"];
        const int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        const bool hashes = a.count("hashes") != 0;
        std::ostringstream hs;
        struct timespec t0;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        std::string samples;
        int nsamples = 0;
        auto* old = std::cout.rdbuf(nullptr);
        std::string violation;
        u64 vseed = 0;
        Trace vtrace;
        for (u64 i = 0; i < count; ++i) {
            const u64 seed = seed0 + i;
            char buf[32];
            const int len = std::snprintf(buf, sizeof buf, "%020llu\n", (unsigned long long)seed);
            (void)!pwrite(fd, buf, std::size_t(len), 0);
            arm_hang(10);
            World model, real;
            const Trace t = generate(seed, prof, machines, quirks, model);
            real.real = true;
            real.ref = &model;
            real.trace = &t;
            run_world(real);
            arm_hang(0);
            if (hashes) hs << seed << " " << log_hash(real) << "\n";
            const Verdict v = compare(model, real);
            if (v.tolerated) ++g_stats.tolerated;
            if (!v.ok) {
                violation = v.what;
                vseed = seed;
                vtrace = t;
                break;
            }
            reach(model, real);
            if (nsamples < 2 && t.steps.size() > 3 && t.steps.size() < 12 && real.callbacks > 4) {
                std::ostringstream o;
                o << "seed " << seed << ": ";
                for (auto& r : real.log)
                    if (r.type == R_STEP || r.type == R_CB || r.type == R_RET || r.type == R_THROW) o << show(r, real) << "; ";
                samples += std::string(samples.empty() ? "" : ",") + "\"" + json_escape(o.str().substr(0, 1500)) + "\"";
                ++nsamples;
            }
            if ((i & 15) == 15) {
                struct timespec t1;
                clock_gettime(CLOCK_MONOTONIC, &t1);
                if (double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec) > limit) break;
            }
        }
        std::cout.rdbuf(old);
        struct timespec t1;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        const double wall = double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec);
        std::ostringstream o;
        o << "{\"runs\":" << g_stats.runs << ",\"steps\":" << g_stats.steps << ",\"callbacks\":" << g_stats.callbacks
          << ",\"sim_time\":" << g_stats.simTime << ",\"tolerated\":" << g_stats.tolerated << ",\"wall\":" << wall << ",\"fired\":{";
        bool c = false;
        for (auto& [k, v] : g_stats.fired) o << (c ? "," : "") << "\"" << k << "\":" << v, c = true;
        o << "},\"probes\":{";
        c = false;
        for (auto& [k, v] : g_stats.probes) o << (c ? "," : "") << "\"" << k << "\":" << v, c = true;
        o << "},\"samples\":[" << samples << "]";
        auto dump = [&](const char* name, const std::set<u64>& s) {
            o << ",\"" << name << "\":[";
            bool f = false;
            for (auto x : s) o << (f ? "," : "") << "\"" << std::hex << x << std::dec << "\"", f = true;
            o << "]";
        };
        dump("configs", g_stats.configs);
        dump("edges", g_stats.edges);
        auto binary = [&](const char* ext, const std::set<u64>& s) {
            std::ofstream f(out + ext, std::ios::binary);
            for (auto x : s) f.write(reinterpret_cast<const char*>(&x), sizeof x);
        };
        binary(".logs", g_stats.logs);
        binary(".schedules", g_stats.schedules);
        if (!violation.empty()) o << ",\"violation\":{\"seed\":" << vseed << ",\"what\":\"" << json_escape(violation) << "\"}";
        o << "}\n";
        write_file(out, o.str());
        if (hashes) write_file(out + ".hashes", hs.str());
        if (!violation.empty()) {
            write_file(out + ".trace", to_text(vtrace));
            return 1;
        }
        return 0;
    }
    std::cerr << "usage: --list | --gen SEED | --replay FILE | --batch SEED --count N --out FILE [--profile ..] [--machines ..]\n";
    return 3;
}
