// Deterministic simulation of hsm machines: interface between the generated machines (which
// instantiate the library under test) and the simulator (which never includes the library).
#pragma once

#include <boost/hana/experimental/printable.hpp>
#include <boost/hana/type.hpp>
#include <sstream>
#include <stdexcept>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <set>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace sim {

using u64 = std::uint64_t;

// ---------------------------------------------------------------------------------------------
// Faults that user code under simulation may raise
// ---------------------------------------------------------------------------------------------
// Thrown by guards, actions, entries, exits, handlers and factories: user code throws objects of all
// sorts, and each has to arrive at the caller as the very object that was thrown.
struct Fault { int id; };
struct DerivedFault : Fault { int kind; DerivedFault(int i) : Fault { i }, kind(1) {} };
struct ErrorFault : std::runtime_error { int id; ErrorFault(int i) : std::runtime_error("fault"), id(i) {} };
struct DerivedErrorFault : ErrorFault { DerivedErrorFault(int i) : ErrorFault(i) {} };
[[noreturn]] void throw_fault(int id, int kind);
// to be called in a handler: the fault that is being handled, as a number, or -1 if it is none
long current_fault();
struct CopyFault { int id; };  // thrown by the copy constructor of an event
struct Crash { int id; };      // the host dies while this callback runs
struct Runaway { int id; };    // a callback budget of a step is exhausted

// ---------------------------------------------------------------------------------------------
// Objects that live inside the machine
// ---------------------------------------------------------------------------------------------
int current_owner();           // instance whose machine is being constructed / driven
void data_born();
void data_died();
void event_copied();           // may throw CopyFault
void event_born();
void event_died();

constexpr u64 DATA_ALIVE = 0x5ca1ab1e0ddba11ULL;
constexpr u64 EV_MOVED = 0xdead000000000000ULL;
constexpr u64 EV_TOUCH = 0x0000000100000000ULL;   // what callbacks write into the event they are given
constexpr u64 EV_TOUCHED = 0x0000ffff00000000ULL;

struct Data {                  // the data members of every simulated state
    int owner;
    int sid;
    u64 val;
    u64 alive = DATA_ALIVE;

    explicit Data(int sid) : owner(current_owner()), sid(sid), val(0) { data_born(); }
    Data(int sid, u64 val) : owner(current_owner()), sid(sid), val(val) { data_born(); }
    Data(const Data& o) : owner(o.owner), sid(o.sid), val(o.val), alive(o.alive) { data_born(); }
    Data& operator=(const Data& o) = default;
    ~Data() { alive = 0; data_died(); }
};

struct EvData {                // the payload of every simulated event
    u64 payload = 0;

    EvData() { event_born(); }
    explicit EvData(u64 p) : payload(p) { event_born(); }
    EvData(const EvData& o) : payload(o.payload)
    {
        event_copied();
        event_born();
    }
    EvData(EvData&& o) noexcept : payload(o.payload)
    {
        o.payload |= EV_MOVED;
        event_born();
    }
    EvData& operator=(const EvData& o)
    {
        event_copied();
        payload = o.payload;
        return *this;
    }
    EvData& operator=(EvData&& o) noexcept
    {
        payload = o.payload;
        if (&o != this) o.payload |= EV_MOVED;
        return *this;
    }
    ~EvData() { event_died(); }
};

struct Dep {                   // dependencies handed to the callbacks
    int type;
    int serial;
    u64 n = 0;
    u64 alive = DATA_ALIVE;
    Dep(int t, int s) : type(t), serial(s) {}
    Dep(const Dep&) = delete;
    ~Dep() { alive = 0; }
};
struct DepA : Dep { explicit DepA(int s) : Dep(0, s) {} };
struct DepB : Dep { explicit DepB(int s) : Dep(1, s) {} };
struct DepC : Dep { explicit DepC(int s) : Dep(2, s) {} };
struct DepD : Dep { explicit DepD(int s) : Dep(3, s) {} };
struct DepE : Dep { explicit DepE(int s) : Dep(4, s) {} };
struct DepF : Dep { explicit DepF(int s) : Dep(5, s) {} };
constexpr int MAX_DEPS = 6;
struct DepSet {
    DepA a;
    DepB b;
    DepC c;
    DepD d;
    DepE e;
    DepF f;
    explicit DepSet(int s) : a(s), b(s), c(s), d(s), e(s), f(s) {}
};

// ---------------------------------------------------------------------------------------------
// Callbacks
// ---------------------------------------------------------------------------------------------
enum Kind { K_GUARD = 0, K_ACTION, K_ENTRY, K_EXIT, K_HANDLER, K_FACTORY };

struct Ref {
    Data* d = nullptr;
    bool absent = false;   // the callback has no such argument, or it must not be looked at
};

// The single point through which all user code of all machines runs. For K_GUARD the result is
// the guard's verdict, for K_FACTORY it is the data value of the state to build.
u64 callback(int kind, int id, int ev, const u64* payload, Ref src, Ref tgt, Dep* const* deps, int ndeps);

template <class T> struct is_holder : std::false_type {};
template <class T> struct is_holder<std::shared_ptr<std::unique_ptr<T>>> : std::true_type {};

template <class S> Ref ref(S& s)
{
    using T = std::remove_cv_t<S>;
    if constexpr (is_holder<T>::value) {
        return Ref { *s ? &(**s).d : nullptr, false };
    } else if constexpr (requires { s.d; }) {
        return Ref { const_cast<Data*>(&s.d), false };
    } else {
        return Ref { nullptr, true };
    }
}

template <class E> constexpr int ev_id()
{
    if constexpr (requires { std::remove_cvref_t<E>::sim_id; }) {
        return std::remove_cvref_t<E>::sim_id;
    } else {
        return -1;   // completion
    }
}
template <class E> const u64* ev_payload(E& e)
{
    if constexpr (requires { e.d.payload; }) {
        return &e.d.payload;
    } else {
        return nullptr;
    }
}

template <class... D> u64 call3(int kind, int id, int ev, const u64* p, Ref s, Ref t, D&... deps)
{
    Dep* d[] = { &deps..., nullptr };
    return callback(kind, id, ev, p, s, t, d, sizeof...(D));
}

// A callback that is handed an object it may move from, does so, like one that takes its argument by value
template <class E> void take(E& e)
{
    if constexpr (!std::is_lvalue_reference_v<E> && !std::is_const_v<E> && std::is_move_constructible_v<E>) {
        [[maybe_unused]] E taken(static_cast<E&&>(e));
    }
}

// action, entry, exit: works for references and for values
template <int K, int ID> struct Cb {
    template <class E, class S, class T, class... D>
    void operator()(E&& e, S&& s, T&& t, D&&... deps) const
    {
        call3(K, ID, ev_id<E>(), ev_payload(e), sim::ref(s), sim::ref(t), deps...);
        take<E>(e);
    }
};
template <int ID> struct Gd {
    template <class E, class S, class T, class... D>
    bool operator()(E&& e, S&& s, T&& t, D&&... deps) const
    {
        const bool r = call3(K_GUARD, ID, ev_id<E>(), ev_payload(e), sim::ref(s), sim::ref(t), deps...) != 0;
        take<E>(e);
        return r;
    }
};
// the same as values: callables of one type which differ in what they hold only
struct CbV {
    int kind, id, check;
    constexpr CbV(int k, int i) : kind(k), id(i), check(~i) {}
    template <class E, class S, class T, class... D>
    void operator()(E&& e, S&& s, T&& t, D&&... deps) const
    {
        call3(kind, check == ~id ? id : -2, ev_id<E>(), ev_payload(e), sim::ref(s), sim::ref(t), deps...);
        take<E>(e);
    }
};
struct GdV {
    int id, check;
    constexpr explicit GdV(int i) : id(i), check(~i) {}
    template <class E, class S, class T, class... D>
    bool operator()(E&& e, S&& s, T&& t, D&&... deps) const
    {
        const bool r = call3(K_GUARD, check == ~id ? id : -2, ev_id<E>(), ev_payload(e), sim::ref(s), sim::ref(t), deps...) != 0;
        take<E>(e);
        return r;
    }
};
constexpr auto guard_value(int i)
{
    return [g = GdV(i)](auto&& e, auto&& s, auto&& t, auto&&... d) { return g(std::forward<decltype(e)>(e), s, t, d...); };
}
constexpr auto call_value(int k, int i)
{
    return [c = CbV(k, i)](auto&& e, auto&& s, auto&& t, auto&&... d) { c(std::forward<decltype(e)>(e), s, t, d...); };
}
struct Handler {
    template <class E, class S, class... D> void operator()(E&& e, S&& s, D&&... deps) const
    {
        call3(K_HANDLER, 0, ev_id<E>(), ev_payload(e), sim::ref(s), Ref { nullptr, true }, deps...);
        take<E>(e);
    }
};
// marks user code: allocations in here neither fail nor count
struct UserScope {
    bool saved;
    UserScope();
    ~UserScope();
    UserScope(const UserScope&) = delete;
};
template <int ID, class Target> struct Factory {
    template <class E, class S> auto operator()(E&& e, S&& s) const -> std::unique_ptr<Target>
    {
        const u64 v = callback(K_FACTORY, ID, ev_id<E>(), ev_payload(e), sim::ref(s), Ref { nullptr, true }, nullptr, 0);
        UserScope user;
        return std::make_unique<Target>(v);
    }
};

// ---------------------------------------------------------------------------------------------
// Static description of a machine, from which the reference model works
// ---------------------------------------------------------------------------------------------
enum SrcKind { SRC_PLAIN = 0, SRC_INITIAL, SRC_EXIT, SRC_DIRECT };
enum TgtKind { TGT_PLAIN = 0, TGT_ENTRY, TGT_DIRECT, TGT_HISTORY };
enum Mode { MODE_NORMAL = 0, MODE_CREATE, MODE_REUSE };

constexpr int LOG_ACTION = 30000;   // hsm::log among the actions of a row

struct Row {
    int srcKind, src, srcParent;
    int ev;                      // -1: completion
    int guard;                   // -1: none
    std::vector<int> actions;    // chained
    int tgtKind, tgt, tgtParent;
    int mode = MODE_NORMAL;
};
struct IRow {
    int ev, guard;
    std::vector<int> actions;
};
struct StateSpec {
    const char* name;
    bool composite, entry, exit, custom;
    std::vector<int> defers;
    std::vector<Row> rows;       // composite states: own transition table
    std::vector<IRow> irows;     // internal rows
};
struct Effect { int action, guard, value; };
struct Spec {
    const char* name;
    std::vector<const char*> tags;
    std::vector<StateSpec> states;      // [0] is the root
    std::vector<const char*> events;
    std::vector<const char*> guards;
    std::vector<int> guardDefault;
    int nactions = 0;
    std::vector<Effect> effects;        // sensors changed by actions
    int ndeps = 0;
    bool handler = false;
    std::set<int> reuseActions;         // actions that get copies of the event and the source
    bool maskTarget = false;            // do not look at target arguments
    std::vector<std::string> stateTypes, eventTypes; // as hsm::log prints them (the last event: completion)
    std::vector<std::pair<int, int>> pairs; // (parent, state): all configurations one can ask for
};

// ---------------------------------------------------------------------------------------------
// A machine under simulation: the real one (generated adapter) or the reference model
// ---------------------------------------------------------------------------------------------
struct IMachine {
    virtual ~IMachine() = default;
    virtual bool send(int ev, u64 payload, bool lvalue) = 0;
    // index into Spec::pairs of what is active; -1 none; -2 several. The hint is tried first; without
    // one (-1) all pairs are asked for
    virtual int config(int region, int hint) = 0;
    virtual u64 is_mask() = 0;            // is(state) of every state
    virtual u64 is2_mask() = 0;           // is(parent, state) of every pair
    virtual u64 parent_mask() = 0;        // parent_is(parent) of every state
    virtual std::string status() { return {}; }
    virtual void set(int region, int pair, int form) = 0;
    virtual void set_dependency(DepSet& deps) = 0;
    virtual IMachine* move_out() = 0;               // move construct
    virtual bool move_into(IMachine& target) = 0;   // move assign; false if not supported
};

struct MachineDef {
    const Spec* (*spec)();
    IMachine* (*create)(DepSet& deps);
};
struct Registrar { explicit Registrar(const MachineDef& d); };

// how hana prints a type
template <class T> std::string type_text()
{
    std::ostringstream o;
    o << boost::hana::experimental::print(boost::hana::type_c<T>);
    return o.str();
}

// marks code that runs inside the library (allocation accounting and failure injection)
struct LibScope {
    bool saved;
    LibScope();
    ~LibScope();
    LibScope(const LibScope&) = delete;
};
void payload_check(u64 sent, u64 after); // an event passed as lvalue must not be changed

} // namespace sim
