From 6acb74f42b606b737af60cb112cc46dd80f9fe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:02 +0000
Subject: [PATCH 01/15] fix: run on_exit of a state that is declared with an
 initial (starred) row

---
 include/hsm/details/has_action.h    | 14 +++++++++++++-
 include/hsm/details/resolve_state.h |  4 ++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/hsm/details/has_action.h b/include/hsm/details/has_action.h
index eeede7c..5370809 100644
--- a/include/hsm/details/has_action.h
+++ b/include/hsm/details/has_action.h
@@ -23,6 +23,18 @@ constexpr auto has_substate_initial_state_entry_action = [](auto target) {
     }
 };
 
+/**
+ * The state which is left by a transition: an initial state is unwrapped, every
+ * other source is returned as it is.
+ */
+constexpr auto resolve_left_state = [](auto transition) {
+    if constexpr (is_initial_state(transition.source())) {
+        return get_state(transition.source());
+    } else {
+        return transition.source();
+    }
+};
+
 constexpr auto has_pseudo_exit_action = [](auto transition) {
     return bh::and_(
         is_exit_state(transition.source()), has_exit_action(resolveSrcParent(transition)));
@@ -33,7 +45,7 @@ constexpr auto has_action = [](auto transition) {
         bh::not_(is_no_action(transition.action())),
         has_entry_action(transition.target()),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(transition.source()),
+        has_exit_action(resolve_left_state(transition)),
         has_pseudo_exit_action(transition));
 };
 }
\ No newline at end of file
diff --git a/include/hsm/details/resolve_state.h b/include/hsm/details/resolve_state.h
index e46de11..0b72acb 100644
--- a/include/hsm/details/resolve_state.h
+++ b/include/hsm/details/resolve_state.h
@@ -115,8 +115,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(transition.source())) {
-        return get_exit_action(transition.source());
+    } else if constexpr (has_exit_action(resolve_left_state(transition))) {
+        return get_exit_action(resolve_left_state(transition));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
-- 
2.43.0


From e0f3e38cb32d6d44c42ef616166ab580372ac83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:02 +0000
Subject: [PATCH 02/15] fix: set() activates the regions of the parent state it
 moves to

---
 include/hsm/details/sm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 0c436ee..7b1de14 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -151,6 +151,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         m_currentCombinedState.at(region)
             = getCombinedStateIdx(getCombinedStateTypeids(rootState), parentState, state);
+        update_current_regions();
     }
 
     auto status() -> std::string
-- 
2.43.0


From 2d07813738efd8d4ad7e96bb11a21e33d297462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 03/15] fix: is() and status() describe the region they are
 asked for

---
 include/hsm/details/sm.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 7b1de14..4450524 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -34,7 +34,7 @@ template <class RootState, class... OptionalParameters> class sm {
     using StatesMap = decltype(make_states_map(rootState));
     using DispatchTables = decltype(make_dispatch_tables(rootState));
     using UnexpectedEventHandlerTables = decltype(make_unexpected_event_handler_tables(rootState));
-    std::array<StateIdx, maxInitialStates(rootState)> m_currentCombinedState;
+    std::array<StateIdx, maxInitialStates(rootState)> m_currentCombinedState {};
     std::array<std::vector<std::size_t>, nParentStates(rootState)> m_initial_states;
     std::array<std::vector<std::size_t>, nParentStates(rootState)> m_history;
     variant_queue<Events> m_defer_queue;
@@ -120,7 +120,7 @@ template <class RootState, class... OptionalParameters> class sm {
     template <class ParentState, class State>
     auto is(Region region, ParentState parentState, State state) -> bool
     {
-        return currentParentState() == getParentStateIdx(rootState, parentState)
+        return currentParentState(region) == getParentStateIdx(rootState, parentState)
             && currentState(region) == getStateIdx(rootState, state);
     }
 
@@ -159,9 +159,9 @@ template <class RootState, class... OptionalParameters> class sm {
         std::stringstream statusStream;
         const auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
-            statusStream << "[" << region << "] "
+            statusStream << "[" << static_cast<unsigned>(region) << "] "
                          << "combined: " << m_currentCombinedState[region] << " "
-                         << "parent: " << currentParentState() << " "
+                         << "parent: " << currentParentState(region) << " "
                          << "state: " << currentState(region);
         }
         return statusStream.str();
@@ -340,9 +340,9 @@ template <class RootState, class... OptionalParameters> class sm {
         return calcStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
-    auto currentParentState()
+    auto currentParentState(Region region = 0)
     {
-        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[0]);
+        return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
     void init_current_state()
-- 
2.43.0


From d83bfa57fa96d74fbb0fd9a4d0382346ec7a51ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 04/15] fix: keep the history of a composite state for every
 region that enters it

---
 include/hsm/details/sm.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 4450524..06e91a7 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -80,7 +80,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
-        fill_initial_state_table(rootState, m_history);
+        init_history();
         init_current_state();
         update_current_regions();
     }
@@ -287,7 +287,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         if constexpr (has_history(rootState)) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_history[currentParentState()][region] = m_currentCombinedState[region];
+            m_history[currentParentState(region)][region] = m_currentCombinedState[region];
 
             if (dispatchTableEntry.history) {
                 auto parent
@@ -345,6 +345,19 @@ template <class RootState, class... OptionalParameters> class sm {
         return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
+    void init_history()
+    {
+        fill_initial_state_table(rootState, m_history);
+
+        // A parent state can be entered by each region, not only by as many
+        // regions as the parent state has initial states.
+        for (auto& history : m_history) {
+            if (!history.empty()) {
+                history.resize(m_currentCombinedState.size(), history.front());
+            }
+        }
+    }
+
     void init_current_state()
     {
         const auto initialParentState = getParentStateIdx(rootState, rootState);
-- 
2.43.0


From 09ffbcba008b2f125cd5aaca4f1d991197b59527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:31 +0000
Subject: [PATCH 05/15] fix: transitions of a sub state take precedence over
 transitions of its enclosing state

---
 include/hsm/details/fill_dispatch_table.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index c7b3e8f..8e1db36 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -200,18 +200,25 @@ constexpr auto fill_dispatch_table_with_transitions(
         eventTypeids,
         [rootState, &dispatchTables, statesMap, optionalDependency, transitions](auto eventTypeid) {
             auto filteredTransitions = filter_transitions(transitions, eventTypeid);
+            // Entries are pushed to the front: the transitions of the enclosing state come first,
+            // so that they are tried after the transitions of the sub states themselves.
             bh::for_each(
                 filteredTransitions,
                 [rootState, &dispatchTables, statesMap, optionalDependency, eventTypeid](
                     auto transition) {
-                    addDispatchTableEntry(
+                    addDispatchTableEntryOfSubMachineExits(
                         rootState,
                         dispatchTables,
                         transition,
                         eventTypeid,
                         statesMap,
                         optionalDependency);
-                    addDispatchTableEntryOfSubMachineExits(
+                });
+            bh::for_each(
+                filteredTransitions,
+                [rootState, &dispatchTables, statesMap, optionalDependency, eventTypeid](
+                    auto transition) {
+                    addDispatchTableEntry(
                         rootState,
                         dispatchTables,
                         transition,
-- 
2.43.0


From 1c64e5eb54b76278a6680207b0255a2a1229c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:30 +0000
Subject: [PATCH 06/15] fix: recall deferred events in order of arrival and
 handle each exactly once

---
 include/hsm/details/sm.h            | 35 +++++++++++++++++++++++----
 include/hsm/details/variant_queue.h | 37 ++++++++++++++++++++++-------
 2 files changed, 60 insertions(+), 12 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 06e91a7..fcdcabe 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -186,6 +186,11 @@ template <class RootState, class... OptionalParameters> class sm {
         bool allGuardsFailed = true;
         bool allTransitionsInvalid = true;
 
+        if (is_deferred(event)) {
+            m_defer_queue.push(event);
+            return ProcessEventResult::EventDefered;
+        }
+
         const auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
 
@@ -199,8 +204,9 @@ template <class RootState, class... OptionalParameters> class sm {
             for (auto& result : results) {
 
                 if (result.defer) {
-                    m_defer_queue.push(event);
-                    return ProcessEventResult::EventDefered;
+                    // A callback of a former region moved this region to a defering state
+                    allTransitionsInvalid = false;
+                    break;
                 }
 
                 if (!result.transition->executeGuard(event)) {
@@ -232,10 +238,31 @@ template <class RootState, class... OptionalParameters> class sm {
     auto process_deferred_events()
     {
         if constexpr (hasDeferedEvents(rootState)) {
-            if (!m_defer_queue.empty()) {
-                m_defer_queue.visit([this](auto event) { this->process_event_internal(event); });
+            const auto isRecalled = [this](auto& event) { return !this->is_deferred(event); };
+            const auto process = [this](auto& event) { this->process_event_internal(event); };
+
+            while (m_defer_queue.visit_first(isRecalled, process)) {
+            }
+        }
+    }
+
+    /**
+     * An event is defered as a whole as long as one of the active states defers it
+     */
+    template <class Event> auto is_deferred(Event& event) -> bool
+    {
+        (void)event;
+        if constexpr (hasDeferedEvents(rootState)) {
+            const auto currentRegions = current_regions();
+            for (Region region = 0; region < currentRegions; region++) {
+                for (const auto& result : get_dispatch_table_entry(event, region)) {
+                    if (result.defer) {
+                        return true;
+                    }
+                }
             }
         }
+        return false;
     }
 
     template <class Event> auto process_anonymous_transitions(Event&& event)
diff --git a/include/hsm/details/variant_queue.h b/include/hsm/details/variant_queue.h
index d66e0f5..4abeea9 100644
--- a/include/hsm/details/variant_queue.h
+++ b/include/hsm/details/variant_queue.h
@@ -3,8 +3,9 @@
 #include <boost/hana/type.hpp>
 #include <boost/hana/unpack.hpp>
 
+#include <algorithm>
+#include <list>
 #include <stdexcept>
-#include <queue>
 #include <variant>
 
 namespace hsm {
@@ -14,7 +15,7 @@ template <class EventsTuple> auto constexpr make_variant_queue(EventsTuple event
 {
     using Variant_t =
         typename decltype(boost::hana::unpack(events, boost::hana::template_<std::variant>))::type;
-    return std::queue<Variant_t> {};
+    return std::list<Variant_t> {};
 }
 }
 
@@ -38,12 +39,12 @@ public:
 
     template <class T> void push(const T& e)
     {
-        m_queue.push(e);
+        m_queue.push_back(e);
     }
 
     template <class T> void push(T&& e)
     {
-        m_queue.push(e);
+        m_queue.push_back(e);
     }
 
     template <class Callable>
@@ -52,13 +53,33 @@ public:
             throw std::runtime_error("variant_queue is empty");
         }
 
-        auto frontElement = m_queue.front();
-        m_queue.pop();
+        visit_first([](auto&&){ return true; }, callable);
+    }
+
+    /**
+     * Takes the oldest element which satisfies the predicate out of the queue and visits it.
+     * The other elements keep their order.
+     *
+     * Returns: false if there is no such element
+     */
+    template <class Predicate, class Callable>
+    auto visit_first(const Predicate& predicate, const Callable& callable) -> bool {
+        const auto element = std::find_if(m_queue.begin(), m_queue.end(), [&predicate](auto& e){
+            return std::visit(predicate, e);
+        });
+
+        if(element == m_queue.end()){
+            return false;
+        }
+
+        Queue_t taken;
+        taken.splice(taken.begin(), m_queue, element);
 
         std::visit([&callable](auto&& arg){
             callable(arg);    
-        }, frontElement);
-        
+        }, taken.front());
+
+        return true;
     }
 };
 }
\ No newline at end of file
-- 
2.43.0


From f4dcd85d5fbbf644c7260b1eb4d2a22fccff0eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:43 +0000
Subject: [PATCH 07/15] fix: set_dependency replaces the dependencies of all
 guards, actions and handlers

---
 include/hsm/details/dispatch_table.h | 30 ++++++++++++++++++++++++++++
 include/hsm/details/sm.h             | 13 ++++++------
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/include/hsm/details/dispatch_table.h b/include/hsm/details/dispatch_table.h
index b669455..9c445dc 100644
--- a/include/hsm/details/dispatch_table.h
+++ b/include/hsm/details/dispatch_table.h
@@ -20,6 +20,36 @@ template <class T> auto get(std::reference_wrapper<T> ref) -> auto&
     return ref.get();
 }
 
+/**
+ * Reference to a dependency of the state machine which can be bound to another
+ * object. All copies of the reference are bound to the same object.
+ */
+template <class T> class dependency_ref {
+  public:
+    explicit dependency_ref(T& dependency)
+        : m_dependency(std::make_shared<T*>(std::addressof(dependency)))
+    {
+    }
+
+    void rebind(T& dependency) noexcept
+    {
+        *m_dependency = std::addressof(dependency);
+    }
+
+    auto get() const -> T&
+    {
+        return **m_dependency;
+    }
+
+  private:
+    std::shared_ptr<T*> m_dependency;
+};
+
+template <class T> auto get(const dependency_ref<T>& ref) -> auto&
+{
+    return ref.get();
+}
+
 // NOLINTNEXTLINE(cppcoreguidelines-special-member-functions)
 template <class Event> struct IDispatchTableEntry {
     virtual ~IDispatchTableEntry() = default;
diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index fcdcabe..7126ee4 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -42,6 +42,7 @@ template <class RootState, class... OptionalParameters> class sm {
     StatesMap m_statesMap;
     DispatchTables m_dispatchTables;
     UnexpectedEventHandlerTables m_unexpectedEventHandlerTables;
+    bh::basic_tuple<dependency_ref<OptionalParameters>...> m_dependencies;
 
   public:
     sm(OptionalParameters&... optionalParameters)
@@ -49,6 +50,7 @@ template <class RootState, class... OptionalParameters> class sm {
         , m_history()
         , m_defer_queue(collect_event_typeids_recursive(rootState))
         , m_statesMap(make_states_map(rootState))
+        , m_dependencies(dependency_ref<OptionalParameters>(optionalParameters)...)
     {
         static_assert(
             has_transition_table(rootState), "Root state has no make_transition_table method");
@@ -67,18 +69,16 @@ template <class RootState, class... OptionalParameters> class sm {
             "At least one initial state of the state machine has internal transition tables. This "
             "is not allowed.");
 
-        auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
-
         if constexpr (has_unexpected_event_handler(rootState)) {
             fill_unexpected_event_handler_tables(
                 rootState,
                 m_statesMap,
                 m_unexpectedEventHandlerTables,
                 get_unexpected_event_handler(rootState),
-                optionalDependency);
+                m_dependencies);
         }
 
-        fill_dispatch_table(optionalDependency);
+        fill_dispatch_table(m_dependencies);
         fill_initial_state_table(rootState, m_initial_states);
         init_history();
         init_current_state();
@@ -169,8 +169,9 @@ template <class RootState, class... OptionalParameters> class sm {
 
     auto set_dependency(OptionalParameters&... optionalParameters)
     {
-        auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
-        fill_dispatch_table(optionalDependency);
+        bh::unpack(m_dependencies, [&](auto&... dependencies) {
+            (dependencies.rebind(optionalParameters), ...);
+        });
     }
 
   private:
-- 
2.43.0


From 1efb33c3cc3b373fcee01164bc4c2f77fa5cad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:02 +0000
Subject: [PATCH 08/15] fix: bring the single header up to date with the
 library

---
 include/hsm/gen/hsm.h | 453 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 378 insertions(+), 75 deletions(-)

diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 261e64d..95e792a 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -58,6 +58,7 @@ constexpr auto log = [](const auto& event, const auto& source, const auto& targe
 };
 }
 
+
 namespace hsm {
 
 template <class Action> class ReuseState {
@@ -83,6 +84,15 @@ template <class Action> constexpr auto reuse_state(Action action)
 }
 }
 
+
+
+
+
+
+
+
+
+
 #include <boost/hana/for_each.hpp>
 
 namespace hsm {
@@ -99,6 +109,9 @@ namespace hsm {
     };
 }
 
+
+
+
 #include <boost/hana/map.hpp>
 #include <boost/hana/pair.hpp>
 #include <boost/hana/type.hpp>
@@ -126,6 +139,7 @@ template <class Tuple> constexpr auto remove_duplicate_types(Tuple tuple)
 }
 }
 
+
 namespace hsm {
 
 struct noAction {
@@ -353,7 +367,7 @@ constexpr auto is_initial_state = [](auto typeid_) {
 constexpr auto is_no_action
     = [](auto action) { return bh::equal(bh::typeid_(action), bh::typeid_(noAction {})); };
 
-template <class Action> constexpr decltype(auto) is_action()
+template <class Action> constexpr auto is_action() -> decltype(auto)
 {
     return bh::not_equal(bh::type_c<Action>, bh::typeid_(noAction {}));
 }
@@ -361,7 +375,7 @@ template <class Action> constexpr decltype(auto) is_action()
 constexpr auto is_no_guard
     = [](auto guard) { return bh::equal(bh::typeid_(guard), bh::typeid_(noGuard {})); };
 
-template <class Guard> constexpr decltype(auto) is_guard()
+template <class Guard> constexpr auto is_guard() -> decltype(auto)
 {
     return bh::not_equal(bh::type_c<Guard>, bh::typeid_(noGuard {}));
 }
@@ -383,6 +397,7 @@ const auto get_unexpected_event_handler = [](auto rootState) {
 };
 }
 
+
 #include <boost/hana/at.hpp>
 #include <boost/hana/transform.hpp>
 #include <boost/hana/type.hpp>
@@ -407,6 +422,10 @@ const auto collect_guard_typeids_recursive = [](auto state) {
 };
 }
 
+
+
+
+
 #include <boost/hana/front.hpp>
 #include <boost/hana/transform.hpp>
 #include <boost/hana/type.hpp>
@@ -427,6 +446,8 @@ template <class State> constexpr auto collect_parent_state_typeids(State state)
 }
 }
 
+
+
 namespace hsm {
 template <class Event> struct event_t;
 struct noneEvent;
@@ -446,12 +467,12 @@ template <class Source, class Event, class Guard, class Action> class Transition
 template <class Source> struct initial_t;
 }
 
+
 #include <type_traits>
 
 #include <boost/hana/bool.hpp>
 
-namespace hsm {
-namespace details {
+namespace hsm::details {
 
 namespace bh {
 using namespace boost::hana;
@@ -615,7 +636,6 @@ constexpr auto internal_extended_transition = [](auto parent, auto transition) {
                 transition.target() };
 };
 }
-}
 
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/type.hpp>
@@ -653,6 +673,7 @@ struct noneEvent {
 using none = event_t<noneEvent>;
 }
 
+
 #include <boost/hana/at.hpp>
 #include <boost/hana/pair.hpp>
 #include <boost/hana/transform.hpp>
@@ -669,13 +690,13 @@ template <class Tuple> constexpr auto to_pairs(const Tuple& tuple)
 }
 }
 
-#include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/drop_while.hpp>
 #include <boost/hana/map.hpp>
 #include <boost/hana/minus.hpp>
 #include <boost/hana/not_equal.hpp>
 #include <boost/hana/range.hpp>
 #include <boost/hana/size.hpp>
+#include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/zip.hpp>
 
 namespace {
@@ -802,7 +823,7 @@ constexpr auto calcParentStateIdx
 constexpr auto calcStateIdx
     = [](std::size_t nStates, Idx combinedState) -> Idx { return combinedState % nStates; };
 
-template <class Event> constexpr decltype(auto) resolveEvent(Event event)
+template <class Event> constexpr auto resolveEvent(Event event) -> decltype(auto)
 {
     if constexpr (is_event(event)) {
         return event.typeid_;
@@ -824,6 +845,7 @@ constexpr auto getGuardIdx = [](auto rootState, auto guard) {
 };
 }
 
+
 #include <boost/hana/find.hpp>
 #include <boost/hana/maximum.hpp>
 #include <boost/hana/size.hpp>
@@ -922,6 +944,24 @@ constexpr auto fill_initial_state_table(State rootState, StateTable& initialStat
         });
 }
 
+template <class State>
+constexpr auto at_least_one_initial_state_has_transition_table(State rootState)
+{
+    return bh::fold_left(
+        collect_initial_states(rootState), bh::false_c, [](auto result, auto initialState) {
+            return bh::or_(result, has_transition_table(initialState));
+        });
+}
+
+template <class State>
+constexpr auto at_least_one_initial_state_has_internal_transition_table(State rootState)
+{
+    return bh::fold_left(
+        collect_initial_states(rootState), bh::false_c, [](auto result, auto initialState) {
+            return bh::or_(result, has_internal_transition_table(initialState));
+        });
+}
+
 /**
  * Returns a tuple of initial state sizes
  *
@@ -946,6 +986,8 @@ template <class State> constexpr auto maxInitialStates(State rootState)
 }
 }
 
+
+
 #include <boost/hana/bool.hpp>
 #include <boost/hana/if.hpp>
 #include <boost/hana/not.hpp>
@@ -965,6 +1007,18 @@ constexpr auto has_substate_initial_state_entry_action = [](auto target) {
     }
 };
 
+/**
+ * The state which is left by a transition: an initial state is unwrapped, every
+ * other source is returned as it is.
+ */
+constexpr auto resolve_left_state = [](auto transition) {
+    if constexpr (is_initial_state(transition.source())) {
+        return get_state(transition.source());
+    } else {
+        return transition.source();
+    }
+};
+
 constexpr auto has_pseudo_exit_action = [](auto transition) {
     return bh::and_(
         is_exit_state(transition.source()), has_exit_action(resolveSrcParent(transition)));
@@ -975,7 +1029,7 @@ constexpr auto has_action = [](auto transition) {
         bh::not_(is_no_action(transition.action())),
         has_entry_action(transition.target()),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(transition.source()),
+        has_exit_action(resolve_left_state(transition)),
         has_pseudo_exit_action(transition));
 };
 }
@@ -1093,8 +1147,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(transition.source())) {
-        return get_exit_action(transition.source());
+    } else if constexpr (has_exit_action(resolve_left_state(transition))) {
+        return get_exit_action(resolve_left_state(transition));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
@@ -1179,6 +1233,8 @@ namespace hsm {
     }
 }
 
+
+
 #include <boost/hana/back.hpp>
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/flatten.hpp>
@@ -1197,6 +1253,12 @@ template <class State> constexpr auto flatten_sub_transition_table(State state);
 
 }
 
+/**
+ * This function iterates recursively trough the transition table of a state provided by
+ * `make_transition_table()` and collects all transitions.
+ *
+ * @return a list of ExtendedTransition
+ */
 template <class State> constexpr auto flatten_transition_table(State state)
 {
     auto flattenSubTransitionTable = [state](auto transition) {
@@ -1224,9 +1286,13 @@ template <class State> constexpr auto flatten_sub_transition_table(State state)
 }
 }
 
+
+
+
 #include <boost/hana/at.hpp>
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/flatten.hpp>
+#include <boost/hana/prepend.hpp>
 #include <boost/hana/transform.hpp>
 #include <boost/hana/type.hpp>
 
@@ -1270,6 +1336,12 @@ constexpr auto extractStateTypeids = [](auto transition) {
 };
 }
 
+constexpr auto extractParentAndState = [](auto transition) {
+    return bh::make_basic_tuple(
+        bh::make_pair(transition.parent(), resolveInitialState(transition)),
+        bh::make_pair(transition.parent(), transition.target()));
+};
+
 template <class State> constexpr auto collect_child_state_typeids_recursive(State parentState)
 {
     auto transitions = flatten_transition_table(parentState);
@@ -1281,7 +1353,6 @@ template <class State> constexpr auto collect_child_state_typeids_recursive(Stat
 template <class State> constexpr auto collect_child_states_recursive(State parentState)
 {
     return bh::flatten(bh::transform(flatten_transition_table(parentState), extractExtendedStates));
-    ;
 }
 
 template <class State> constexpr auto collect_state_typeids_recursive(State parentState)
@@ -1309,8 +1380,17 @@ template <class State> constexpr auto collect_child_states(State state)
     return remove_duplicates(
         bh::flatten(bh::transform(make_transition_table2(state), extractStates)));
 }
+
+template <class State> constexpr auto collect_state_parentstate_pairs_recursively(State rootState)
+{
+    return remove_duplicates(bh::prepend(
+        bh::flatten(bh::transform(flatten_transition_table(rootState), extractParentAndState)),
+        bh::make_pair(rootState, rootState)));
+}
 }
 
+
+
 #include <boost/hana/append.hpp>
 #include <boost/hana/at.hpp>
 #include <boost/hana/basic_tuple.hpp>
@@ -1383,29 +1463,57 @@ constexpr auto extend_internal_transition(Transition internalTransition, States
 }
 
 /**
- * Returns the internal transitions for each for each state
+ * Extends an internal transitions to all provided states
+ *
+ * @param internalTranstion Internal transition that should be extended
+ * @param states tuple of states
+ */
+template <class Transition, class ParentState, class State>
+constexpr auto
+extend_internal_transition2(Transition internalTransition, ParentState parent, State state)
+{
+    return bh::make_basic_tuple(details::internal_extended_transition(
+        parent,
+        details::transition(
+            state,
+            internalTransition.event(),
+            internalTransition.guard(),
+            internalTransition.action(),
+            state)));
+}
+
+/**
+ * Returns the internal transitions for each state
  * [[transition1, transition2], [transition3, transition4], []]
  *
  * @param states a tuple of states
  */
-constexpr auto get_internal_transitions = [](auto states) {
+constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
     return bh::flatten(bh::filter(
         bh::transform(
-            states,
-            [](auto parentState) {
-                constexpr auto extend
-                    = bh::capture(parentState)([](auto parentState, auto transition) {
-                          // Folowing lines satisfies older gcc -Werror=unused-but-set-parameter
-                          (void)transition;
-                          if constexpr (has_transition_table(parentState)) {
-                              return extend_internal_transition(
-                                  transition, collect_child_states(parentState));
-                          } else {
-                              return bh::make_basic_tuple();
-                          }
-                      });
-
-                return bh::transform(get_internal_transition_table(parentState), extend);
+            stateAndParentStatePairs,
+            [](auto stateAndParentStatePair) {
+                constexpr auto extend = bh::capture(stateAndParentStatePair)(
+                    [](auto stateAndParentStatePair, auto internalTransition) {
+                        // Folowing lines satisfies older gcc -Werror=unused-but-set-parameter
+                        (void)internalTransition;
+                        if constexpr (has_transition_table(bh::second(stateAndParentStatePair))) {
+                            return extend_internal_transition(
+                                internalTransition,
+                                collect_child_states(bh::second(stateAndParentStatePair)));
+                        } else if constexpr (has_internal_transition_table(
+                                                 bh::second(stateAndParentStatePair))) {
+                            return extend_internal_transition2(
+                                internalTransition,
+                                bh::first(stateAndParentStatePair),
+                                bh::second(stateAndParentStatePair));
+                        } else {
+                            return bh::make_basic_tuple();
+                        }
+                    });
+
+                return bh::transform(
+                    get_internal_transition_table(bh::second(stateAndParentStatePair)), extend);
             }),
         isNotEmpty));
 };
@@ -1417,13 +1525,17 @@ constexpr auto get_internal_transitions = [](auto states) {
  */
 template <class State> constexpr auto flatten_internal_transition_table(State rootState)
 {
-    return [](auto states) {
-        return bh::to<bh::basic_tuple_tag>(bh::flatten(get_internal_transitions(states)));
-    }(collect_states_recursive(rootState));
+    return [](auto stateAndParentStatePairs) {
+        return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
+            bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
+    }(collect_state_parentstate_pairs_recursively(rootState));
 }
 
 } // namespace hsm
 
+
+
+
 #include <boost/hana/at.hpp>
 #include <boost/hana/concat.hpp>
 #include <boost/hana/flatten.hpp>
@@ -1465,6 +1577,12 @@ template <class State> constexpr auto collect_events_recursive(State state)
 }
 }
 
+
+
+
+
+
+
 #include <memory>
 
 namespace hsm::details::utils {
@@ -1582,6 +1700,36 @@ template <class T> auto get(std::reference_wrapper<T> ref) -> auto&
     return ref.get();
 }
 
+/**
+ * Reference to a dependency of the state machine which can be bound to another
+ * object. All copies of the reference are bound to the same object.
+ */
+template <class T> class dependency_ref {
+  public:
+    explicit dependency_ref(T& dependency)
+        : m_dependency(std::make_shared<T*>(std::addressof(dependency)))
+    {
+    }
+
+    void rebind(T& dependency) noexcept
+    {
+        *m_dependency = std::addressof(dependency);
+    }
+
+    auto get() const -> T&
+    {
+        return **m_dependency;
+    }
+
+  private:
+    std::shared_ptr<T*> m_dependency;
+};
+
+template <class T> auto get(const dependency_ref<T>& ref) -> auto&
+{
+    return ref.get();
+}
+
 // NOLINTNEXTLINE(cppcoreguidelines-special-member-functions)
 template <class Event> struct IDispatchTableEntry {
     virtual ~IDispatchTableEntry() = default;
@@ -1724,6 +1872,11 @@ template <class Event> struct NextState {
 };
 }
 
+
+
+
+
+
 #include <boost/hana/at_key.hpp>
 #include <boost/hana/equal.hpp>
 #include <boost/hana/filter.hpp>
@@ -1760,7 +1913,7 @@ template <class State> constexpr auto nEvents(State rootState)
     return bh::length(collect_event_typeids_recursive(rootState));
 }
 
-template <class State> constexpr decltype(auto) hasParallelRegions(State rootState)
+template <class State> constexpr auto hasParallelRegions(State rootState) -> decltype(auto)
 {
     return bh::greater(maxInitialStates(rootState), bh::size_c<1>);
 }
@@ -1840,7 +1993,7 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
         return;
     }
 
-    constexpr auto parentState = transition.source();
+    const auto parentState = transition.source();
     if constexpr (has_transition_table(parentState)) {
         bh::for_each(collect_child_state_typeids(parentState), [=, &dispatchTables](auto state) {
             bh::apply(
@@ -1915,18 +2068,25 @@ constexpr auto fill_dispatch_table_with_transitions(
         eventTypeids,
         [rootState, &dispatchTables, statesMap, optionalDependency, transitions](auto eventTypeid) {
             auto filteredTransitions = filter_transitions(transitions, eventTypeid);
+            // Entries are pushed to the front: the transitions of the enclosing state come first,
+            // so that they are tried after the transitions of the sub states themselves.
             bh::for_each(
                 filteredTransitions,
                 [rootState, &dispatchTables, statesMap, optionalDependency, eventTypeid](
                     auto transition) {
-                    addDispatchTableEntry(
+                    addDispatchTableEntryOfSubMachineExits(
                         rootState,
                         dispatchTables,
                         transition,
                         eventTypeid,
                         statesMap,
                         optionalDependency);
-                    addDispatchTableEntryOfSubMachineExits(
+                });
+            bh::for_each(
+                filteredTransitions,
+                [rootState, &dispatchTables, statesMap, optionalDependency, eventTypeid](
+                    auto transition) {
+                    addDispatchTableEntry(
                         rootState,
                         dispatchTables,
                         transition,
@@ -1999,6 +2159,16 @@ constexpr auto fill_dispatch_table_with_internal_transitions(
 }
 }
 
+
+
+
+
+
+
+
+
+
+
 #include <boost/hana/map.hpp>
 #include <boost/hana/unpack.hpp>
 
@@ -2015,6 +2185,7 @@ constexpr auto to_map = [](auto&& tupleOfPairs) {
 };
 }
 
+
 #include <boost/hana/pair.hpp>
 #include <boost/hana/transform.hpp>
 
@@ -2073,6 +2244,8 @@ template <class RootState> constexpr auto make_unexpected_event_handler_tables(R
 }
 }
 
+
+
 #include <boost/hana/pair.hpp>
 #include <boost/hana/transform.hpp>
 
@@ -2139,6 +2312,13 @@ constexpr auto fill_unexpected_event_handler_tables(
 }
 }
 
+
+
+
+
+
+
+
 #include <boost/hana/pair.hpp>
 #include <boost/hana/transform.hpp>
 
@@ -2164,6 +2344,10 @@ template <class RootState> constexpr auto make_dispatch_tables(RootState rootSta
 }
 }
 
+
+
+
+
 #include <boost/hana/transform.hpp>
 #include <boost/hana/zip.hpp>
 
@@ -2187,6 +2371,9 @@ template <class State> constexpr auto make_states_map(State&& parentState)
 }
 }
 
+
+
+
 #include <boost/hana/filter.hpp>
 #include <boost/hana/not_equal.hpp>
 #include <boost/hana/size.hpp>
@@ -2221,8 +2408,9 @@ template <class State> constexpr auto has_history(State rootState)
 #include <boost/hana/type.hpp>
 #include <boost/hana/unpack.hpp>
 
+#include <algorithm>
+#include <list>
 #include <stdexcept>
-#include <queue>
 #include <variant>
 
 namespace hsm {
@@ -2232,7 +2420,7 @@ template <class EventsTuple> auto constexpr make_variant_queue(EventsTuple event
 {
     using Variant_t =
         typename decltype(boost::hana::unpack(events, boost::hana::template_<std::variant>))::type;
-    return std::queue<Variant_t> {};
+    return std::list<Variant_t> {};
 }
 }
 
@@ -2256,12 +2444,12 @@ public:
 
     template <class T> void push(const T& e)
     {
-        m_queue.push(e);
+        m_queue.push_back(e);
     }
 
     template <class T> void push(T&& e)
     {
-        m_queue.push(e);
+        m_queue.push_back(e);
     }
 
     template <class Callable>
@@ -2270,13 +2458,33 @@ public:
             throw std::runtime_error("variant_queue is empty");
         }
 
-        auto frontElement = m_queue.front();
-        m_queue.pop();
+        visit_first([](auto&&){ return true; }, callable);
+    }
+
+    /**
+     * Takes the oldest element which satisfies the predicate out of the queue and visits it.
+     * The other elements keep their order.
+     *
+     * Returns: false if there is no such element
+     */
+    template <class Predicate, class Callable>
+    auto visit_first(const Predicate& predicate, const Callable& callable) -> bool {
+        const auto element = std::find_if(m_queue.begin(), m_queue.end(), [&predicate](auto& e){
+            return std::visit(predicate, e);
+        });
+
+        if(element == m_queue.end()){
+            return false;
+        }
+
+        Queue_t taken;
+        taken.splice(taken.begin(), m_queue, element);
 
         std::visit([&callable](auto&& arg){
             callable(arg);    
-        }, frontElement);
-        
+        }, taken.front());
+
+        return true;
     }
 };
 }
@@ -2305,7 +2513,7 @@ template <class RootState, class... OptionalParameters> class sm {
     using StatesMap = decltype(make_states_map(rootState));
     using DispatchTables = decltype(make_dispatch_tables(rootState));
     using UnexpectedEventHandlerTables = decltype(make_unexpected_event_handler_tables(rootState));
-    std::array<StateIdx, maxInitialStates(rootState)> m_currentCombinedState;
+    std::array<StateIdx, maxInitialStates(rootState)> m_currentCombinedState {};
     std::array<std::vector<std::size_t>, nParentStates(rootState)> m_initial_states;
     std::array<std::vector<std::size_t>, nParentStates(rootState)> m_history;
     variant_queue<Events> m_defer_queue;
@@ -2313,6 +2521,7 @@ template <class RootState, class... OptionalParameters> class sm {
     StatesMap m_statesMap;
     DispatchTables m_dispatchTables;
     UnexpectedEventHandlerTables m_unexpectedEventHandlerTables;
+    bh::basic_tuple<dependency_ref<OptionalParameters>...> m_dependencies;
 
   public:
     sm(OptionalParameters&... optionalParameters)
@@ -2320,6 +2529,7 @@ template <class RootState, class... OptionalParameters> class sm {
         , m_history()
         , m_defer_queue(collect_event_typeids_recursive(rootState))
         , m_statesMap(make_states_map(rootState))
+        , m_dependencies(dependency_ref<OptionalParameters>(optionalParameters)...)
     {
         static_assert(
             has_transition_table(rootState), "Root state has no make_transition_table method");
@@ -2329,8 +2539,14 @@ template <class RootState, class... OptionalParameters> class sm {
         static_assert(
             maxInitialStates(rootState),
             "Transition table needs to have at least one initial state");
-
-        auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
+        static_assert(
+            bh::not_(at_least_one_initial_state_has_transition_table(rootState)),
+            "At least one initial state of the state machine has sub states/transition tables. "
+            "This is not allowed.");
+        static_assert(
+            bh::not_(at_least_one_initial_state_has_internal_transition_table(rootState)),
+            "At least one initial state of the state machine has internal transition tables. This "
+            "is not allowed.");
 
         if constexpr (has_unexpected_event_handler(rootState)) {
             fill_unexpected_event_handler_tables(
@@ -2338,17 +2554,17 @@ template <class RootState, class... OptionalParameters> class sm {
                 m_statesMap,
                 m_unexpectedEventHandlerTables,
                 get_unexpected_event_handler(rootState),
-                optionalDependency);
+                m_dependencies);
         }
 
-        fill_dispatch_table(optionalDependency);
+        fill_dispatch_table(m_dependencies);
         fill_initial_state_table(rootState, m_initial_states);
-        fill_initial_state_table(rootState, m_history);
+        init_history();
         init_current_state();
         update_current_regions();
     }
 
-    template <class Event> auto process_event(Event&& event)
+    template <class Event> auto process_event(Event&& event) -> bool
     {
         static_assert(
             bh::contains(
@@ -2356,12 +2572,17 @@ template <class RootState, class... OptionalParameters> class sm {
                 bh::type_c<typename std::remove_reference<Event>::type>),
             "Processed event was not found in the transition table");
 
-        if (!process_event_internal(event)) {
+        switch (process_event_internal(event)) {
+        case ProcessEventResult::AllTransitionsInvalid:
             call_unexpected_event_handler(event);
-            return;
+            [[fallthrough]];
+        case ProcessEventResult::EventDefered:
+        case ProcessEventResult::AllGuardsFailed:
+            return false;
+        case ProcessEventResult::EventProcessed:
+            process_deferred_events();
         }
-
-        process_deferred_events();
+        return true;
     }
 
     template <class State> auto is(State state) -> bool
@@ -2378,7 +2599,7 @@ template <class RootState, class... OptionalParameters> class sm {
     template <class ParentState, class State>
     auto is(Region region, ParentState parentState, State state) -> bool
     {
-        return currentParentState() == getParentStateIdx(rootState, parentState)
+        return currentParentState(region) == getParentStateIdx(rootState, parentState)
             && currentState(region) == getStateIdx(rootState, state);
     }
 
@@ -2387,14 +2608,39 @@ template <class RootState, class... OptionalParameters> class sm {
         return currentParentState() == getParentStateIdx(rootState, parentState);
     }
 
+    template <class State> auto set(State state) -> void
+    {
+        set(0, rootState, state);
+    }
+
+    template <class ParentState, class State> auto set(ParentState parentState, State state) -> void
+    {
+        set(0, parentState, state);
+    }
+
+    template <class ParentState, class State>
+    auto set(Region region, ParentState parentState, State state) -> void
+    {
+        static_assert(
+            bh::contains(collect_state_typeids_recursive(rootState), bh::typeid_(state)),
+            "State does not exist in transition table");
+        static_assert(
+            bh::contains(collect_parent_state_typeids(rootState), bh::typeid_(parentState)),
+            "Parent state does not exist in transition table");
+
+        m_currentCombinedState.at(region)
+            = getCombinedStateIdx(getCombinedStateTypeids(rootState), parentState, state);
+        update_current_regions();
+    }
+
     auto status() -> std::string
     {
         std::stringstream statusStream;
         const auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
-            statusStream << "[" << region << "] "
+            statusStream << "[" << static_cast<unsigned>(region) << "] "
                          << "combined: " << m_currentCombinedState[region] << " "
-                         << "parent: " << currentParentState() << " "
+                         << "parent: " << currentParentState(region) << " "
                          << "state: " << currentState(region);
         }
         return statusStream.str();
@@ -2402,16 +2648,29 @@ template <class RootState, class... OptionalParameters> class sm {
 
     auto set_dependency(OptionalParameters&... optionalParameters)
     {
-        auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
-        fill_dispatch_table(optionalDependency);
+        bh::unpack(m_dependencies, [&](auto&... dependencies) {
+            (dependencies.rebind(optionalParameters), ...);
+        });
     }
 
   private:
-    template <class Event> auto process_event_internal(Event&& event) -> bool
+    enum class ProcessEventResult {
+        AllTransitionsInvalid,
+        AllGuardsFailed,
+        EventProcessed,
+        EventDefered
+    };
+
+    template <class Event> auto process_event_internal(Event&& event) -> ProcessEventResult
     {
         bool allGuardsFailed = true;
         bool allTransitionsInvalid = true;
 
+        if (is_deferred(event)) {
+            m_defer_queue.push(event);
+            return ProcessEventResult::EventDefered;
+        }
+
         const auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
 
@@ -2425,8 +2684,9 @@ template <class RootState, class... OptionalParameters> class sm {
             for (auto& result : results) {
 
                 if (result.defer) {
-                    m_defer_queue.push(event);
-                    return true;
+                    // A callback of a former region moved this region to a defering state
+                    allTransitionsInvalid = false;
+                    break;
                 }
 
                 if (!result.transition->executeGuard(event)) {
@@ -2444,27 +2704,48 @@ template <class RootState, class... OptionalParameters> class sm {
         }
 
         if (allTransitionsInvalid) {
-            return false;
+            return ProcessEventResult::AllTransitionsInvalid;
         }
 
         if (allGuardsFailed) {
-            return true;
+            return ProcessEventResult::AllGuardsFailed;
         }
 
-        process_anonymous_transitions();
-        return true;
+        process_anonymous_transitions(noneEvent {});
+        return ProcessEventResult::EventProcessed;
     }
 
     auto process_deferred_events()
     {
         if constexpr (hasDeferedEvents(rootState)) {
-            if (!m_defer_queue.empty()) {
-                m_defer_queue.visit([this](auto event) { this->process_event_internal(event); });
+            const auto isRecalled = [this](auto& event) { return !this->is_deferred(event); };
+            const auto process = [this](auto& event) { this->process_event_internal(event); };
+
+            while (m_defer_queue.visit_first(isRecalled, process)) {
+            }
+        }
+    }
+
+    /**
+     * An event is defered as a whole as long as one of the active states defers it
+     */
+    template <class Event> auto is_deferred(Event& event) -> bool
+    {
+        (void)event;
+        if constexpr (hasDeferedEvents(rootState)) {
+            const auto currentRegions = current_regions();
+            for (Region region = 0; region < currentRegions; region++) {
+                for (const auto& result : get_dispatch_table_entry(event, region)) {
+                    if (result.defer) {
+                        return true;
+                    }
+                }
             }
         }
+        return false;
     }
 
-    auto process_anonymous_transitions()
+    template <class Event> auto process_anonymous_transitions(Event&& event)
     {
         if constexpr (has_anonymous_transition(rootState)) {
             while (true) {
@@ -2472,8 +2753,6 @@ template <class RootState, class... OptionalParameters> class sm {
 
                 const auto currentRegions = current_regions();
                 for (Region region = 0; region < currentRegions; region++) {
-
-                    auto event = noneEvent {};
                     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
                     auto& results = get_dispatch_table_entry(event, region);
 
@@ -2515,7 +2794,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         if constexpr (has_history(rootState)) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_history[currentParentState()][region] = m_currentCombinedState[region];
+            m_history[currentParentState(region)][region] = m_currentCombinedState[region];
 
             if (dispatchTableEntry.history) {
                 auto parent
@@ -2568,9 +2847,22 @@ template <class RootState, class... OptionalParameters> class sm {
         return calcStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
-    auto currentParentState()
+    auto currentParentState(Region region = 0)
     {
-        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[0]);
+        return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
+    }
+
+    void init_history()
+    {
+        fill_initial_state_table(rootState, m_history);
+
+        // A parent state can be entered by each region, not only by as many
+        // regions as the parent state has initial states.
+        for (auto& history : m_history) {
+            if (!history.empty()) {
+                history.resize(m_currentCombinedState.size(), history.front());
+            }
+        }
     }
 
     void init_current_state()
@@ -2602,6 +2894,10 @@ template <class RootState, class... OptionalParameters> class sm {
 };
 }
 
+
+
+
+
 namespace hsm {
 
 template <class Type> struct StateBase {
@@ -2744,6 +3040,11 @@ constexpr auto transition_table = bh::make_basic_tuple;
 template <class... Events> constexpr auto events = bh::tuple_t<Events...>;
 }
 
+
+
+
+
+
 #include <boost/hana/bool.hpp>
 #include <boost/hana/tuple.hpp>
 
@@ -2927,7 +3228,9 @@ template <class Source, class Guard> class TransitionSG {
 
 }
 
+
+
 namespace hsm {
 constexpr auto transition = details::transition;
 constexpr auto internal_transition = details::internal_transition;
-}
\ No newline at end of file
+}
-- 
2.43.0


From 79c3583450e0c0a887516eda2dc853e124a87405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:43 +0000
Subject: [PATCH 09/15] fix: internal transitions of a sub state machine that
 is entered by pseudo states only

---
 .../flatten_internal_transition_table.h        | 18 +++++++++++++++++-
 include/hsm/gen/hsm.h                          | 18 +++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/flatten_internal_transition_table.h b/include/hsm/details/flatten_internal_transition_table.h
index 89e7b09..6bed7f2 100644
--- a/include/hsm/details/flatten_internal_transition_table.h
+++ b/include/hsm/details/flatten_internal_transition_table.h
@@ -131,6 +131,21 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
         isNotEmpty));
 };
 
+/**
+ * Replaces a pseudo state by the sub state machine it belongs to. A sub state machine
+ * does not need to be the target of a transition, it can be entered by pseudo states only.
+ *
+ * @param stateAndParentStatePair pair of parent state and state
+ */
+constexpr auto resolve_pseudo_state = [](auto stateAndParentStatePair) {
+    constexpr auto state = bh::second(stateAndParentStatePair);
+    if constexpr (is_entry_state(state) || is_direct_state(state) || is_history_state(state)) {
+        return bh::make_pair(bh::first(stateAndParentStatePair), get_parent_state(state));
+    } else {
+        return stateAndParentStatePair;
+    }
+};
+
 /**
  * Returns a tuple of extended internal transitions reachable from a given rootState
  *
@@ -141,7 +156,8 @@ template <class State> constexpr auto flatten_internal_transition_table(State ro
     return [](auto stateAndParentStatePairs) {
         return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
             bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
-    }(collect_state_parentstate_pairs_recursively(rootState));
+    }(remove_duplicates(bh::transform(
+               collect_state_parentstate_pairs_recursively(rootState), resolve_pseudo_state)));
 }
 
 } // namespace hsm
\ No newline at end of file
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 95e792a..70fdc20 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -1518,6 +1518,21 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
         isNotEmpty));
 };
 
+/**
+ * Replaces a pseudo state by the sub state machine it belongs to. A sub state machine
+ * does not need to be the target of a transition, it can be entered by pseudo states only.
+ *
+ * @param stateAndParentStatePair pair of parent state and state
+ */
+constexpr auto resolve_pseudo_state = [](auto stateAndParentStatePair) {
+    constexpr auto state = bh::second(stateAndParentStatePair);
+    if constexpr (is_entry_state(state) || is_direct_state(state) || is_history_state(state)) {
+        return bh::make_pair(bh::first(stateAndParentStatePair), get_parent_state(state));
+    } else {
+        return stateAndParentStatePair;
+    }
+};
+
 /**
  * Returns a tuple of extended internal transitions reachable from a given rootState
  *
@@ -1528,7 +1543,8 @@ template <class State> constexpr auto flatten_internal_transition_table(State ro
     return [](auto stateAndParentStatePairs) {
         return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
             bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
-    }(collect_state_parentstate_pairs_recursively(rootState));
+    }(remove_duplicates(bh::transform(
+               collect_state_parentstate_pairs_recursively(rootState), resolve_pseudo_state)));
 }
 
 } // namespace hsm
-- 
2.43.0


From 9914c2f13a83870c451bb1c009b80bd52e11ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:52 +0000
Subject: [PATCH 10/15] fix: states which are not the source of a transition
 defer their events, too

---
 include/hsm/details/fill_dispatch_table.h | 30 +++++++++++++++--------
 include/hsm/gen/hsm.h                     | 30 +++++++++++++++--------
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index 8e1db36..cf2d36f 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -229,30 +229,40 @@ constexpr auto fill_dispatch_table_with_transitions(
         });
 }
 
-constexpr auto getDeferingTransitions = [](auto rootState) {
-    constexpr auto transitionHasDeferedEvents
-        = [](auto transition) { return has_deferred_events(resolveExtentedInitialState(transition)); };
+constexpr auto extractParentAndResolvedStates = [](auto transition) {
+    return bh::make_basic_tuple(
+        bh::make_pair(resolveSrcParent(transition), resolveSrc(transition)),
+        bh::make_pair(resolveDstParent(transition), resolveDst(transition)));
+};
+
+/**
+ * Returns pairs of parent state and state of all states which defer events. A state
+ * does not need to be the source of a transition to defer events.
+ */
+constexpr auto getDeferingStates = [](auto rootState) {
+    constexpr auto hasDeferedEvents
+        = [](auto parentAndState) { return has_deferred_events(bh::second(parentAndState)); };
 
-    constexpr auto transitions = flatten_transition_table(rootState);
-    return bh::filter(transitions, transitionHasDeferedEvents);
+    constexpr auto parentsAndStates = remove_duplicates(bh::flatten(
+        bh::transform(flatten_transition_table(rootState), extractParentAndResolvedStates)));
+    return bh::filter(parentsAndStates, hasDeferedEvents);
 };
 
 constexpr auto hasDeferedEvents = [](auto rootState) {
-    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingTransitions(rootState)));
+    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingStates(rootState)));
 };
 
 template <class RootState, class DispatchTables, class OptionalDependency>
 constexpr auto fill_dispatch_table_with_deferred_events(
     RootState rootState, DispatchTables& dispatchTables, OptionalDependency /*optionalDependency*/)
 {
-    const auto transitions = getDeferingTransitions(rootState);
-    bh::for_each(transitions, [=, &dispatchTables](auto transition) {
-        const auto deferredEvents = get_defer_events(resolveExtentedInitialState(transition));
+    bh::for_each(getDeferingStates(rootState), [=, &dispatchTables](auto parentAndState) {
+        const auto deferredEvents = get_defer_events(bh::second(parentAndState));
         bh::for_each(deferredEvents, [=, &dispatchTables](auto event) {
             const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
             auto& dispatchTable = dispatchTables[event];
             const auto from = getCombinedStateIdx(
-                combinedStateTypeids, resolveSrcParent(transition), resolveSrc(transition));
+                combinedStateTypeids, bh::first(parentAndState), bh::second(parentAndState));
 
             dispatchTable[from].push_front({});
             dispatchTable[from].front().defer = true;
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 70fdc20..ad93db0 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -2113,30 +2113,40 @@ constexpr auto fill_dispatch_table_with_transitions(
         });
 }
 
-constexpr auto getDeferingTransitions = [](auto rootState) {
-    constexpr auto transitionHasDeferedEvents
-        = [](auto transition) { return has_deferred_events(resolveExtentedInitialState(transition)); };
+constexpr auto extractParentAndResolvedStates = [](auto transition) {
+    return bh::make_basic_tuple(
+        bh::make_pair(resolveSrcParent(transition), resolveSrc(transition)),
+        bh::make_pair(resolveDstParent(transition), resolveDst(transition)));
+};
+
+/**
+ * Returns pairs of parent state and state of all states which defer events. A state
+ * does not need to be the source of a transition to defer events.
+ */
+constexpr auto getDeferingStates = [](auto rootState) {
+    constexpr auto hasDeferedEvents
+        = [](auto parentAndState) { return has_deferred_events(bh::second(parentAndState)); };
 
-    constexpr auto transitions = flatten_transition_table(rootState);
-    return bh::filter(transitions, transitionHasDeferedEvents);
+    constexpr auto parentsAndStates = remove_duplicates(bh::flatten(
+        bh::transform(flatten_transition_table(rootState), extractParentAndResolvedStates)));
+    return bh::filter(parentsAndStates, hasDeferedEvents);
 };
 
 constexpr auto hasDeferedEvents = [](auto rootState) {
-    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingTransitions(rootState)));
+    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingStates(rootState)));
 };
 
 template <class RootState, class DispatchTables, class OptionalDependency>
 constexpr auto fill_dispatch_table_with_deferred_events(
     RootState rootState, DispatchTables& dispatchTables, OptionalDependency /*optionalDependency*/)
 {
-    const auto transitions = getDeferingTransitions(rootState);
-    bh::for_each(transitions, [=, &dispatchTables](auto transition) {
-        const auto deferredEvents = get_defer_events(resolveExtentedInitialState(transition));
+    bh::for_each(getDeferingStates(rootState), [=, &dispatchTables](auto parentAndState) {
+        const auto deferredEvents = get_defer_events(bh::second(parentAndState));
         bh::for_each(deferredEvents, [=, &dispatchTables](auto event) {
             const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
             auto& dispatchTable = dispatchTables[event];
             const auto from = getCombinedStateIdx(
-                combinedStateTypeids, resolveSrcParent(transition), resolveSrc(transition));
+                combinedStateTypeids, bh::first(parentAndState), bh::second(parentAndState));
 
             dispatchTable[from].push_front({});
             dispatchTable[from].front().defer = true;
-- 
2.43.0


From d0b1012c60e08b736ad4dc49cb2cf9591b30b314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:07 +0000
Subject: [PATCH 11/15] fix: regions of the root state stay active while the
 first region is in a sub state machine

---
 include/hsm/details/sm.h | 7 +++++--
 include/hsm/gen/hsm.h    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 7126ee4..92751c0 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -14,6 +14,7 @@
 #include <boost/hana/contains.hpp>
 #include <boost/hana/type.hpp>
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <iostream>
@@ -339,8 +340,10 @@ template <class RootState, class... OptionalParameters> class sm {
     void update_current_regions()
     {
         if constexpr (hasParallelRegions(rootState)) {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentRegions = m_initial_states[currentParentState()].size();
+            // The regions of the root state stay active while the first region is in a sub machine
+            m_currentRegions = std::max(
+                m_initial_states[getParentStateIdx(rootState, rootState)].size(),
+                m_initial_states[currentParentState()].size());
         }
     }
 
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index ad93db0..7045935 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -2519,6 +2519,7 @@ public:
 #include <boost/hana/contains.hpp>
 #include <boost/hana/type.hpp>
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <iostream>
@@ -2844,8 +2845,10 @@ template <class RootState, class... OptionalParameters> class sm {
     void update_current_regions()
     {
         if constexpr (hasParallelRegions(rootState)) {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentRegions = m_initial_states[currentParentState()].size();
+            // The regions of the root state stay active while the first region is in a sub machine
+            m_currentRegions = std::max(
+                m_initial_states[getParentStateIdx(rootState, rootState)].size(),
+                m_initial_states[currentParentState()].size());
         }
     }
 
-- 
2.43.0


From 9d12b16d7bb0a8150e801f0e6950293736c2c0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:47 +0000
Subject: [PATCH 12/15] fix: actions and guards with captures compile in rows
 without an on_exit, too

---
 include/hsm/details/has_action.h    | 14 +++++++-------
 include/hsm/details/resolve_state.h |  4 ++--
 include/hsm/gen/hsm.h               | 18 +++++++++---------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/hsm/details/has_action.h b/include/hsm/details/has_action.h
index 5370809..c7ed1d2 100644
--- a/include/hsm/details/has_action.h
+++ b/include/hsm/details/has_action.h
@@ -24,14 +24,14 @@ constexpr auto has_substate_initial_state_entry_action = [](auto target) {
 };
 
 /**
- * The state which is left by a transition: an initial state is unwrapped, every
- * other source is returned as it is.
+ * The state which is left by a transition with the given source: an initial state is
+ * unwrapped, every other source is returned as it is.
  */
-constexpr auto resolve_left_state = [](auto transition) {
-    if constexpr (is_initial_state(transition.source())) {
-        return get_state(transition.source());
+constexpr auto resolve_left_state = [](auto source) {
+    if constexpr (is_initial_state(source)) {
+        return get_state(source);
     } else {
-        return transition.source();
+        return source;
     }
 };
 
@@ -45,7 +45,7 @@ constexpr auto has_action = [](auto transition) {
         bh::not_(is_no_action(transition.action())),
         has_entry_action(transition.target()),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(resolve_left_state(transition)),
+        has_exit_action(resolve_left_state(transition.source())),
         has_pseudo_exit_action(transition));
 };
 }
\ No newline at end of file
diff --git a/include/hsm/details/resolve_state.h b/include/hsm/details/resolve_state.h
index 0b72acb..db7b232 100644
--- a/include/hsm/details/resolve_state.h
+++ b/include/hsm/details/resolve_state.h
@@ -115,8 +115,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(resolve_left_state(transition))) {
-        return get_exit_action(resolve_left_state(transition));
+    } else if constexpr (has_exit_action(resolve_left_state(transition.source()))) {
+        return get_exit_action(resolve_left_state(transition.source()));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 7045935..67bf4ed 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -1008,14 +1008,14 @@ constexpr auto has_substate_initial_state_entry_action = [](auto target) {
 };
 
 /**
- * The state which is left by a transition: an initial state is unwrapped, every
- * other source is returned as it is.
+ * The state which is left by a transition with the given source: an initial state is
+ * unwrapped, every other source is returned as it is.
  */
-constexpr auto resolve_left_state = [](auto transition) {
-    if constexpr (is_initial_state(transition.source())) {
-        return get_state(transition.source());
+constexpr auto resolve_left_state = [](auto source) {
+    if constexpr (is_initial_state(source)) {
+        return get_state(source);
     } else {
-        return transition.source();
+        return source;
     }
 };
 
@@ -1029,7 +1029,7 @@ constexpr auto has_action = [](auto transition) {
         bh::not_(is_no_action(transition.action())),
         has_entry_action(transition.target()),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(resolve_left_state(transition)),
+        has_exit_action(resolve_left_state(transition.source())),
         has_pseudo_exit_action(transition));
 };
 }
@@ -1147,8 +1147,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(resolve_left_state(transition))) {
-        return get_exit_action(resolve_left_state(transition));
+    } else if constexpr (has_exit_action(resolve_left_state(transition.source()))) {
+        return get_exit_action(resolve_left_state(transition.source()));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
-- 
2.43.0


From b08df0e69405674bf0967ebfbaa188adce4493d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:55 +0000
Subject: [PATCH 13/15] fix: internal transitions whose guards and actions are
 of the same type but differ in their captures are all kept

---
 .../flatten_internal_transition_table.h       | 36 +++++++++++++++++--
 include/hsm/gen/hsm.h                         | 36 +++++++++++++++++--
 2 files changed, 68 insertions(+), 4 deletions(-)

diff --git a/include/hsm/details/flatten_internal_transition_table.h b/include/hsm/details/flatten_internal_transition_table.h
index 6bed7f2..0076c73 100644
--- a/include/hsm/details/flatten_internal_transition_table.h
+++ b/include/hsm/details/flatten_internal_transition_table.h
@@ -9,11 +9,15 @@
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/equal.hpp>
 #include <boost/hana/filter.hpp>
+#include <boost/hana/fold_left.hpp>
 #include <boost/hana/functional/capture.hpp>
 #include <boost/hana/not.hpp>
 #include <boost/hana/prepend.hpp>
 #include <boost/hana/size.hpp>
 #include <boost/hana/transform.hpp>
+#include <boost/mp11/algorithm.hpp>
+
+#include <type_traits>
 
 namespace hsm {
 
@@ -146,6 +150,31 @@ constexpr auto resolve_pseudo_state = [](auto stateAndParentStatePair) {
     }
 };
 
+/**
+ * Objects of the same type are interchangeable unless they have a state of their own,
+ * like lambdas with captures or pointers to functions have.
+ */
+template <class T>
+inline constexpr bool isInterchangeable = !(std::is_class_v<T> && !std::is_empty_v<T>)
+    && !std::is_function_v<std::remove_pointer_t<T>> && !std::is_member_pointer_v<T>;
+
+/**
+ * Appends a transition unless an interchangeable transition is already present
+ */
+constexpr auto append_unique_transition = [](auto transitions, auto transition) {
+    using Guard = decltype(transition.guard());
+    using Action = decltype(transition.action());
+    using Transitions = decltype(transitions);
+
+    if constexpr (
+        isInterchangeable<Guard> && isInterchangeable<Action>
+        && boost::mp11::mp_contains<Transitions, decltype(transition)>::value) {
+        return transitions;
+    } else {
+        return bh::append(transitions, transition);
+    }
+};
+
 /**
  * Returns a tuple of extended internal transitions reachable from a given rootState
  *
@@ -154,8 +183,11 @@ constexpr auto resolve_pseudo_state = [](auto stateAndParentStatePair) {
 template <class State> constexpr auto flatten_internal_transition_table(State rootState)
 {
     return [](auto stateAndParentStatePairs) {
-        return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
-            bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
+        return bh::fold_left(
+            bh::to<bh::basic_tuple_tag>(
+                bh::flatten(get_internal_transitions(stateAndParentStatePairs))),
+            bh::make_basic_tuple(),
+            append_unique_transition);
     }(remove_duplicates(bh::transform(
                collect_state_parentstate_pairs_recursively(rootState), resolve_pseudo_state)));
 }
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 67bf4ed..ce7db7b 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -1396,11 +1396,15 @@ template <class State> constexpr auto collect_state_parentstate_pairs_recursivel
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/equal.hpp>
 #include <boost/hana/filter.hpp>
+#include <boost/hana/fold_left.hpp>
 #include <boost/hana/functional/capture.hpp>
 #include <boost/hana/not.hpp>
 #include <boost/hana/prepend.hpp>
 #include <boost/hana/size.hpp>
 #include <boost/hana/transform.hpp>
+#include <boost/mp11/algorithm.hpp>
+
+#include <type_traits>
 
 namespace hsm {
 
@@ -1533,6 +1537,31 @@ constexpr auto resolve_pseudo_state = [](auto stateAndParentStatePair) {
     }
 };
 
+/**
+ * Objects of the same type are interchangeable unless they have a state of their own,
+ * like lambdas with captures or pointers to functions have.
+ */
+template <class T>
+inline constexpr bool isInterchangeable = !(std::is_class_v<T> && !std::is_empty_v<T>)
+    && !std::is_function_v<std::remove_pointer_t<T>> && !std::is_member_pointer_v<T>;
+
+/**
+ * Appends a transition unless an interchangeable transition is already present
+ */
+constexpr auto append_unique_transition = [](auto transitions, auto transition) {
+    using Guard = decltype(transition.guard());
+    using Action = decltype(transition.action());
+    using Transitions = decltype(transitions);
+
+    if constexpr (
+        isInterchangeable<Guard> && isInterchangeable<Action>
+        && boost::mp11::mp_contains<Transitions, decltype(transition)>::value) {
+        return transitions;
+    } else {
+        return bh::append(transitions, transition);
+    }
+};
+
 /**
  * Returns a tuple of extended internal transitions reachable from a given rootState
  *
@@ -1541,8 +1570,11 @@ constexpr auto resolve_pseudo_state = [](auto stateAndParentStatePair) {
 template <class State> constexpr auto flatten_internal_transition_table(State rootState)
 {
     return [](auto stateAndParentStatePairs) {
-        return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
-            bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
+        return bh::fold_left(
+            bh::to<bh::basic_tuple_tag>(
+                bh::flatten(get_internal_transitions(stateAndParentStatePairs))),
+            bh::make_basic_tuple(),
+            append_unique_transition);
     }(remove_duplicates(bh::transform(
                collect_state_parentstate_pairs_recursively(rootState), resolve_pseudo_state)));
 }
-- 
2.43.0


From b4a39b8cb45e29a85d8c0fe7e25a99eac388096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:34 +0000
Subject: [PATCH 14/15] fix: hand guards of create_state rows the target as its
 action gets it

The guard of a transition which creates its target was called with a
reference obtained from a null pointer as long as the target did not exist.
---
 include/hsm/details/create_state.h   |  8 ++++++++
 include/hsm/details/dispatch_table.h | 21 +++++++++++++++++++++
 include/hsm/gen/hsm.h                | 28 ++++++++++++++++++++++++++++
 3 files changed, 57 insertions(+)

diff --git a/include/hsm/details/create_state.h b/include/hsm/details/create_state.h
index 308d6f6..29c95d4 100644
--- a/include/hsm/details/create_state.h
+++ b/include/hsm/details/create_state.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <type_traits>
+
 namespace hsm {
 
 template <class StateFactory> class CreateState {
@@ -19,6 +21,12 @@ template <class StateFactory> class CreateState {
     StateFactory m_stateFactory;
 };
 
+template <class Action> struct is_create_state : std::false_type {
+};
+
+template <class StateFactory> struct is_create_state<CreateState<StateFactory>> : std::true_type {
+};
+
 template <class StateFactory> constexpr auto create_state(StateFactory stateFactory)
 {
     return CreateState<StateFactory> { stateFactory };
diff --git a/include/hsm/details/dispatch_table.h b/include/hsm/details/dispatch_table.h
index 9c445dc..e0fd69c 100644
--- a/include/hsm/details/dispatch_table.h
+++ b/include/hsm/details/dispatch_table.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "hsm/details/create_state.h"
 #include "hsm/details/idx.h"
 #include "hsm/details/utils/dunique_ptr.h"
 
@@ -8,6 +9,7 @@
 #include <array>
 #include <functional>
 #include <memory>
+#include <type_traits>
 
 namespace hsm {
 
@@ -59,6 +61,7 @@ template <class Event> struct IDispatchTableEntry {
 
 template <
     bool Internal,
+    bool CreatesTarget,
     class Action,
     class Guard,
     class SourcePtr,
@@ -130,6 +133,23 @@ class DispatchTableEntry final : public IDispatchTableEntry<Event> {
                         {
                             return guard(event, **source, **source, get(optionalDependency)...);
                         }
+                        else if constexpr (CreatesTarget)
+                        {
+                            // There might be no target yet, the action of this transition creates it
+                            if constexpr (std::is_invocable_v<
+                                              Guard&,
+                                              Event&,
+                                              decltype(**source),
+                                              const TargetPtr&,
+                                              decltype(get(optionalDependency))...>)
+                            {
+                                return guard(event, **source, target, get(optionalDependency)...);
+                            }
+                            else
+                            {
+                                return guard(event, **source, **target, get(optionalDependency)...);
+                            }
+                        }
                         else
                         {
                             return guard(event, **source, **target, get(optionalDependency)...);
@@ -174,6 +194,7 @@ constexpr auto make_transition(
     return hsm::details::utils::dunique_ptr<IDispatchTableEntry<Event>>(
         new DispatchTableEntry<
             transition.internal(),
+            is_create_state<decltype(transition.action())>::value,
             Action,
             Guard,
             Source,
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index ce7db7b..ead44fc 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -21,6 +21,8 @@ constexpr auto chain_actions = [](auto... actions) {
 constexpr auto chain = chain_actions;
 }
 
+#include <type_traits>
+
 namespace hsm {
 
 template <class StateFactory> class CreateState {
@@ -40,6 +42,12 @@ template <class StateFactory> class CreateState {
     StateFactory m_stateFactory;
 };
 
+template <class Action> struct is_create_state : std::false_type {
+};
+
+template <class StateFactory> struct is_create_state<CreateState<StateFactory>> : std::true_type {
+};
+
 template <class StateFactory> constexpr auto create_state(StateFactory stateFactory)
 {
     return CreateState<StateFactory> { stateFactory };
@@ -1736,6 +1744,7 @@ template <typename T, typename D> void swap(dunique_ptr<T, D>& lhs, dunique_ptr<
 #include <array>
 #include <functional>
 #include <memory>
+#include <type_traits>
 
 namespace hsm {
 
@@ -1787,6 +1796,7 @@ template <class Event> struct IDispatchTableEntry {
 
 template <
     bool Internal,
+    bool CreatesTarget,
     class Action,
     class Guard,
     class SourcePtr,
@@ -1858,6 +1868,23 @@ class DispatchTableEntry final : public IDispatchTableEntry<Event> {
                         {
                             return guard(event, **source, **source, get(optionalDependency)...);
                         }
+                        else if constexpr (CreatesTarget)
+                        {
+                            // There might be no target yet, the action of this transition creates it
+                            if constexpr (std::is_invocable_v<
+                                              Guard&,
+                                              Event&,
+                                              decltype(**source),
+                                              const TargetPtr&,
+                                              decltype(get(optionalDependency))...>)
+                            {
+                                return guard(event, **source, target, get(optionalDependency)...);
+                            }
+                            else
+                            {
+                                return guard(event, **source, **target, get(optionalDependency)...);
+                            }
+                        }
                         else
                         {
                             return guard(event, **source, **target, get(optionalDependency)...);
@@ -1902,6 +1929,7 @@ constexpr auto make_transition(
     return hsm::details::utils::dunique_ptr<IDispatchTableEntry<Event>>(
         new DispatchTableEntry<
             transition.internal(),
+            is_create_state<decltype(transition.action())>::value,
             Action,
             Guard,
             Source,
-- 
2.43.0


From 54bc8e7bc0fe615eeab6ccc9f146346716e31f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:09 +0000
Subject: [PATCH 15/15] fix: a state that replaces itself stays alive until its
 transition is done

The entry action of a transition which creates its own source state anew was
called with a reference to the destroyed state.
---
 include/hsm/details/create_state.h  |  4 +++-
 include/hsm/details/resolve_state.h | 11 ++++++++++-
 include/hsm/gen/hsm.h               | 14 ++++++++++++--
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/hsm/details/create_state.h b/include/hsm/details/create_state.h
index 29c95d4..73adcef 100644
--- a/include/hsm/details/create_state.h
+++ b/include/hsm/details/create_state.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <type_traits>
+#include <utility>
 
 namespace hsm {
 
@@ -14,7 +15,8 @@ template <class StateFactory> class CreateState {
     template <class Event, class Source, class Target>
     constexpr auto operator()(Event event, Source source, Target target) const
     {
-        *target = m_stateFactory(event, source);
+        // The caller gets the replaced state, which might still be in use as source
+        return std::exchange(*target, m_stateFactory(event, source));
     }
 
   private:
diff --git a/include/hsm/details/resolve_state.h b/include/hsm/details/resolve_state.h
index db7b232..2c49c4b 100644
--- a/include/hsm/details/resolve_state.h
+++ b/include/hsm/details/resolve_state.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "hsm/details/create_state.h"
 #include "hsm/details/has_action.h"
 #include "hsm/details/traits.h"
 #include <boost/hana/functional/apply.hpp>
@@ -142,7 +143,15 @@ template <class Transition> constexpr auto resolveEntryExitAction(Transition tra
             entryAction(resolveEntryAction(transition)),
             initialStateEntryAction(resolveInitialStateEntryAction(transition))](auto&&... params) {
         exitAction(std::forward<decltype(params)>(params)...);
-        action(std::forward<decltype(params)>(params)...);
+        // A state which replaces itself is still the source of the entry action
+        [[maybe_unused]] const auto replacedState = [&]() {
+            if constexpr (is_create_state<std::decay_t<decltype(action)>>::value) {
+                return action(std::forward<decltype(params)>(params)...);
+            } else {
+                action(std::forward<decltype(params)>(params)...);
+                return nullptr;
+            }
+        }();
         entryAction(std::forward<decltype(params)>(params)...);
         initialStateEntryAction(std::forward<decltype(params)>(params)...);
     };
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index ead44fc..1f6c993 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -22,6 +22,7 @@ constexpr auto chain = chain_actions;
 }
 
 #include <type_traits>
+#include <utility>
 
 namespace hsm {
 
@@ -35,7 +36,8 @@ template <class StateFactory> class CreateState {
     template <class Event, class Source, class Target>
     constexpr auto operator()(Event event, Source source, Target target) const
     {
-        *target = m_stateFactory(event, source);
+        // The caller gets the replaced state, which might still be in use as source
+        return std::exchange(*target, m_stateFactory(event, source));
     }
 
   private:
@@ -1182,7 +1184,15 @@ template <class Transition> constexpr auto resolveEntryExitAction(Transition tra
             entryAction(resolveEntryAction(transition)),
             initialStateEntryAction(resolveInitialStateEntryAction(transition))](auto&&... params) {
         exitAction(std::forward<decltype(params)>(params)...);
-        action(std::forward<decltype(params)>(params)...);
+        // A state which replaces itself is still the source of the entry action
+        [[maybe_unused]] const auto replacedState = [&]() {
+            if constexpr (is_create_state<std::decay_t<decltype(action)>>::value) {
+                return action(std::forward<decltype(params)>(params)...);
+            } else {
+                action(std::forward<decltype(params)>(params)...);
+                return nullptr;
+            }
+        }();
         entryAction(std::forward<decltype(params)>(params)...);
         initialStateEntryAction(std::forward<decltype(params)>(params)...);
     };
-- 
2.43.0

