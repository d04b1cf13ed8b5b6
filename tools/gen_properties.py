import json
P="src/diwire/_internal/"
COMP=P+"resolvers/assembly/compiler.py"; PLAN=P+"resolvers/assembly/planner.py"; CONT=P+"container.py"; PROV=P+"providers.py"
OG=P+"open_generics.py"; RC=P+"resolver_context.py"; MK=P+"markers.py"; INJ=P+"injection.py"; AR=P+"autoregistration.py"; SC=P+"scope.py"
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None,
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])]))
L=[
p("C01","Every parameter receives the value its annotation denotes",
 "Resolving a registered key runs the provider registered for that key and passes every parameter the value its annotation (or explicit dependency mapping) denotes, by position, keyword or star as the signature demands, with declared defaults and optional parameters honoured. This holds for every provider form (instance, class, dataclass, factory, generator, context manager, sync or async), at any depth, on first and on repeated resolution, synchronously and asynchronously. No provider outside the requested graph runs, and each constructed value reaches only the parameters that asked for it.",
 ["inputs","programs","configurations"],"all acyclic registration graphs over all provider forms, parameter kinds, dependency markers, lifetimes, scopes and container configurations, and every resolvable request on them",
 "Tests wire a few dozen hand-written graphs; the resolver is generated per graph with many specialised code paths (inlined constructors, cached-value shortcuts, delegated scopes, positional and keyword forms), so a wrong path needs a particular combination of kinds, scopes and lifetimes.",
 [COMP,PLAN,PROV],[("dependency extraction from signatures",PROV),("dependency planning and argument formatting",PLAN),("generated slot methods and argument building",COMP)],
 ["arguments seen by provider bodies","value returned by resolve/aresolve"]),
p("C02","Scoped values are unique per scope, transients always fresh",
 "A scoped registration yields exactly one object per open scope of its registered level, shared by every resolution made in that scope and in scopes nested inside it, and never shared with a sibling, a later or an outer scope. A transient registration yields a new object for every use, and a registered instance is always that same object. This holds across any order and nesting of opening, resolving in, closing and reopening scopes.",
 ["histories","configurations"],"all sequences of scope entry, resolution, exit and re-entry, including several simultaneously open scopes of one level, over all registration graphs",
 "Tests open one or two scopes; scope objects are pooled, shared or freshly built depending on whole-graph facts (any cleanup, any scoped provider, context passed), so identity leaks need particular histories on particular graphs.",
 [COMP,PLAN,OG],[("per-scope cache slots and pooled scope resolvers",COMP),("cache owner selection",PLAN)],["identity of resolved objects","provider invocations"],
 [("scope caches","one cached value per scoped registration and open scope",COMP),("pooled scope resolvers","reused scope objects guarded by an in-use flag",COMP)]),
p("C03","Values never outrank their scope; scope transitions are exact",
 "A value registered for some scope level can be obtained only while a scope of that level is open in the resolver's own chain; otherwise resolution raises the scope-mismatch error, and no value cached in a shallower scope ever holds a value owned by a deeper one. Entering a scope reaches exactly the requested level, or the next non-skippable level by default, opening the intermediate levels it needs, and a request for a shallower or unknown level is rejected with that error. Failed requests leave all open scopes usable and unchanged.",
 ["inputs","histories","configurations"],"all graphs mixing lifetimes and scope levels, all scope trees and all transition sequences",
 "Each test checks one mismatch; the decision is spread over planning, generated delegation code and the generic fallback, per pair of (owner level, current level, skipped levels).",
 [COMP,PLAN,SC,OG],[("scope delegation and mismatch",COMP),("transition planning",COMP),("max required scope level",PLAN)],["exceptions from resolve and enter_scope","captured dependencies of cached objects"]),
p("C04","Every acquired resource is released once, in reverse order",
 "Each resource obtained from a generator or context-manager provider stays usable until the scope that owns it exits, and is released exactly once when that scope exits, in reverse order of acquisition so that dependents are released before what they depend on. Scopes opened implicitly as intermediate levels are released with the scope that opened them, and closing the container releases root-owned resources. Nothing is released early, twice, by another scope's exit, or never.",
 ["histories","configurations"],"all graphs with sync and async resources and all histories of scope entry, resolution and exit, through with blocks, close and aclose",
 "Tests release a handful of resources; leaks and misordering depend on the mix of owners, lifetimes, implicit scopes and sync or async exits.",
 [COMP,OG,CONT],[("cleanup callback stacks and exit",COMP),("owned intermediate scopes",COMP),("open generic cleanup",OG)],["release events of providers against scope exits"],
 [("cleanup callbacks","release actions pending on an open scope",COMP)]),
p("C05","Scope exit survives failures without losing cleanup or errors",
 "When cleanup actions fail or the scope body raises or is cancelled, every remaining cleanup of the scope, of its implicit parent scopes and of the root still runs exactly once and sees the body's exception if there was one. A body exception always propagates unchanged and is never suppressed or replaced; with no body exception the first cleanup error is raised after all cleanups ran. Leaving a scope synchronously while it owns asynchronous resources reports the async-in-sync error yet still releases the synchronous ones.",
 ["fault_sequences","histories"],"all sets of failing cleanups (any exception class, sync or async), with and without a body exception or task cancellation, over all resource graphs",
 "Tests fail one cleanup at a time; the guarantee is about every subset and position of failures combined with body errors and owned scopes.",
 [COMP,OG,RC],[("exit loops and first-error rule",COMP),("open generic exit",OG),("binding removal on exit",RC)],["exceptions leaving the scope","cleanup events"]),
p("C06","A failed construction leaves no trace and can be retried",
 "If a provider raises, or resolution is cancelled, the caller receives that same exception, nothing is cached for the failed registration, and no lock stays held. Values completed before the failure keep their normal lifetime and their resources are still released with their scope, and a later resolution runs the failed provider again and can succeed. No half-built object is ever handed out.",
 ["fault_sequences","histories","schedules"],"all graphs and every choice of failing provider invocation (constructor, factory, before or during resource acquisition; sync or async), followed by any further history",
 "Tests make single providers fail; the property is over each failure position in each graph, with what was built before and what is asked after.",
 [COMP,OG],[("build then cache then return",COMP),("lock context managers",COMP)],["exceptions, provider invocations and identities after failures"]),
p("C07","Async and sync resolution agree; async never leaks into sync",
 "For a graph with no asynchronous provider, asynchronous and synchronous resolution are interchangeable: same wiring, same shared cached objects, same cleanup. If anything a request must run is asynchronous, asynchronous resolution succeeds with awaited values, and synchronous resolution raises the async-in-sync error instead of returning a coroutine or a partially built object, unless the needed value is already available. No coroutine is ever injected, leaked or left un-awaited.",
 ["inputs","programs","histories"],"all mixes of sync and async providers at any depth, all interleavings of sync and async requests in any scopes",
 "Tests cover a few mixed graphs; whether a provider needs async is a whole-graph fact and every sync path has a separately generated async twin.",
 [COMP,PLAN,OG],[("requires-async propagation",PLAN),("paired sync and async slot methods",COMP)],["results, exceptions and never-awaited warnings"]),
p("C08","Threads share one cached object and never see another's scope",
 "With registrations complete and thread locking in effect, any number of threads that resolve a scoped synchronous registration in the same open scope, including the very first resolution on a fresh container, all get the same object and its provider runs once. Threads that work in their own scopes never observe each other's scoped values, context values or resources, and every request returns a value of the requested registration. No schedule deadlocks, loses a cleanup or raises a spurious error.",
 ["schedules","configurations"],"all thread interleavings, at bytecode granularity, of scope entry, resolution, first compilation and scope exit on shared containers and scopes",
 "The few thread tests rely on natural timing and warm containers; races live in windows of a few bytecodes that CPython's scheduler rarely hits.",
 [COMP,CONT,OG,RC],[("per-registration thread locks with double-checked caches",COMP),("lazy compilation",CONT),("pooled scope resolvers and dispatch memo",COMP)],["identities and provider invocations per thread"],
 [("compiled root resolver","lazily created shared resolver",CONT),("dispatch memo","last dependency and method per resolver",COMP)]),
p("C09","Concurrent tasks share one cached object and stay isolated",
 "With async locking in effect, concurrent tasks that resolve a scoped asynchronous registration in the same scope get the same object and its provider completes once, whatever the suspension points; if the constructing task fails or is cancelled, another waiting task takes over and no waiter hangs. Tasks with their own scopes never share scoped values, context values, resources or the currently bound resolver. This also holds when one container serves several event loops one after another.",
 ["schedules","fault_sequences"],"all task interleavings at suspension points, with cancellation or failure of any task at any suspension point",
 "Tests gather a couple of tasks with fixed sleeps; cancellation at each await and reuse across loops are not explored.",
 [COMP,OG,RC,CONT],[("per-registration async locks with double-checked caches",COMP),("context variables for binding",RC)],["identities and provider invocations per task"]),
p("C10","Keys, components, collect-all and optional lookups are exact",
 "Two registration keys denote the same registration exactly when they have the same base type and the same component; other annotation metadata never matters. Collecting all implementations of a base type yields exactly one entry per current registration of that type, the plain one and every component, in registration order, and nothing else. An optional request yields the registered value when one is registered and otherwise none (or the parameter's default), never hiding a failure of a registered provider.",
 ["inputs","histories"],"all sets of keys built from types, components and metadata in any order and nesting, and all registration orders",
 "Tests list a few keys; normalisation happens separately at registration, planning, dispatch and injection, and each must agree for every annotation shape.",
 [MK,PROV,PLAN,COMP,CONT],[("annotation normalisation",MK),("dispatch by identity and equality",COMP),("collect-all slots",PLAN)],["identity of values per key"]),
p("C11","Context values come from the nearest enclosing scope",
 "A context-supplied parameter receives the value that the nearest enclosing open scope, starting at the scope in which the consumer is built, provides for its normalised key, so inner scopes shadow outer ones and siblings or closed scopes never contribute. A missing key raises the not-registered error (or yields none when optional). Context values never leak to other scopes, threads or later scope entries.",
 ["histories","inputs"],"all nestings of scopes with arbitrary context mappings, skipped and implicit levels, and all consumers",
 "Tests check single scopes; nearest-scope lookup must hold through implicit, skipped, pooled and reused scopes.",
 [COMP,CONT,OG],[("context chain lookup",COMP),("scope reuse when no context is given",COMP)],["context values seen by consumers"]),
p("C12","Lazy provider handles are bound to where they were injected",
 "An injected lazy provider handle constructs nothing until it is called; every call resolves its target with the target's normal lifetime as seen from the scope in which the handle's holder was built, no matter where, when or from which thread, task or bound scope it is called. Asynchronous handles return awaitables of the same values. Handles break construction cycles, and a handle to a deeper-scoped target is rejected up front.",
 ["histories","inputs","configurations"],"all graphs with sync and async handles, holders of every lifetime and scope, and all call sites and times while the owning scope is open",
 "Tests call a handle right where it was injected.",
 [PLAN,COMP,MK],[("handle planning and scope check",PLAN),("resolver-bound closures",COMP)],["provider invocations and identities per handle call"]),
p("C13","Injected functions get exactly their missing injected parameters",
 "Calling an injection-wrapped function passes every caller-supplied argument through unchanged, fills exactly the injection-marked parameters the caller did not supply from the current resolver, and returns or raises what the function does. When the function needs a deeper scope than is current, exactly one such scope is opened for that call and closed after it, with its resources released; when a deep enough scope is already open that one is used, from any depth. Supplied context values reach the opened scope, or the call fails if no scope is opened, and are never silently dropped.",
 ["inputs","histories","fault_sequences"],"all signatures mixing ordinary and injected parameters, all call shapes, sync and async functions, any currently open scope and any failure of body or provider",
 "Tests use few signatures and mostly call from the root or a request scope.",
 [INJ,RC,CONT],[("callable inspection and signature hiding",INJ),("scope inference and auto-open",CONT),("wrapper invocation",RC)],["arguments seen by function bodies, scope openings, release events"]),
p("C14","The bound resolver is the innermost entered one of this task",
 "Within a thread or task, context-based resolution, scope entry and injected calls use the innermost resolver entered and not yet exited there, and after it exits, normally or by any exception, the previously bound one again. Threads and independently started tasks never see each other's bindings, and a child task starts from its creator's binding. With nothing bound the fallback container is used, and an explicitly passed resolver always wins.",
 ["histories","schedules","fault_sequences"],"all nestings of entering and exiting resolvers of one or several containers across threads and tasks, with exceptions anywhere",
 "Tests nest one or two levels in one thread.",
 [RC,CONT],[("context variable push and pop",RC),("resolver precedence",RC)],["which scope serves each context-based request"]),
p("C15","Behaviour depends only on the final registrations",
 "After any sequence of registrations, re-registrations, compilations and resolutions, later resolutions use for each key exactly its latest registration, everywhere it is consumed. Explicit compilation, its timing, and resolutions made in between never change what is resolved, and strict and non-strict, context-bound and unbound configurations give the same wiring for the same registrations.",
 ["histories","configurations"],"all interleavings of registration, override, compile and resolve calls, under every container configuration",
 "Tests override one registration once; compiled resolvers, rebound entry points and caches can go stale in many other orders.",
 [CONT,PROV,P+"resolvers/manager.py"],[("compilation invalidation",CONT),("entry point rebinding in strict mode",CONT),("registration replacement",PROV)],["which provider serves each request"]),
p("C16","A rejected registration call changes nothing",
 "If a registration, decoration or injection-wrapping call raises a registration error, the container afterwards behaves exactly as before the call: every key resolves to the same providers with the same decorations, nothing new became resolvable, and later valid registrations work normally. A call that returns normally has taken effect.",
 ["histories","fault_sequences","inputs"],"all invalid arguments and all rejections caused by earlier wrapped functions' scope contracts, in any registration history",
 "Tests check that errors are raised, rarely what remains afterwards.",
 [CONT,PROV,P+"validators.py",OG],[("registration mutation snapshot and rollback",CONT),("argument validation",P+"validators.py")],["behaviour before and after failed calls"]),
p("C17","Decorators wrap the current provider in order, once each",
 "Resolving a decorated key yields the registered provider's value wrapped by every decorator registered for that key, the latest outermost, each applied exactly once per constructed value and keeping the base registration's lifetime and scope. The result does not depend on whether decorators were added before or after the base registration, and re-registering the base keeps all decorators around the new base. Only the decorated key is affected.",
 ["histories","inputs"],"all interleavings of decorate, register and re-register on plain, component, open and closed generic keys with all provider forms and lifetimes",
 "Tests stack two decorators in fixed orders.",
 [CONT],[("decoration rules and chains",CONT)],["layers of resolved values and provider invocations"]),
p("C18","Open generics resolve to the best match with exact arguments",
 "A closed generic request is served by its exact registration if there is one, otherwise by the most specific matching open registration (latest among equals) whose type-variable bounds and constraints the arguments satisfy; with matches only of invalid arguments the generic-argument error is raised. The chosen provider receives the matching concrete types and dependencies with those arguments substituted. Lifetimes, scopes and cleanup apply separately per closed key exactly as for ordinary registrations.",
 ["inputs","histories","programs"],"all sets of open and closed registrations over nested generic patterns, bounds and constraints, all closed requests and all scope histories",
 "Tests check single patterns; matching, specificity, substitution and a second hand-written resolver must agree on all shapes.",
 [OG,CONT],[("matching and specificity",OG),("open generic resolver",OG)],["provider chosen, type arguments and identities"]),
p("C19","Auto-wiring equals explicit registration, strict mode never guesses",
 "Where auto-registration is enabled, resolving an unregistered eligible class behaves as if it and its eligible dependencies had been registered explicitly with the container defaults; explicit registrations always take precedence and ineligible types (builtins, abstract classes, protocols and the like) are never auto-registered. Where it is disabled, an unregistered key always raises the not-registered error and resolving adds nothing. A request that fails does not change how other keys resolve afterwards.",
 ["inputs","configurations","histories"],"all class graphs, policies (container and per call) and request orders",
 "Tests cover individual eligible and ineligible types with one policy at a time.",
 [AR,CONT,P+"policies.py"],[("eligibility policy",AR),("resolve-time and registration-time auto-registration",CONT)],["results and errors per policy"]),
p("C20","Missing and circular dependencies fail cleanly before construction",
 "A request whose graph contains a missing dependency raises the not-registered error, and a circular dependency raises the invalid-provider error, without running any provider, recursing without bound or hanging. Completing the registrations (or breaking the cycle) makes the same request succeed.",
 ["inputs","programs","histories"],"all registration graphs with cycles of any length through any provider forms, markers and scopes, and any set of missing keys",
 "Tests use two- and three-node cycles.",
 [PLAN,COMP],[("cycle detection and missing dependency detection while planning",PLAN)],["exceptions and provider invocations"]),
p("C21","Injected pytest tests are isolated and resolved from their container",
 "With the pytest plugin, every test function's injected parameters are resolved from that test's container fixture while ordinary fixtures and parametrisation keep working, for sync and async, function and method tests. Containers are not shared between tests unless the fixture is overridden with a wider scope, and an error in resolving fails only that test.",
 ["inputs","configurations"],"all mixes of injected, fixture and parametrised arguments in generated test modules",
 "The existing plugin tests exercise a few fixed modules.",
 [P+"integrations/pytest_plugin.py",INJ],[("collection and call hooks",P+"integrations/pytest_plugin.py")],["outcomes and recorded identities of generated tests"]),
]
with open("/verif/properties.jsonl","w") as f:
    for x in L: f.write(json.dumps(x)+"\n")
