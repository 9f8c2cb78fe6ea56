import json
F=["salabim/salabim.py"]
P=[]
def p(id,title,statement,over,text,why,mech,state=()):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":F,"mechanism":[{"name":n,"where":f"salabim/salabim.py: {w}"} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append(d)

p("C01","Events happen in time, priority, urgency and scheduling order",
"Components become current strictly in order of scheduled time; at equal times in order of ascending priority; at equal time and priority urgent ones come first (the latest scheduled urgent one first) and the others in the order in which they were scheduled. While a component is current the clock equals the time it was scheduled for, and the clock never goes backwards.",
["schedules","programs"],"every program of activations, holds, (re)schedulings with any delays, priorities and urgent flags, including changes to the schedule made by the components themselves",
"The tests run a handful of fixed models; the guarantee is about every interleaving of (re)scheduling calls, and an ordering slip only shows for particular ties.",
[("event list push / removal","Component._push, Component._remove"),("event loop","Environment.step"),("scheduling calls","Component.activate, hold, _reschedule")])
p("C02","Every component is in exactly one consistent life cycle state",
"After every call each component has the status that the documented life cycle prescribes for the history of calls on it: exactly one component is current, a scheduled component has exactly one pending event at its scheduled time, passive, interrupted and data components have none, and a component that ended or was cancelled holds no claims, waits or requests. Calls that are not allowed in a status are refused with an error and change nothing.",
["histories","programs"],"every sequence of activate, hold, passivate, cancel, standby, interrupt, resume, request, wait and process ends, called on oneself or on any other component",
"Status and event list must agree after every possible call sequence across components; the tests exercise each call once, mostly on the current component.",
[("life cycle calls","Component.activate, hold, passivate, cancel, standby, interrupt, resume"),("process end","Environment._terminate"),("becoming current","Environment.step")])
p("C03","Interrupting and resuming preserves the remaining duration",
"A scheduled component that is interrupted makes no progress until it has been resumed as many times as it was interrupted (or resumed at once with all); it then stays scheduled for exactly the duration that remained at the first interrupt. Remaining durations reported or set in between are honoured exactly.",
["histories","schedules"],"every nesting of interrupts, resumes, changes of remaining duration and re-activations at any moments",
"Tests check one interrupt/resume pair; nested levels, interrupts at the moment of the event and re-activation in between are not covered.",
[("interrupt / resume","Component.interrupt, Component.resume"),("remaining duration","Component.remaining_duration, Component.hold(interrupted=...)")])
p("C04","Standby components get control once after each event, none is forgotten",
"After each event of a component that does not skip standby, every component in standby becomes current once, in the order in which they went into standby, at the same simulation time. No component in standby is ever lost, whatever components with skip_standby do in between, and cancelled or re-activated components no longer take part.",
["schedules","histories"],"every mix of standby, skip_standby components, holds, activations and cancels",
"The behaviour depends on interleavings of standby with events of skipping components; there is no test of it.",
[("standby rounds","Environment.step (pending standby list)"),("standby call","Component.standby, Component._remove")])
p("C05","run() stops exactly where it was told to and can be continued",
"run(till) and run(duration) return with the clock at exactly the requested time after all events due before it (and at that time, unless a priority or urgency says otherwise) and before any later event; run() without arguments returns when no events are left, at the time of the last event. Splitting a run into several consecutive runs yields the same history as one run.",
["schedules","programs"],"every sequence of run calls with durations, end times, priorities and urgency, with arbitrary scheduling by main in between",
"Tests call run once or twice with round numbers; continuation after every possible stopping point is not covered.",
[("run","Environment.run, Environment.step")])
p("C06","Resource quantities are conserved",
"At every moment the claimed quantity of a resource equals the sum of what its claimers hold, the claimers are exactly the components holding a positive quantity, and available plus claimed equals capacity. Claims are only granted when they fit the capacity, a component that ends, is cancelled or is released gives back exactly what it held, and nothing else changes a claim.",
["histories","schedules"],"every sequence of requests (also for several resources), releases (partial, by others, by the resource), capacity changes, cancels and process ends",
"An accounting error needs a specific sequence (partial release plus cancel, capacity change with waiting requesters); tests sample a few.",
[("claiming","Component._tryrequest"),("releasing","Component._release, Component.release, Resource.release"),("ending","Environment._terminate, Component.cancel")])
p("C07","Requests are honoured atomically, in order, and never overlooked",
"A request for several resources is granted completely or not at all (with oneof: for exactly the first that fits), requesters are considered in order of priority and then of arrival, and honor_only_first and honor_only_highest_priority are respected. Whenever user code gets control, no component is still waiting for a request that could be granted.",
["schedules","histories","configurations"],"every sequence of requests, releases, capacity changes, failures and cancels over resources of all kinds",
"A lost honour is only visible in the particular history in which the last chance to grant it is missed; tests cover single releases.",
[("trying requesters","Resource._tryrequest, Component._tryrequest, honor_all, honor_any"),("entering","Component.request"),("leaving","Component._check_fail")])
p("C08","Preemption bumps lower priorities only, and no more than needed",
"A request on a preemptive resource takes quantities away from claimers only when that lets it be honoured at once, only from claimers with a (numerically) higher priority value than its own, starting with the last in the claimers queue and stopping as soon as enough is available. A bumped component loses its entire claim on that resource, is activated immediately, and sees that it no longer claims; what is left over is offered to waiting requesters.",
["schedules","histories"],"every sequence of prioritised requests, releases and capacity changes on preemptive resources, with claimers in any status",
"There is one preemption example in the tests; which claimers are bumped depends on quantities, priorities and order together.",
[("bumping","Component.request (preemptive part), Component._release(bumped_by)")])
p("C09","Anonymous resources stay within bounds and serve get and put fairly",
"The level of an anonymous resource only changes by honoured gets and puts and explicit releases and always stays between zero and its capacity; a get waits until enough is there and a put until there is room. Every get or put that has become possible, also as a consequence of another one being honoured, is honoured at that same moment.",
["histories","schedules"],"every sequence of gets, puts, releases and capacity changes by several components, including mixed requests with ordinary resources",
"Chains of gets and puts that enable each other are combinatorial; tests have none.",
[("get / put","Component.get, put, request"),("cascade","Resource._tryrequest, Component._tryrequest")])
p("C10","Time-outs: a request, wait or store action ends honoured or failed, never both",
"A request, wait, from_store or to_store with a fail time that is not honoured before that time fails exactly then: the component becomes current, is marked as failed, and is no longer in any requesters or waiters queue. When it is honoured earlier, or given up because another component re-activates or cancels it, the fail event no longer happens.",
["schedules","histories"],"every race between honouring, failing, re-activating and cancelling, at equal and different times",
"The outcome depends on races at the same moment; tests use one time-out each.",
[("fail event","Component._check_fail, Environment.step"),("honouring","Component._tryrequest, Component._trywait, Component.leave, Qmember.insert_in_front_of")])
p("C11","Waiting for states: honoured as soon as, and only when, the condition holds",
"A component that waits for states continues at the very moment its condition (any or all of values, expressions or functions) holds, and only then; it is then out of all waiters queues. A trigger honours at most the given number of waiters in order of priority and arrival, after which the state has the value that was asked for and waiters for that value are honoured as well.",
["histories","schedules"],"every sequence of waits, sets, resets and triggers over several states and waiters",
"Missed or spurious wake-ups need particular orders of sets and waits over more than one state; tests use one or two.",
[("waiting","Component.wait, Component._trywait"),("setting","State.set, State.reset, State.trigger, State._trywait")])
p("C12","Stores neither lose nor duplicate items and never exceed their capacity",
"Every item put into a store is in exactly one place until it is handed to exactly one requester; a store never takes more items than its capacity. Requesters (from and to, for one or several stores, with filter and key) are served in order of priority and arrival, and none waits while a matching item or room is available.",
["histories","schedules"],"every sequence of from_store, to_store, filter changes, capacity changes, direct enters and leaves over several stores",
"Hand-overs cascade (taking an item makes room, which lets another item in, which satisfies another requester); tests only do single hand-overs.",
[("hand-over on enter","Qmember.insert_in_front_of"),("hand-over on leave","Component.leave"),("store calls","Component.from_store, to_store, filter; Store.rescan, set_capacity")])
p("C15","Queues are ordered by priority, then arrival, and iterate consistently",
"A queue holds each component at most once and keeps its members in order of priority and, within a priority, in order of entering; enter without priority and append go to the tail, enter_at_head, enter_in_front_of, enter_behind and insert place the component exactly there, with the priority that fits. All views agree on that order and membership: iteration in both directions, indexing and slices, head and tail, successor and predecessor, index, count, in, len and the component's own queues. An iteration that is under way while the queue changes gives each member that stays in the queue exactly once, and never a component that left. Operations that are not allowed are refused and change nothing.",
["histories","inputs"],"every sequence of enters of any kind, leaves, changes of priority, pops, deletions and insertions over several queues, with any number of iterations in progress",
"Order and links are kept in a doubly linked list that every operation edits; a slip only shows for particular positions, ties and modifications during an iteration, of which tests sample a few.",
[("linked list","Qmember.insert_in_front_of, Component.leave"),("entering","Queue.add*, append, insert, Component.enter*, priority"),("iteration","Queue.__iter__, __reversed__, __getitem__, __delitem__, pop, index, successor, predecessor")])
p("C16","Queue set operations, capacity and statistics are exact",
"Union, intersection, difference, symmetric difference, copy, move, extend, clear, deletion of slices and comparisons give exactly the members, in the order, that their definitions say, and leave the operands as documented. A queue never exceeds its capacity: an enter beyond it is refused and changes nothing. The length, length of stay and available quantity monitors and the arrival and departure rates reflect exactly what entered and left and when, also after monitors are switched off and on or reset, and after reset_now.",
["histories","inputs"],"every sequence of operations on several queues at arbitrary moments, including changes of capacity and of monitoring",
"Statistics are integrals over whole histories, and set operations depend on the combination of contents; tests check a few fixed cases.",
[("set operations","Queue.union, intersection, difference, symmetric_difference, copy, move, extend, clear, __eq__ ... __ge__"),("capacity","Queue.set_capacity, Qmember.insert_in_front_of"),("statistics","Queue.length, length_of_stay, available_quantity, arrival_rate, departure_rate, monitor, reset_monitors")])
p("C17","Level monitors report the exact time-weighted statistics",
"A level monitor reports, at any moment, statistics of exactly the step function that was tallied while it was on: duration, mean, standard deviation, minimum, maximum, median and percentiles, the distribution over values, zero durations, the value at any past time, and the recorded values and times. Periods in which it was off count for nothing and are not bridged; resets and reset_now are honoured; repeated queries, in any order, do not change an answer; a stats_only monitor gives the same statistics.",
["histories","inputs"],"every sequence of tallies, passage of time, switching monitoring, resets and queries",
"Each statistic is an integral over the whole history with cached intermediate results; errors need particular orders of off/on, reset, equal times and repeated queries.",
[("recording","Monitor.tally, monitor, reset, deregister"),("time-weighted statistics","Monitor._xweight, mean, std, percentile, duration, number_of_entries, value_duration, xt, tx, get, value"),("cache","Monitor.cached_xweight")])
p("C18","Non level monitors report the exact weighted statistics of what was tallied",
"A non level monitor reports exactly the statistics of the values (with their weights) tallied while it was on since the last reset: number of entries, (zero) counts, total weight, mean, standard deviation, minimum, maximum, percentiles and median in each of the documented interpolations, counts and weights in bins and of values, and histograms and value counts that add up to the totals, with ex0 excluding exactly the zeroes. Automatic conversion of numeric strings and storage in any of the typed arrays lose nothing; stats_only monitors give the same statistics.",
["inputs","histories"],"every sequence of weighted and unweighted tallies of numbers, strings and other values, with any type, switching monitoring, resets and queries",
"Percentiles, bins and ex0 have boundary cases for ties, weights and single entries that tests sample a few times only.",
[("recording","Monitor.tally, reset, monitor"),("statistics","Monitor.mean, std, percentile, bin_number_of_entries, bin_weight, value_number_of_entries, histogram_autoscale, print_histogram, values")])
p("C19","Slicing, merging, mapping and freezing monitors preserve the data exactly",
"A slice of a monitor contains exactly what was tallied in the given (possibly periodic, modulo) time window, cut off at its edges; consecutive slices add up to the whole. Merging several monitors gives the sum of level monitors at every moment, or the entries of all (in time order) of non level monitors. Multiplication (also to another time unit), mapping of values, freezing and resampling to a data frame apply to each entry or moment and preserve times, weights and off periods; the originals are unaffected.",
["histories","inputs"],"every history of one or more monitors, every window, period, factor, map function and sampling interval, and every combination of these operations",
"Results depend on how window edges, off periods and histories fall relative to each other; tests have a handful of fixed monitors.",
[("slicing","Monitor.slice, __getitem__"),("merging","Monitor.merge, __add__, sum"),("mapping","Monitor.multiply, x_map, freeze, as_dataframe, as_resampled_dataframe, to_*")])
p("C14","Built-in monitors of resources, states, stores, components are exact",
"For every resource the monitors of claimed quantity, capacity, available quantity, occupancy and of its requesters and claimers, for every state those of its value and waiters, for every store those of its contents and its from and to requesters, and for every component those of its status and mode report exactly the time-weighted statistics and lengths of stay of the history while they were on since their last reset, whatever operations caused the changes. Switching monitoring off and on or resetting monitors never influences the simulation itself.",
["histories","schedules"],"every history of requests, releases, preemptions, capacity changes, waits, sets, triggers and store traffic, with monitors switched and reset at any moment",
"Each figure is an integral over the entire history, updated at dozens of places; a single missed update shows only in histories in which time passes right after that operation.",
[("resource monitors","Component._tryrequest, Component._release, Resource.release, Resource.set_capacity, Resource.monitor, reset_monitors"),("state and store monitors","State.set, State.trigger, State.monitor, Store"),("component monitors","_StatusMonitor, _ModeMonitor, Component.set_mode")])
p("C20","Generators make exactly the components asked for, at the right moments",
"A component generator makes its components at the moments that follow from its start, inter arrival times (fixed or sampled), number, end (whichever limit comes first, a moment exactly at the end included) and force_at; with a disturbance each component starts shifted by its own disturbance without shifting the others; equidistant, spread and explicit moments are met exactly. Spread components lie within the interval, with the first and last forced to its ends when asked. Every component gets the given arguments and lives in the generator's environment. at_end is called exactly once, at the moment the generator ends, unless it is cancelled. All this holds in yieldless and yield mode and also when the shown time is reset.",
["inputs","schedules"],"every combination of parameters, sample values and moments of creation, several generators at the same time, with runs of any length, cancels and reset_now in between",
"The parameters interact (force_at, till, number, disturbance, offsets); tests use a few combinations with fixed values.",
[("moments","ComponentGenerator.__init__, do_iat, do_iat_disturbance, do_spread, do_finalize and their yieldless versions")])
p("C13","Processes run as written, identically in yieldless and yield mode",
"A model behaves the same in yieldless and in yield mode and whether or not tracing is on: the same program gives the same history of events, statuses, queues and monitors. A process is started with the method and the arguments it was given, runs each of its statements once and in order, continues after the call that made it wait unless it was activated anew with a process, and ends when its method returns; a process method that is not a generator is executed completely at its start. An exception raised in a process reaches the caller of run() unchanged, whatever other components exist.",
["programs","schedules","configurations"],"every program executed in both modes with and without trace, with components (re)activated with different process methods and arguments at any moment of their life, and processes that end, return at once or raise",
"Both modes and the traced variants are separate code paths in nearly every process interaction method; equivalence is a statement about all programs, of which the tests run each in one mode only.",
[("starting processes","Component.__init__, activate, _get_process / process arguments"),("switching between processes","Environment.step, run, _GreenletWrapper / greenlet switch, generator next"),("mode dependent calls","Component.hold, passivate, request, wait, from_store, to_store, standby, activate")])
p("C21","Clock, time units and calendar agree, for every way to express a moment",
"A moment or duration means the same whatever its form: a number, a callable or distribution (with or without time unit), a date, a string or a timedelta; a process scheduled or a run limited that way behaves as with the plain number. Conversions between time units are exact and inverse to each other. t_to_datetime and datetime_to_t (and the duration versions) are inverse, and the texts shown for times and durations are those of the calendar or of the number in the environment's unit. reset_now shifts all shown moments (now, scheduled times, creation times, peek, and what is given from then on) by the same amount and nothing else: events stay in place and the calendar dates do not move. Setting or clearing the calendar changes no event.",
["inputs","histories"],"every time unit, every start date, every duration, and every history of runs, resets of the shown time, changes of the calendar and schedulings in between",
"Offsets, units and dates are applied separately at each of the many places where a time is taken or shown; tests fix one unit and one start.",
[("time conversions","Environment.years..microseconds, to_years.., to_time_unit, spec_to_time, spec_to_duration"),("calendar","Environment.datetime0, t_to_datetime, datetime_to_t, timedelta_to_duration, duration_to_timedelta, time_to_str, duration_to_str, get_time_unit"),("offset","Environment.reset_now, now, peek; Component.scheduled_time, creation_time")])
p("C22","Objects get unique, consecutive names and derived names that follow them",
"Every component, queue, store, resource, state and monitor gets the name asked for; a name ending with a period or comma (or no name at all) is serialized: the objects of that kind and base name within the environment are numbered consecutively, from 0 or 1, without gaps or duplicates, independent of other kinds, base names and environments. base_name and sequence_number never change. Renaming an object changes its name only, and the names of the monitors and queues it owns always follow the object's name. Extra arguments reach setup unchanged.",
["histories"],"every sequence of creations (of standard and derived classes, with and without names, in several environments) and renamings",
"The number a name gets depends on everything created before; tests create a few objects in one order.",
[("serialization","_set_name, Environment._nameserialize*"),("derived names","Component.name, Queue.name, Store.name, Resource.name, State.name, Monitor.name, rename")])
p("C23","Environments in one process do not influence each other",
"Several environments can be used alternately: whatever is done in one of them (creating objects, running, resetting times, changing the calendar, statistics) leaves the clock, event list, components, queues, names and monitors of the others as they were, and each environment behaves as if it were the only one. Objects live in the environment that was given explicitly, or else in the default environment, which is the latest one created as default.",
["histories","schedules"],"every interleaving of the main programs of two environments with different programs, and creation of further environments at any moment, default or not",
"Each of the many constructors and methods has to use the right environment; a single use of the default instead shows only with a second environment in a different state.",
[("environment of an object","Environment.__init__, default_env, set_environment_aliases; env parameter of Component, Queue, Store, Resource, State, Monitor, ComponentGenerator, distributions")])
p("C24","Distributions sample what they specify, whatever the form and time unit",
"The samples of a distribution follow exactly the probabilities it specifies: only values that were specified, with the given (relative) probabilities for Pdf, CumPdf, Pmf and IntUniform, and the proper quantiles for Uniform, Triangular, Exponential, Weibull, Poisson and Cdf. Expressions, Map, Bounded and distributions nested as values of other distributions combine them accordingly; bounds and the fail value of Bounded are respected after the given number of tries. mean() is the mean of what is sampled (or nan where documented). A time unit scales samples and mean, once, to the unit of the environment, at any level of nesting. Specifying a distribution as text, dict, pairs, list or with equivalent parameters (rate/scale) makes no difference, and invalid specifications are refused.",
["inputs"],"every distribution term built from these distributions with any parameters, forms and time units, and every behaviour of the random stream",
"Tests compare a few samples or means for some parameters; the guarantee is about the whole measure, including rare stream values and nested combinations with units.",
[("distributions","Exponential, Normal, IntUniform, Uniform, Triangular, Constant, Poisson, Weibull, Gamma, Beta, Erlang, Cdf, Pdf, CumPdf, External, Distribution"),("combinations","_Expression, Map, Bounded, _Distribution.bounded_sample"),("time units","_Distribution.register_time_unit, _time_unit_factor")])
p("C25","Samples depend only on the seed and the earlier draws of their own stream",
"With the same seed, the same draws from a random stream give the same values, and a complete simulation gives the same results, in yieldless and yield mode, with or without trace, and however often a distribution is printed or its mean requested. Drawing from or seeding one stream never influences another. Without a seed the default seed 1234567 is used, an empty seed changes nothing, and '*' gives an arbitrary new seed.",
["histories","inputs"],"every interleaving of creating and seeding streams, creating environments, sampling from distributions on the default stream and on own streams, and running simulations",
"Sharing or re-seeding of state between streams shows only for particular interleavings of draws; tests fix one seed and one sequence.",
[("seeding","random_seed, Environment.__init__ (random_seed)"),("streams of distributions","randomstream parameter of all distributions, Distribution, _checkrandomstream")])
p("C26","The trace tells what happens, all of it and in order",
"With the trace on, the trace lists exactly the events of the simulation, in the order in which they take effect and with the right figures: which component becomes current and when; creation, (re)scheduling (with the moment and whether it is urgent), passivation, interruption, resumption, cancellation and end of components; requests, claims, releases and bumps of resources with their quantities; failing of requests, waits and store requests; items entering and leaving stores; states being set or triggered with their values. Nothing that did not happen is reported, and line numbers in the trace can be suppressed without any other effect.",
["histories","inputs"],"every model built from these constructs, with several components honored, bumped or failed as a result of one action, in yieldless and yield mode, at any scale of time, quantities and priorities",
"Tests check the output of at most one run; omissions and wrong figures appear only for particular cascades (a release that honors a request that makes a third component fail).",
[("output","Environment.print_trace, Environment.suppress_trace, Environment.time_to_str, merge_blanks"),("trace calls","Component._reschedule, _tryrequest, _release, _check_fail, enter, leave, to_store, from_store; State.set, reset, trigger; Environment.step")])
P.sort(key=lambda d:d['id'])
with open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
