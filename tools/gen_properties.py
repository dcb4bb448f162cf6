#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
S='signals.hpp'; O='optional.hpp'
P=[]
def p(id,title,statement,over,text,why,mech,files=(S,),state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p('C01','Each emission invokes every live slot exactly once and nothing else',
 'Invoking a signal runs every slot that is connected, not blocked and not expired exactly once, and runs no slot that was disconnected, blocked or never connected to that signal. This holds after any history of connects, disconnects (by handle, by callable or by scope), blocks and unblocks, on any number of signals and with any number of slots (from none to tens of thousands).',
 ['histories','inputs'],'all sequential API histories over several signals and any slot count',
 'The tests run a dozen fixed histories with at most five slots; index bookkeeping after mixed removals, large lists and several signals are never reached.',
 [('copy-on-write slot list with an index stored in every slot','signals.hpp signal::add_slot/remove_slot/erase'),('connected/blocked test before the call','signals.hpp slot::operator()')],
 state=[('slot list','connected slots in invocation order','signal::m_Slots'),('slot index','position of the slot in the list','slot_state::m_Index')],
 observe=['calls received by the user callables','return of the emission'])
p('C02','Slots run in connection order, removal moves the last slot into the gap',
 'Slots are invoked in the order in which they were connected. Disconnecting one slot moves the last slot of the list into its place and leaves all other slots where they were, as documented; blocking, unblocking and expiry never change the order.',
 ['histories'],'all sequential histories of connect, disconnect and block',
 'One example program shows one removal; the tests only look at the maximum or the last value, which hides most reorderings.',
 [('push_back / swap with back / pop_back','signals.hpp signal::add_slot, remove_slot, erase'),('forward iteration','signals.hpp slot_iterator::operator++')],
 observe=['sequence of callable invocations of one emission'])
p('C03','Every slot receives exactly the arguments of the emission',
 'Every slot invoked by an emission receives the values the caller passed: a by-value argument arrives intact in each slot no matter how many slots precede it or what they do with their own copy, and the caller\'s variable is not changed. A reference argument denotes the caller\'s own object in every slot, so a modification made by one slot is seen by the following slots and by the caller.',
 ['inputs','programs'],'all signatures (value, reference, const reference, move-only, class types), argument values and slot counts',
 'The tests pass ints and one int reference; a class type passed by value to several slots is never emitted.',
 [('argument tuple of the emission','signals.hpp signal::operator()'),('per-slot delivery of the stored arguments','signals.hpp slot_iterator::do_invoke, slot_argument'),('perfect forwarding','signals.hpp invoke_helper::call')],
 observe=['values and addresses seen inside the callables'])
p('C04','Emission results come from the combiner, which calls slots lazily',
 'With the default combiner an emission returns the value returned by the last slot that ran, and a disengaged optional if no slot ran or the signal returns void. A custom combiner, made anew for each emission, is given the slots in invocation order; each dereference runs exactly the slot at the iterator (an engaged result if it ran, a disengaged one if it was skipped), slots it does not dereference do not run, and its return value is the result of the emission.',
 ['inputs','programs','histories'],'all combiners over the documented iterator interface, all slot lists and result types',
 'The tests use one combiner (maximum) and never stop early, dereference twice, mix blocked slots in, or return class types.',
 [('optional_last_value','signals.hpp optional_last_value::operator()'),('slot_iterator','signals.hpp slot_iterator::operator*, operator++'),('combiner call','signals.hpp signal::operator()')],
 observe=['return value of the emission','invocations between two combiner steps'])
p('C05','A connection speaks for exactly its own slot',
 'A connection (and every copy of it) reports connected exactly while its slot is connected, whichever way the slot gets disconnected; disconnect() removes that slot and no other, returns true exactly once per connected slot, and is a harmless no-op returning false on a default-constructed, already disconnected, or outlived handle. Copying, moving and swapping handles never changes the state of any slot, and operations on one signal never affect slots of another.',
 ['histories'],'all histories of handle operations over several signals, including equal callables connected several times',
 'Tests cover one or two handles in straight-line order; disconnecting by handle after other slots moved, or after removal by callable, is not covered.',
 [('weak reference to the slot','signals.hpp connection::m_Slot'),('atomic exchange of the connected flag','signals.hpp slot_state::disconnect'),('identity test before removal','signals.hpp signal::remove_slot')],
 state=[('connected flag','slot has not been disconnected','slot_state::m_Connected')],
 observe=['return values of connected/valid/disconnect','subsequent emissions'])
p('C06','Disconnecting by callable removes exactly the equal slots',
 'signal.disconnect(callable) disconnects every slot of that signal whose callable (and object, for member functions) compares equal and no other, and returns how many it disconnected; whether callables were passed as lvalues, rvalues, const objects, functions or function pointers makes no difference. If a connected slot of the same callable type cannot be compared, not_comparable_exception is thrown and the slots of the signal stay as they were.',
 ['histories','inputs'],'all multisets of connected callables, all ways of passing them, any number of matches at any positions',
 'Tests disconnect at most three equal slots that form the whole list, always passed in the same value category.',
 [('type-erased equality','signals.hpp slot_func/slot_pmf/slot_pmf_tracked::equals, try_equals'),('erase loop','signals.hpp signal::erase'),('comparison slot','signals.hpp signal::disconnect')],
 observe=['returned count, thrown exception','subsequent emissions and connection states'])
p('C07','A scoped connection owns its slot and disconnects it exactly when it dies',
 'While a scoped connection owns a slot the slot stays connected (unless disconnected otherwise); when the scoped connection is destroyed or assigned a new connection its slot is disconnected, and only that slot. release(), moving and swapping hand ownership over without disconnecting, and what was released or moved from no longer disconnects anything.',
 ['histories'],'all histories of scope exit, move, assignment, swap and release over several scoped connections',
 'Tests exercise one move or release at a time on a signal with a single slot.',
 [('RAII disconnect','signals.hpp scoped_connection::~scoped_connection'),('ownership transfer','signals.hpp scoped_connection move constructor/assignment, release, swap')],
 observe=['connected() of a plain handle to the same slot','emissions'])
p('C08','A blocked slot is skipped, stays connected, and resumes when unblocked',
 'A slot does not run while it is blocked through its connection or by at least one living connection_blocker, and blocked() reports exactly that; blocking neither disconnects nor reorders anything and affects only that slot. It runs again as soon as it has been unblocked and every blocker of it has been destroyed, where moving, assigning and swapping blockers transfers the block and a default-constructed, moved-from or outlived blocker does nothing.',
 ['histories'],'all interleavings of block/unblock and lifetimes of several blockers on several slots',
 'One test blocks and unblocks two slots once; connection_blocker is not tested at all.',
 [('blocked flag and blocker count','signals.hpp slot_state::block/unblock/blocked, connection_blocker'),('blocked test before the call','signals.hpp slot::operator()')],
 state=[('blocked','flag set by connection::block','slot_state::m_Blocked')],
 observe=['blocked()','emissions'])
p('C09','A slot bound to a tracked object dies with the object, and never keeps it alive',
 'A member-function slot connected with a shared_ptr, weak_ptr or type convertible to a weak pointer runs on that object while it exists; as soon as the object is destroyed the connection reports disconnected and no emission runs the slot or touches the object. The signal does not prolong the lifetime of the object, except that an object whose slot is running stays alive until that call returns.',
 ['histories'],'all histories of connecting, releasing owners (also from within slots) and emitting',
 'Tests release one owner between two emissions; expiry during an emission, many slots per object and mixed results are not covered.',
 [('weak pointer locked for the call','signals.hpp slot_pmf_tracked::operator()'),('expiry is part of connected()','signals.hpp slot_pmf_tracked::connected'),('to_weak customization','signals.hpp to_weak')],
 observe=['object destructor events','calls on the object','connected()'])
p('C10','Slots may use the signal during emission, which works on a snapshot',
 'A running slot may connect, disconnect, block, unblock and emit on the same or another signal. A slot connected during an emission is not run by it; a slot that is disconnected (by handle, scope or callable) or blocked before its turn is not run by it; every other slot still runs exactly once, also when slots disconnect themselves or emit recursively.',
 ['histories','programs'],'all re-entrant histories: any operation performed from within any slot at any nesting depth',
 'No test modifies a signal from within one of its slots; the crossed test only emits.',
 [('snapshot of the slot list','signals.hpp signal::operator(), read_slots'),('copy on write','signals.hpp cow_ptr::detach'),('flags tested at the slot\'s turn','signals.hpp slot::operator()')],
 observe=['invocations per emission, nested emissions included'])
p('C11','Callables are owned, used while alive, and released exactly once',
 'A signal keeps its own copy of each connected callable and of bound objects passed by value, usable for as long as the slot can be invoked, including while the running slot disconnects itself or is erased. It is destroyed exactly once: as soon as the slot is disconnected (or the signal destroyed) and no emission is using it; connection handles never keep it alive. No history touches freed memory or leaks.',
 ['histories'],'all histories including re-entrant ones, with every construction and destruction of a callable observed',
 'Callables in the tests are stateless or are never counted; leaks or early destruction would not be noticed.',
 [('shared slot pointers in list and snapshots','signals.hpp signal::m_Slots, read_slots'),('weak handles','signals.hpp connection::m_Slot'),('callable stored by value','signals.hpp slot_func::m_Func, slot_pmf::m_Ptr')],
 observe=['constructor/destructor events of callables','AddressSanitizer, LeakSanitizer, UBSan'])
p('C12','Moving or destroying a signal leaves every handle correct',
 'Moving a signal (construction or assignment, self-assignment included) transfers its slots with order, state and handles intact: existing connections keep controlling them, the source is an empty, usable signal, and the slots previously held by the target are disconnected. Destroying a signal disconnects its slots, also from within a slot during emission: no further slot runs and all remaining handles stay safe to use and report disconnected.',
 ['histories'],'all histories mixing moves, destruction, emission and handle use on one thread',
 'No test moves a signal, uses a handle after its signal died, or destroys a signal during emission.',
 [('slots refer back to their signal','signals.hpp slot::m_pSignal, signal::adopt_slots'),('destructor disconnects','signals.hpp signal::~signal'),('move operations','signals.hpp signal(signal&&), operator=(signal&&)')],
 observe=['handles, emissions on both signals','AddressSanitizer'])
p('C13','Exceptions and allocation failures leave the signal consistent',
 'An exception thrown by a slot reaches the caller of the emission unchanged, later slots of that emission do not run, and signal and slots remain fully usable. If connecting fails because a callable cannot be copied or memory runs out, the signal is exactly as before; disconnecting by handle or scope succeeds even then, and an exception from comparing callables reaches the caller with every slot either still connected or properly disconnected.',
 ['fault_sequences','histories'],'every position of a throwing slot, copy or comparison and every failing allocation in a history',
 'No test throws from a slot or fails an allocation.',
 [('construction before insertion','signals.hpp signal::connect, add_slot'),('noexcept disconnect','signals.hpp slot::disconnect'),('RAII snapshot','signals.hpp signal::operator()')],
 observe=['exceptions at the API boundary','following emissions','leak check'])
p('C14','Concurrent use of a signal is free of data races',
 'Any number of threads may connect, disconnect (by handle, scope or callable), block, unblock, query and emit on the same signals at the same time, each through its own handle objects, without a data race inside the library. Moving or destroying the signal, and sharing one handle object between threads, need external synchronization.',
 ['schedules'],'all thread schedules of the thread-safe operations',
 'The threaded tests mix two operations and run without a race detector, so a missing lock or ordering shows only by luck.',
 [('mutex around the slot list','signals.hpp signal::m_SlotMutex'),('atomic state flags','signals.hpp slot_state'),('immutable snapshots','signals.hpp cow_ptr::detach')],
 observe=['happens-before race detector on every memory access'])
p('C15','Concurrent emissions see a consistent set of slots',
 'When threads connect, disconnect, block and emit concurrently, an emission runs each slot at most once, runs every slot whose connect returned before the emission began and that nobody disconnects or blocks before it ends, and runs no slot whose disconnection or blocking completed before the emission began (or before the previous slot of that emission returned). If it runs a slot it also runs all undisturbed slots connected earlier.',
 ['schedules','histories'],'all schedules of concurrent connect/disconnect/block/emit histories',
 'The threaded tests only count calls of slots that are never disconnected while being called, or assert nothing.',
 [('snapshot under the mutex','signals.hpp signal::read_slots'),('writes detach from snapshots','signals.hpp cow_ptr::detach'),('list updates under the mutex','signals.hpp signal::add_slot/remove_slot/erase')],
 observe=['timestamps of API calls/returns and slot invocations'])
p('C16','The library never deadlocks, whatever slots and destructors do',
 'No library lock is held while a slot runs or a callable is destroyed, so slots, and destructors of callables that own scoped connections, may use the same or other signals from any thread without blocking forever. Any set of threads doing so on several signals, each emitting into the other, always completes.',
 ['schedules','programs'],'all schedules of threads with re-entrant and cross-signal slots',
 'One test crosses two emitting threads under the default scheduler; connects, disconnects and destructors from within slots are not covered.',
 [('lock released before the slots run','signals.hpp signal::read_slots'),('erased slots destroyed after unlocking','signals.hpp signal::erase'),('no nested locks in moves','signals.hpp signal::operator=(signal&&)')],
 observe=['wait-for state of all threads at every lock operation'])
p('C17','Concurrent destruction of a tracked object is safe',
 'If other threads release the last owner of a tracked object while signals are emitting, each emission either runs the slot on the living object, which is then kept alive until the call returns, or skips it; the object is destroyed exactly once and no call ever begins or continues on a destroyed object. An emission that starts after the object is gone never runs the slot.',
 ['schedules'],'all schedules of emitters and owners of tracked objects',
 'Tracking is only tested on one thread.',
 [('lock before call','signals.hpp slot_pmf_tracked::operator()'),('strong reference held during the call','signals.hpp slot_pmf_tracked::operator() (local sp)')],
 observe=['begin/end of calls and destructor events of the object'])
p('C18','optional behaves as a value that may be absent',
 'For every type and every sequence of construction, in-place construction, copy, move, assignment (from values, other optionals, convertible optionals, nullopt), emplace, reset and swap, an optional is engaged and holds the expected value exactly when std::optional would; copies are independent. value() throws bad_optional_access when disengaged, value_or and get_ptr give the fallback, optional references rebind and alias the referred object, and a void optional is always disengaged.',
 ['inputs','histories','programs'],'all operation sequences over scalar, class, move-only, over-aligned, reference and void value types',
 'optional has no tests of its own; the signal tests only use construction from int and comparison.',
 [('storage and flag','optional.hpp optional_base, tc_optional_base'),('assignment matrix','optional.hpp optional_base::assign'),('reference and void specializations','optional.hpp optional<T&>, optional<void>')],files=(O,),
 state=[('m_initialized','a value is alive in the storage','optional_base')],observe=['has_value, value, value_or, get_ptr, thrown exceptions'])
p('C19','optional comparisons form one consistent order with nothing lowest',
 'All six comparison operators between optionals, between an optional and nullopt, and between an optional (of value or reference) and a value, in both operand orders, agree with comparing the values when both are present (for value types whose own operators form a total order) and treat a disengaged optional as equal to nullopt and less than every value.',
 ['inputs'],'all pairs of engaged/disengaged operands, all operators and operand orders, all comparable types',
 'Two comparison forms are used in the tests; about sixty overloads are never called.',
 [('relational operator overloads','optional.hpp operator==, !=, <, <=, >, >=')],files=(O,),observe=['results of the operators'])
p('C20','Copy-on-write pointers isolate writers from all other holders',
 'Reading through a copy-on-write pointer never copies; writing through one of several handles that share a value affects that handle only, and a sole owner writes in place. This also holds when the handles live in different threads, without data races, and every value is destroyed exactly once.',
 ['histories','schedules'],'all histories of copy, assign, move, read and write over several handles and threads',
 'Two tests write once to one of two or three handles on one thread.',
 [('detach before write access','signals.hpp cow_ptr::detach'),('shared ownership','signals.hpp cow_ptr::m_Ptr')],
 observe=['values seen through each handle, copy/destroy counts, addresses'])
p('C21','Slots are values: copies are equal, independent and callable',
 'A slot object can be empty, copied, moved, assigned and compared: an empty slot is false, not connected and returns a disengaged optional; a copy of a slot compares equal to it, owns its own callable and has its own blocked state; a connected slot is an independent copy of the slot passed to connect, and connecting an empty slot yields a disconnected connection. Slots compare equal exactly when callable and object are equal.',
 ['histories','inputs'],'all histories of slot value operations over all kinds of callables',
 'Tests construct slots in place and compare fresh ones; slots are never copied or assigned.',
 [('clone','signals.hpp slot copy constructor/assignment, slot_impl::clone'),('equality','signals.hpp operator==(slot, slot)'),('empty slot handling','signals.hpp slot::operator(), connected, blocked')],
 observe=['bool, connected, blocked, ==, invocation results'])
p('C22','Every kind of callable is dispatched like a direct call',
 'Free functions, functors, lambdas, std::function and bind objects, pointers to member functions and to member data bound to an object pointer, object copy, reference wrapper, shared or weak pointer all produce through a slot or a signal the same effect and the same (converted) result as invoking them directly, with virtual dispatch, base-class members, const overloads and reference identity preserved; the value returned by a running slot always arrives engaged.',
 ['programs','inputs'],'all callable kinds x argument passing modes x result types and argument values',
 'Each kind is tested with one call on one value and mostly without looking at identity or state changes.',
 [('invoke','signals.hpp invoke_helper'),('callable detection','signals.hpp traits::invoke_result, is_invocable_r'),('slot kinds','signals.hpp slot_func, slot_pmf, slot_pmf_tracked')],
 observe=['results, side effects on the bound object, addresses'])
p('C23','Concurrent disconnection is exactly-once and removes nothing else',
 'However many threads try to disconnect the same slots at the same time, through copies of the connection, scoped connections and by callable, exactly one attempt per slot reports success: successful handle disconnects plus the counts returned by disconnecting by callable equal the number of slots disconnected. Afterwards exactly the slots nobody disconnected are still connected and run, and all disconnected callables have been destroyed exactly once.',
 ['schedules','histories'],'all schedules of competing disconnects with concurrent connects and emissions',
 'No test disconnects from several threads.',
 [('atomic exchange','signals.hpp slot_state::disconnect'),('identity test and counting under the mutex','signals.hpp signal::remove_slot, erase')],
 observe=['return values','final emission','destructor events'])
p('C24','optional constructs and destroys its value exactly once, even on exceptions',
 'Every value an optional constructs is destroyed exactly once, never used after destruction nor assigned before construction, and lives at properly aligned storage inside the optional. If an operation of the value throws, the exception propagates with nothing leaked: after a failed construction, emplace or assignment to a disengaged optional it is disengaged, after a failed assignment to an engaged one it is still engaged.',
 ['fault_sequences','histories'],'every throwing position in every operation sequence, over instrumented value types',
 'No test stores an instrumented or throwing type in an optional.',
 [('placement new / explicit destruction','optional.hpp optional_base::construct, destroy'),('flag set after construction','optional.hpp optional_base::construct'),('emplace destroys first','optional.hpp emplace_assign')],files=(O,),
 observe=['constructor, assignment and destructor events of the value'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
