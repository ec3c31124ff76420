#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. A property is claimed when sa/props has a module for it."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, state=None, at=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, na=na, state=state, at=at))


LN = 'abstract interpretation of LLVM IR in a domain of words as sums of tables over unknown characters, with case splits'
AI = 'abstract interpretation of the LLVM IR of library and witness clients'
TRUST = ('Trusts: clang front end and mem2reg, the models of libc in sa/models.py, the analyser itself. Scenarios are witness clients: all '
         'inputs and all scope contents, but only the operation sequences written down there.')

p('C01', 'Deferred functions run exactly once, newest first, when their scope ends',
  'Every function deferred on a scope and not cancelled or fired is called exactly once with its own argument when the scope ends, and deferred functions run in the reverse of the order in which they were registered. This holds for any number of registrations, including ones made or thrown out of by deferred functions themselves.',
  ['inputs', 'histories', 'fault_sequences'], 'every number of registrations, every function and argument, every re-entrant action of a deferred function, every allocation failure while registering',
  'Tests register a handful of functions; array growth at every multiple of the increment, re-entrancy and failing growth are never reached.',
  ['src/raii.c', 'include/raii.h'], [('entry array growth', 'raii_array_append'), ('registration', 'raii_deferred_any'), ('running entries', 'raii_deferred_run'), ('ending a scope', 'raii_deferred_free')],
  AI + ' with inductive affine loop invariants; monitor of every callback', 'Entry addresses are affine terms in the unknown number of entries, so the result holds for every number. ' + TRUST)
p('C02', 'A handle cancels or fires exactly its own registration',
  'A cancelled deferred function never runs, a fired one runs once at that moment and not again at the end of the scope, and every other registration is unaffected. Cancelling or firing designates the registration whose handle was given, whatever was registered before or after it.',
  ['inputs', 'histories'], 'every scope content and number of entries, cancel/fire of first, middle and last entries in any of the client sequences',
  'Tests cancel one or two fixed entries of a short list.',
  ['src/raii.c'], [('cancel', 'raii_deferred_cancel'), ('fire', 'raii_deferred_fire'), ('disarm', 'raii_deferred_internal')],
  AI + '; callback monitor against handles', TRUST)
p('C03', 'Scope-bound memory is released exactly once, by the function asked for',
  'Memory requested for a scope, including the text results of the string and base64 functions, has at least the requested size, stays valid until the scope ends and is then released exactly once, by the release function it was requested with, before anything registered earlier. Nothing the library obtained on the way is left behind or released twice.',
  ['inputs', 'histories'], 'every size, count, release function and scope content; every path of the allocating functions',
  'Tests allocate a few blocks and never look at what was released; leak or double release of internal blocks is invisible to them.',
  ['src/raii.c', 'src/swar.c'], [('scope allocation', 'malloc_full, calloc_full, malloc_by, calloc_by'), ('text results', 'str_memdup_ex, str_split_ex, str_concat_ex, str_replace_ex, str_encode64_ex, str_decode64_ex'), ('bookkeeping block', 'raii_deferred_run')],
  'ownership (obtain/release) analysis by abstract interpretation of LLVM IR', TRUST)
p('C04', 'Running out of memory raises an error and corrupts nothing',
  'When any memory request inside the library fails, the operation ends in a catchable error (or, for a bare registration, in a failure result), never in a successful return with a missing block and never in a use of one. Registrations and blocks that existed before the failure are unaffected, and a scope-bound request that fails leaves nothing behind outside its scope.',
  ['fault_sequences', 'inputs'], 'every allocation site of every allocating entry point failing, from every scope content',
  'No test makes an allocation fail.',
  ['src/raii.c', 'src/arena.c', 'src/swar.c', 'src/future.c'], [('checked allocation', 'try_malloc, try_calloc, try_realloc'), ('failing registration', 'malloc_full, calloc_full, raii_deferred_any'), ('arena growth', 'arena_alloc')],
  'fault-enumerating abstract interpretation: every allocation forks into success and failure', TRUST)
p('C05', 'Ending a scope releases the scope itself once and no other scope',
  'Deleting a scope runs what was deferred on it, then releases the scope and everything the library keeps for it exactly once, and never touches the memory of another scope. The scope of a thread is emptied but stays usable, and an arena scope gives back its arena with it.',
  ['inputs', 'histories'], 'every scope content, scopes with and without an arena, scopes nested in one another and the thread scope',
  'Tests end a few scopes and exit; a leak or a double release of the scope is not observed.',
  ['src/raii.c', 'src/arena.c'], [('deleting a scope', 'raii_delete'), ('arena scope', 'free_arena, unique_init_arena'), ('thread scope', 'raii_destroy, raii_deferred_clean')],
  'ownership (obtain/release) analysis by abstract interpretation of LLVM IR', TRUST)
p('C06', 'A guarded section cleans up once on every way out and restores the state',
  'However control leaves a guarded section (end, break, return, thrown error, error in a nested section), the functions deferred in it run exactly once, newest first, before control goes on, and its memory is released. Afterwards the enclosing scope, its deferred functions and the handling of later errors are as they were before the section.',
  ['programs', 'fault_sequences', 'histories'], 'client programs leaving sections in every way, with errors thrown at every chosen place, nested and repeated',
  'Tests have one guard per program and one way out of each.',
  ['include/raii.h', 'src/raii.c', 'src/except.c'], [('guard macros', 'guard, guarded, unguarded, _return'), ('hooks', 'guard_set, guard_reset, guard_delete')],
  AI + '; exact event-trace sets, ownership of every block', TRUST)
p('C07', 'An error handled by a deferred function stops there, any other goes on',
  'A deferred function can see the error being handled and, by naming it, end it: the remaining deferred functions still run and control continues after the guarded section. If no deferred function names the error it reaches the enclosing handler or ends the program, and a later error is an error again.',
  ['programs', 'fault_sequences'], 'client programs with matching, non-matching and absent recovery in sections and in the thread scope, errors thrown at every chosen place',
  'Tests recover one error in one place.',
  ['src/raii.c', 'src/except.c', 'include/raii.h'], [('recovery', 'raii_caught, raii_is_caught, raii_message'), ('propagation', 'raii_deferred_run, ex_throw')],
  AI + '; exact event-trace sets', TRUST)
p('C08', 'A thrown error runs the first matching handler of the innermost try, once',
  'An error thrown inside a protected block leaves the block at once and enters the first handler of the innermost enclosing try that matches, exactly once; if none matches it continues outwards after the finally part. Finally parts run exactly once on every way out, and after the construct the enclosing try is in force again.',
  ['programs', 'fault_sequences'], 'client programs covering every handler form, nesting, rethrow, errors in handlers and finally parts, calls and loops of any length',
  'Tests contain a few fixed try statements, each entered once.',
  ['include/exception.h', 'src/except.c'], [('try macros', 'ex_try, ex_catch, ex_catch_any, ex_finally, ex_end_try'), ('throwing', 'ex_throw')],
  AI + ' with a model of saved jump contexts; exact event-trace sets', TRUST)
p('C09', 'A protected pointer is released once on an error and only then',
  'While a pointer variable is protected, an error thrown past it calls its release function exactly once with the value the variable holds at that moment, newest protection first, and clears the variable; an empty variable is skipped. Once protection is removed, or when no error occurs, the library does not release it.',
  ['programs', 'fault_sequences', 'inputs'], 'client programs with any pointer values, several protections, removal in any order, nested try blocks, errors at every chosen place',
  'Tests protect one pointer and throw once.',
  ['src/except.c', 'include/exception.h'], [('protecting', 'ex_protect_ptr, ex_unprotected_ptr'), ('releasing', 'ex_unwind_stack')],
  AI + '; exact event-trace sets', TRUST)
p('C10', 'Throwing never returns and a handler sees what was thrown',
  'Control never comes back from a throw: it continues in a handler or the program ends with a failure status after the deferred functions ran. The handler sees the name, message, file, line and function of that throw, also after it was rethrown.',
  ['programs', 'inputs', 'fault_sequences'], 'every throw form, with and without an enclosing handler, a scope and a message; rethrow; errors while cleaning up',
  'Tests print the message of one or two errors.',
  ['src/except.c', 'include/exception.h'], [('throwing', 'ex_throw'), ('ending the program', 'ex_terminate'), ('handler variables', 'EX_MAKE, EX_MAKE_IF')],
  AI + '; exact event-trace sets', TRUST)
p('C11', 'Each signal becomes its own error and handlers stay installed',
  'After signal handling is set up every supported signal raises the error named after that signal, a signal number keeps one error name when it is registered again, and a registration beyond capacity is refused without disturbing the others. Returning to default handling gives every one of these signals its default action again.',
  ['inputs', 'histories'], 'every signal the set-up function installs, every content of the table of installed handlers',
  'Tests raise one or two signals.',
  ['src/except.c'], [('table', 'ex_sig'), ('installing', 'ex_signal, ex_signal_setup'), ('raising', 'ex_handler'), ('default', 'ex_signal_reset, ex_signal_default')],
  AI + '; table contents compared with the signals installed', TRUST)
p('C12', 'Cleaning up after an error is not interrupted by a signal',
  'From the start of a throw until control has left it for a handler, for the cleanup of a section or for the end of the program, all signals are blocked, so the deferred functions and protected-pointer releases it runs are not interrupted. A handler and everything after it find exactly the signal mask their try block was entered with, and setting up a thread or protecting a pointer leaves the mask unchanged.',
  ['schedules', 'fault_sequences', 'programs'], 'every point of the unwinding code at which a signal could arrive, every previous signal mask',
  'No test delivers a signal during unwinding or looks at the mask.',
  ['src/except.c', 'include/exception.h'], [('blocking', 'ex_signal_block, ex_signal_unblock'), ('throwing', 'ex_throw'), ('thread set-up', 'ex_init')],
  'typestate of the signal mask by abstract interpretation of LLVM IR', TRUST)
p('C13', 'Packed arguments come back unchanged at their own index',
  'Arguments packed by a format are returned unchanged, each at its own index and with the width of its format letter, whatever the number of arguments; an index beyond the last gives the empty value. Packing never reads more arguments than the format has letters and never writes outside its storage.',
  ['inputs'], 'every format letter, every argument value, every number of arguments and every index',
  'Tests pack a few small values.',
  ['src/raii.c'], [('packing', 'raii_args_ex, raii_args_for, args_for'), ('retrieving', 'args_in, get_args, raii_get_args, get_arg')],
  AI + '; symbolic values followed from the call to the result', TRUST)
p('C14', 'A packed argument set is released exactly once',
  'A set of packed arguments is released exactly once: by the scope it belongs to after it was first read, or by an explicit release when it never was. Reading it any number of times does not register it again, and it stays valid until the scope ends.',
  ['histories', 'inputs'], 'every number of reads from any scope, with an explicit scope, with the thread scope, and without a read',
  'Tests read a set once and exit.',
  ['src/raii.c'], [('release', 'args_free'), ('binding on first read', 'raii_get_args')],
  'ownership (obtain/release) analysis by abstract interpretation of LLVM IR', TRUST)
p('C15', 'A result is complete before a waiting thread can see that it is ready',
  'A worker stores its result, error and everything they refer to before it marks its promise done, and touches neither the promise nor what the getter may release after that. A getter reads the result only after it saw the mark, and a worker marks its promise exactly once, also when its function throws.',
  ['schedules', 'fault_sequences'], 'every interleaving of worker and getter (through the order of their accesses), worker functions returning any value or throwing',
  'The thread part is not even linked into the existing tests, and interleavings are not enumerable by running.',
  ['src/future.c'], [('publishing', 'promise_set, thrd_raii_wrapper'), ('waiting', 'promise_get, thrd_get')],
  'static happens-before race analysis (abstract interpretation of worker and creator, vector clocks on every access)', 'Each worker runs as a whole when created or later; races are judged from the ordering of accesses, not from the interleaving, so no interleaving has to be enumerated. ' + TRUST)
p('C16', 'Every started thread is joined once and its bookkeeping released once',
  'Getting the value of a future, synchronising a group, or ending the scope a future belongs to joins each of its threads exactly once and releases what was kept for it exactly once. A thread that could not be started leaves nothing behind and is reported as an error.',
  ['histories', 'fault_sequences', 'inputs'], 'futures and groups of any size, thread creation succeeding or failing, worker results of any kind',
  'The thread part is not linked into the existing tests.',
  ['src/future.c'], [('joining', 'future_close, future_release'), ('getting', 'thrd_get'), ('group', 'thrd_sync, thrd_destroy'), ('starting', 'thrd_start, thrd_spawn')],
  'ownership and typestate (created/joined) analysis by abstract interpretation of LLVM IR', TRUST)
p('C17', 'An error in a worker is raised in the thread that asks for its value',
  'When a worker function ends in an error it does not handle, the error reaches the thread that gets the value of that future, or that synchronises the group, with the same name and message, and only after the workers were joined. Results of workers that succeeded are unaffected.',
  ['fault_sequences', 'schedules'], 'any worker of a group failing with any error, with a message or without, handled in the worker or not',
  'The thread part is not linked into the existing tests.',
  ['src/future.c', 'include/raii.h'], [('catching in the worker', 'guarded_exception, thrd_raii_wrapper'), ('raising', 'promise_close, thrd_get, thrd_sync')],
  AI + ' of worker and getter against the promise they share', TRUST)
p('C18', 'Invalid handles and states are refused, not used',
  'Asking for a value with something that is not a future, synchronising something that is not a group, reading a result that is not ready or spawning outside a group raises an error and reads or changes nothing behind the handle. A missing thread scope is set up or refused, never dereferenced.',
  ['inputs', 'histories'], 'every content of the object behind a handle, every state of the thread',
  'Tests use valid handles only.',
  ['src/future.c', 'src/raii.c'], [('future', 'thrd_get'), ('group', 'thrd_sync, thrd_spawn, thrd_destroy'), ('result', 'thrd_result')],
  AI + ' from arbitrary objects', TRUST)
p('C19', 'Spin locks exclude and publish: acquire to lock, release to unlock',
  'A lock is entered only by the thread that turned its flag from clear to set with acquire ordering, and left by clearing the flag with release ordering. Every path of the library that takes a lock gives it back, and the ready mark of a promise is set with release and read with acquire ordering wherever data is read after it.',
  ['schedules'], 'every path through lock, unlock and try operations and through the code that uses them',
  'Weak memory effects and rare interleavings do not show in a test run.',
  ['include/catomic.h', 'src/future.c'], [('locks', 'atomic_lock, atomic_unlock'), ('flags', 'atomic_flag_test_and_set, atomic_flag_clear, atomic_flag_load')],
  'typestate of locks and audit of atomic orderings in LLVM IR', TRUST)
p('C20', 'Atomic operations act on exactly their object, atomically, with their result',
  'Each atomic operation reads and writes exactly the bytes of its object in one indivisible access, stores the value the operation defines, and returns what it promises: the old value, the value loaded, or whether an exchange took place. An explicit memory order is never weakened.',
  ['inputs', 'schedules'], 'every operation and every operand width, every value',
  'Tests call each operation once on values that fit everywhere.',
  ['include/catomic.h'], [('operations', 'atomic_load, atomic_store, atomic_exchange, atomic_compare_exchange, atomic_fetch_*')],
  'abstract interpretation of one client per operation, operand type and memory order, under interference by other threads; audit of width, order and indivisibility of every access', TRUST)
p('C21', 'Per-thread state belongs to one thread',
  'The current scope, the current error-handling context, the guard hooks and every variable declared per-thread are separate for each thread: what one thread sets is never read or changed by another. A thread-local variable starts empty in each thread and gives the same object on every later access there.',
  ['schedules', 'programs'], 'every global object of the library and every function writing it',
  'Existing tests run one thread.',
  ['src/raii.c', 'src/except.c', 'include/cthread.h'], [('thread scope', 'raii_local, raii_init'), ('thread context', 'ex_local, ex_update, ex_init'), ('per-thread variables', 'thrd_local')],
  'effect analysis of every writable global of the library in LLVM IR, and happens-before race analysis of clients with several threads', TRUST)
p('C22', 'Arena blocks are in bounds, large enough and disjoint',
  'Every block handed out by an arena lies inside memory the arena obtained, has at least the requested size, and does not overlap any block handed out since the arena was last cleared. Zeroed requests are zero throughout, and a request too large to satisfy, or that memory runs out on, raises an error and leaves the arena usable.',
  ['inputs', 'histories'], 'every request size and count, every arena state, requests before and after clearing and with recycled memory',
  'Tests make one or two requests from a fresh arena.',
  ['src/arena.c'], [('allocating', 'arena_alloc, arena_calloc'), ('state', 'avail, limit, next')],
  'invariant and bounds analysis (affine relations) by abstract interpretation of LLVM IR, from arbitrary arena states', TRUST)
p('C23', 'Clearing or freeing an arena gives back each of its blocks once',
  'Clearing an arena makes all its memory available again and freeing it gives every block back to the system exactly once; neither uses memory it has given back. The arena stays usable after clearing, for any number of allocate and clear rounds.',
  ['histories', 'inputs'], 'arenas holding no, one or several blocks, recycled or fresh, cleared and freed in every order of the clients',
  'Tests clear once and exit.',
  ['src/arena.c'], [('clearing', 'arena_clear'), ('freeing', 'arena_free'), ('recycled blocks', 'free_list')],
  'ownership (obtain/release) analysis by abstract interpretation of LLVM IR, from arbitrary arena states', TRUST)
p('C24', 'Text results stay inside their memory and have the right length and shape',
  'Splitting, joining, replacing, copying and duplicating text write only inside the memory obtained for the result, terminate it, and read only inside their arguments, for every length of every argument including empty ones. Joined, replaced, copied and duplicated text has exactly the length its parts call for. Splitting gives one piece more than there are matches, cut at the matches and each behind the one before, in a list ended by NULL.',
  ['inputs'], 'every string length and every number of pieces or matches',
  'Tests use short strings; an overrun by a byte or two stays inside the allocator\'s slack.',
  ['src/swar.c'], [('building', 'str_memdup_ex, str_copy, str_split_ex, str_concat_ex, str_replace_ex')],
  'bounds analysis by abstract interpretation of LLVM IR (affine relations)', TRUST)
p('C25', 'Text operations terminate on every input',
  'Splitting and replacing return for every text, separator and pattern, including empty ones: every round of a search makes progress through the text.',
  ['inputs'], 'every text, separator and pattern',
  'Tests never pass an empty separator or pattern.',
  ['src/swar.c'], [('searching', 'str_split_ex, str_replace_ex, strpos')],
  'ranking-function (progress per iteration) analysis by abstract interpretation of LLVM IR', TRUST)
p('C26', 'Base64 coding is exact and stays in bounds',
  'The encoding and decoding alphabets are inverse to each other on all 64 digits and every other byte is rejected as a digit. For every input length, encoding writes exactly the characters the input bits call for, padded to a multiple of four, decoding ignores other bytes and yields three bytes for four digits less the padding, and nothing for a digit count that is not a multiple of four. Both write only inside the memory obtained for the result and terminate it.',
  ['inputs'], 'every byte of the tables, every input length and content',
  'Tests encode and decode one string.',
  ['src/swar.c'], [('tables', 'base64 tables'), ('coding', 'str_encode64_ex, str_decode64_ex, is_base64')],
  'table audit, bounds and bit-provenance analysis by abstract interpretation of LLVM IR (affine invariants)', TRUST)
p('C27', 'Type queries agree with the type an object was created with',
  'Each object the library creates carries its own type and the value, instance and validity queries agree with the declared type ranges for every type. Comparing two strings for equality is false whenever one is missing, and no query changes or releases what it is asked about.',
  ['inputs'], 'every type code and every constructor of the library',
  'Tests query a few objects.',
  ['src/raii.c', 'include/raii.h'], [('queries', 'is_type, is_value, is_instance, is_valid, is_instance_of, is_str_eq')],
  AI + ' for every type code', TRUST)
p('C28', 'Conversions between numbers and text are exact',
  'Converting text to a number gives the number its digits spell, with its sign, and converting a number to text writes exactly its digits, sign and terminator and returns their count, for every number the type can hold and every text of an allowed length. Nothing is written outside the buffer asked for, and a decimal point divides by the right power of ten.',
  ['inputs'], 'every number and every digit text of every length the routines accept',
  'Tests convert a few dozen numbers out of 2^64.',
  ['src/swar.c', 'include/swar.h'], [('numbers', 'simd_atou, simd_atoi, simd_htou, simd_atod, simd_itoa, itoa8, utoap, utoa2p, atou8, htou8, cast8')],
  LN, TRUST)
p('C29', 'Searching, comparing and measuring text by words is exact',
  'The routines that look at eight characters at a time answer what looking at one after another would: the length of a text, whether two texts are equal or which is the greater, the first and the last place of a character and whether a word holds it. A character that is not inside the given length is not found.',
  ['inputs'], 'every content of texts of up to a few words, at every alignment',
  'Tests search short printable texts; characters above 127, those next to a match and those behind the end are not tried.',
  ['src/swar.c', 'include/swar.h'], [('words', 'simd_strlen, simd_strcmp, simd_memchr, simd_memrchr, memchr8, memchrk, memrchrk, pmemchr, pmemrchr, haszero, hasbyte')],
  LN, TRUST)
p('C30', 'Text operations return exactly the text called for',
  'Splitting gives the pieces between the separators, from the left and without overlap, joining puts the texts one behind the other, and replacing puts the new text in place of each occurrence and leaves every other character as it was. Searching gives the first place, or says that there is none; copying and duplicating give the same characters.',
  ['inputs'], 'every content of texts of up to six characters with separators and patterns of every shape of repetition',
  'Tests use a handful of texts in which separators do not overlap or touch.',
  ['src/swar.c', 'src/raii.c'], [('text', 'str_split_ex, str_concat_ex, str_replace_ex, strpos, is_str_in, str_copy, str_memdup_ex')],
  LN, TRUST)
p('N02', 'Concurrent use by several threads is free of deadlock and makes progress',
  'Threads using futures, groups and per-thread scopes at the same time never wait for each other forever.',
  ['schedules'], 'every schedule', 'Schedules are not enumerable by running.',
  ['src/future.c'], [('waiting', 'promise_get, thrd_wait')],
  na='Liveness depends on user functions and on the scheduler; the library holds one lock at a time, so no lock-order rule applies. The structural part (locks given back, marks set on every path) is C15 and C19.')
p('N03', 'Memory mapping wrappers behave like their system counterparts',
  'Mapping, protecting and unmapping memory has the effect of the system call of the same name.',
  ['inputs', 'configurations'], 'every argument on every system', 'Nothing in the test suite calls them.',
  ['src/mman.c'], [('wrappers', 'mmap, munmap, mprotect')],
  na='The file is compiled only on Windows; on this platform there is no code to analyse.')
p('N04', 'A thread pool runs every queued task exactly once',
  'Each task added to a pool runs exactly once on one of its threads.',
  ['schedules', 'inputs'], 'every task count and schedule', 'Nothing in the test suite calls it.',
  ['src/future.c'], [('pool', 'thrd_pool, thrd_add')],
  na='Unfinished in the repository: adding tasks is declared but not defined, and the pool threads have no task loop to analyse.')

done = {f[:-3] for f in os.listdir(V + '/sa/props') if f.endswith('.py')}
with open(V + '/properties.jsonl', 'w') as f:
    for x in P:
        a = dict(files=x['files'], mechanism=[dict(name=n, where=w) for n, w in x['mech']], hook_needed=None)
        f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['text']),
                                why_tests_cant=x['why'], anchors=a)) + '\n')
        assert len(x['title']) <= 80, x['title']
        assert x['statement'].count('. ') <= 2, x['id']
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[],
         notes='All checks: python3 check.py ID; they compile /repo to LLVM IR in a temporary directory and analyse it without running it.')
for x in P:
    if x['na'] or x['id'] not in done:
        m['not_applicable'].append(dict(property=x['id'], reason=x['na'] or 'No check built yet.'))
    else:
        m['checks'].append(dict(property=x['id'], quick_cmd='python3 check.py ' + x['id'], thorough_cmd='python3 check.py %s --thorough' % x['id'],
                                technique=x['tech'], level='other', level_note=x['note']))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
