#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that statements stay in one reviewable place).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)

p('C01','Buffer encoding: what is written is what is read back, in fixed byte layout',
 'Every integer, boolean, double, string, blob or raw byte block written to a serialization buffer (at the write cursor or at an explicit position) occupies exactly its documented little-endian, length-prefixed byte layout and advances the cursor by exactly that many bytes, leaving every other byte of the buffer untouched. Reading it back, or peeking at it, through the matching read operation yields the original value bit for bit and consumes exactly those bytes, and peeking consumes nothing.',
 ['inputs','histories'],'all values, all buffer contents, capacities and cursor positions that satisfy the buffer invariant',
 'tests write a handful of values at a handful of offsets; the layout must hold for all 2^64 values at every position, including buffers whose bytes around the field are arbitrary',
 ['buffer/sc_buf.c','buffer/sc_buf.h'],[('fixed-width put/get/peek/set','buffer/sc_buf.c: sc_buf_{put,get,peek,set}_{8,16,32,64}*'),('string, blob and raw encoders','buffer/sc_buf.c: sc_buf_put_str, sc_buf_put_str_len, sc_buf_put_blob, sc_buf_put_raw, sc_buf_get_*')],
 [('mem, rpos, wpos, cap','bytes [rpos,wpos) are unread data','buffer/sc_buf.h: struct sc_buf')],['return values and buffer bytes'])
p('C02','Buffer reads and positional writes never leave the buffer and fail stickily',
 'For any position and any length, including hostile length prefixes and values near the integer maximum, reading, peeking or positional writing on a buffer touches only bytes inside it: a request that does not fit in the readable (for reads) or allocated (for writes) range sets the error flag, yields zeroes or NULL and changes neither cursors nor contents. Once the error flag is set, integer reads and positional writes keep failing the same way until the buffer is cleared, and no in-range request is ever rejected on a buffer without error.',
 ['inputs','histories'],'all 64-bit positions, lengths and buffer contents (an adversary controls the bytes being parsed), every buffer state satisfying the invariant',
 'the failing values are a vanishing fraction of 2^64 positions and lengths; tests try a few out-of-range positions only',
 ['buffer/sc_buf.c'],[('bounds checks','buffer/sc_buf.c: sc_buf_peek_*_pos, sc_buf_set_*_pos, sc_buf_peek_data, sc_buf_set_data, sc_buf_get_str, sc_buf_get_blob, sc_buf_get_data, sc_buf_set_rpos, sc_buf_set_wpos')],None,['error flag, returned values, memory accesses'])
p('C03','Buffer growth, limits, compaction and moves never lose unread bytes',
 'Reserving, shrinking, compacting, clearing and moving data between buffers preserve the sequence of unread bytes, except that a move transfers exactly a prefix of it from the source to the end of the destination. Capacity never exceeds the configured limit by growth, an externally owned block is never reallocated or freed, and when memory or quota runs out the operation reports it through the out-of-memory flag and leaves contents, cursors and capacity as they were.',
 ['inputs','histories','fault_sequences'],'all buffer states, requested sizes, limits and every allocation failure',
 'tests fail a few allocations on a few sizes; the invariant must survive any size, any limit and a failure of any allocation in any state',
 ['buffer/sc_buf.c'],[('growth','buffer/sc_buf.c: sc_buf_reserve, sc_buf_shrink'),('compaction and moves','buffer/sc_buf.c: sc_buf_compact, sc_buf_move'),('lifecycle','buffer/sc_buf.c: sc_buf_init, sc_buf_wrap, sc_buf_term, sc_buf_clear')])
p('C04','Hash maps behave as finite maps after every operation',
 'For every provided key/value type combination, put, get and delete return exactly what a mathematical finite map would (previous or current value and found indicator), affect only the given key, and keep the reported size equal to the number of distinct keys, with zero/NULL keys treated like any other key. A put that fails because memory ran out reports it and leaves the map as it was, and lookups, insertions and deletions always terminate.',
 ['inputs','histories','fault_sequences'],'all keys and values, all histories of operations (through an inductive representation invariant), all capacities and load factors, every allocation failure',
 'collision, wrap-around, growth and deletion-shift interactions depend on the hash layout; tests use a few thousand histories out of an unbounded set',
 ['map/sc_map.c','map/sc_map.h'],[('probing','map/sc_map.c: sc_map_put_*, sc_map_get_*, sc_map_del_*'),('growth','map/sc_map.c: sc_map_alloc_*, sc_map_remap_*'),('load factor','map/sc_map.c: sc_map_init_*')],
 [('table','no empty slot between the home slot of a key and its slot; keys distinct; size counts entries','map/sc_map.c')],['return values, found/oom indicators, size'])
p('C05','Map iteration visits every entry exactly once',
 'Iterating over a map that is not modified meanwhile, by pairs, by keys or by values, visits each stored entry, including one stored under the zero or NULL key, exactly once and nothing else, and executes the body as many times as the map reports entries.',
 ['inputs','histories'],'all map states satisfying the representation invariant, for every provided map type',
 'tests iterate a few populations; which slots are occupied (including the reserved slot) is decided by hash values',
 ['map/sc_map.h'],[('iteration macros','map/sc_map.h: sc_map_foreach, sc_map_foreach_key, sc_map_foreach_value')])
p('C06','Dynamic array behaves as a sequence',
 'Every array operation (append, get, delete, unordered delete, delete last, clear, sort, iterate) has exactly the effect of the corresponding operation on a mathematical sequence of the stored elements: elements keep value and order except as the operation documents. A failed growth is reported and leaves the array as it was.',
 ['inputs','histories','fault_sequences'],'all lengths, element values, indices in range and every allocation failure',
 'tests use a few arrays; growth boundaries and moves must be right at every size',
 ['array/sc_array.h'],[('growth and moves','array/sc_array.h: sc_array_expand, sc_array_add, sc_array_del, sc_array_del_unordered')])
p('C07','Queue behaves as a double-ended queue through wrap-around and growth',
 'Adding and removing at either end, peeking, indexed access, iteration, size and clear have exactly the effect of the corresponding operation on a mathematical double-ended sequence, whatever the physical rotation of the ring and across growth. A failed growth is reported and leaves the queue contents as they were, and does not make a later addition that fits or can be allocated fail.',
 ['inputs','histories','fault_sequences'],'all ring states (first, last, capacity), all element values, every allocation failure',
 'growth while wrapped and both-end operations give a product of positions tests only sample',
 ['queue/sc_queue.h'],[('ring arithmetic','queue/sc_queue.h: sc_queue_inc_last/dec_last/inc_first/dec_first, sc_queue_expand, sc_queue_foreach')])
p('C08','Heap returns minimum first and never loses or invents elements',
 'After any history of insertions and removals the heap holds exactly the multiset of inserted and not yet removed key/data pairs, and peek and pop return a pair with the least key of that multiset. An insertion that fails for lack of memory reports it and leaves the heap as it was.',
 ['inputs','histories','fault_sequences'],'all heap states satisfying the order invariant, all keys and data, every allocation failure',
 'the sift paths depend on relative order of all keys; tests cover a few permutations',
 ['heap/sc_heap.c'],[('sift up and down','heap/sc_heap.c: sc_heap_add, sc_heap_pop, sc_heap_peek')],[('elems','elems[i/2] <= elems[i] for 1<i<=size','heap/sc_heap.c')])
p('C09','Intrusive list operations act as sequence operations',
 'Every list operation (add/insert/delete/pop at either end, relative insertion, iteration, including safe iteration with deletion, forward and backward) has exactly the effect of the corresponding operation on a finite sequence of nodes; links stay mutually consistent and no node other than the involved ones changes. A node that is deleted or re-added is first detached from wherever it was and is left self-linked when removed.',
 ['inputs','histories'],'all lists of any length and all positions of the nodes involved',
 'tests exercise short lists only; link consistency has to hold for any length and aliasing of neighbours',
 ['linked-list/sc_list.h','linked-list/sc_list.c'],[('link surgery','linked-list/sc_list.c')])
p('C10','Timers fire exactly once, never early, and never after cancel',
 'Whatever the history of additions, cancellations and polls, each added timer is delivered to the callback at most once with its own type and data, never before its deadline and never after it was cancelled, and is delivered once the clock passed handed to polling has moved a full revolution beyond its deadline. Timer ids identify their timer until it fires or is cancelled, adding a timer never disturbs others even when storage grows, and running out of memory is reported and leaves existing timers intact.',
 ['inputs','histories','fault_sequences'],'all wheel states satisfying the representation invariant, all deadlines and poll times, every allocation failure',
 'slot collisions, revolutions and growth while timers are pending give unbounded histories',
 ['timer/sc_timer.c'],[('hashed wheel','timer/sc_timer.c: sc_timer_add, sc_timer_cancel, sc_timer_timeout, expand')])
p('C11','Length-prefixed strings: exact results, or unchanged on failure',
 'String creation, duplication, append, set, substring, replace, trim, comparison and length operations produce exactly the documented byte result for all inputs, with the stored length and the terminator consistent with the content. When memory runs out or an argument is invalid the operation reports failure and the original string stays valid and unchanged.',
 ['inputs','fault_sequences'],'all byte strings of any length, all index ranges, every allocation failure',
 'edge cases (empty pattern, overlapping pattern, whole-string match, growth versus shrink) multiply; tests list a few',
 ['string/sc_str.c'],[('prefix layout','string/sc_str.c: sc_str_create_len, sc_str_append_fmt, sc_str_substring, sc_str_replace, sc_str_trim')])
p('C12','Tokenizing visits all tokens in order and restores the string',
 'Tokenizing a string with any delimiter set yields in order exactly the maximal pieces between delimiter characters, each NUL-terminated while current, never reads or writes outside the string, and when the iteration runs to its end the string is byte for byte what it was before.',
 ['inputs'],'all strings and delimiter sets','tests use a few strings; delimiters at ends, repeated delimiters and empty strings combine',
 ['string/sc_str.c'],[('tokenizer','string/sc_str.c: sc_str_token_begin, sc_str_token_end')])
p('C13','URI parsing splits its input without loss and stays in bounds',
 'For every input string, URI creation either rejects it or returns components (scheme, user info, host, port, path, query, fragment) such that reassembling them with their separators yields the input, every component is NUL-terminated inside the single returned block, and characters after the authority never influence authority components. Parsing never touches memory outside the input and the returned block, and a failure releases everything.',
 ['inputs','fault_sequences'],'all input strings, every allocation failure','separator characters may occur in any component; tests list a few dozen URIs',
 ['uri/sc_uri.c'],[('component splitting','uri/sc_uri.c: sc_uri_create')])
p('C14','INI parsing reports every key/value with its own section, in bounds',
 'For every input text the parser reports, in order, exactly the key/value pairs the text defines, each with its line number, the most recent section name and trimmed text, stops at the first callback rejection or syntax error with the corresponding code, and never reads or writes outside its own line storage. Lines longer than the storage and unterminated constructs never corrupt memory.',
 ['inputs'],'all input texts and callback answers','comment characters, quoting, continuation and long lines combine freely; tests list a few files',
 ['ini/sc_ini.c'],[('line parser','ini/sc_ini.c: sc_ini_parse, sc_ini_parse_string')])
p('C15','Checksum equals CRC-32C for every buffer, alignment and split',
 'For every byte string, every start address and every initial value, the checksum equals the CRC-32C (reflected polynomial 0x82f63b78) of the bytes, in both the table-driven and the processor-assisted implementation. Consequently checksumming in pieces, passing the previous result on, equals checksumming the whole.',
 ['inputs','configurations'],'all byte strings of any length, all alignments, all split points, both implementations',
 'the implementation switches strategy by length and alignment; tests check a few lengths',
 ['crc32/sc_crc32.c'],[('software tables','crc32/sc_crc32.c'),('hardware path','crc32/sc_crc32.c')])
p('C16','Signal-safe formatting stays in bounds and prints exactly',
 'Formatting with the signal-safe formatter writes at most the given number of bytes including the terminating zero, for any format text, arguments and size, and returns the produced length or a failure. When the output fits, integers (including the most negative) are printed exactly in decimal or hexadecimal and strings and characters verbatim.',
 ['inputs'],'all format strings, argument values and buffer sizes','tests check a few values; boundaries of buffer size against every conversion are not sampled',
 ['signal/sc_signal.c'],[('formatter','signal/sc_signal.c: sc_signal_vsnprintf, sc_signal_snprintf, sc_signal_log')])
p('C17','Command line parsing classifies every argument and stays in bounds',
 'For every argument string and option table, parsing returns the letter of the option it matches exactly (short or long form, with the value part when the option takes one), the documented error marker otherwise, and never reads beyond the strings it was given.',
 ['inputs'],'all argument strings and option tables','prefixes, missing values and empty arguments combine; tests list a few',
 ['option/sc_option.c'],[('matcher','option/sc_option.c: sc_option_at, sc_option_value')])
p('C18','Numeric helpers are exact for every input',
 'Power-of-two rounding returns the least power of two not below its argument for every argument that has one, the pseudo-random stream depends only on the seed and the number of bytes drawn so far and never touches bytes outside the requested ones, and size text conversion returns exactly number times unit or reports an error, in both directions without overflow.',
 ['inputs','histories'],'all 64-bit integers, all seeds and chunkings, all strings','tests check a few values; overflow boundaries need all of 2^64',
 ['sc/sc.c','sc/sc.h'],[('helpers','sc/sc.c: sc_to_pow2, sc_rand_init, sc_rand_read, sc_size_to_bytes, sc_bytes_to_size')])
p('C19','Failed set-up releases everything it acquired, exactly once',
 'When any system call or allocation inside opening a memory map, pipe, socket, poller, condition, mutex or thread fails, the operation reports failure with a message, every descriptor, mapping, lock object and block it had acquired is released exactly once, and the object is left in a state on which termination is safe. On success nothing is released and termination releases everything exactly once.',
 ['fault_sequences','inputs'],'every position at which a system call or allocation can fail, all arguments','tests inject a few failures; leaks and double closes on the other paths stay invisible',
 ['memory-map/sc_mmap.c','socket/sc_sock.c','condition/sc_cond.c','mutex/sc_mutex.c','thread/sc_thread.c'],[('error paths','sc_mmap_init, sc_sock_pipe_init, sc_sock_poll_init, sc_sock_listen, sc_sock_connect, sc_sock_accept, sc_cond_init, sc_mutex_init, sc_thread_start')])
p('C20','Poll interest stays consistent with what the kernel was told',
 'After any history of additions and removals of read/write interest on a descriptor, the recorded interest equals the interest registered with the kernel, each change issues exactly the add, modify or remove the transition needs, the user data handed back is that of the last change, and a failing kernel call leaves the recorded interest unchanged and is reported.',
 ['histories','fault_sequences','inputs'],'all interest masks and transitions, every kernel failure','tests exercise a few transitions; every mask pair with and without failure must be right',
 ['socket/sc_sock.c'],[('interest tracking','socket/sc_sock.c: sc_sock_poll_add, sc_sock_poll_del, sc_sock_poll_op, sc_sock_poll_event')])
p('C21','Condition object hand-off: lock discipline and no lost signal',
 'Signalling stores the datum and marks completion while holding the lock and wakes a waiter; waiting returns the datum only after completion was marked, re-checks after every wake-up, resets the mark for the next use, and every path releases the lock it took. Hence under any interleaving a signal sent before or during a wait is neither lost nor consumed twice.',
 ['schedules','histories'],'all interleavings, through a lock invariant that every critical section preserves','thread tests sample a few schedules; spurious wake-ups hardly ever occur in tests',
 ['condition/sc_cond.c'],[('monitor','condition/sc_cond.c: sc_cond_signal, sc_cond_wait')])
p('C22','Logger delivers exactly the enabled lines and rotates within its bound',
 'A log call reaches the standard output, file and callback sinks exactly when its level is at or above the configured level and the sink is enabled, each sink receives the line once, and every path takes and releases the lock in balance. When the current file passes the configured size it becomes the previous file and a fresh one is opened; a failure at any step is returned and leaves the logger usable.',
 ['inputs','histories','fault_sequences'],'all levels, sink configurations, sizes and failures of the C library calls','tests log a few lines; the rotation boundary and failing library calls are not sampled',
 ['logger/sc_log.c'],[('dispatch','logger/sc_log.c: sc_log_log, sc_log_file, sc_log_set_file, sc_log_set_level')])
p('C23','Clock readings convert exactly and sleeping lasts despite interruptions',
 'Clock functions return the seconds and nanoseconds reported by the system combined exactly, without overflow, in the requested unit, and sleep requests the full duration and, when interrupted by a signal, continues with exactly the remaining time until it elapsed or an actual error is reported.',
 ['inputs','fault_sequences'],'all clock readings and durations, any number of interruptions','interruption sequences and large values are not sampled by tests',
 ['time/sc_time.c'],[('conversions','time/sc_time.c: sc_time_ms, sc_time_ns, sc_time_mono_ms, sc_time_mono_ns, sc_time_sleep')])
p('C24','Memory map sync and locks cover the whole requested range',
 'Synchronizing a sub-range of a mapped file hands the kernel a page-aligned range that contains every byte of the requested range and stays within the mapping, and locking or unlocking hands over exactly the requested range. Mapping a file gives the descriptor the requested length before it is mapped.',
 ['inputs'],'all offsets, lengths and page sizes','tests cannot see what the kernel was asked to sync; a missing tail shows only at a power failure',
 ['memory-map/sc_mmap.c'],[('alignment','memory-map/sc_mmap.c: sc_mmap_msync, sc_mmap_mlock, sc_mmap_munlock, sc_mmap_init')])
p('C25','Socket and pipe transfers report exactly what happened',
 'Sending and receiving return the number of bytes the kernel transferred, retry when interrupted, report would-block as retry-later and a closed peer or any other failure as error, and never transfer bytes outside the given buffer. Finishing a connect reports success only if the kernel says that the connection was established.',
 ['inputs','fault_sequences'],'all lengths, flags and kernel results including any number of interruptions','error codes and interruptions are rarely produced in tests',
 ['socket/sc_sock.c'],[('transfer loops','socket/sc_sock.c: sc_sock_send, sc_sock_recv, sc_sock_pipe_read, sc_sock_pipe_write, sc_sock_finish_connect')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P:
        assert len(d['title'])<=80,d['id']
        f.write(json.dumps(d)+'\n')
print(len(P))
