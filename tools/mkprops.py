#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json, os
R = 'src/reactor/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

prop('C01', 'A byte buffer is exactly the byte sequence its edits describe',
 'After any sequence of insert, fill-insert, erase, resize, reserve, compact and clear operations, a buffer holds exactly the bytes an ideal byte sequence would hold, reports its exact size, and has capacity at least its size and at least what was reserved. Reserving and compacting never change content, growing keeps all existing bytes, compacting leaves no excess capacity, and clearing or destroying it returns all of its memory.',
 ['inputs', 'histories'], 'all operation sequences, positions, lengths from zero to several megabytes, fill counts and element sizes',
 'test/buffer.c runs one fixed sequence on short strings; growth boundaries, zero-length edits, edits after compaction and long histories are never reached.',
 [R+'buffer.c', R+'buffer.h'], [('power-of-two growth and realloc', R+'buffer.c buffer_reserve/buffer_compact'), ('memmove based insert and erase', R+'buffer.c buffer_insert, buffer_insert_fill, buffer_erase')])
prop('C02', 'A vector is an exact sequence of objects and releases each object once',
 'After any sequence of insertions (one, a range, a fill, at any position), erasures, pushes, pops, reservations and shrinks, a vector of objects of any size holds exactly the objects of an ideal sequence, in order, at the reported size. The release function is called exactly once for every object removed by an erase, pop, clear or destruction, with that object\'s content intact, and never for an object that stays; all memory is returned on destruction.',
 ['inputs', 'histories'], 'all operation sequences over vectors with object sizes 1..64, all positions and ranges including empty ones',
 'test/vector.c uses one integer vector and a few fixed positions; it does not track which objects are released nor odd object sizes.',
 [R+'vector.c', R+'vector.h', R+'buffer.c'], [('byte offset = position times object size over a buffer', R+'vector.c'), ('release before erase', R+'vector.c vector_erase, vector_erase_range')])
prop('C03', 'A linked list keeps order in both directions and never moves its objects',
 'After any sequence of pushes, insertions before any element, erasures, moves of an element to another place (also between lists) and clears, walking a list forwards and backwards yields the same ideal sequence in opposite orders, and searching returns the first matching element or nothing. An object\'s address and content stay valid until that object is erased, and the release function is called exactly once per erased object with its content intact.',
 ['inputs', 'histories'], 'all operation sequences over several lists, object sizes, with or without initial content',
 'test/list.c walks a handful of fixed lists, mostly forwards; splices between lists, backward links and address stability under long histories are not covered.',
 [R+'list.c', R+'list.h'], [('circular doubly linked items with the list head as sentinel', R+'list.c list_insert, list_splice, list_erase')])
prop('C04', 'Hash maps behave as finite maps under every insert/erase history',
 'For the generic, integer-keyed and string-keyed maps, after any history of insert, erase, reserve and clear, lookup returns the value stored for exactly the keys present (zero/empty otherwise), the size equals the number of distinct keys, and iterating visits each present entry exactly once. Inserting a present key keeps the stored entry and hands the rejected duplicate to the release function; every entry that leaves the map by erase, clear or destruction is released exactly once, and no operation on one key ever loses or changes another, whatever their hash values.',
 ['inputs', 'histories'], 'all histories over arbitrary key sets including adversarial hash collisions, wrap-around clusters and growth at any point',
 'the tests insert sequential keys; erasing from colliding clusters that wrap around the table is one of many shapes and depends on the hash values.',
 [R+'map.c', R+'mapi.c', R+'maps.c', R+'map.h', R+'mapi.h', R+'maps.h'], [('open addressing with linear probing and backward-shift deletion', R+'map.c map_at, map_erase'), ('growth at half load', R+'map.c map_reserve, map_rehash')])
prop('C05', 'Hash functions are fixed, published functions of the hashed bytes alone',
 'Hashing a byte string gives the 64-bit FarmHash (na variant) of exactly those bytes, for every length, regardless of alignment, surrounding memory or earlier calls, and reads no byte outside the string; hashing a zero-terminated string equals hashing its bytes without the terminator. Hashing a 64-bit integer gives the MurmurHash3 64-bit finalizer of that integer, a bijection.',
 ['inputs'], 'all byte strings of every length and alignment, and all 64-bit integers',
 'test/hash.c checks a few lengths against recorded values; the function has distinct code per length class (0-3, 4-7, 8-16, 17-32, 33-64, 65+ with tails).',
 [R+'hash.c', R+'hash.h'], [('length-class specific mixing', R+'hash.c'), ('murmur finalizer', R+'hash.c hash_uint64')])
prop('C06', 'String editing matches an ideal string and keeps the terminator',
 'After any sequence of insert, prepend, append, erase, resize, allocate, replace-first, replace-all and copy operations, a string holds exactly the bytes (embedded zeros included) of an ideal string, its reported size is exact, a zero byte follows the last byte, and capacity is never below size. Finding returns the first occurrence at or after the given position (nothing for an absent or empty pattern), replace-all replaces non-overlapping occurrences from left to right without re-examining replacements, and two strings are equal exactly when their bytes are.',
 ['inputs', 'histories'], 'all operation histories with arguments that do not alias the edited string, including empty strings, empty patterns and replacements',
 'test/string.c uses a dozen literals; overlapping patterns, empty arguments, shrinking and growth transitions are barely sampled.',
 [R+'string.c', R+'string.h'], [('size/capacity header before the characters', R+'string.c'), ('memmem based search', R+'string.c string_find_at_data')])
prop('C07', 'Strings survive a round trip through files and descriptors unchanged',
 'Writing a string to a descriptor delivers every byte exactly once and in order even when the system accepts only part of it at a time; saving to an existing file leaves exactly the string\'s bytes as the file\'s content; and reading or loading returns all bytes up to end of file however the data is fragmented. Saving to a path that cannot be opened reports failure and loading one yields an empty string; no descriptor or memory is leaked, also for strings that were emptied by editing.',
 ['inputs', 'fault_sequences'], 'all contents and sizes, all previous file contents, all patterns of short reads and writes',
 'test/string.c writes tiny strings in one system call; partial writes and stale file tails do not occur.',
 [R+'string.c'], [('write and read loops', R+'string.c string_write, string_read'), ('open flags', R+'string.c string_save, string_load')])
prop('C08', 'Unsigned 32-bit integers are formatted as exact decimal',
 'For every 32-bit unsigned integer the reported length is its number of decimal digits, the backwards print writes exactly those digits ending right before the given position, and the forward print writes the digits and a terminating zero; no other byte is touched.',
 ['inputs'], 'all 2^32 integers', 'test/utility.c samples a few values; digit-count boundaries are computed by bit tricks.',
 [R+'utility.c', R+'utility.h'], [('digit count by leading-zero count', R+'utility.c utility_u32_len'), ('two-digit table', R+'utility.c utility_u32_sprint')])
prop('C09', 'Data slices and the write pointer are exact views without hidden effects',
 'Selecting, consuming, comparing, prefix-testing and offsetting data slices agree with the corresponding operations on ideal byte strings for all contents and sizes (equality and prefix depend only on length and bytes, embedded zeros included), never copy, and never touch memory outside the slice. Allocated slices are zeroed and freed completely, and pushing data or bytes through a write pointer stores exactly those bytes in order and advances by exactly their number.',
 ['inputs', 'histories'], 'all slices over arbitrary buffers and all sequences of pushes', 'test/data.c and test/pointer.c check one or two literals.',
 [R+'data.c', R+'pointer.c', R+'data.h', R+'pointer.h'], [('base/size pairs', R+'data.c'), ('memcpy and advance', R+'pointer.c')])
prop('C10', 'HTTP requests are parsed exactly as the request grammar says',
 'For every byte string, reading a request reports complete (with the exact length of the head), incomplete, or invalid exactly as the HTTP/1.x request grammar of this parser dictates, whatever follows the head and whichever processor-specific code path is used. When complete, method, target, and every header name and value (in order, values stripped of surrounding blanks, continuation lines kept as nameless fields) are the exact byte ranges of the input, and requests with more header fields than the caller provides room for are invalid.',
 ['inputs'], 'all byte strings, all field limits, both the vectorised and the portable code path',
 'test/http.c parses a few well-formed messages, and only in the non-SSE4.2 build; the library ships with the vectorised path.',
 ['src/picohttpparser/picohttpparser.c', R+'http.c'], [('token scanning with SSE4.2 ranges or byte loop', 'src/picohttpparser/picohttpparser.c findchar_fast, ADVANCE_TOKEN, get_token_to_eol'), ('field conversion', R+'http.c http_read_request_data')])
prop('C11', 'HTTP responses are parsed exactly as the response grammar says',
 'For every byte string, reading a response reports complete (with the exact head length), incomplete, or invalid exactly as the HTTP/1.x status-line and header grammar of this parser dictates, whatever follows the head and whichever code path is used. When complete, the three-digit status code, the reason phrase without leading blanks, and all header fields are the exact ranges of the input.',
 ['inputs'], 'all byte strings, all field limits, both code paths',
 'test/http.c parses one or two fixed responses.',
 ['src/picohttpparser/picohttpparser.c', R+'http.c'], [('status line parsing', 'src/picohttpparser/picohttpparser.c parse_response, parse_http_version'), ('header parsing', 'src/picohttpparser/picohttpparser.c parse_headers')])
prop('C12', 'HTTP parsing never reads outside its input and is stable as input grows',
 'Parsing a request, a response or a header block never reads a byte outside the given range nor writes to it, and every reported slice lies inside the range. While more bytes arrive, the verdict moves only from incomplete to complete or invalid and then never changes, a complete verdict always has the same length and slices, and telling the parser how much was seen before gives the same final result as parsing afresh.',
 ['inputs', 'histories'], 'all byte strings at exact-size memory boundaries, all ways to cut them into arriving pieces',
 'the tests parse string literals with readable bytes after them and never feed prefixes systematically.',
 ['src/picohttpparser/picohttpparser.c'], [('end-of-input checks', 'src/picohttpparser/picohttpparser.c CHECK_EOF'), ('completeness pre-check', 'src/picohttpparser/picohttpparser.c is_complete')])
prop('C13', 'HTTP messages are serialised exactly and read back as written',
 'Writing a request or response appends exactly the serialised message (start line; Host, or Server and Date; Content-Type when a body or type calls for it; Content-Length equal to the body size; blank line; body) after whatever output was already queued, whatever the lengths of its parts. Parsing what was written returns the same method, target, status and header values, and leaves exactly the body.',
 ['inputs', 'histories'], 'all part lengths (method, target, host, type, date, status, body up to megabytes) and all queued outputs',
 'test/http.c writes two messages; buffer sizing is arithmetic over the part lengths that a single sample cannot settle.',
 [R+'http.c', R+'stream.c', R+'pointer.c', R+'utility.c'], [('size precomputation and unchecked pushes', R+'http.c http_write_request, http_write_response'), ('output reservation', R+'stream.c stream_allocate')])
prop('C14', 'Header lookup is case-insensitive and returns the first exact match',
 'Looking up a name among header fields returns the value of the first field whose name has the same length and the same letters ignoring ASCII case, and an empty result if there is none; it never matches a prefix or extension of a name and never reads outside the fields.',
 ['inputs'], 'all field lists (0..N fields, duplicated, empty and nameless fields) and all names', 'test/http.c looks up one present and one absent name.',
 [R+'http.c'], [('length check and case-insensitive compare', R+'http.c http_field_lookup')])
prop('C15', 'Chunked bodies decode to the original bytes under every fragmentation',
 'For every body, every division into chunks (sizes in any hex case, with leading zeros and extensions, trailers consumed or not) and every fragmentation of the encoded bytes into successive calls, decoding yields exactly the original bytes, reports completion exactly at the terminating chunk, and leaves exactly the bytes that follow. Malformed chunk sizes and missing line ends are reported as errors, the same way under every fragmentation, and no byte outside the supplied buffer is touched.',
 ['inputs', 'histories'], 'all bodies, chunkings, extensions, trailers, following data and cut points', 'no existing test calls the chunked decoder.',
 ['src/picohttpparser/picohttpparser.c', 'src/picohttpparser/picohttpparser.h'], [('resumable state machine, in-place compaction', 'src/picohttpparser/picohttpparser.c phr_decode_chunked')])
prop('C16', 'The event loop calls only live handlers, and every ready one',
 'Each iteration of the loop calls the handler of every ready descriptor with its own state (at most once per iteration), and every descriptor that stays ready is served within a bounded number of iterations however many are ready. A handler removed earlier, even by another handler in the same iteration, is never called again for the removed registration, handlers may add, modify, remove and re-register descriptors from inside callbacks, and no other registration is disturbed.',
 ['histories', 'schedules'], 'all histories of register, modify, unregister and readiness changes, from inside and outside callbacks, with one to hundreds of descriptors',
 'test/core.c has one removal race with two descriptors; batches larger than one wait call and removal/re-registration mixes are not reached.',
 [R+'core.c'], [('neutralising pending events on removal', R+'core.c reactor_delete'), ('batch dispatch', R+'core.c reactor_loop_once')])
prop('C17', 'The loop ends exactly when it should and its clock is fresh and consistent',
 'Running the loop returns exactly when no descriptors remain registered or when it was aborted (from a callback or by an interrupt or termination signal), finishing the current batch first and never returning otherwise, and an iteration interrupted by other signals does no harm; programs the process executes do not inherit the loop. The loop\'s clock gives the real time in nanoseconds, never changes within one iteration, is not older than the moment the wait of the current iteration ended, and is refreshed for every iteration.',
 ['histories', 'schedules'], 'all histories of registrations, removals, aborts and signals; all clock values',
 'test/core.c starts one loop and one signal; it never varies the clock nor where the abort comes from.',
 [R+'core.c'], [('loop condition', R+'core.c reactor_loop'), ('lazy cached time', R+'core.c reactor_now'), ('signal handlers', R+'core.c reactor_construct')])
prop('C18', 'Descriptors deliver exactly the subscribed events and close exactly once',
 'An open descriptor reports readability, writability and peer hang-up according to its current mask and the real state of the file (once per edge, or repeatedly in level mode), to its own handler and state. After it is closed or destroyed, also from within any callback, it reports nothing, its file descriptor has been closed exactly once, and it can be opened again; changing the mask takes effect from the next iteration.',
 ['histories', 'schedules'], 'all histories of open, mask, close, peer writes, reads and hang-ups over several descriptors',
 'test/descriptor.c drives one pipe through a fixed script.',
 [R+'descriptor.c', R+'core.c'], [('mask to event set', R+'descriptor.c descriptor_events'), ('event translation', R+'descriptor.c descriptor_callback')])
prop('C19', 'Timers never fire early, never miss, and honour re-arming and clearing',
 'A timer armed with a delay and an interval first fires no earlier than the delay and, if the interval is non-zero, keeps firing so that the reported expirations add up to exactly the number of elapsed periods (one in total if the interval is zero). Arming again replaces the previous schedule, a cleared or destroyed timer never fires, and arming or clearing any timer from within any timer\'s callback is safe and takes effect at once. Programs the process executes do not inherit a timer.',
 ['histories', 'schedules', 'inputs'], 'all delay/interval pairs, and all histories of set, clear, re-arm, from inside and outside callbacks, over several timers',
 'test/timer.c arms one timer; re-arming a timer whose expiration is pending in the same batch is never tried.',
 [R+'timer.c', R+'descriptor.c'], [('timerfd with drained count', R+'timer.c timer_callback, timer_set')])
prop('C20', 'Event signals from any thread are never lost and never invented',
 'After an event is signalled, by any thread, while it is open, its callback runs at least once afterwards on the loop\'s thread, however many threads signal concurrently; it runs at most once per signal and never without one. After the event is closed it is never called, and it can be opened again without seeing old signals. Programs the process executes do not inherit it.',
 ['schedules', 'histories'], 'all interleavings of signals from up to eight threads with loop iterations, closes and reopens',
 'test/event.c signals once from the loop thread.',
 [R+'event.c', R+'descriptor.c'], [('eventfd read/write', R+'event.c event_signal, event_callback')])
prop('C21', 'File watches report every change, in order, with the right path and name',
 'Every file system change selected by a watch is reported exactly once, in the order it happened, with the watch\'s identity, the path it was registered with, the affected name and the change mask. No change made before the watch or after it was cleared is reported, clearing or destroying the watcher inside its callback is safe and final, re-watching reports the new paths, and watching a missing path fails without side effects; losing events to a full kernel queue never brings the process down, and programs the process executes do not inherit the watcher.',
 ['histories', 'inputs'], 'all histories of watches, clears and file operations over several directories and files with names of any length',
 'test/notify.c opens /bin once; it compares no names or paths and never re-watches.',
 [R+'notify.c'], [('watch table', R+'notify.c notify_watch'), ('record walk and cancellation flag', R+'notify.c notify_callback')])
prop('C22', 'Asynchronous calls run once elsewhere, then complete once on the loop',
 'An asynchronous call runs its work exactly once on another thread and afterwards reports completion exactly once on the loop\'s thread, with everything the work wrote visible, and can then be called again. After it is cancelled or destroyed, at whatever stage the work is, no completion is reported, the work no longer uses the caller\'s memory, and no thread or descriptor is left behind.',
 ['schedules', 'histories'], 'all stages of the work (not started, running, blocked, finished but not reported, reported) at which cancel, destroy or a new call can happen; many calls at once',
 'test/async.c makes two calls and is itself racy; it is excluded from the stable tests.',
 [R+'async.c', R+'event.c'], [('worker thread and completion event', R+'async.c async_thread, async_callback, async_cancel')])
prop('C23', 'Name resolution reports the system\'s answer once, without blocking the loop',
 'A lookup reports success exactly when the system resolver finds addresses for that host, service, family, socket type, protocol and flags, with the same address list, and failure otherwise, exactly once and on the loop\'s thread. A new lookup replaces a pending one, a cancelled or destroyed resolver reports nothing, the caller\'s strings may change right after the call, and all results and strings are released.',
 ['inputs', 'histories', 'schedules'], 'all hosts (numeric, named in the hosts file, invalid, absent), services and hints; all histories of lookup, cancel, clear',
 'test/resolver.c does two lookups and only checks that the callback ran.',
 [R+'resolver.c', R+'async.c', R+'net.c'], [('copied arguments and asynchronous getaddrinfo', R+'resolver.c resolver_lookup, resolver_callback')])
prop('C24', 'Socket and TLS-context helpers return usable objects or fail cleanly',
 'Creating a socket from a resolved address yields a non-blocking socket that is listening there (passive) or connecting there (active, where an unreachable peer shows as a disconnect on the socket), or reports failure if creating, binding or listening fails; the socket has the family, type and protocol of the address; clients can connect to a passive one before anyone accepts, several passive sockets can share an address, and lingering connections of an earlier listener do not prevent one; it always consumes the address and never leaks or wrongly closes a descriptor. Creating a TLS server context succeeds exactly when certificate and private key can be loaded and match, and releases everything otherwise.',
 ['inputs', 'fault_sequences'], 'all families, types, flags, occupied ports, injected failures of each system call; all combinations of valid, mismatched, corrupt and missing key files',
 'test/net.c tries a few combinations and injects no failures.',
 [R+'net.c'], [('socket set-up', R+'net.c net_socket'), ('key loading', R+'net.c net_ssl_server_context')])
prop('C25', 'A plain stream delivers every byte exactly once and in order, both ways',
 'Whatever is written to a stream is sent to the peer completely, once and in order, however writes and flushes are split, however slowly the peer reads and however large the backlog; whatever the peer sends can be read completely, once and in order, consuming any amount at any time, with unconsumed bytes kept. What is written before the stream is opened goes out once it is open. This holds on sockets and pipes, for zero-length operations, and after closing and reopening the stream on another descriptor, and no flushed byte is left unsent while the peer keeps reading.',
 ['histories', 'inputs', 'schedules'], 'all histories of write, allocate, flush, consume and peer reads and writes, with tiny socket buffers and messages up to megabytes',
 'test/stream.c sends one message per direction with default socket buffers, so writes never go partial.',
 [R+'stream.c', R+'buffer.c', R+'descriptor.c'], [('read until drained', R+'stream.c stream_socket_read'), ('partial write handling and write subscription', R+'stream.c stream_socket_write, stream_socket_update')])
prop('C26', 'A TLS stream delivers every byte exactly once and in order, both ways',
 'Over TLS, as server and as client, whatever is written and flushed before, during or after the handshake arrives at the peer completely, once and in order, and whatever the peer sends can be read completely and in order, however the encrypted bytes are fragmented and however slowly the peer reads. Garbage instead of TLS never yields data and never harms other streams.',
 ['histories', 'inputs', 'schedules'], 'all histories as for plain streams, with arbitrary fragmentation of the encrypted stream, handshake timing and TLS version',
 'test/stream.c and test/server.c exchange one small message over TLS; nothing exceeds one record or one socket buffer.',
 [R+'stream.c', R+'net.c'], [('record loop', R+'stream.c stream_ssl_read, stream_ssl_flush'), ('readiness mask', R+'stream.c stream_ssl_mask')])
prop('C27', 'Stream notifications and closing are exact, and disconnects are harmless',
 'A requested write notification is reported exactly once per request, only after all queued output has been handed to the system, and no notification is reported that was not requested; the peer\'s disconnect is reported as a close event after the data that preceded it was made available. Closing or destroying a stream inside any of its callbacks is safe, closes its descriptor exactly once, discards its buffers and reports nothing afterwards, and a peer that disconnects or resets at any moment never brings the process down.',
 ['histories', 'fault_sequences', 'schedules'], 'all histories of notify, write, flush, close, destroy and peer close/reset, on sockets and pipes, plain and TLS',
 'test/stream.c closes once in a fixed order; no test resets a connection while output is pending.',
 [R+'stream.c', R+'descriptor.c'], [('notify flag and close', R+'stream.c stream_notify, stream_close, stream_socket_callback')])
prop('C28', 'The server answers every request once, in order, however bytes arrive',
 'For every sequence of valid requests on a connection and every way the bytes are split or pipelined, the application is given each request exactly once, in order, with its exact method, target and header fields, the next one only after the previous was answered, and the client receives exactly one response per request, in order, with the given status, type and body. This holds whether the application answers inside the callback or later, in any order across connections, for responses of any size, and for slow clients.',
 ['inputs', 'histories', 'schedules'], 'all request sequences, segmentations, response sizes, immediate and deferred answers over several connections',
 'test/server.c sends a few whole requests per connection and answers with tiny bodies.',
 [R+'server.c', R+'http.c', R+'stream.c'], [('request state machine', R+'server.c server_request_update, server_request_read, server_respond'), ('parsing', R+'http.c http_read_request_data')])
prop('C29', 'Malformed requests get one 400 and a close, and nothing else suffers',
 'When a connection carries an invalid request, including one with more header fields than supported, after any number of valid ones, all earlier requests are answered in order, then exactly one bad-request response is sent, the connection is closed, and nothing after the invalid request reaches the application. No input from one client, however malformed, affects the responses on other connections, crashes the server or leaks memory or descriptors.',
 ['inputs', 'histories'], 'all byte streams, segmentations and mixes of valid and malformed connections',
 'test/server.c sends one malformed request.',
 [R+'server.c', 'src/picohttpparser/picohttpparser.c'], [('invalid verdict handling', R+'server.c server_request_read, server_bad_request')])
prop('C30', 'Server connections and held requests have memory-safe lifetimes',
 'At any point - waiting, inside the application\'s callback, or while an answer is outstanding - the client may disconnect, the application may close the connection, hold and release references, answer (also after a disconnect), or shut the server down, and every held request stays valid until it is released. No response is sent to a closed connection, every connection\'s descriptor and memory are released once nobody holds them, shutdown closes all connections and stops accepting, leaves nothing of the server that would keep the loop running, may be repeated, and the server can be opened again.',
 ['histories', 'schedules', 'fault_sequences'], 'all histories of connect, request, answer, hold, release, close, disconnect, reset, shutdown and reopen over several connections',
 'test/server.c covers three fixed orders; holding across shutdown or disconnect is never combined.',
 [R+'server.c', R+'stream.c', R+'list.c'], [('reference counting', R+'server.c server_hold, server_release, server_close, server_shutdown')])
prop('C31', 'Every response carries a well-formed and current Date header',
 'Every response\'s Date header is the HTTP date (weekday, zero-padded day, English month, four-digit year, time, GMT) of a real instant, with the weekday matching the date, for every calendar date the clock can show, also for responses sent before the first loop iteration or on directly accepted connections. It is never older than the server\'s one-second refresh period while the loop is running.',
 ['inputs', 'histories'], 'all instants from 1970 to 9999 including leap days and year ends; any response time relative to the refresh', 'test/server.c never looks at the date.',
 [R+'server.c', R+'http.c', R+'timer.c'], [('date formatting and one-second refresh', R+'server.c server_date_update, server_timer_callback')])
prop('C32', 'Over TLS the server behaves exactly as over a plain connection',
 'For every sequence of requests and every fragmentation, a server opened with a TLS context gives the application the same requests and the client the same responses as a plain server would, including pipelining, deferred answers, large responses, malformed requests and closes. A client that speaks garbage or disconnects during the handshake harms no other connection.',
 ['inputs', 'histories', 'schedules'], 'all request sequences, TLS fragmentations, deferred answers and client faults', 'test/server.c runs the same few requests over TLS once.',
 [R+'server.c', R+'stream.c', R+'net.c'], [('TLS accept path', R+'server.c server_ssl_open, server_ssl_accept'), ('TLS stream', R+'stream.c')])
prop('C33', 'Event loops in different threads are completely independent',
 'Loops running in different threads, each with its own timers, streams, events, server and clock, never see each other\'s events or times, and constructing, running, aborting or destroying one never affects another. Maps, lists, vectors, strings, parsers and formatters used by one thread are untouched by what other threads do with theirs. Each thread\'s history has the same outcome as when it runs alone.',
 ['schedules', 'histories'], 'all interleavings of 2..8 threads running independent generated workloads', 'no test starts two loops.',
 [R+'core.c', R+'server.c', R+'stream.c'], [('thread-local loop state', R+'core.c reactor_core, src/reactor/server.c server_date_string')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
open(out, 'w').write(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
print(len(P))
