T = 'core/traps/'
L = 'core/event_loop/'
N = 'core/protocols_and_transports/'

P('F01', 'A future settles once and notifies every callback exactly once',
  'A future is settled at most once, by a result, an exception or a cancellation; any later attempt to settle it '
  'either raises an invalid-state error (plain setters) or reports that it did nothing (the if-pending setters and '
  'cancel), and the outcome every reader sees never changes afterwards. Every callback that was added and not removed '
  'is called exactly once, with that future, by the event loop after the future has settled - never synchronously from '
  'the call that registered it or that settled the future; removing a callback reports how many registrations were '
  'removed and those are not called. Reading the outcome of a pending future raises an invalid-state error.',
  ('histories', 'schedules'),
  'for every sequence of settle / cancel / add / remove / read calls and loop cycles on a future',
  'the tests call each method once or twice in fixed orders; interleavings of setters, cancel, add/remove callback and '
  'loop cycles are not enumerated',
  [T + 'future.py', T + 'future_states.py'],
  [('set_result / set_exception / cancel and their if-pending forms', T + 'future.py'),
   ('_schedule_callbacks', L + 'event_loop.py')],
  [('_state', 'outcome flags', T + 'future.py'), ('_callbacks', 'registered callbacks', T + 'future.py')])

P('F02', 'A task steps its coroutine correctly and never loses a cancellation',
  'A task resumes its coroutine exactly once per awaited future, with exactly the result or exception of that future, '
  'and settles with the coroutine\'s return value or with the exception that left it. A cancellation requested on an '
  'unfinished task reaches the coroutine as a cancellation error at its current suspension point (or before its first '
  'step; a task being awaited is asked first and may handle it itself) even if the awaited future settles in the same '
  'loop cycle, cancels the future being awaited, and leaves the '
  'task cancelled when the coroutine lets it through, or finished with another exception if the coroutine raises one. '
  'Finished tasks ignore cancellation, and a task is no longer the loop\'s current task once its step returned.',
  ('schedules', 'histories', 'programs'),
  'for every interleaving of future settlement, task cancellation and loop steps over small task programs',
  'tests run a handful of straight-line coroutines; cancel racing with wake-up in every position is not enumerated',
  [T + 'task.py', T + 'future.py'],
  [('_step / _wake_up', T + 'task.py'), ('cancel / cancel_with', T + 'task.py')],
  [('_waited_future', 'future the task is suspended on', T + 'task.py'), ('_state', 'outcome and cancel flags', T + 'task.py')])

P('F03', 'Timeouts, sleeps and shields fire exactly when due',
  'A timeout applied to a future turns it into a timeout error if and only if the future is still pending when the '
  'delay elapses - never earlier, and never changing an outcome that was already set; sleeping resumes the sleeper '
  'not before its delay. A shielded future mirrors the outcome of the shielded one, while cancelling the shield '
  'leaves the shielded future running. A repeated timeout expires exactly when one whole period passes without a '
  'renewal, and then raises a timeout error in the code it guards and only there.',
  ('schedules', 'histories'),
  'for every interleaving of settle, cancel, clock advance and loop steps',
  'tests use real clocks with one timeout each; ordering of expiry against settlement at the same instant is not reachable',
  [T + 'timeouting.py', T + 'handle_cancellers.py', T + 'future_chaining.py', T + 'task_suppression.py', T + 'future.py'],
  [('apply_timeout', T + 'future.py'), ('repeat_timeout', T + 'timeouting.py'), ('shield', T + 'future_chaining.py'),
   ('sleep', T + 'task_suppression.py')])

P('L01', 'The loop runs each callback once, in order, never early, never after cancel',
  'Callbacks scheduled to run soon run exactly once each, in the order they were scheduled. A callback scheduled for a '
  'later time runs exactly once, never before its time has come, and callbacks due at different times become ready in '
  'order of their due times. A handle cancelled before it ran is never run, a handle that holds its function weakly '
  'does not run once the function is gone, and an exception raised by a callback neither stops the loop nor skips or '
  'repeats any other callback. The reader or writer registered for a file descriptor is called once in every cycle in which '
  'that descriptor is ready for it, and never again once it was removed or replaced.',
  ('schedules', 'histories'),
  'for every program of schedule / cancel / raise operations issued from inside and outside callbacks, with any clock advance',
  'tests schedule one or two callbacks against the real clock; the order of many timers, cancellation from within '
  'callbacks and failing callbacks is not explored',
  [L + 'event_loop.py', L + 'handles.py'],
  [('runner', L + 'event_loop.py'), ('call_soon / call_at / call_after / weak variants', L + 'event_loop.py'),
   ('Handle.cancel / _run', L + 'handles.py')],
  [('_ready', 'handles to run in this cycle', L + 'event_loop.py'), ('_scheduled', 'timer heap', L + 'event_loop.py')])

P('L02', 'Work handed to the loop from other threads is never lost',
  'A callback scheduled thread-safely from any thread is run exactly once by the loop thread, in submission order per '
  'thread, even when the loop is about to go idle or is blocked waiting for input. Waiting from another thread (running '
  'an awaitable, synchronous or asynchronous future wrappers) returns exactly once with the outcome of the wrapped '
  'future, or with a timeout error if it is not settled in time, and a timeout does not settle the wrapped future. Stopping '
  'the loop makes it exit after finishing the current cycle.',
  ('schedules',),
  'for every interleaving of submitting threads with the loop thread',
  'tests submit once from one thread while the loop is idle; the window between draining and blocking is not hit',
  [L + 'event_loop.py', T + 'future_wrapper_sync.py', T + 'future_wrapper_async.py', T + 'future_wrapper_base.py'],
  [('call_soon_thread_safe / wake_up / empty_self_socket', L + 'event_loop.py'),
   ('FutureWrapperSync.wait', T + 'future_wrapper_sync.py'), ('FutureWrapperAsync', T + 'future_wrapper_async.py')])

P('E01', 'Executor jobs run exactly once and their outcome reaches the awaiter',
  'A function submitted to the executor runs exactly once on a worker thread and its future settles with its return '
  'value or its exception; cancelling the future before it started prevents the run, and afterwards only discards the '
  'outcome. A claimed executor runs its jobs one at a time in submission order, and after releasing it no submitted job '
  'is lost. A worker serves one job at a time and returns to the free pool only when it has nothing to do.',
  ('schedules', 'histories'),
  'for every interleaving of submit, claim, release, cancel and worker progress',
  'tests submit one job and await it; release or cancel with queued work is never exercised',
  [L + 'executor.py'],
  [('SyncQueue', L + 'executor.py'), ('ExecutorThread.run / execute', L + 'executor.py'), ('Executor.claim_executor / run_in_executor', L + 'executor.py')])

P('C01', 'A cycler calls its functions once per cycle until it is cancelled',
  'A running cycler calls every registered function exactly once per cycle, in priority order, starting one cycle time '
  'after it was created and then once every cycle time; a function that raises does not prevent the others. Functions '
  'appended or removed, even by a function being called, take effect from the next cycle, and a new cycle time counts from '
  'the next cycle on. Calling it now or rescheduling it replaces the next call, so there is never more than one coming. '
  'Cancelled - from anywhere: an other thread, right after its creation, one of its own functions - a cycler makes no '
  'further call unless it is started again by rescheduling or calling it, and it tells correctly whether and when it will call.',
  ('histories', 'schedules'),
  'for every sequence of append / remove / call_now / reschedule / set_cycle_time / cancel and clock advances',
  'the tests construct cyclers and read their fields; no history of operations against the clock is run',
  [L + 'cycler.py'],
  [('Cycler._run / _cycle', L + 'cycler.py'), ('Cycler.cancel / append / remove / reschedule / set_cycle_time', L + 'cycler.py')])

P('S01', 'A lock has one holder, is handed over in order and is never lost',
  'At most one task holds a lock at a time; waiting tasks acquire it in the order they asked for it. Whenever the holder '
  'releases, and after any task waiting for the lock was cancelled at any moment - including after the lock was already '
  'passed to it - the remaining waiters still get the lock: a free lock is never left with waiting tasks. '
  'Cancelling one waiting task ends only that task\'s wait; no other waiter is disturbed.',
  ('schedules', 'histories'),
  'for every interleaving of acquire, release, cancel and loop steps over up to four tasks',
  'tests use two tasks and one release; cancelling between hand-over and wake-up is not reached',
  [T + 'locks.py'],
  [('Lock.acquire / __aenter__ / release', T + 'locks.py')],
  [('waiters', 'queue of holder and waiters', T + 'locks.py')])

P('S02', 'An event wakes every waiter exactly when it is set',
  'A task waiting for an event resumes exactly once, and only after the event was set; waiting on a set event does not '
  'block. Setting wakes every task waiting at that moment even if the event is cleared again before they run, and a '
  'cancelled or timed-out waiter does not affect the others. Clearing only affects later waits.',
  ('schedules', 'histories'),
  'for every interleaving of set, clear, wait, cancel and loop steps over several tasks',
  'tests set once with one waiter',
  [T + 'event.py'],
  [('Event.set / clear / wait', T + 'event.py')])

P('S03', 'Queues deliver every element exactly once, in order',
  'Every element put into an asynchronous queue is delivered to exactly one receiver: first-in-first-out, or '
  'last-in-first-out for the stack variant, and no element is lost or duplicated whichever way it is received (awaiting, '
  'iterating, without waiting) and however many receivers wait or are cancelled meanwhile. A bounded queue never drops '
  'an element that was put with waiting, and a producer waiting for room resumes once there is room. After an exception '
  'is set the elements already queued are still delivered, then every receiver gets that exception.',
  ('schedules', 'histories'),
  'for every interleaving of puts, gets, cancellations and loop steps',
  'tests have one receiver and one producer and never cancel a receiver that is being served',
  [T + 'queues.py'],
  [('AsyncQueue.set_result / set_result_wait / get_result / get_result_no_wait / __aiter__', T + 'queues.py'), ('AsyncLifoQueue', T + 'queues.py')],
  [('_results', 'queued elements', T + 'queues.py'), ('_waiter', 'receiver to be served', T + 'queues.py')])

P('S04', 'A task group knows what is pending and its waiters resolve exactly then',
  'Every future of a group is either pending or done in the group, and moves from pending to done exactly when it '
  'settles. Waiting for the next, first, n-th, first failing or all of its futures resolves exactly when that condition '
  'first holds - immediately if it already does - with the right future(s); waiting for the first, for a failure or for all '
  'ends at the latest when nothing pending can fulfil it any more, while waiting for the next or for n futures stays open '
  'for futures added later. The popping variants remove what they return. Cancelling the group\'s pending, done or all futures, exhausting '
  'it or cancelling on a failure affects exactly those futures.',
  ('schedules', 'histories'),
  'for every interleaving of adding futures, settling, cancelling and waiting',
  'tests call each waiter with a fixed arrangement of settled futures',
  [T + 'task_group.py'],
  [('TaskGroup.wait_* / exhaust / cancel_*', T + 'task_group.py')],
  [('pending', 'unsettled futures', T + 'task_group.py'), ('done', 'settled futures', T + 'task_group.py')])

P('S05', 'A size-limited lock or executor never exceeds its limit and leaks no slot',
  'At most the configured number of tasks hold a size-limited lock, and at most the configured number of tasks its owner added to a '
  'limited async executor are unfinished at any moment. Every release, completion, failure or cancellation of a holder or '
  'waiter gives its slot on, so that a waiting task proceeds whenever a slot is free. Leaving the executor block '
  'waits until all its tasks finished, and the failure of one is raised to its owner and cancels the remaining ones.',
  ('schedules', 'histories'),
  'for every interleaving of acquire / add, completion, failure, cancellation over limits 1 to 3',
  'tests use one limit and complete everything successfully',
  [T + 'locks.py', T + 'async_executing.py'],
  [('ScarletLock', T + 'locks.py'), ('ScarletExecutor', T + 'async_executing.py')])

P('N01', 'Reading a stream does not depend on how its bytes were split',
  'For any byte stream and any way of cutting it into received pieces, the same sequence of read calls (all, exactly n, '
  'until a boundary, once) returns the same bytes - except that a single-piece read returns whatever is available - '
  'consumes exactly what it returned (and the boundary) and leaves the rest for later reads. At the end of the stream an '
  'incomplete exact read or boundary search raises a connection error, while reading everything, at most n bytes or once '
  'returns the rest. Reading of the transport is never paused while a reader waits. '
  'A connection error set on the protocol is raised by the reader waiting for data and by later reads.',
  ('inputs', 'schedules', 'histories'),
  'for every stream, split into pieces, boundary and sequence of reads interleaved with arrivals',
  'tests feed a few hand-picked splits; boundaries straddling several pieces with repeated prefixes are not enumerated',
  [N + 'protocol.py'],
  [('ReadProtocolBase.read / read_exactly / read_until / read_once', N + 'protocol.py'), ('_read_until_by_chunk', N + 'protocol.py')],
  [('_chunks', 'received, unconsumed pieces', N + 'protocol.py'), ('_offset', 'consumed part of the first piece', N + 'protocol.py')])

P('N02', 'A payload stream delivers every received chunk once, in order, then its end',
  'Whether it is awaited as a whole or iterated chunk by chunk, and whatever the arrival order of chunks, completion and '
  'consumer, a payload stream delivers exactly the chunks it received, in order and once, and then ends - normally after '
  'success. When it failed, was cancelled or aborted, its consumer gets that as an exception instead of what it did not '
  'consume yet. A settled stream does not change its outcome. Each done callback is '
  'called exactly once when the stream is done.',
  ('schedules', 'histories'),
  'for every interleaving of chunk arrival, completion, failure, abortion and consumption',
  'tests use fixed arrival orders with a single consumer step',
  [N + 'payload_stream.py'],
  [('PayloadStream.add_received_chunk / set_done_success / set_done_exception', N + 'payload_stream.py'), ('__aiter__ / __await__', N + 'payload_stream.py')])

P('N03', 'A socket transport writes every byte once, in order, and obeys flow control',
  'The bytes given to a transport reach the peer complete, in order and without duplication, however the socket accepts '
  'them; closing flushes what was written before and writing end-of-file follows the data. The protocol is paused when '
  'the buffered amount exceeds the high limit and resumed when it falls to the low limit, strictly alternating, and a '
  'writer waiting to drain resumes when the protocol is resumed or the connection is lost. Connection loss is reported to the protocol exactly '
  'once, after which nothing more is delivered to it.',
  ('schedules', 'histories', 'fault_sequences'),
  'for every interleaving of writes, partial sends, would-block and send errors, closes, aborts and loop steps',
  'tests never use a socket that accepts part of the data or fails at a chosen write',
  [N + 'transport_layer.py', N + 'protocol.py'],
  [('SocketTransportLayer.write / _write_ready / close / abort', N + 'transport_layer.py'), ('ReadWriteProtocolBase.pause_writing / resume_writing / drain', N + 'protocol.py')])

P('N04', 'A subprocess delivers all its output and one exit status',
  'Everything a child process wrote to its piped output and error streams before exiting can be read, in order, before '
  'the end of that stream; what is written to its input reaches it completely before end-of-file. Every waiter for the process '
  'gets the same exit status, exactly once, and waiting with a timeout raises a timeout error only if the process has not '
  'exited. Communicating returns the complete output and error data.',
  ('schedules', 'histories'),
  'for every interleaving of child output, pipe closure, exit and readers',
  'tests have no subprocess histories at all',
  ['core/subprocess/subprocess.py', 'core/subprocess/subprocess_protocols.py', N + 'unix_pipe_transport_layer.py'],
  [('AsyncProcess', 'core/subprocess/subprocess.py'), ('UnixReadPipeTransportLayer / UnixWritePipeTransportLayer', N + 'unix_pipe_transport_layer.py')])

P('H01', 'An HTTP message written is read back identically, however it is split',
  'Headers and a body written through the HTTP writer - with a content length, chunked, and with or without gzip or '
  'deflate compression - are parsed back by the HTTP reader to the same start line, headers and body, whatever pieces the '
  'bytes arrive in and however the body was cut into writes. The reader consumes exactly one message, so that '
  'messages sent one after another on a connection are each read back intact. A truncated or malformed body raises an error '
  'instead of being delivered as complete; a body which lasts until the end of the connection is whatever arrived.',
  ('inputs', 'histories'),
  'for every message, body encoding, cut of the body into writes and cut of the wire bytes into arrivals',
  'tests parse literal byte strings; they do not connect the writer to the reader nor vary arrival pieces',
  ['web_common/http_protocol.py', 'web_common/http_stream_writer.py', 'web_common/helpers.py', 'web_common/compressors.py'],
  [('HTTPStreamWriter', 'web_common/http_stream_writer.py'), ('HttpReadProtocol.read_http_* / get_payload_reader_task', 'web_common/http_protocol.py')])

P('H02', 'A pooled connection serves one request at a time and never after it must close',
  'A connection handed to a request is not handed to another one until it is released, and is only reused for the same '
  'connection key, before its keep-alive time passed, below its request limit and while it is healthy - its requests were fully written, their '
  'responses fully read, and the server neither switched protocols, wrote on it unasked nor closed it -; such a connection is reused, any other is closed. Every connection '
  'is released exactly once, whether its response was read, released, closed or dropped. Closing the '
  'connector closes every pooled and used connection and refuses new ones, and expired idle connections are closed.',
  ('schedules', 'histories'),
  'for every history of connects, releases, closes, expiries and clock advances over several keys',
  'tests call each pool method in isolation on hand-built state',
  ['http_client/connector_base.py', 'http_client/protocol_basket.py', 'http_client/connection.py', 'http_client/client_response.py'],
  [('ConnectorBase.connect / release / _clean_up / close', 'http_client/connector_base.py'), ('ProtocolBasket', 'http_client/protocol_basket.py'),
   ('Connection.release / close / detach', 'http_client/connection.py')],
  [('protocols_by_host', 'pool by connection key', 'http_client/connector_base.py')])

P('H03', 'The cookie jar sends a cookie exactly where and while it is valid',
  'A stored cookie is sent with a request exactly when the request\'s host is the cookie\'s host, or - for a cookie with an '
  'accepted domain - that domain or a subdomain, the path matches, a secure cookie only goes over a secure scheme, and the '
  'cookie has not expired. A cookie set for a domain the response\'s host does not belong to is ignored; setting a cookie again - of the same '
  'name for the same domain - replaces the old one together with its expiry. Of several such cookies of the same name one is sent. A cookie set '
  'without telling where it came from is sent everywhere. Cookies from address-literal hosts are ignored unless the jar is unsafe.',
  ('inputs', 'histories'),
  'for every history of responses setting cookies, clock advances and requests over related hosts and paths',
  'tests do not run histories of set, replace and expire against a clock',
  ['web_common/cookiejar.py'],
  [('CookieJar.update_cookies / filter_cookies / _do_expiration', 'web_common/cookiejar.py')])

P('H04', 'Redirects are followed to where they point, without secrets of other origins',
  'For every chain of redirect responses the next request goes to the location resolved against the current URL (RFC 3986 5.2), with a Host header '
  'naming its host, with the cookies the jar has for it (those set by the redirecting responses included), and with the method and body kept '
  'or changed to a bodyless GET as the status tells. Authorization given by header, parameter or URL, and an explicit Host header, are sent as long as '
  'the origin stays and never to an other one. At the allowed number of redirects, or when redirected to an other scheme, the request fails with a '
  'ConnectionError naming the first request and all responses; the headers given by the user are not changed, and every connection '
  'of a followed response goes back to the pool.',
  ('histories', 'inputs'),
  'for every chain of redirects between origins, status, kind of location, method and body',
  'no test makes a request that is redirected',
  ['http_client/http_client.py', 'http_client/client_request.py'],
  [('HTTPClient._request / _request2', 'http_client/http_client.py'), ('ClientRequest.__new__', 'http_client/client_request.py')])

P('U01', 'An URL written is read back as the same URL',
  'Whatever text the user name, password, path segments, query keys and values and fragment of an URL hold - reserved characters, '
  'spaces, percent and plus signs, any unicode text - its encoded value is a legal ASCII URL from which this library and any other reader of '
  'RFC 3986 URLs get exactly the same parts, for every valid way an URL is percent encoded by others too, and an URL is equal to (and '
  'hashes as) itself read again, and not to one with other parts. Each operation (`with_*`, `extend_query`, `/`, `parent`, `join`, `origin`, '
  '`relative`) gives a new URL in which exactly the documented parts changed, with `.` and `..` segments resolved and never above the root, '
  'and leaves the original as it was. (Queries are compared per key, values of a key being distinct; names of hosts and schemes are lower case.)',
  ('histories', 'inputs'),
  'for every combination of characters in every part and every history of operations',
  'tests use literal urls with few reserved characters and single operations',
  ['web_common/url/url.py', 'web_common/url/url_query.py', 'web_common/url/url_path.py', 'web_common/quoting.py'],
  [('URL', 'web_common/url/url.py'), ('quote / unquote', 'web_common/quoting.py'), ('parse_query / serialize_query', 'web_common/url/url_query.py'), ('normalize_path_parts', 'web_common/url/url_path.py')])

P('W01', 'WebSocket messages arrive whole, in order and unaltered; bad frames close',
  'A message sent over a WebSocket, in either direction, arrives exactly once, unaltered, in order and with its text or '
  'binary type, whatever way it is fragmented, interleaved with control frames and cut into arriving pieces. A ping is '
  'answered with a pong of the same data, and a pong completes the ping with that data and the ones sent before it. A frame that violates the protocol (masking, reserved bits, unknown '
  'operation, broken fragmentation, oversized or fragmented control frame, invalid text, too large payload) ends the connection with the matching close '
  'code and is never delivered.',
  ('inputs', 'histories', 'schedules'),
  'for every sequence of frames, their fragmentation and their arrival in pieces, on client and server side',
  'there are no tests of the frame reader driven by frame sequences',
  ['web_socket/web_socket_common_protocol.py', 'web_common/http_protocol.py', 'web_common/web_socket_frame.py'],
  [('read_message / read_data_frame / _process_control_frame', 'web_socket/web_socket_common_protocol.py'),
   ('read_web_socket_frame / write_web_socket_frame', 'web_common/http_protocol.py')])

P('W02', 'A WebSocket closes once, with one close frame and one reason for everyone',
  'A WebSocket moves only forward through connecting, open, closing and closed. Each side sends at most one close frame and '
  'no frame after it; a received close frame is answered with one. After closing, queued messages can still be received, then '
  'every receiver gets a connection-closed error, sending raises one, pending pings end, and the close code reported is the one received '
  '(or the code for none, or for an abnormal end).',
  ('schedules', 'histories', 'fault_sequences'),
  'for every interleaving of local close, remote close, connection loss, sends and receives',
  'there are no tests of closing interleavings',
  ['web_socket/web_socket_common_protocol.py'],
  [('close / write_close_frame / fail_connection / close_connection / connection_lost', 'web_socket/web_socket_common_protocol.py')])

P('D01', 'A multi-value dictionary keeps each key\'s distinct values in order',
  'After any history of its operations a multi-value dictionary maps each present key to the non-empty list of the distinct values '
  'added to it and not removed, in insertion order: lookups give the first, get-all gives a separate copy of all, deleting '
  'and popping remove the first or all, iteration yields every pair. Copies are independent of the original. '
  'The case-ignoring variant used for headers treats keys that differ only in case as the same key in every operation.',
  ('histories', 'inputs'),
  'for every history of operations over a small set of keys, casings and values',
  'tests call single operations on literal dictionaries',
  ['utils/multi_value_dictionary.py', 'utils/ignore_case_multi_value_dictionary.py', 'utils/ignore_case_string.py'],
  [('MultiValueDictionary', 'utils/multi_value_dictionary.py'), ('IgnoreCaseMultiValueDictionary', 'utils/ignore_case_multi_value_dictionary.py')])

P('D02', 'Weak containers hold exactly the live members',
  'A weak dictionary, map or set behaves like its ordinary counterpart restricted to the entries whose weakly held objects are still alive: '
  'membership, lookup, length, iteration and removal never show a dead entry and never lose a live one. This holds also when '
  'objects die, or entries are added, replaced or removed, while the container is being iterated; after iteration ends the '
  'dead entries are gone. A weak container never keeps its members alive.',
  ('histories', 'schedules'),
  'for every history of operations, object deaths and open iterators',
  'tests do not let objects die in the middle of histories and iterations',
  ['utils/weak_value_dictionary.py', 'utils/weak_key_dictionary.py', 'utils/weak_item_dictionary.py', 'utils/weak_map.py', 'utils/weak_set.py', 'utils/weak_core.py'],
  [('_commit_removals / add_to_pending_removals', 'utils/weak_core.py'), ('WeakValueDictionary', 'utils/weak_value_dictionary.py')])

P('D03', 'A sorted list is always sorted and finds what it holds',
  'After any history of adding, extending, removing, popping by key and reversing, a sorted list is ordered ascending, or descending when '
  'reversed; adding an equal element replaces it instead of duplicating it. Membership, index, insertion position and keyed '
  'lookup agree with a linear search of its contents. Removing an absent element changes nothing.',
  ('histories', 'inputs'),
  'for every history of operations over small values, in both directions',
  'tests use single operations on literal lists',
  ['utils/sorted_list.py'],
  [('SortedList', 'utils/sorted_list.py')])

P('Q01', 'DNS messages round-trip and every input is parsed in bounded time',
  'Any byte string given to the DNS response parser produces, in time bounded by its length, either a result or a '
  'described parsing error - never an endless loop, another exception or data from outside the message. A well-formed message, '
  'including names using compression pointers, parses to exactly the questions and records it encodes, in order and by '
  'section, with its flags. A built query parses back to the query it was built from.',
  ('inputs',),
  'for every byte string, in particular every arrangement of labels and compression pointers',
  'tests parse a few literal messages; pointer cycles are not among them',
  ['dns_query/building_and_parsing.py'],
  [('_parse_labels', 'dns_query/building_and_parsing.py'), ('parse_result_data / build_query_data', 'dns_query/building_and_parsing.py')])

P('Z01', 'A streamed zip is a valid archive of exactly its files under unique names',
  'For every list of files, chunking of their contents and compression method, the streamed archive opens with a standard '
  'zip reader, holds exactly those files in order, with their exact content, checksum, sizes and modification time. File names that '
  'collide are renamed so that every name in the archive is unique, and a name that is not taken yet is kept.',
  ('inputs',),
  'for every list of names and chunked contents',
  'tests use a few literal files and names',
  ['streaming/zip_streaming/zip_stream.py', 'streaming/zip_streaming/name_deduplication.py', 'streaming/zip_streaming/compression.py'],
  [('stream_zip', 'streaming/zip_streaming/zip_stream.py'), ('name_deduplicator_default', 'streaming/zip_streaming/name_deduplication.py')])
