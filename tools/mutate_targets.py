"""Where the code of a property is: file -> names of classes or functions (None: all)."""
T = 'scarletio/core/traps/'
P = 'scarletio/core/protocols_and_transports/'
U = 'scarletio/utils/'
C = 'scarletio/web_common/'
H = 'scarletio/http_client/'
READS = {'Locker'}
TARGETS = {
    'F01': {T + 'future.py': None},
    'F02': {T + 'task.py': None},
    'F03': {T + 'timeouting.py': None, T + 'handle_cancellers.py': None, T + 'future_chaining.py': None, T + 'task_suppression.py': None},
    'S01': {T + 'locks.py': {'Lock', '_LockWaiter', 'ScarletLock', '_ScarletLockWaiter'}},
    'S02': {T + 'event.py': None},
    'S03': {T + 'queues.py': None},
    'S04': {T + 'task_group.py': None},
    'S05': {T + 'locks.py': {'ScarletLock'}, T + 'async_executing.py': None},
    'L01': {
        'scarletio/core/event_loop/event_loop.py': {
            'run', 'call_soon', 'call_later', 'call_at', 'call_after', 'call_later_weak', 'call_at_weak', 'call_after_weak',
            '_schedule_callbacks', '_process_events', 'cycle', '_schedule', 'call_soon_thread_safe', 'call_soon_thread_safe_lazy',
        },
        'scarletio/core/event_loop/handles.py': None,
    },
    'C01': {'scarletio/core/event_loop/cycler.py': None},
    'N01': {P + 'protocol.py': {'ReadProtocolBase'}},
    'N02': {P + 'payload_stream.py': None},
    'N03': {P + 'transport_layer.py': None, P + 'protocol.py': {'ReadWriteProtocolBase'}},
    'H01': {
        C + 'http_protocol.py': {
            'HttpReadProtocol', 'write_http_request', 'write_http_response', 'read_http_request', 'read_http_response',
        },
        C + 'http_stream_writer.py': None, C + 'helpers.py': {'HttpVersion'}, C + 'http_message.py': None,
    },
    'H02': {H + 'connector_base.py': None, H + 'protocol_basket.py': None, H + 'connection.py': None, H + 'connection_key.py': None},
    'H03': {C + 'cookiejar.py': None},
    'H04': {H + 'http_client.py': {'_request', '_request2', 'request'}, H + 'client_request.py': {'__new__'}},
    'U01': {C + 'url/url.py': None, C + 'url/url_query.py': None, C + 'url/url_path.py': None, C + 'quoting.py': None},
    'W01': {
        C + 'http_protocol.py': {'read_web_socket_frame', '_read_web_socket_frame', 'write_web_socket_frame'}, C + 'web_socket_frame.py': None,
        'scarletio/web_socket/web_socket_common_protocol.py': {
            'receive', 'receive_no_wait', 'send', 'ping', 'pong', 'transfer_data', 'read_message', 'read_data_frame', 'read_frame', '_process_control_frame', 'write_frame',
        },
    },
    'W02': {'scarletio/web_socket/web_socket_common_protocol.py': None},
    'D01': {U + 'multi_value_dictionary.py': None, U + 'ignore_case_multi_value_dictionary.py': None, U + 'ignore_case_string.py': None},
    'D02': {U + name: None for name in ('weak_value_dictionary.py', 'weak_key_dictionary.py', 'weak_item_dictionary.py', 'weak_map.py', 'weak_set.py', 'weak_core.py')},
    'D03': {U + 'sorted_list.py': None},
    'Q01': {'scarletio/dns_query/building_and_parsing.py': None},
    'Z01': {'scarletio/streaming/zip_streaming/' + name: None for name in ('zip_stream.py', 'name_deduplication.py', 'compression.py')},
}
