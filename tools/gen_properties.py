#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json
import pathlib

L = 'src_py/hat/event/backends/lmdb/'
C = 'src_py/hat/event/common/'
S = 'src_py/hat/event/server/'
E = 'src_py/hat/event/eventer/'

P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(),
      observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': list(observe),
            'hook_needed': hook}})


# --------------------------------------------------------------- storage

p('S01', 'A crash leaves the LMDB storage at a prefix of the accepted history',
  'If the process dies at any moment, or a database write fails, reopening '
  'the LMDB storage succeeds and shows exactly the state produced by some '
  'prefix of the registered batches, never part of a flush. That prefix '
  'contains every batch for which a flush was reported as complete (the flush '
  'call returned, or the flushed/persisted notification was delivered). Last '
  'event ids, latest events, timeseries and server queries all describe that '
  'same prefix.',
  ['crash_points', 'fault_sequences', 'histories'],
  'every history of register/flush/cleanup calls and every point (including '
  'inside and between database transactions, and during the first creation '
  'of the database) at which the process is killed or a write fails',
  'The tests never kill the process or fail a write; they only reopen after '
  'a clean close of two or three hand-written histories.',
  [L + 'backend.py', L + 'environment.py', L + 'systemdb.py',
   L + 'latestdb.py', L + 'timeseriesdb.py', L + 'refdb.py'],
  [('all pending changes written in one transaction',
    L + 'backend.py:_ext_flush'),
   ('creation of the databases', L + 'environment.py:_ext_init'),
   ('flush loop ends the backend after an error',
    L + 'backend.py:_flush_loop')],
  [('pending changes', 'accepted but not yet written',
    'create_changes() of each database')],
  ['Backend.register/flush/query/get_last_event_id', 'lmdb transactions'])

p('S02', 'Closing and reopening the LMDB storage preserves every answer',
  'After an orderly close, reopening the same database with the same '
  'configuration gives the same answers to every latest, timeseries and '
  'server query and the same last event ids as just before the close, with '
  'every event field equal to what was registered. This holds regardless of '
  'how much had been flushed before the close.',
  ['histories', 'inputs', 'configurations'],
  'every history of registrations, flushes, cleanups and repeated reopenings, '
  'every configuration of latest/timeseries subscriptions, and every event '
  'content',
  'Tests reopen in a couple of fixed scenarios with one or two event types '
  'and JSON payloads.',
  [L + 'backend.py', L + 'common.py', L + 'latestdb.py',
   L + 'timeseriesdb.py', L + 'systemdb.py', L + 'refdb.py'],
  [('final flush on close', L + 'backend.py:_flush_loop.cleanup'),
   ('state loaded from the database', L + 'latestdb.py:ext_create'),
   ('partition identification', L + 'timeseriesdb.py:_ext_init_partitions')],
  observe=['Backend.query', 'Backend.get_last_event_id'])

p('S03', 'Event admission is monotonic per server and last event id is exact',
  'The LMDB storage ignores an event whose id is not greater than, or whose '
  'timestamp is smaller than, those of the last accepted event of the same '
  'server; ignored events never change any query answer, and events of '
  'different servers do not influence each other. The last event id reported '
  'for a server is that of the last accepted event of that server, including '
  'accepted events that no latest or timeseries storage keeps, and an event '
  'id that was once accepted is never accepted again.',
  ['histories', 'inputs'],
  'every sequence of batches mixing servers, stale, replayed, out of order '
  'and fresh ids and timestamps, with reopenings in between',
  'Tests cover single stale events, not interleavings of servers, batches, '
  'reopenings and events that match no storage.',
  [L + 'backend.py', L + 'systemdb.py'],
  [('id and timestamp comparison', L + 'backend.py:LmdbBackend.register'),
   ('last id and timestamp tracking', L + 'systemdb.py')],
  [('last event id/timestamp', 'per server admission bound',
    L + 'systemdb.py:SystemDb')],
  ['Backend.get_last_event_id', 'Backend.query'])

p('S04', 'Latest query returns exactly the newest stored event of each type',
  'A latest query returns, for every event type selected by both the '
  'configured latest subscription and the query filter, exactly one event: '
  'the greatest accepted event of that type in the natural event order '
  '(event id for events of one server, timestamp for events of different '
  'servers, the one registered later if these timestamps are equal). It '
  'returns no event of any other type.',
  ['histories', 'inputs', 'configurations'],
  'every history of accepted events from several servers and every set of '
  'exact, "?" and "*" query types',
  'Tests sample a few queries after one registration order.',
  [L + 'latestdb.py'],
  [('comparison with the previous event', L + 'latestdb.py:LatestDb.add'),
   ('query strategies', L + 'latestdb.py:LatestDb.query')],
  [('latest events', 'newest event for each type',
    L + 'latestdb.py:LatestDb._events')],
  ['Backend.query(QueryLatestParams)'])

p('S05', 'Timeseries query returns the matching events, completely and in order',
  'A timeseries query returns exactly the accepted events kept by the '
  'selected timeseries that satisfy every filter (event types, timestamp and '
  'source timestamp bounds, inclusive), ascending or descending by the '
  'requested timestamp with ties ordered by event id (ties between different '
  'servers may come in either order of servers), limited to the requested '
  'number of results. The answer does not depend on which of these events '
  'have already been flushed, and an event is never repeated.',
  ['histories', 'inputs', 'schedules'],
  'every history of registrations with arbitrary (source) timestamps from '
  'several servers, every point at which the storage is flushed, including '
  'flushes concurrent with the query, and every combination of filters',
  'Tests query either fully flushed or fully unflushed data registered in '
  'timestamp order by one server.',
  [L + 'timeseriesdb.py'],
  [('merge of pending and stored events',
    L + 'timeseriesdb.py:TimeseriesDb._query_partition'),
   ('range scan', L + 'timeseriesdb.py:_ext_query_partition_events_range'),
   ('filtering', L + 'timeseriesdb.py:_Filter'),
   ('key encoding preserves order', L + 'common.py:_encode_timeseries_key')],
  observe=['Backend.query(QueryTimeseriesParams)'])

p('S06', 'Paged queries partition the complete answer',
  'Repeating a timeseries or server query with the id of the last returned '
  'event, while nothing is registered, yields consecutive pages whose '
  'concatenation is exactly the unpaged answer, without gap or repetition. '
  'Every page has at most the requested number of events and the '
  'more-follows flag is set exactly when further events remain.',
  ['histories', 'inputs'],
  'every stored content (flushed or not), page size, direction and filter',
  'Tests page through one fixed data set with one or two page sizes.',
  [L + 'timeseriesdb.py', L + 'refdb.py'],
  [('max_results + 1 look-ahead',
    L + 'timeseriesdb.py:TimeseriesDb._query_partition'),
   ('last event id skip', L + 'timeseriesdb.py:_Filter.process'),
   ('start key', L + 'refdb.py:_ext_query_events')],
  observe=['QueryResult.events', 'QueryResult.more_follows'])

p('S07', 'Server query lists the stored events of one server in id order',
  'A server query returns every event of that server which the latest or '
  'timeseries storage keeps, each once, in ascending event id order, '
  'continuing after the given last event id; events of other servers never '
  'appear. With the persisted flag only events already written to the '
  'database appear; without it accepted but unwritten events are included. '
  'An event that no storage keeps any more (superseded as latest and absent '
  'or cleaned from timeseries) is not returned once that change is written.',
  ['histories', 'inputs', 'configurations'],
  'every history of registrations, flushes, cleanups and reopenings '
  '(including with changed conditions or subscriptions) and every query',
  'Tests check short single-server histories without cleanup or '
  'reconfiguration.',
  [L + 'refdb.py', L + 'backend.py'],
  [('reference bookkeeping', L + 'refdb.py:RefDb.ext_write'),
   ('dereferencing', L + 'refdb.py:_ext_get_event')],
  [('references', 'storage entries which keep each event',
    'DbType.REF database')],
  ['Backend.query(QueryServerParams)'])

p('S08', 'Timeseries limits remove exactly the oldest surplus entries',
  'Cleanup removes an entry of a timeseries only if it is the oldest '
  'remaining one of that timeseries, more than the configured minimum number '
  'of entries remain, and either more than the maximum number of entries '
  'remain or the entry is older than the configured duration; when cleanup '
  'completes no such entry is left. Other timeseries, latest events and last '
  'event ids are not changed, and a removed event disappears from server '
  'queries unless something else keeps it.',
  ['histories', 'configurations', 'inputs'],
  'every content, combination of min_entries/max_entries/duration limits, '
  'every interleaving of cleanups with registrations, flushes and reopenings',
  'Tests run one cleanup per limit kind on one partition.',
  [L + 'timeseriesdb.py', L + 'backend.py', L + 'refdb.py'],
  [('partition cleanup', L + 'timeseriesdb.py:_ext_cleanup_partition'),
   ('entry counting', L + 'timeseriesdb.py:_ext_inc_partition_count'),
   ('reference cleanup', L + 'refdb.py:RefDb.ext_cleanup')],
  [('entry count', 'number of entries of each partition',
    'DbType.TIMESERIES_COUNT database')],
  ['Backend.query'])

p('S09', 'Conditions decide which events the LMDB storage accepts and returns',
  'An event is stored only if it satisfies every configured condition whose '
  'subscription matches its type, where all/any conditions are the '
  'conjunction/disjunction of their parts and a json condition requires a '
  'JSON payload with the given type and/or value at the given path. Events '
  'that stop satisfying the conditions after a restart with changed '
  'conditions are not returned by any query.',
  ['inputs', 'configurations', 'histories'],
  'every nesting of conditions, every subscription, payload kind and JSON '
  'value, and every change of conditions between restarts',
  'Tests evaluate each condition type on a handful of payloads.',
  [L + 'conditions.py', L + 'backend.py', L + 'latestdb.py',
   L + 'timeseriesdb.py', L + 'refdb.py'],
  [('condition evaluation', L + 'conditions.py:Conditions.matches'),
   ('filtering of loaded events', L + 'latestdb.py:ext_create'),
   ('filtering of scanned events',
    L + 'timeseriesdb.py:_ext_query_partition_events')],
  observe=['Backend.register', 'Backend.query'])

p('S10', 'Registered and flushed notifications are exact, ordered and truthful',
  'The LMDB storage reports every successfully registered batch exactly once '
  'as registered and, if the backend keeps working or is closed in an orderly '
  'way, exactly once as flushed, both in registration order and with the same '
  'events. A batch is reported as flushed only after it has been reported as '
  'registered or its registration has begun, and only after all its stored '
  'events are durable on disk.',
  ['schedules', 'histories', 'fault_sequences'],
  'every interleaving of concurrent registrations, flush calls, periodic '
  'flushes, slow callbacks, write failures and close',
  'Tests register sequentially and check callbacks after one flush.',
  [L + 'backend.py'],
  [('registered queue', L + 'backend.py:LmdbBackend._registered_queue'),
   ('flush', L + 'backend.py:LmdbBackend._flush')],
  observe=['registered_events_cb', 'flushed_events_cb'])

p('S11', 'A database of a different identifier or version is refused untouched',
  'Opening an LMDB database with an identifier other than the one it was '
  'created with, or with another storage version, fails and leaves the '
  'content unchanged, so that a later open with the right identifier gives '
  'the same answers as before. A database can be opened without specifying '
  'an identifier, and an identifier once set stays in force.',
  ['histories', 'configurations'],
  'every sequence of opens with different identifiers, interleaved with '
  'registrations',
  'Tests check single matching and mismatching opens.',
  [L + 'systemdb.py', L + 'backend.py'],
  [('settings validation', L + 'systemdb.py:_ext_validate_settings')],
  observe=['backend creation', 'Backend.query'])

p('S12', 'A flush call returns only when earlier registrations are durable',
  'When a flush call on the LMDB storage returns normally, every batch whose '
  'registration completed before the call is durable and has been reported '
  'as flushed. Every flush call terminates: if the backend closes or a write '
  'fails, it raises the backend-closed error instead of hanging or reporting '
  'success, and register, query and last event id calls on a closed backend '
  'raise that error.',
  ['schedules', 'fault_sequences'],
  'every interleaving of concurrent flush calls, registrations, periodic '
  'flushes, write failures and close',
  'Tests await one flush at a time on a healthy backend.',
  [L + 'backend.py'],
  [('flush queue and futures', L + 'backend.py:LmdbBackend._flush_loop')],
  observe=['Backend.flush'])

# ---------------------------------------------------------- other backends

p('M01', 'The memory backend answers queries over everything registered',
  'The memory backend keeps every registered event, reports as last event id '
  'of a server the id of its last registered event, and reports every batch '
  'as registered and flushed in order. Its latest, timeseries and server '
  'queries follow the documented filters, order, result limit, last event id '
  'continuation and more-follows flag.',
  ['histories', 'inputs'],
  'every sequence of registered batches from several servers, with and '
  'without source timestamps, and every query',
  'The only test of the memory backend creates and closes it.',
  ['src_py/hat/event/backends/memory.py'],
  [('queries', 'memory.py:MemoryBackend.query')],
  [('events', 'all registered events', 'memory.py:MemoryBackend._events')],
  ['Backend.query', 'Backend.get_last_event_id'])

# -------------------------------------------------------------- common

p('C01', 'Subscriptions match as documented and the set operations are exact',
  'A subscription matches an event type exactly when one of its query types '
  'does: "?" stands for exactly one subtype and a trailing "*" for zero or '
  'more. The union matches exactly the types matched by either operand, the '
  'intersection exactly those matched by both, and two subscriptions are '
  'reported disjoint exactly when no event type is matched by both.',
  ['inputs'],
  'all sets of query types and all event types, and all nestings of union '
  'and intersection',
  'Tests enumerate a small table of query types; the operations range over '
  'infinitely many event types.',
  [C + 'matches.py', C + 'subscription/common.py',
   C + 'subscription/pysubscription.py'],
  [('matching', C + 'subscription/pysubscription.py:_matches'),
   ('union and intersection', C + 'subscription/common.py'),
   ('disjointness', C + 'subscription/pysubscription.py:_isdisjoint')],
  observe=['Subscription.matches/union/intersection/isdisjoint',
           'matches_query_type'])

p('C02', 'Event type collections return exactly the matching values',
  'After any sequence of additions and removals, looking up an event type '
  'in an event type collection yields exactly the values that were added '
  'with a subscription matching that type and not removed since, each once. '
  'All available implementations agree.',
  ['histories', 'inputs'],
  'every sequence of add/remove with overlapping subscriptions, including '
  'the same value added with several subscriptions, and every event type',
  'Tests add a few values with one query type each.',
  [C + 'collection/pytree.py', C + 'collection/pylist.py'],
  [('tree insertion and removal', C + 'collection/pytree.py')],
  [('tree nodes', 'values registered for each query type',
    C + 'collection/pytree.py')],
  ['EventTypeCollection.get'])

p('C03', 'Timestamp conversions round trip and preserve order',
  'Converting a timestamp to bytes, to the wire representation or to a UTC '
  'date-time and back gives the same timestamp, for all representable '
  'values including those before 1970, and the byte form orders like the '
  'timestamp. Adding a number of seconds moves a timestamp by that duration '
  'and keeps its microseconds between 0 and 999999.',
  ['inputs'],
  'all timestamps within the representable range and all offsets',
  'Tests convert a handful of current or random positive timestamps.',
  [C + 'encoder.py', C + 'common.py'],
  [('date-time conversion', C + 'encoder.py:timestamp_from_datetime'),
   ('byte conversion', C + 'encoder.py:timestamp_to_bytes'),
   ('addition', 'hat.event.common.Timestamp')],
  observe=['timestamp_to_bytes/timestamp_from_bytes',
           'timestamp_to_datetime/timestamp_from_datetime'])

p('C04', 'Wire form preserves events, queries and results exactly',
  'Every event, register event, query, query result and status which is sent '
  'over the eventer interface (encoded by the HatEventer schema) and read on '
  'the other side equals the original in every field: absent optional values '
  'stay absent, empty ones stay empty, and integers, strings, binary and JSON '
  'payloads keep their exact values. Data is written exactly as the HatEventer '
  'schema defines it, so that other implementations can read it, and anything '
  'valid by the schema is read.',
  ['inputs'],
  'all events, register events, query parameters with every combination of '
  'optional values, results and statuses',
  'Tests encode one or two events and queries with most optional values '
  'unset.',
  [C + 'encoder.py', 'schemas_sbs/eventer.sbs'],
  [('conversion of events', C + 'encoder.py:event_to_sbs/event_from_sbs'),
   ('conversion of queries',
    C + 'encoder.py:query_params_to_sbs/query_params_from_sbs')],
  observe=['event_to_sbs/event_from_sbs', 'query_params_to_sbs and others'])

p('C05', 'Events compare in natural order',
  'Comparing events with < and > (the first operand being the one registered '
  'earlier) orders events of one server by event id and events of different '
  'servers by timestamp, equal timestamps keeping the order of registration; '
  'an event is neither before nor after an event of the same id. For events '
  'of a valid history exactly one of < and > holds.',
  ['inputs'],
  'all pairs of events',
  'Tests compare a few pairs.',
  [C + 'common.py'],
  [('comparison', C + 'common.py:Event.__lt__/__gt__')],
  observe=['operators < and > of events'])

# -------------------------------------------------------------- engine

p('E01', 'Event ids are unique, ascending and grouped by session',
  'Every event the engine creates gets the configured server id; each '
  'processing session has the next session number after the previous session '
  '(continuing after the last event id reported by the backend at startup), '
  'and instances within a session are numbered consecutively from 1 in the '
  'order of creation. All events of one session share one timestamp, which '
  'never decreases from session to session unless the clock does, and each '
  'session is handed to the backend as one batch in ascending id order.',
  ['schedules', 'histories'],
  'every interleaving of registrations from eventer clients, modules and the '
  'engine itself, with slow or failing modules and restarts',
  'Tests check ids for one or two sequential registrations.',
  [S + 'engine.py'],
  [('id assignment', S + 'engine.py:Engine._create_event'),
   ('session start', S + 'engine.py:Engine._create_session')],
  [('last event id', 'id of the last created event',
    S + 'engine.py:Engine._last_event_id')],
  ['Backend.register', 'Engine.register result', 'Module.process'])

p('E02', 'A session runs every module over exactly the events it should see',
  'In every session each module is notified of the session start, then '
  'processes each event of the session that matches its subscription exactly '
  'once, including events created by other modules or by itself, in creation '
  'order, and is finally notified of the session end. All events created '
  'while processing belong to the same session, the session ends only when '
  'no module creates further events, and sessions never overlap.',
  ['schedules', 'histories', 'programs'],
  'every set of modules, subscriptions and module reactions, and every '
  'interleaving of concurrent registrations',
  'Tests use one or two modules with fixed reactions.',
  [S + 'engine.py', C + 'module.py'],
  [('session processing', S + 'engine.py:Engine._process_sessions')],
  observe=['Module.on_session_start/process/on_session_stop',
           'Backend.register'])

p('E03', 'Each registration is answered with its own events and source',
  'A registration returns exactly the events created for its register '
  'events, in request order and with the requested type, source timestamp '
  'and payload, after the backend has accepted the session (or reports '
  'failure if the backend does). Modules are given the source with which the '
  'registration was made and, for derived events, the creating module as the '
  'source.',
  ['schedules', 'histories'],
  'every interleaving of concurrent registrations by several sources and '
  'modules',
  'Tests register from one source at a time.',
  [S + 'engine.py'],
  [('response futures', S + 'engine.py:Engine.register'),
   ('source propagation', S + 'engine.py:Engine._process_sessions')],
  observe=['Engine.register result', 'Module.process source argument'])

p('E04', 'Engine start/stop events bracket its life and every call terminates',
  'The first session of an engine run is that of the engine STARTED event '
  '(unless the engine ends before that session is registered) and, after an '
  'orderly close, the last one is that of the engine STOPPED event, each '
  'registered once as the only cause of its session. Every registration '
  'call terminates even if the engine closes or a module or the backend '
  'fails: its caller gets the events, a failure result or an error, never '
  'waits forever.',
  ['schedules', 'fault_sequences'],
  'every point of close, backend failure or module failure relative to '
  'pending registrations',
  'Tests close an idle engine.',
  [S + 'engine.py'],
  [('start and stop events', S + 'engine.py:Engine._register_loop'),
   ('pending futures cleanup', S + 'engine.py:Engine._register_loop')],
  observe=['Engine.register', 'Backend.register', 'Engine closed state'])

p('E05', 'Engine and its modules share one life; modules reach the server',
  'The engine stays open while nothing fails and nobody closes it, and '
  'closes by itself when a module closes, when processing of a session fails '
  'or when the backend fails. Every created module is closed once the engine '
  'is closed, also when creation of another module fails. Calls which '
  'modules make on the engine (query, names of clients, restart, reset of '
  'monitor readiness, server id) are passed exactly once with the same '
  'arguments and give the callee\'s answer (or its error).',
  ['schedules', 'fault_sequences'],
  'every moment of module closing, failure and engine closing',
  'Tests use modules which never fail or close by themselves.',
  [S + 'engine.py'],
  [('modules', S + 'engine.py:Engine._create_module')],
  observe=['Engine closed state', 'Module closed state', 'Engine.query'])

# -------------------------------------------------------------- eventer

p('P01', 'Eventer clients are notified of exactly the events they asked for',
  'While connected, an eventer client receives every event the server '
  'announces that matches its subscription and requested server id and that '
  'is announced in the requested form (registered or persisted), exactly '
  'once, with identical content, in announcement order. The events of one '
  'announcement are delivered together in one notification and a '
  'notification is never empty.',
  ['schedules', 'histories', 'configurations'],
  'every set of clients with different subscriptions, server ids and '
  'persisted flags, every sequence of announcements and every timing of the '
  'network and of connects and disconnects',
  'Tests use one client per parameter and one or two announcements.',
  [E + 'server.py', E + 'client.py'],
  [('filtering and sending', E + 'server.py:_Connection.notify'),
   ('receiving', E + 'client.py:Client._receive_loop')],
  observe=['events_cb of eventer client', 'Server.notify_events'])

p('P02', 'Each eventer request gets its own answer or a connection error',
  'Every register or query request of an eventer client gets the answer the '
  'server produced for exactly that request, whatever the order in which the '
  'server answers, and a register request is passed to the server exactly '
  'once, in order of sending. If the connection ends first, every pending '
  'and later request fails with a connection error; no request waits for '
  'ever.',
  ['schedules', 'fault_sequences', 'inputs'],
  'every number of concurrent requests from every client, order of answers '
  'and moment of disconnection',
  'Tests issue one request at a time over a healthy connection.',
  [E + 'client.py', E + 'server.py'],
  [('conversation matching', E + 'client.py:Client._receive_loop'),
   ('request handling', E + 'server.py:_Connection')],
  [('conversation futures', 'pending requests',
    E + 'client.py:Client._conv_futures')],
  ['Client.register/query result', 'register_cb/query_cb of the server'])

p('P03', 'Eventer handshake admits only valid clients and converges on status',
  'A client gets a connection only if the server accepts it: an event '
  "server accepts a client which sends no token or sends the server's own "
  'token, and refuses any other one, whose connecting then fails. After '
  'connecting the client reports the server status of the handshake and '
  'then follows every status change of the server in order, so that once '
  'changes stop, the status it reports is that of the server.',
  ['schedules', 'configurations', 'histories'],
  'every combination of tokens, every sequence of status changes relative to '
  'connects, and every timing of acknowledgements',
  'Tests change the status once on an idle connection.',
  [E + 'server.py', E + 'client.py'],
  [('init exchange', E + 'server.py:_Connection'),
   ('status notification', E + 'server.py:Server.set_status')],
  observe=['Client.status', 'status_cb', 'eventer.connect result'])

p('P04', 'Acknowledged notification waits for every addressed client',
  'An announcement with acknowledgement completes only when each client to '
  'which it was sent has finished processing it and acknowledged, or has '
  'been disconnected. One client disconnecting never makes the announcement '
  'complete while another connected client has not yet acknowledged, and '
  'the announcement always completes once all have acknowledged or '
  'disconnected.',
  ['schedules', 'fault_sequences'],
  'every number of clients, order and delay of acknowledgements and moment '
  'of disconnection',
  'Tests acknowledge with a single client and no disconnection.',
  [E + 'server.py', E + 'client.py'],
  [('ack futures', E + 'server.py:_Connection.notify_events'),
   ('ack after callback', E + 'client.py:Client._receive_loop')],
  observe=['Server.notify_events(with_ack=True)', 'events_cb'])

p('P05', 'Every eventer connection is announced as CONNECTED then DISCONNECTED',
  'For each eventer client whose handshake takes place while an engine is '
  'open, exactly one CONNECTED event with the client name is registered '
  "in that engine before any of the client's own events and before the "
  'client is connected (it is refused if this registration fails); after '
  'the connection ends while an engine is open, exactly one DISCONNECTED '
  'event follows all of its events. Events registered by a client carry '
  'one source for the whole connection, which is never shared by two '
  'connections. Each register request is passed to the current engine '
  'once and in order, or answered with a failure if there is none; an '
  "engine going away ends the client's pending requests with an error or "
  'failure instead of leaving them waiting.',
  ['schedules', 'histories', 'fault_sequences'],
  'every interleaving of connects, registrations, disconnects and engine '
  'start/stop',
  'Tests connect and disconnect one client in sequence.',
  [S + 'eventer_server.py', E + 'server.py'],
  [('connection events', S + 'eventer_server.py:EventerServer._on_connected'),
   ('engine switch', S + 'eventer_server.py:EventerServer.set_engine')],
  observe=['Engine.register', 'eventer clients'])

# -------------------------------------------------------------- sync

p('Y01', 'Synchronisation copies the remote history without gap or repetition',
  'A server following a remote server stores that remote server\'s persisted '
  'events in event id order, each exactly once, and nothing else under the '
  'remote server id: what it has stored is at every moment a prefix of the '
  'remote history (as far as the remote storage still keeps it), also across '
  'disconnections, restarts and events announced while it is catching up. '
  'Each processing session of the remote server is stored as a whole, and '
  'once the connection is stable the copy becomes complete.',
  ['schedules', 'fault_sequences', 'histories'],
  'every remote history and every interleaving of remote registrations and '
  'flushes, query pages, notifications, disconnections and reconnections',
  'Tests synchronise a fixed list of events from a fake server.',
  [S + 'eventer_client.py', E + 'client.py', E + 'server.py'],
  [('catching up by server query',
    S + 'eventer_client.py:EventerClient._synchronize'),
   ('buffering of notifications', S + 'eventer_client.py')],
  [('buffered events', 'events announced during catching up',
    S + 'eventer_client.py:EventerClient._events_queue')],
  ['Backend.register of the local backend', 'eventer server of the remote'])

p('Y02', 'The synchronisation status reported in events is truthful',
  'The synchronisation with each remote server is reported by events, '
  'registered at the remote server and, while the local engine is '
  'operational, by the local engine too: CONNECTED once connected, '
  'SYNCING if there are events to catch up with, and SYNCED with the '
  'number of events obtained during catching up, registered only after '
  'those events have been stored, in this order and each at most once for '
  'a connection. Each time the remote server becomes operational the last '
  'state is registered there again (SYNCED without a count). SYNCED is '
  'never reported for a connection whose catching up has not finished or '
  'has failed.',
  ['schedules', 'fault_sequences'],
  'every order of connects, catching up, failures, status changes of the '
  'remote server and local engine starts',
  'Tests check one successful synchronisation.',
  [S + 'eventer_client.py', S + 'eventer_client_runner.py'],
  [('synced callback', S + 'eventer_client.py'),
   ('status events', S + 'eventer_client_runner.py')],
  observe=['Engine.register of synced events'])

# -------------------------------------------------------------- runners

p('R01', 'The server status follows the engine through a fixed cycle',
  'The status a server announces to its clients goes through the cycle '
  'STANDBY, STARTING, OPERATIONAL, STOPPING, STANDBY without skipping '
  '(only when the runner is closing or an engine can not be created the '
  'cycle may be cut short by STOPPING); OPERATIONAL is announced only '
  'with an engine which has been created, and never after that engine has '
  'been told to close or while no engine exists. Before STANDBY is '
  'announced again the engine has stopped and everything it registered '
  'has been flushed, and at most one engine runs at any time.',
  ['schedules', 'fault_sequences', 'histories'],
  'every sequence of start/stop requests, engine failures, restart requests '
  'and closes relative to the start and stop phases',
  'Tests start and stop the engine once.',
  [S + 'engine_runner.py', S + 'eventer_server.py'],
  [('engine life cycle', S + 'engine_runner.py:EngineRunner._run')],
  observe=['EventerServer.set_status', 'Engine creation and closing',
           'Backend.flush'])

p('R02', 'Shutdown stops producers first and delivers what was persisted',
  'When the server process shuts down, all engine activity stops and every '
  'event accepted by the backend, including the STOPPED event of the engine '
  'and events copied from other servers, is flushed and its registered and '
  'persisted announcements are delivered to connected clients before the '
  'eventer server closes. The backend is closed after '
  'everything that uses it, and shutdown completes even if a component has '
  'failed.',
  ['schedules', 'fault_sequences', 'configurations'],
  'every configuration (with or without a monitor, remote servers, adminer '
  'server), every phase of operation in which shutdown or a failure occurs',
  'Tests close an idle runner.',
  [S + 'main_runner.py', S + 'engine_runner.py'],
  [('ordered shutdown', S + 'main_runner.py:MainRunner._on_close')],
  observe=['eventer client notifications', 'Backend close',
           'MainRunner closed state'])

p('R03', 'The engine is active only when no remote server is operational',
  'In a redundant installation, a server whose monitor blesses it starts '
  'its engine only when none of the remote servers it is connected to '
  'reports a status other than STANDBY, and starts it as soon as that is '
  'so; a remote server whose connection is lost does not count. '
  'Connections follow the monitor state: one for each remote component of '
  'the same group with valid data and (if the server has a token) the '
  'same token, never one to itself, each re-established after a failure '
  'as long as the component is present. While the engine runs, the state of '
  'synchronization with each remote server is registered as an event. When '
  'a module resets readiness, the server is announced as ready again after '
  'it has released its monitor token (or 30 s have passed), never earlier.',
  ['schedules', 'configurations', 'fault_sequences'],
  'every sequence of monitor states, connection failures, remote status '
  'changes and blessing changes',
  'Tests feed one or two monitor states.',
  [S + 'eventer_client_runner.py', S + 'main_runner.py'],
  [('operational tracking', S + 'eventer_client_runner.py'),
   ('reconnecting loop', S + 'eventer_client_runner.py')],
  observe=['eventer connects', 'Engine creation'])

# ------------------------------------------------------------ component

p('K01', 'A component runs exactly while it may and is served by the server',
  'A component based on this library runs its runner only while it is '
  'blessed by the monitor and ready and an eventer connection to the '
  'currently active event server is alive; the active server is the one '
  'which the monitor blesses (with the token of the component, if it has '
  'one). The runner is given that very connection, and at most one runner '
  'exists at a time. When the active server changes or the connection is '
  'lost the runner is closed before another one is created, and '
  'connecting is retried until it succeeds.',
  ['schedules', 'fault_sequences', 'histories'],
  'every sequence of monitor states, blessings, connection successes and '
  'failures, server status changes and runner failures',
  'Tests run single transitions with one fake server.',
  ['src_py/hat/event/component.py'],
  [('active server selection', 'component.py:Component._get_active_server_data'),
   ('changes of the active server',
    'component.py:Component._server_data_loop'),
   ('runner life cycle', 'component.py:Component._client_loop')],
  observe=['runner_cb', 'runner closing', 'eventer connects'])

p('K02', 'Component callbacks keep their order and target the current runner',
  'Status and event callbacks of a component are delivered for the live '
  'connection only, in the order of the connection, and never to a runner '
  'of an earlier connection. Closing the component closes its runner, its '
  'eventer connection and its monitor connection, and a runner that closes by '
  'itself is handled as documented, without hanging.',
  ['schedules', 'fault_sequences'],
  'every interleaving of notifications, reconnections and closing',
  'Tests deliver callbacks on one stable connection.',
  ['src_py/hat/event/component.py'],
  [('callbacks', 'component.py:Component')],
  observe=['status_cb', 'events_cb', 'runner closing'])

# -------------------------------------------------------------- adminer

p('A01', 'Each adminer request is answered by its own result',
  'Every log configuration request of an adminer client gets the result or '
  'the error which the server produced for exactly that request, whatever '
  'the order of concurrent requests; a request that is cancelled does not '
  'disturb the others or the connection. If the connection ends, every '
  'pending and later request fails with a connection error.',
  ['schedules', 'fault_sequences', 'inputs'],
  'every number of concurrent requests, order of answers, cancellation and '
  'moment of disconnection',
  'Tests issue single sequential requests.',
  ['src_py/hat/event/adminer/client.py',
   'src_py/hat/event/adminer/server.py'],
  [('conversation matching', 'adminer/client.py:Client._receive_loop'),
   ('request handling', 'adminer/server.py:Server._connection_loop')],
  observe=['Client.get_log_conf/set_log_conf',
           'get_log_conf_cb/set_log_conf_cb'])

p('A02', 'The log configuration which is reported is the one in effect',
  'The event server reports over its adminer interface the log configuration '
  'with which it was started until another one is set. A configuration which '
  'is set and accepted is applied to logging before the request is answered '
  'and is from then on the one which every client is given; a configuration '
  'which is rejected changes neither logging nor what is reported. Requests '
  'of concurrent clients take effect one at a time, each between its '
  'beginning and its answer.',
  ['schedules', 'inputs', 'histories'],
  'every interleaving of get and set requests of several clients, valid and '
  'invalid configurations, cancellation and loss of connections',
  'Tests set one valid configuration with a single client.',
  ['src_py/hat/event/server/adminer_server.py',
   'src_py/hat/event/adminer/server.py'],
  [('current configuration',
    'server/adminer_server.py:AdminerServer._on_set_log_conf')],
  observe=['Client.get_log_conf/set_log_conf', 'logging levels'])

# ---------------------------------------------------------------- tools

p('T01', 'Copying an LMDB database gives an equivalent database',
  'The database copy tool produces a database which gives the same answers '
  'to all queries and the same last event ids and identifier as the '
  'original; with options '
  'that skip latest or timeseries data the respective queries are empty and '
  'all others are as if only the remaining data were stored. The original is '
  'not changed.',
  ['histories', 'configurations'],
  'every database content and every combination of copy options',
  'Tests do not run the copy tool.',
  [L + 'manager/copy.py'],
  [('copy', L + 'manager/copy.py')],
  observe=['Backend.query on the copy'])

p('T02', 'Database conversion keeps every event',
  'Converting a database of an earlier supported storage version gives a '
  'database of the current version in which every stored event that the '
  'current version can represent is present with unchanged type, timestamps '
  'and payload in the same latest/timeseries role and order, and last event '
  'ids are not lower than any converted event. The source database and '
  'other existing files are not changed. Conversion of an already converted '
  'database, or to an existing destination, is refused and changes nothing. '
  '(Databases of version 0.6 have events of a single server.)',
  ['inputs', 'histories'],
  'every content of an older database, including several servers, sessions, '
  'partitions and payload types',
  'Tests do not convert databases.',
  [L + 'convert/convert_v06_to_v07.py', L + 'convert/convert_v07_to_v09.py',
   L + 'convert/main.py'],
  [('conversion', L + 'convert/main.py')],
  observe=['Backend.query on the converted database'])

p('T03', 'The command line tools issue the query that was asked for',
  'For every combination of command line options the event manager sends '
  'the corresponding latest, timeseries or server query (or registration), '
  'with each option mapped to the parameter it names, and prints the events '
  'of the answer (or of the notifications); the LMDB manager prints exactly '
  'the records of the selected database part. A valid command line never '
  'fails, except for a registration which is refused by the server.',
  ['inputs', 'configurations'],
  'all option combinations of the query and register commands',
  'Tests do not run the tools.',
  ['src_py/hat/event/manager/main.py', L + 'manager/query.py'],
  [('argument mapping', 'manager/main.py'), ('dump', L + 'manager/query.py')],
  observe=['eventer query params', 'standard output'])

# ---------------------------------------------------- complete installations

p('G01', 'Replicated histories never diverge, whatever crashes',
  'In an installation of several event servers, every server keeps, for each '
  'server of the installation, an exact prefix (in whole sessions) of the '
  'history created by that server. This holds through crashes at any moment '
  '(including those which lose events that were not written to disk), '
  'restarts, lost connections and changes of the active server: a server '
  'never has an event which its origin has lost, two different events never '
  'have the same identifier, and the next event created by a server follows '
  'the last one in its recovered history.',
  ['schedules', 'crash points', 'faults', 'histories'],
  'every interleaving of crashes, restarts, synchronizations and takeovers',
  'Tests check synchronization of two servers in one sunny sequence, never '
  'with a crash.',
  [S + 'main_runner.py', S + 'eventer_client.py', S + 'engine.py', L + 'backend.py'],
  [('synchronization', S + 'eventer_client.py'),
   ('backend notifications', 'server/main_runner.py')],
  observe=['Backend.register', 'Backend.query'])

p('G02', 'Acknowledged events are visible, persisted ones survive crashes',
  'Events which a client was told to be registered (in a response or a '
  'notification) are in the history which the same server uses to answer '
  'queries that start later; events announced as persisted (notifications '
  'of clients that ask for persisted events) are never lost, even if the '
  'server crashes at that very moment; an orderly stopped server loses '
  'nothing at all.',
  ['schedules', 'crash points', 'histories'],
  'every moment of crash relative to registration, flush and notification',
  'Tests register and query events in one process life.',
  [S + 'main_runner.py', S + 'eventer_server.py', L + 'backend.py'],
  [('persisted notifications', 'server/main_runner.py')],
  observe=['eventer client responses and notifications', 'Backend content'])

p('G03', 'A redundant installation recovers',
  'Once connections work and all servers run, within bounded time the one '
  'server which is blessed by the monitor is operational and accepts '
  'events, all others are in standby and announced there as synchronized, '
  'no server closes by itself, and histories of all servers become equal - whatever sequence of crashes, '
  'restarts, lost connections and changes of ranks has preceded.',
  ['schedules', 'crash points', 'faults'],
  'every sequence of faults which precedes recovery',
  'Tests do not inject faults to a complete server.',
  [S + 'main_runner.py', S + 'engine_runner.py', S + 'eventer_client_runner.py', 'src_py/hat/event/component.py'],
  [('runner', S + 'main_runner.py')],
  observe=['eventer client status', 'Backend content'])

if __name__ == '__main__':
    path = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
    path.write_text(''.join(json.dumps(i) + '\n' for i in P))
    print(len(P))
