"""Events, register events and query parameters with exact identity"""

from hat.event import common

from drivers import world


def rand_ts(rng):
    s = rng.choice([rng.choice(world.extreme_seconds),
                    rng.randrange(1_600_000_000, 1_800_000_000)])
    return common.Timestamp(s, rng.choice([rng.choice(world.extreme_us),
                                           rng.randrange(1_000_000)]))


def register_key(event):
    def ts_key(t):
        return (t if t is None else
                (type(t) is common.Timestamp, int(t.s), int(t.us)))

    return (isinstance(event.type, tuple), tuple(event.type),
            ts_key(event.source_timestamp), world.payload_key(event.payload))


def params_key(params):
    d = params._asdict()
    if d.get('event_types') is not None:
        d['event_types'] = [tuple(i) for i in d['event_types']]
    return (type(params).__name__,
            tuple((k, tuple(v) if isinstance(v, list) else
                   v.name if hasattr(v, 'name') else v)
                  for k, v in d.items()))


class Contents:

    def __init__(self, rng, servers=3):
        self.rng = rng
        ids = {0, 1, 2, 1000, 2 ** 31, 2 ** 40, 2 ** 63 - 1}
        self.servers = rng.sample(sorted(ids), servers)
        self.records = []       # of the trace
        self.events = []
        self.registers = []
        self.params = []
        self.results = []
        self._events = {}
        self._registers = {}
        self._params = {}
        self._results = {}

    # events

    def new_event(self, srv=None, type=None):
        """Event of the abstract server (1, 2, ..)"""
        rng = self.rng
        n = len(self.events) + 1
        srv = srv or rng.randrange(1, len(self.servers) + 1)
        event = common.Event(
            id=common.EventId(self.servers[srv - 1],
                              rng.choice([1, 2, 2 ** 40]), n),
            type=tuple(world.random_type(rng) if type is None else type),
            timestamp=rand_ts(rng),
            source_timestamp=rng.choice([None, rand_ts(rng)]),
            payload=world.random_payload(rng))
        return self.add_event(event, srv)

    def add_event(self, event, srv):
        self.events.append(event)
        n = len(self.events)
        self._events[world.event_key(event)] = n
        self.records.append({'srv': srv, 'type': list(event.type)})
        return n

    def event(self, n):
        return self.events[n - 1]

    def eid(self, event):
        try:
            return self._events.get(world.event_key(event), 0)
        except Exception:
            return 0

    # register events

    def new_register(self):
        rng = self.rng
        n = len(self.registers) + 1
        if rng.random() < 0.6:
            payload = common.EventPayloadJson([n, world.random_json(rng, 1)])
        else:
            payload = common.EventPayloadBinary(
                rng.choice(['', 't']),
                n.to_bytes(3, 'big') + rng.choice([b'', b'\x00', b'abc']))
        event = common.RegisterEvent(
            type=tuple(world.random_type(rng)),
            source_timestamp=rng.choice([None, rand_ts(rng)]),
            payload=payload)
        self.registers.append(event)
        self._registers[register_key(event)] = n
        return n

    def register(self, n):
        return self.registers[n - 1]

    def rid(self, event):
        try:
            return self._registers.get(register_key(event), 0)
        except Exception:
            return 0

    # queries (unique by max_results)

    def new_params(self):
        rng = self.rng
        n = len(self.params) + 1

        def types():
            if rng.random() < 0.3:
                return None
            return [tuple(i) for i in world.random_subscription(rng)]

        def ts():
            return rng.choice([None, rand_ts(rng)])

        def event_id():
            if rng.random() < 0.5:
                return
            return common.EventId(rng.choice(self.servers), rng.randrange(9),
                                  rng.randrange(9))

        kind = rng.randrange(3)
        if kind == 0:
            params = common.QueryLatestParams(
                event_types=[*(types() or []), ('unique', str(n))])
        elif kind == 1:
            params = common.QueryTimeseriesParams(
                event_types=types(), t_from=ts(), t_to=ts(),
                source_t_from=ts(), source_t_to=ts(),
                order=rng.choice(list(common.Order)),
                order_by=rng.choice(list(common.OrderBy)),
                max_results=n, last_event_id=event_id())
        else:
            params = common.QueryServerParams(
                server_id=rng.choice(self.servers),
                persisted=rng.random() < 0.5,
                max_results=n, last_event_id=event_id())
        self.params.append(params)
        self._params[params_key(params)] = n
        return n

    def param(self, n):
        return self.params[n - 1]

    def pid(self, params):
        try:
            return self._params.get(params_key(params), 0)
        except Exception:
            return 0

    # unique query results

    def result_key(self, result):
        return (bool(result.more_follows), type(result.more_follows) is bool,
                tuple(world.event_key(i) for i in result.events))

    def new_result(self):
        events = [self.event(self.new_event())
                  for _ in range(self.rng.choice([1, 1, 2, 4]))]
        result = common.QueryResult(events, self.rng.random() < 0.5)
        self.results.append(result)
        self._results[self.result_key(result)] = len(self.results)
        return len(self.results)

    def res_id(self, result):
        try:
            return self._results.get(self.result_key(result), 0)
        except Exception:
            return 0
