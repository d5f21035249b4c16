"""What is run for each of the properties"""

import typing


class Design(typing.NamedTuple):
    """Exhaustive check of the specification with small constants"""
    module: str
    quick: str | None           # configuration
    thorough: str | None = None


class Traces(typing.NamedTuple):
    """Traces of the real code validated against the specification"""
    driver: str
    spec: str
    focus: str
    quick: int                  # number of runs
    thorough: int
    mode: str = 'validate'      # or 'explain'
    cfg: str | None = None


class Check(typing.NamedTuple):
    units: list
    note: str


common_note = ('TLC checks the TLA+ specification exhaustively with small '
               'constants, and decides whether every line of every trace '
               'recorded from the real code (driven through its public '
               'interface, with simulated time, scheduling and faults) is '
               'allowed by the same specification; holds for the schedules, '
               'inputs and faults explored. ')

checks = {}


def check(prop, note, *units):
    checks[prop] = Check(list(units), common_note + note)


storage_note = ('Trusted: lmdb transactions are atomic and isolated, the '
                'projection of concrete events to records of the '
                'specification. ')

storage_design = Design('MCStorage', 'MCStorage.cfg',
                        'MCStorageThorough.cfg')

for _i in ['S02', 'S03', 'S04', 'S06', 'S07', 'S08', 'S09', 'S11']:
    check(_i, storage_note, storage_design,
          Traces('storage', 'StorageTrace', _i, 1200, 30000))

check('S05', storage_note, storage_design,
      Traces('storage', 'StorageTrace', 'S05', 900, 20000),
      Traces('storage_fault', 'StorageFault', 'S05', 150, 8000))

for _i in ['S01', 'S10', 'S12']:
    check(_i, storage_note, storage_design,
          Traces('storage_fault', 'StorageFault', _i, 400, 15000))

check('M01', 'Trusted: the projection of concrete events to records of the '
      'specification. ', storage_design,
      Traces('storage', 'StorageTrace', 'M01', 800, 30000))

common_note_ = ('Subtypes are drawn from a few classes of spellings; the '
                'bounds of the exhaustive part are in the configurations. ')

check('C01', common_note_,
      Design('MCSubscriptions', 'MCSubscriptions.cfg',
             'MCSubscriptionsThorough.cfg'),
      Design('MCSubscriptions', None, 'MCSubscriptionsLong.cfg'),
      Traces('common', 'CommonTrace', 'C01', 1200, 40000))

check('C02', common_note_,
      Design('MCSubscriptions', 'MCSubscriptions.cfg',
             'MCSubscriptionsThorough.cfg'),
      Traces('common', 'CommonTrace', 'C02', 2400, 80000))

check('C03', 'Timestamps are exact in the specification (64 bit limbs, '
      'calendar in whole days); floating point durations are those which are '
      'exactly representable. ',
      Design('MCTimestamps', 'MCTimestamps.cfg', 'MCTimestampsThorough.cfg'),
      Traces('common', 'CommonTrace', 'C03', 1200, 40000))

check('C04', 'Trusted: SBS library. ',
      Design('MCWire', 'MCWire.cfg', 'MCWireThorough.cfg'),
      Traces('wire', 'WireTrace', 'C04', 2400, 100000))
check('C05', '',
      Design('MCWire', 'MCWire.cfg', 'MCWireThorough.cfg'),
      Traces('wire', 'WireTrace', 'C05', 1600, 100000))

engine_note = ('The backend, the eventer server and modules are stand-ins '
               'which record calls; time and scheduling of their answers is '
               'randomised. ')

for _i in ['E01', 'E02', 'E03', 'E04', 'E05']:
    check(_i, engine_note,
          Design('MCEngine', 'MCEngine.cfg', 'MCEngineThorough.cfg'),
          Traces('engine', 'EngineTrace', _i, 1600, 60000))

eventer_note = ('Clients and server exchange real messages over a simulated '
                'network which is ordered, arbitrarily slow and may be cut at '
                'any time. ')

for _i in ['P01', 'P02', 'P03', 'P04']:
    check(_i, eventer_note,
          Design('MCEventer', 'MCEventerRequests.cfg' if _i == 'P02' else
                 'MCEventer.cfg',
                 'MCEventerRequestsThorough.cfg' if _i == 'P02' else
                 'MCEventerThorough.cfg'),
          Traces('eventer', 'EventerTrace', _i, 2000, 60000))

server_note = ('Clients and the event server\'s eventer server exchange real '
               'messages over a simulated network; engines and the backend '
               'are stand-ins which record calls. ')

check('P05', server_note,
      Design('MCEventerServer', 'MCEventerServer.cfg',
             'MCEventerServerThorough.cfg'),
      Traces('eventer_server', 'EventerServerTrace', 'P05', 3000, 60000))
for _i in ['P01', 'P02', 'P03', 'P04']:
    checks[_i].units.append(
        Traces('eventer_server', 'EventerServerTrace', _i, 600, 10000))

sync_note = ('The remote history, its queries and notifications and the local '
             'backend are stand-ins which keep their documented contracts; '
             'messages travel over a simulated network. ')

for _i in ['Y01', 'Y02']:
    check(_i, sync_note,
          Design('MCSync', 'MCSync.cfg', 'MCSyncThorough.cfg'),
          Traces('sync', 'SyncTrace', _i, 2400, 40000))

runner_note = ('The backend, the eventer server, remote servers and modules '
               'are stand-ins which record calls, the engine is the real '
               'one. ')

check('R01', runner_note,
      Design('MCRunner', 'MCRunner.cfg', 'MCRunnerThorough.cfg'),
      Traces('engine_runner', 'RunnerTrace', 'R01', 5000, 200000))
checks['Y02'].units.append(
    Traces('engine_runner', 'RunnerTrace', 'Y02', 2000, 40000))

whole_note = ('The whole server runs with a real monitor server and monitor '
              'component, real eventer clients and (stand-in) remote event '
              'servers over a simulated network; the backend and modules are '
              'stand-ins which record calls. ')

for _i in ['R02', 'R03']:
    check(_i, whole_note,
          Design('MCServer', 'MCServer.cfg', 'MCServerThorough.cfg'),
          Traces('server', 'ServerTrace', _i, 2000, 40000))

component_note = ('The component runs with a real monitor server and real '
                  'eventer servers over a simulated network; runners are '
                  'stand-ins which record calls. ')

for _i in ['K01', 'K02']:
    check(_i, component_note,
          Design('MCComponent', 'MCComponent.cfg', 'MCComponentThorough.cfg'),
          Traces('component', 'ComponentTrace', _i, 4000, 80000))

check('A01', 'Adminer server callbacks are stand-ins; messages travel over a '
      'simulated network. ',
      Design('MCAdminer', 'MCAdminer.cfg', 'MCAdminerThorough.cfg'),
      Traces('adminer', 'AdminerTrace', 'A01', 3000, 60000))
check('A02', 'Real configuration of logging; messages travel over a simulated '
      'network. ',
      Design('MCAdminerServer', 'MCAdminerServer.cfg',
             'MCAdminerServerThorough.cfg'),
      Traces('adminer_server', 'AdminerServerTrace', 'A02', 3000, 60000,
             mode='explain'))

tools_note = ('Tools are run through their entry points. Databases of earlier '
              'versions are written by an independent encoder. ')
tools_design = Design('MCTools', 'MCTools.cfg', 'MCToolsThorough.cfg')

for _i in ['T01', 'T02']:
    check(_i, tools_note, tools_design,
          Traces('tools', 'ToolsTrace', _i, 800, 20000))

check('T03', tools_note + 'The event manager connects to a real eventer '
      'server over loopback network. ',
      Design('MCCli', 'MCCli.cfg', 'MCCliThorough.cfg'),
      Traces('tools', 'ToolsTrace', 'T03', 800, 20000),
      Traces('cli', 'CliTrace', 'T03', 600, 12000))

for _i in ['G01', 'G02', 'G03']:
    check(_i, 'Complete servers with LMDB backends and real clients run in '
          'one process over a simulated network; a crashed server leaves a '
          'copy of its database file; the monitor is a real monitor server '
          'with own choice of the blessed server. ',
          Design('MCCluster', 'MCCluster.cfg', 'MCClusterThorough.cfg'),
          Traces('cluster', 'ClusterTrace', _i, 480, 15000))
