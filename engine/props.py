"""Which contracts and which of their clauses make up each property."""

DEC_SUBS = ['srresp', 'rescode', 'disp', 'auth', 'term', 'pos', 'extpos', 'state', 'abscntr', 'absan', 'liquid', 'counters', 'adsens']
SENSORS = {'extpos': 'SrExtPosData', 'state': 'SrStateData', 'abscntr': 'SrAbsCntrData', 'absan': 'SrAbsAnSensData',
           'liquid': 'SrLiquidLevelSensor', 'counters': 'SrCountersData', 'adsens': 'SrAdSensorsData'}
IDENT = {'srresp': 'SrResponse', 'rescode': 'SrResultCode', 'disp': 'SrDispatcherIdentity', 'auth': 'SrAuthInfo', 'term': 'SrTermIdentity'}


def dec(subs, *parts):
    return ['%s.dec.%s' % (s, p) for s in subs for p in parts]


PROPS = {
    'C01': dict(vcs=['egts.VC_*_Decode', 'egts.VC_crc8', 'egts.VC_crc16', 'egts.VC_SrResponse_exact'],
                labels=['*.dec.safe', 'crc*.safe']),
    'C02': dict(vcs=['egts.VC_crc*', 'egts.VC_Package_Decode', 'egts.VC_Package_Encode'],
                labels=['crc*.value', 'crc*.detect', 'pkg.dec.hdr.crc', 'pkg.dec.body.crc*', 'pkg.dec.crc.trunc', 'pkg.dec.safe', 'pkg.enc.hcs', 'pkg.enc.sum', 'pkg.enc.safe']),
    'C03': dict(vcs=['egts.VC_Package_Decode'],
                labels=['pkg.dec.hdr.hl', 'pkg.dec.hdr.values', 'pkg.dec.hdr.flags', 'pkg.dec.hdr.route', 'pkg.dec.type', 'pkg.dec.accept',
                        'pkg.dec.code0', 'pkg.dec.body.values', 'pkg.dec.body.bad', 'pkg.dec.body.sum', 'pkg.dec.safe']),
    'C04': dict(vcs=['egts.VC_ServiceDataSet_Decode', 'egts.VC_PtResponse_Decode'],
                labels=['sds.dec.values', 'sds.dec.accept', 'sds.dec.bad', 'sds.dec.safe', 'sds.dec.loop', 'ptresp.dec.*']),
    'C05': dict(vcs=['egts.VC_RecordDataSet_Decode'],
                labels=['rds.dec.values', 'rds.dec.accept', 'rds.dec.bad', 'rds.dec.unknown', 'rds.dec.safe', 'rds.dec.loop']),
    'C06': dict(vcs=['egts.VC_SrPosData_Decode'], labels=['pos.dec.*']),
    'C07': dict(vcs=['egts.VC_%s_Decode' % v for v in SENSORS.values()], labels=['%s.dec.*' % s for s in SENSORS]),
    'C08': dict(vcs=['egts.VC_%s_Decode' % v for v in IDENT.values()] + ['egts.VC_SrResponse_exact'], labels=['%s.dec.*' % s for s in IDENT]),
    'C09': dict(vcs=['egts.VC_*_Decode'], labels=['*.dec.trunc', '*.dec.*.trunc']),
    'C10': dict(vcs=['egts.VC_Sr*_Encode', 'egts.VC_Sr*_roundtrip', 'egts.VC_*_frame', 'egts.VC_Package_*', 'egts.VC_PtResponse_*', 'egts.VC_ServiceDataSet_*', 'egts.VC_RecordDataSet_*'],
                labels=['*.rt.*', '*.frame.*', 'pkg.enc.*', 'ptresp.enc.*', 'sds.enc.*', 'rds.enc.*', 'sr*.enc.safe',
                        'pkg.dec.accept', 'pkg.dec.hdr.values', 'pkg.dec.hdr.flags', 'pkg.dec.hdr.route', 'pkg.dec.body.values', 'ptresp.dec.values', 'ptresp.dec.accept', 'ptresp.dec.sdr', 'ptresp.dec.nosdr',
                        'sds.dec.values', 'sds.dec.accept', 'rds.dec.values', 'rds.dec.accept']),
    'C11': dict(vcs=['egts.VC_Package_Encode', 'egts.VC_PtResponse_Encode', 'egts.VC_ServiceDataSet_Encode', 'egts.VC_RecordDataSet_Encode', 'egts.VC_*_Length'],
                labels=['pkg.enc.*', 'ptresp.enc.*', 'ptresp.len', 'sds.enc.*', 'rds.enc.*', 'sds.len', 'rds.len', '*.len.safe']),
    'C12': dict(vcs=['egts.VC_Package_Encode', 'egts.VC_ServiceDataSet_Encode', 'egts.VC_RecordDataSet_Encode', 'egts.VC_*_flags'],
                labels=['*.enc.big', '*.enc.bad', '*.flags.*']),
    'C13': dict(vcs=['egts.VC_Sr*_Encode'], labels=['*.enc.*', '*.len']),
}

CONN = ['server.VC_handleConn']
RESP = ['server.VC_createPtResponse']
CODE = ['server.VC_createSrResultCode']
# native: clauses that a failing input may also show itself by, once the verifier has rejected the code
ANYSRV = ['srv.nack', 'srv.nacked', 'srv.ack', 'srv.answered', 'srv.quiet', 'srv.save', 'srv.saved', 'srv.save.values', 'srv.code', 'srv.coded']
PROPS.update({
    'C14': dict(vcs=CONN, labels=['srv.loop', 'srv.packet', 'srv.closed', 'srv.nacked', 'srv.answered', 'srv.quiet', 'srv.safe'], native=ANYSRV),
    'C15': dict(vcs=CONN + RESP, labels=['srv.ack', 'srv.answered', 'srv.quiet', 'srv.recs', 'srv.nil', 'srv.resp.*', 'srv.safe']),
    'C16': dict(vcs=CONN, labels=['srv.save', 'srv.save.*', 'srv.saved', 'srv.recs', 'srv.subs', 'srv.safe']),
    'C17': dict(vcs=CONN + RESP, labels=['srv.nack', 'srv.nacked', 'srv.nil', 'srv.resp.*', 'srv.safe'], native=['srv.save']),
    'C18': dict(vcs=CONN, labels=['srv.ack.saved', 'srv.saved', 'srv.safe']),
    'C19': dict(vcs=CONN + CODE, labels=['srv.code', 'srv.coded', 'srv.code.*', 'srv.safe']),
    'C20': dict(vcs=CONN + RESP + CODE, labels=['srv.safe', 'srv.closed', 'srv.resp.safe', 'srv.code.safe']),
    'C21': dict(vcs=CONN, labels=['srv.idle', 'srv.closed']),
    'C22': dict(vcs=CONN, labels=['srv.shared']),
})
STORES = ['redis.VC_Redis', 'nats.VC_Nats', 'nsq.VC_Nsq', 'rabbitmq.VC_Rabbit', 'postgresql.VC_Postgres', 'tarantool_queue.VC_Tarantool']
PROPS.update({
    'C23': dict(vcs=['storage.VC_Repository_Save', 'storage.VC_Repository_AddStore', 'storage.VC_NewRepository'],
                labels=['repo.*']),
    'C24': dict(vcs=STORES, labels=['store.save.*', 'store.safe', 'store.frame']),
    'C25': dict(vcs=STORES + ['storage.VC_LoadStorages'], labels=['store.init.*', 'store.safe', 'load.*']),
    'C26': dict(vcs=['storage.VC_NavRecord_ToBytes', 'storage.VC_LogConnector_Save'], labels=['nav.*', 'log.*']),
    'C27': dict(vcs=['config.VC_*', 'receiver.VC_receiver_main'], labels=['cfg.*', 'main.*']),
    'C28': dict(vcs=['server.VC_Run'], labels=['run.*']),
    'C29': dict(vcs=['packet-gen.VC_packetgen_packet', 'packet-gen.VC_packetgen_time'],
                labels=['gen.flags', 'gen.valid', 'gen.packet', 'gen.pid', 'gen.oid', 'gen.time', 'gen.coord', 'gen.liquid', 'gen.server', 'gen.once', 'gen.safe']),
    'C30': dict(vcs=['packet-gen.VC_packetgen_answer'],
                labels=['gen.success', 'gen.failure', 'gen.wait', 'gen.safe', 'gen.recs', 'gen.subs']),
})
SRV_ASSUMPTIONS = [
    'io.ReadFull on a connection delivers the next bytes of the stream however it is cut into segments, or an error (the contract of net.Conn)',
    'a connection does not fail in its methods with a panic; a read deadline that has passed makes reads fail',
    'time passes only while bytes are waited for; the timer armed for the configured time fires',
    'the packet decoder is used through its contract (C01-C05), logging has no effect',
]
for _k in ('C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22'):
    PROPS[_k]['assumptions'] = SRV_ASSUMPTIONS

_LIB = 'the client library of the store (redis, nats, nsq, amqp, database/sql with pq, tarantool queue) does what its functions promise; native runs check that against a server of our own on the loopback'
for _k in ('C24', 'C25'):
    PROPS[_k]['assumptions'] = [_LIB, 'escaping of an address (net/url, strings.ReplaceAll) is a fixed function of its input']
PROPS['C25']['assumptions'].append('LoadStorages starts with an empty repository, as the receiver does')
PROPS['C26']['assumptions'] = ['encoding/json renders a value as a fixed function of its shape (names, types, order of fields) and contents', 'logrus writes what it is given']
PROPS['C27']['assumptions'] = ['yaml.Unmarshal fills a value as a fixed function of the names and types of its fields and the text', 'package flag stores the given options in the variables that were registered']
PROPS['C28']['assumptions'] = ['net.Listen and Accept behave as documented: after Close, Accept returns net.ErrClosed']
PROPS['C29']['assumptions'] = PROPS['C30']['assumptions'] = ['package flag stores the given options in the variables that were registered', 'the network functions behave as documented',
                                                             'the answer is taken apart by the packet decoder through its own contract (C01-C05)']

ASSUMPTIONS = [
    'standard-library functions are replaced by the contracts listed in trusted_base',
    'a function listed by Abstract/Pure in a contract is used through its own contract only: its results are some fixed function of the contents of its arguments',
    'strings and slices are at most 2^40 long; append and bytes.Buffer never fail',
    'float64 arithmetic: finite values, one rounding of at most one part in 2^53 per operation',
    'arguments of a contract do not alias each other',
    'integers are machine integers (bit-vectors) everywhere',
]
