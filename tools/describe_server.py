# properties of the receiver (C14..)
prop('C14', 'Connection framing: every packet of the stream is handled once, in order',
     '''Whatever bytes a client sends and however the network cuts them into segments, the server takes the stream apart exactly at the packet boundaries given by the
     header length and data length fields, hands each packet whole to the decoder, and answers it before the next one: one answer per
     telemetry packet, none for an acknowledgement, in order. A stream that does not start with protocol version 1, announces a header shorter than ten bytes or ends inside a
     packet is closed at that point, after everything before it was handled.''',
     ['inputs', 'histories'], 'all byte streams, any number of packets (valid, damaged, split anywhere), any segmentation, any store and write failures',
     'the only server test sends one packet in one segment on one connection',
     SRV, [('packet loop of the connection handler', 'cli/receiver/server/server.go handleConn')], ['bytes written to the connection', 'calls of the store'])
prop('C15', 'Acknowledgement: a telemetry packet is confirmed record by record',
     '''Every accepted telemetry packet whose data was stored (or that had nothing to store) is answered with exactly one response packet: packet identifier of the request plus one, the
     request's identifier as the confirmed one, result 0, and one confirmation per record, in order, each with the number of that record and status 0, under the service type of the
     last record, with correct lengths and checksums. A packet that itself contains confirmations, and a response packet, is never answered, nor is one whose answer would exceed the size of a packet.''',
     ['inputs', 'histories'], 'all packets with any number of records and any identifiers, at any position of a connection',
     'the server test checks the answer to one packet with one record',
     SRV, [('connection handler and response builder', 'cli/receiver/server/server.go handleConn, createPtResponse')], ['bytes written to the connection'])
prop('C16', 'Stored data is exactly what the packet says',
     '''For every accepted telemetry packet with at least one position the store is called exactly once, before the answer, with a record that holds the server, the object identifier of the last record
     as client, the packet number (or the one given by counters 110/111), the time of reception, the terminal's IMEI, one location per position section in order (coordinates with the sign of their hemisphere, speed, time), and one entry per present analogue sensor and
     liquid sensor section, in order, with number, value and unit as sent. A packet without a position, a rejected packet and a response are never stored, and
     nothing of one packet ever appears in the record of another.''',
     ['inputs', 'histories'], 'all packets, with any number and order of records and subrecords, at any position of a connection',
     'the server test stores one packet and looks only at the number of stored messages',
     SRV + ['cli/receiver/storage/packet.go'], [('record and subrecord loops', 'cli/receiver/server/server.go handleConn')], ['record passed to the store'])
prop('C17', 'A rejected packet is answered with its error code and the session goes on',
     '''Every packet of the stream that the decoder refuses is answered with exactly one response packet that confirms its packet identifier with the error code the decoder reported and carries no records; nothing of it is stored,
     no success is reported for it, and the connection stays open for the packets behind it.''',
     ['inputs', 'histories'], 'all malformed packets (wrong checksums, lengths, types, contents), at any position of a connection',
     'no test sends a malformed packet to the server',
     SRV, [('error branch of the connection handler', 'cli/receiver/server/server.go handleConn, createPtResponse')], ['bytes written to the connection'])
prop('C18', 'Telemetry is confirmed only after every store has taken it',
     '''A packet with positions is answered with a success response only after the store was called with its data and reported success. If the store reports an error, the packet gets no
     answer (so the terminal sends it again) and the connection goes on.''',
     ['histories', 'fault_sequences'], 'all packets, all patterns of failing and succeeding stores over the life of a connection',
     'no test has a store that fails',
     SRV, [('save before answer', 'cli/receiver/server/server.go handleConn')], ['order of store calls and answers'])
prop('C19', 'Authorisation: identity packets get a result code, others never do',
     '''After the response to a packet that contains a terminal identity or authorisation section the server sends exactly one result code packet: result 0, packet identifier of the request plus one, one record of the authorisation service with one result code subrecord,
     correct lengths and checksums. Packets without such a section, also later ones on the same connection, get none.''',
     ['inputs', 'histories'], 'all packets and all sequences of packets on a connection',
     'no test sends an authorisation packet to the server',
     SRV, [('result code', 'cli/receiver/server/server.go handleConn, createSrResultCode')], ['bytes written to the connection'])
prop('C20', 'No input crashes the connection handler, and it always closes its connection',
     '''Whatever bytes arrive, whatever the stores answer and whether or not writes succeed, the handler of a connection never panics (which would take down the whole
     server), comes to an end when the stream ends or fails, and then has closed the connection.''',
     ['inputs', 'fault_sequences'], 'all byte streams, network errors at any point, failing writes, failing stores',
     'a panic needs a particular hostile packet; the test sends one well-formed packet',
     SRV, [('connection handler', 'cli/receiver/server/server.go handleConn')], ['panics', 'Close calls'])
prop('C21', 'Idle connections end after the configured time',
     '''With a time-to-live configured, the handler never waits for bytes of a packet without a read deadline of exactly the configured time, counted from the moment it began to wait for that packet and renewed for each packet; a client that
     falls silent, also in the middle of a packet, is disconnected. Without one no deadline is set.''',
     ['histories', 'schedules'], 'all streams, all time-to-live values, silence at any point of the stream',
     'no test lets a connection time out',
     SRV, [('read deadline', 'cli/receiver/server/server.go handleConn')], ['read deadlines set on the connection'])
prop('C22', 'Connections do not disturb each other',
     '''Handling a connection changes nothing that another connection can see: the handler writes only to objects it created itself and to its own connection, never to the server
     object, the list of stores or package variables, so connections served at the same time behave as if each were alone and share no data race.''',
     ['schedules'], 'all interleavings of any number of connection handlers, all inputs',
     'the test has one connection; a race shows only under particular interleavings',
     SRV, [('connection handler', 'cli/receiver/server/server.go handleConn')], ['memory written by the handler'])
for _k in ('C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22'):
    NOTES[_k] = 'The connection is modelled by the contract of net.Conn, the packet decoder is used through its own contract (proved by C01-C05). '

STO = 'cli/receiver/storage/'
CONS = [STO + 'store/%s/connector.go' % d for d in ('redis', 'nats', 'nsq', 'rabbitmq', 'postgresql', 'tarantool_queue')]
GEN = ['cli/packet-gen/main.go']
prop('C23', 'Every configured store gets every record, once and in order',
     '''Saving a record in the repository hands that very record once to each store that was added, in the order they were added, until one reports an error; success is
     reported exactly when every store was called and reported success. Saving changes neither the list of stores nor the record, and adding a store keeps all
     earlier ones.''',
     ['inputs', 'fault_sequences'], 'any number of stores, any pattern of failing stores, any record',
     'the tests use a repository with one store that never fails',
     [STO + 'store.go'], [('fan-out loop', STO + 'store.go Save'), ('store list', STO + 'store.go AddStore, NewRepository')], ['calls of Save on the stores', 'result of Repository.Save'])
prop('C24', 'A store connector delivers exactly the serialized record or reports an error',
     '''For each of the six connectors (redis, nats, nsq, rabbitmq, postgresql, tarantool queue), after a successful start, saving a record sends exactly its serialized bytes, once, to the configured
     destination (channel, topic, exchange and key, table, queue), and reports an error exactly when the record could not be serialized or the
     sending failed. A missing record or one that cannot be serialized is an error and sends nothing, and saving writes no memory of its own connector or of others.''',
     ['inputs', 'configurations', 'fault_sequences'], 'all records, all configurations, every failure of serialization or sending',
     'no test exercises a connector',
     CONS, [('Save of each connector', STO + 'store/*/connector.go')], ['what reaches the client library, and in native runs a server', 'result of Save'])
prop('C25', 'Stores are connected exactly as configured',
     '''Starting a connector fails exactly when its section is missing, lacks a required setting, holds a malformed number or the connection fails; otherwise it connects exactly once, to the configured address with the configured
     credentials and options, whatever characters they contain. Loading the stores starts one connector of the right kind for each configured section, with that section, and adds it;
     an unknown name, a failing connector or an empty configuration is an error.''',
     ['inputs', 'configurations', 'fault_sequences'], 'all configurations, including absent settings and special characters in names and passwords; any set of sections in any order',
     'no test starts a connector or loads stores',
     CONS + [STO + 'store.go'], [('Init of each connector', STO + 'store/*/connector.go'), ('LoadStorages', STO + 'store.go')], ['what the client library is given, and in native runs a server', 'list of stores'])
prop('C26', 'The stored text of a record holds every field under its documented name',
     '''The serialized form of a record is its JSON rendering with the documented names and types for all fields, positions and sensors, an error exactly when it cannot
     be rendered, and rendering leaves the record unchanged. The log store, used when no other store is available, writes exactly one log entry (level INFO) with the
     indented JSON text of the record, or reports an error and writes none.''',
     ['inputs'], 'all records with any number of positions and sensors',
     'no test looks at the stored text',
     [STO + 'packet.go', STO + 'default.go'], [('ToBytes', STO + 'packet.go'), ('LogConnector', STO + 'default.go')], ['serialized bytes', 'log entries'])
prop('C27', 'The receiver runs with exactly the settings in its file',
     '''Reading the settings file gives exactly the values under the documented keys, or an error if it is unreadable or malformed; the listening address is host:port, the time-to-live is in seconds,
     and the log level is the named one (INFO for any other). The receiver takes the file named by -c, sets that log level, loads the configured stores (falling back to the log store exactly when that fails) and
     runs one server with that address, time-to-live and repository; it gives up before starting anything only when the file is not named or not usable.''',
     ['inputs', 'configurations'], 'all settings and file contents, readable or not, and all outcomes of loading the stores',
     'the one configuration test reads one file; main is not tested',
     ['cli/receiver/config/config.go', 'cli/receiver/main.go'], [('settings', 'cli/receiver/config/config.go'), ('wiring', 'cli/receiver/main.go')], ['settings', 'log level, stores and server that are started'])
prop('C28', 'The server accepts clients until it is stopped, all at the same time',
     '''The server listens once on the configured TCP address and hands every accepted connection exactly once to a handler of its own that runs concurrently, so no client waits for another. A failing accept
     does not end the service; only stopping the server does, and then the listener is closed and Run returns.''',
     ['histories', 'schedules', 'fault_sequences'], 'any sequence of accepted connections, failing accepts and the stop',
     'the test opens one connection',
     SRV, [('accept loop', 'cli/receiver/server/server.go Run')], ['connections handed to handlers', 'end of Run'])
prop('C29', 'packet-gen sends exactly the packet its options describe',
     '''For every choice of options packet-gen connects to the given server (default localhost:5555) and sends exactly one packet that decodes to the given packet identifier, client, time, coordinates (with hemisphere, to the
     precision of the format) and liquid level. Options that are missing or cannot be represented in the packet (identifier, client, liquid level, coordinates or time out of range) end it with an error before anything is sent.''',
     ['inputs'], 'all values of all options',
     'packet-gen has no tests',
     GEN, [('packet', 'cli/packet-gen/main.go')], ['bytes written to the connection', 'exit status'])
prop('C30', 'packet-gen reports success exactly when the packet was confirmed',
     '''packet-gen ends successfully exactly when the server answered, within the given number of seconds (default 5) and however the answer was segmented, with a valid response packet that confirms the identifier sent with result 0 and holds records
     whose statuses are all 0. A connection or write failure, a short, damaged or foreign packet, another identifier, another result or any other status ends it with an error, and no answer crashes it.''',
     ['inputs', 'fault_sequences'], 'all byte strings as answers, any number of records and statuses, every failure of the connection',
     'packet-gen has no tests',
     GEN, [('acknowledgement', 'cli/packet-gen/main.go')], ['exit status'])
NOTES['C23'] = 'A store is modelled by its interface: it may fail at any call. '
for _k in ('C24', 'C25'):
    NOTES[_k] = 'The client libraries are replaced by recording contracts of the functions used. '
NOTES['C26'] = 'encoding/json is trusted; the names and types of the fields are compared with the documented ones. '
NOTES['C27'] = 'yaml and flag are trusted; the names and types of the settings are compared with the documented ones. '
NOTES['C28'] = 'The listener is modelled by the contract of net.Listener. '
for _k in ('C29', 'C30'):
    NOTES[_k] = 'main itself is under contract, with os.Exit, the options and the network replaced by their contracts. '
