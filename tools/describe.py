#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (CLAIMED: ids with a check)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/engine')

E = 'libs/egts/'
SUBS = [E + f for f in ('egts_sr_pos_data.go', 'egts_sr_ext_pos_data.go', 'egts_sr_state_data.go', 'egts_sr_abs_cntr_data.go', 'egts_sr_abs_an_sensors_data.go',
                        'egts_sr_liquid_level_sensor.go', 'egts_sr_counters_data.go', 'egts_sr_ad_sensors_data.go', 'egts_sr_term_identity.go', 'egts_sr_auth_info.go',
                        'egts_sr_dispatcher_identity.go', 'egts_sr_result_code.go', 'egts_sr_response.go')]
PKG = [E + 'egts_pkg.go', E + 'egts_pt_response.go']
REC = [E + 'service_data_records.go', E + 'record_data.go']
SRV = ['cli/receiver/server/server.go']
P = {}


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=' '.join(text.split())), why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P[id] = d


prop('C01', 'Decoding arbitrary bytes always ends with a value or an error',
     '''For every byte sequence, decoding it as a transport packet, as the records or subrecords of one, as a response, or as any single
     section (position, sensor, counter, identity, result, authorisation) returns, either with a value or with an error.
     It never panics, never indexes or slices outside its input and never loops for ever.''',
     ['inputs'], 'all byte strings of any length, including truncated, overlong and hostile ones, at every decoding level',
     'the unit tests decode about twenty well-formed packets; a crash needs particular length fields, flags or a cut at a particular place',
     PKG + REC + SUBS, [('packet decoder', E + 'egts_pkg.go'), ('record and subrecord loops', E + 'service_data_records.go, record_data.go'), ('section decoders', E + 'egts_sr_*.go')],
     ['return values of the Decode functions'])
prop('C02', 'Checksums: CRC-8/CRC-16 as standardised, verified on input, written on output',
     '''The header checksum is CRC-8 (polynomial 0x31, initial value 0xFF) and the data checksum is CRC-16 (polynomial 0x1021, initial value
     0xFFFF) for every byte string, so every change within a single byte is noticed. A packet whose header checksum is wrong is rejected with code 137, and one
     that is otherwise fine but whose data checksum is wrong with code 138; neither is ever accepted. Encoding a packet writes exactly these
     two checksums, over the header and over the data.''',
     ['inputs'], 'all byte strings as checksum input; all packets as decoder input; all packets handed to the encoder',
     'the tests compute one CRC of each kind and never decode a packet with a wrong checksum; the table-driven computation has 512 entries and a loop over any length',
     [E + 'crc.go', E + 'egts_pkg.go'], [('CRC loops', E + 'crc.go'), ('checks in the packet decoder', E + 'egts_pkg.go')], ['return values of decoding; bytes produced by encoding'])
prop('C03', 'Packet header: every field read from its place, every malformed header refused',
     '''Decoding a packet gives exactly the header fields at their wire positions (flag bits as binary text; the two addresses and the time to live only when
     the route flag is set), the body those bytes stand for and the checksum that follows it. It reports code 0 exactly when it reports no error,
     and refuses a header whose announced length differs from its real length (131), a body that is cut short (132) and an
     unknown packet type (133). Every packet with a correct header, correct checksums and a decodable body is accepted.''',
     ['inputs'], 'all byte strings; all combinations of header flags, lengths, identifiers and packet types',
     'the tests compare a handful of packets, none with a route, and no refused header except one',
     PKG, [('packet decoder', E + 'egts_pkg.go')], ['decoded package, code and error'])
prop('C04', 'Record framing: records and responses are read field by field, in order',
     '''Decoding the data of a packet gives exactly the sequence of service records it contains: each record's length, number, flags, optional object, event
     and time fields (present exactly when flagged), service types and subrecords, in order and with none lost, repeated or merged. Data in which a
     record header or the announced subrecord bytes run past the end, or whose subrecords are malformed, is refused (a header followed by nothing at all is read as a
     record without subrecords). A response body gives the confirmed packet number, the result and the records that follow.''',
     ['inputs'], 'all byte strings, any number of records of any size, every combination of the optional fields',
     'the tests hold packets of one to three records with a few flag combinations; framing must hold for every count and every length field',
     REC + [E + 'egts_pt_response.go'], [('record loop', E + 'service_data_records.go'), ('response decoder', E + 'egts_pt_response.go')], ['decoded records'])
prop('C05', 'Subrecord framing: each subrecord goes to the section its type code names',
     '''Decoding the subrecords of a record gives, in order, exactly one entry per subrecord with its type, its length and the section that its type code
     stands for, decoded from exactly its own bytes (type 20 of five bytes is terminal state). A subrecord that runs past the
     end, an unknown type or a section that does not decode makes the whole record an error, never a shortened or shifted list.''',
     ['inputs'], 'all byte strings, any number of subrecords, all 256 type codes and 65536 lengths',
     'the tests decode lists of one to four subrecords of known types',
     [E + 'record_data.go'], [('subrecord loop and type dispatch', E + 'record_data.go')], ['decoded subrecords'])
prop('C06', 'Position data: time, coordinates, speed, course, altitude decode correctly',
     '''Decoding a position section gives the navigation time (seconds since 2010-01-01 UTC), latitude and longitude (to within 1e-9 degrees), the flag bits,
     speed in km/h from tenths in 14 bits, altitude sign, course with its highest bit, odometer, inputs, source and, when flagged, the 24-bit altitude, each from its own bits.
     A section too short for what its flags announce is refused and any other is accepted, without ever crashing.''',
     ['inputs'], 'all byte strings of any length, that is all 2^32 times, latitudes and longitudes and all flag combinations',
     'the tests decode two positions; bit packing and scaling must be right for all values',
     [E + 'egts_sr_pos_data.go'], [('position decoder', E + 'egts_sr_pos_data.go')], ['decoded section'])
prop('C07', 'Sensor and counter data: every reading comes from its own bits',
     '''Decoding extended position, terminal state, absolute counter, absolute analogue sensor, liquid level, counters and analogue/digital sensor
     sections gives every flag, number and reading from its own position on the wire; readings that are flagged absent are skipped and leave the others in their place.
     A section too short for what its flags announce is refused and any other is accepted, without ever crashing.''',
     ['inputs'], 'all byte strings, all 65536 combinations of presence flags, all values',
     'the tests decode one example of each section with most flags clear; a swapped pair of sensors shows only when both are present',
     SUBS[1:8], [('section decoders', E + 'egts_sr_*_data.go')], ['decoded section'])
prop('C08', 'Identity, authorisation and result data decode to what was sent',
     '''Decoding terminal identity, dispatcher identity, authorisation, result code and record response sections gives each number and text exactly as sent:
     optional fields are present exactly when flagged, and zero-terminated texts end at their terminator. A section that is too short (or an authorisation text without terminator) is refused,
     any other identity, authorisation or result section is accepted, and none ever crashes.''',
     ['inputs'], 'all byte strings, all 256 flag combinations of the terminal identity, texts of any length and content',
     'the tests decode one or two examples of each section',
     SUBS[8:], [('section decoders', E + 'egts_sr_term_identity.go, egts_sr_auth_info.go, egts_sr_dispatcher_identity.go, egts_sr_result_code.go, egts_sr_response.go')], ['decoded section'])
prop('C09', 'Truncated data is never accepted',
     '''A packet, record list, subrecord list or section whose bytes end before a field that its header, length fields or flags announce is reported as
     an error at every level of decoding. It is never accepted with invented, zero or partial values in place of the missing bytes
     (the one exception: the very last record of a packet may end directly after its header).''',
     ['inputs'], 'every cut position in every packet and section',
     'the tests never decode a truncated input; a silently short read shows only at particular cut positions',
     PKG + REC + SUBS, [('length checks and full reads', E + '*.go')], ['errors returned by decoding'])
prop('C10', 'Encoding then decoding gives back the same packet',
     '''For every packet, response, record, subrecord and section whose values fit their wire fields, encoding succeeds and decoding the result gives back the same
     values in every field that is present on the wire (coordinates to within one unit of their wire resolution).
     In particular every header field, flag, optional field, reading and text survives, in order, for any number of records and subrecords.''',
     ['inputs'], 'all values of all fields that fit the wire format, all flag combinations, any number of records and subrecords',
     'the tests round-trip a few fixed values per section, which cannot notice exchanged flags or fields that are only wrong for other values',
     PKG + REC + SUBS, [('Encode/Decode pairs', E + '*.go')], ['bytes and decoded values'])
prop('C11', 'Encoded packets and records have the documented layout and true lengths',
     '''Encoding a packet, response, record list or subrecord list produces exactly the documented byte layout: little-endian fields at their places, flags in their bits, optional
     fields exactly when flagged, bodies complete and in order. Every length field that was left to the encoder (header, frame data, record, subrecord) is the number of bytes that really
     follow, every reported length equals the encoded size, a subrecord type left open is filled in from its content, and encoding changes nothing in its argument.''',
     ['inputs'], 'all field values, any number of records and subrecords of any size up to the format limits',
     'the tests compare a few encoded packets with fixed bytes',
     PKG + REC, [('packet, record and subrecord encoders', E + 'egts_pkg.go, service_data_records.go, record_data.go, egts_pt_response.go')], ['bytes produced by encoding'])
prop('C12', 'What the format cannot represent is refused, not encoded wrongly',
     '''Encoding refuses with an error, rather than emitting a wrong packet, when a subrecord, a record or the packet data is longer than its 16-bit length field can say, when a
     contained section cannot be encoded or has no type code, and when a flag holds text that is not binary digits.
     It never writes a wrapped-around length and never drops the error of a contained section.''',
     ['inputs'], 'all values, in particular sections whose encoding exceeds 65535 bytes and flags with arbitrary text',
     'the tests encode only small, valid packets',
     PKG + REC + SUBS, [('size and flag checks of the encoders', E + 'egts_pkg.go, service_data_records.go, record_data.go, egts_sr_*.go')], ['errors returned by encoding'])
prop('C13', 'Encoded sections have the documented layout and true lengths',
     '''Encoding any section (position, sensor, counter, identity, authorisation, result, response) whose values fit their fields produces exactly the documented byte layout: every flag in its bit, every
     present field little-endian at its place and size, absent ones left out, texts padded or terminated as documented.
     The length a section reports equals the size of its encoding and encoding changes nothing in it.''',
     ['inputs'], 'all values that fit their fields, all flag combinations, texts up to their field size',
     'the tests encode one example of each section',
     SUBS, [('section encoders', E + 'egts_sr_*.go')], ['bytes produced by encoding'])

NOTES = {}
NOT_APPLICABLE = []
# further properties are appended by describe_server.py
try:
    exec(open(os.path.join(HERE, 'tools', 'describe_server.py')).read())
except FileNotFoundError:
    pass

NOT_APPLICABLE = globals().get('NOT_APPLICABLE', [])
NOTE = ('Every proof obligation generated from the current source by symbolic execution of the real functions (Go SSA) is discharged by z3 for all inputs and all iterations, function by function. '
        'Trusted: the executor and its models of standard-library functions (listed per run in the evidence), go/ssa, z3. ')
NOTES = globals().get('NOTES', {})


def main():
    import props
    with open(HERE + '/properties.jsonl', 'w') as f:
        for k in sorted(P):
            f.write(json.dumps(P[k], ensure_ascii=False) + '\n')
    checks = []
    for k in sorted(P):
        if k not in props.PROPS:
            assert any(n['property'] == k for n in NOT_APPLICABLE), k
            continue
        checks.append(dict(property=k, quick_cmd='python3-vt check.py %s --tier quick' % k, thorough_cmd='python3-vt check.py %s --tier thorough' % k,
                           technique='contract-based deductive verification of the Go functions (symbolic execution of SSA, loop invariants, z3)',
                           level='proof', level_note=NOTE + NOTES.get(k, '')))
        if props.PROPS[k].get('level'):
            checks[-1]['level'] = props.PROPS[k]['level']
    m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='verif', enable='go build/test -tags verif -overlay <generated>: the contract files of /verif/contracts are laid over /repo; /repo itself contains no hook', source_commits=[]),
             checks=checks, not_applicable=NOT_APPLICABLE,
             notes='python3-vt check.py --replay replay/<id>.json re-executes a recorded failing input against the real code')
    json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)


main()
