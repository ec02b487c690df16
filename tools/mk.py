#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, note='', obs=None, na=None):
    P.append(dict(pid=pid, note=note, na=na, rec={
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    **({'observe_at': obs} if obs else {}), 'hook_needed': None}}))


A = 'src/app/'
MC = A + 'modbus/client/'
MS = A + 'modbus/server/'

prop('M01', 'A Modbus request on the wire is exactly the request that was asked for',
     'Every encodable Modbus request becomes exactly one Modbus/TCP frame: its transaction id, protocol 0, the exact length, unit, function, start item and count, and for writes the values high byte first. '
     'A request is refused exactly when it is malformed or would not fit the maximum frame (unit above 247, unsupported function, counts and data that disagree, response or request too long). '
     'No request, whatever its counts, makes the encoder read or write outside its buffers.',
     ['inputs'], 'every request: all function codes, all ids, addresses, counts, byte counts and data',
     'The unit tests encode one hand-picked request per function; the boundary lengths (frame of 260 bytes, oversized counts) and all other field values are never reached.',
     [A + 'modbus/ModbusCodec.cpp', A + 'modbus/PduBuffer.hpp'],
     [('ModbusCodec::encode(AduRequest)', A + 'modbus/ModbusCodec.cpp'), ('PduBuffer', A + 'modbus/PduBuffer.hpp')],
     'for every request, the whole codec body including PduBuffer')
prop('M02', 'A received Modbus request is decoded faithfully or refused',
     'A complete frame is accepted as a request exactly when it is a well-formed request of a supported function, and then transaction id, unit, function, start item, counts and data are those of the frame, independent of any request decoded before. '
     'No frame content makes the decoder read beyond the frame\'s buffer or write beyond the request\'s data.',
     ['inputs'], 'every byte string of every acceptable frame length, over any previously decoded request',
     'Tests decode a few well-formed frames; malformed counts, truncated bodies and left-overs of earlier requests are not tried.',
     [A + 'modbus/ModbusCodec.cpp'], [('ModbusCodec::decode(AduRequest)', A + 'modbus/ModbusCodec.cpp')],
     'for every frame of 6..259 bytes with a consistent length field')
prop('M03', 'Modbus responses are encoded and decoded faithfully or refused',
     'Every encodable response becomes exactly the Modbus/TCP frame that carries its transaction id, unit, function and values (or exception code), and every other response is refused. '
     'A received frame is accepted as a response exactly when it is well formed, and then yields exactly the ids, values or exception code on the wire. '
     'No response or frame makes the codec access memory outside its buffers.',
     ['inputs'], 'every response to encode; every byte string to decode',
     'Tests sample one response per function; lengths at the limits and inconsistent byte counts are not tried.',
     [A + 'modbus/ModbusCodec.cpp'], [('ModbusCodec::encode(AduRespond)', A + 'modbus/ModbusCodec.cpp'), ('ModbusCodec::decode(AduRespond)', A + 'modbus/ModbusCodec.cpp')],
     'for every response and every frame')
prop('M04', 'Modbus framing does not depend on how TCP fragments the stream',
     'Client and server wait for a frame exactly until all bytes its header announces have arrived, however the stream is cut into pieces: an incomplete frame is never judged, a complete one never waited on, and an impossible length ends the wait at once. '
     'Received bytes are kept in order and appended, a new frame starts with an empty buffer, and no sequence of pieces writes outside the receive buffer.',
     ['inputs', 'histories'], 'every byte stream and every way of cutting it into pieces, in every client and server state',
     'Tests deliver each frame in one piece; there are unboundedly many fragmentations.',
     [A + 'modbus/ModbusCodec.cpp', A + 'modbus/PduBuffer.hpp', MC + 'ModbusClient.cpp', MS + 'session/ModbusSession.cpp'],
     [('isAduHdrReceived/isAduReceived/isAduValid', A + 'modbus/ModbusCodec.cpp'), ('receive()', MC + 'ModbusClient.cpp'), ('receive()', MS + 'session/ModbusSession.cpp')],
     'inductive step over every buffer content and every received piece')
prop('M05', 'Every Modbus client request is answered exactly once, in order',
     'Each request handed to a Modbus client gets exactly one response, carrying its own client and transaction id, and requests are answered in the order they came: success, exception, or an error when it cannot be queued or encoded, times out, or the connection is missing or lost. '
     'While a request is unanswered or the client is not connected, a timer is armed that leads to the answer or to the next connection attempt; a lost connection is closed before it is made again. '
     'Nothing is answered that was not asked.',
     ['histories', 'inputs', 'fault_sequences'], 'every sequence of requests, link events, timeouts, peer data and link failures; any number of pending requests up to the queue size',
     'Tests run a handful of fixed event orders with one or two requests; the guarantee is over all interleavings of requests, faults and timeouts.',
     [MC + 'ModbusClient.cpp', MC + 'ModbusClientFsm.cpp', MC + 'ModbusAduStorage.cpp'],
     [('client state machine', MC), ('provideRsp*', MC + 'ModbusClient.cpp'), ('pending request storage', MC + 'ModbusAduStorage.cpp')],
     'inductive invariant over every state and event; liveness only in the form "a timer is armed"')
prop('M06', 'A Modbus client reports success only for the matching response',
     'A request is reported as successful exactly when a complete, well-formed response with its transaction id, unit and function (or an exception response) was received while that request was outstanding, and then the reported data or exception code is exactly what was received. '
     'Any other data (late, duplicated, foreign, malformed or unexpected) never produces a success and never answers a request that was not yet sent.',
     ['histories', 'inputs'], 'every peer behaviour: any bytes, in any pieces, at any time',
     'Tests use a cooperative peer; wrong ids, wrong lengths and stale data cannot be enumerated by examples.',
     [MC + 'ModbusClient.cpp', MC + 'ModbusClientReceive.cpp', MC + 'ModbusClientSend.cpp', MC + 'ModbusClientConnected.cpp', A + 'modbus/ModbusCodec.cpp'],
     [('ModbusClient::receive', MC + 'ModbusClient.cpp'), ('receiveUnexpected', MC + 'ModbusClient.cpp')],
     'inductive step over every state, event and received bytes')
prop('M07', 'The Modbus client sends the oldest request, one at a time',
     'What the client sends is always the exact frame of the oldest unanswered request, as it was handed over, and it sends nothing else. '
     'No further request is sent while one is waiting for its response.',
     ['histories', 'inputs'], 'every history of requests and events, every request content',
     'Tests look at one or two frames; reordering or content mix-ups appear only with particular queue states.',
     [MC + 'ModbusClient.cpp', MC + 'ModbusClientSend.cpp', MC + 'ModbusAduStorage.cpp'],
     [('ModbusClient::send', MC + 'ModbusClient.cpp'), ('pending request storage', MC + 'ModbusAduStorage.cpp')],
     'inductive step over every state and event')
prop('M08', 'A Modbus server session answers each request once, with the matching answer',
     'A server session hands a request to the application exactly when a complete well-formed request frame has arrived and none is in progress, exactly as received and naming its server and session. '
     'It sends at most one response per request: exactly the application\'s answer to the request in progress, with that request\'s transaction id, unit, function and range; a response for another transaction, session or server is never sent on its connection. '
     'No frame and no application response makes it access memory outside its buffers.',
     ['histories', 'inputs'], 'every sequence of peer data, application responses, timeouts and link events in every session state',
     'Tests follow the good path; stale or foreign responses, malformed frames between good ones and timing of timeouts are combinatorial.',
     [MS + 'session/ModbusSession.cpp', MS + 'session/ModbusSessionConnected.cpp', MS + 'session/ModbusSessionWaitModbusAduRsp.cpp', MS + 'ModbusServer.cpp'],
     [('ModbusSession::receive/send', MS + 'session/ModbusSession.cpp'), ('ModbusServer::receive', MS + 'ModbusServer.cpp')],
     'inductive step over every state and event')
prop('M09', 'Modbus server sessions are never shared and always released',
     'A connection is accepted only onto a free session, a session serves one connection at a time, and no session is ever given out while it is in use. '
     'A session ends when its peer closes, fails, sends an impossible length, or its inactivity timer fires, which is armed as long as it waits for a request; ending returns its link, its timer and its place exactly once, and a live session keeps them.',
     ['histories', 'fault_sequences'], 'every history of connections, closings, failures and timeouts, any number of sessions up to the pool size',
     'Leaks and double use show only after long histories of connections; tests open one or two.',
     [MS + 'ModbusServer.cpp', MS + 'ModbusSessionPool.cpp', MS + 'session/ModbusSession.cpp'],
     [('ModbusSessionPool::alloc/free', MS + 'ModbusSessionPool.cpp'), ('ModbusSession::releaseSession', MS + 'session/ModbusSession.cpp'), ('onAcceptEvent', MS + 'ModbusServer.cpp')],
     'invariants of the pool (ids distinct) and of the session, step by step')
prop('M10', 'Modbus messages reach exactly the client or server they name',
     'Every item of a request message is handed to the client it names, in order, or answered at once with an error carrying its own ids when there is no such client; an application response goes to the server it names or nowhere. '
     'Initialisation, configuration and release are each answered exactly once, and configuring one client or server leaves the others as they are.',
     ['inputs', 'configurations'], 'every id in every message, every set of configured clients and servers',
     'Tests configure one client and one server and use valid ids.',
     [A + 'modbus/Modbus.cpp', A + 'modbus/ModbusComponent.cpp', A + 'common/msg/modbus'],
     [('Modbus::receive', A + 'modbus/Modbus.cpp'), ('registerComponent', A + 'modbus/ModbusComponent.cpp')],
     'ids unrestricted; bounded: messages of at most 4 items, at most 16 configured clients or servers')
prop('R01', 'Queues of ids and pending requests are first-in first-out and lose nothing',
     'What is taken from a queue is what was put in, in the same order, with nothing lost, duplicated or changed, for every history of operations within its capacity. '
     'The storage of pending Modbus requests keeps each request and its data unchanged until it is removed, refuses a request when it is full or the data is too long, and never lets two pending requests share a buffer.',
     ['histories', 'inputs'], 'every reachable queue state (any fill level and wrap-around position), every element and request',
     'Wrap-around and full-queue states occur only after particular histories; tests push a few elements.',
     [A + 'common/utils/Queue.hpp', MC + 'ModbusAduStorage.cpp'],
     [('Queue', A + 'common/utils/Queue.hpp'), ('ModbusAduStorage', MC + 'ModbusAduStorage.cpp')],
     'inductive over every representation state; capacities in use (quick) and every capacity up to 65536 (thorough)')

exec(open(os.path.join(V, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props_more.py')) else None

P.sort(key=lambda p: p['pid'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p['rec']) + '\n')
TECH = 'contract-based deductive verification of the LLVM IR compiled from /repo on every run (own VC generator, z3 QF_AUFBV per obligation)'
man = {
    'version': 1,
    'setup_cmd': 'python3-vt -c "import z3" && clang++ --version >/dev/null && python3-vt engine/selftest.py',
    'hooks': {'guard': 'VERIF_SPEC', 'enable': 'no hooks are needed: the specifications lie in /verif/spec and are compiled together with the unchanged sources', 'source_commits': []},
    'checks': [{'property': p['pid'],
                'quick_cmd': 'python3-vt engine/check.py %s --tier quick' % p['pid'],
                'thorough_cmd': 'python3-vt engine/check.py %s --tier thorough' % p['pid'],
                'evidence_file': 'evidence/%s.json' % p['pid'],
                'technique': TECH, 'level': 'proof',
                'level_note': (p['note'] + '. ' if p['note'] else '') + 'Assumes the contracts, runtime models and front end listed in the evidence file.'}
               for p in P if not p['na']],
    'not_applicable': [{'property': p['pid'], 'reason': p['na']} for p in P if p['na']],
    'notes': 'see DESIGN.md'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
