RE = A + 'common/reactor/'
prop('R02', 'Messages between threads arrive unchanged and in order',
     'The message storage of a reactor returns the messages put in byte for byte and in the order they were put in, whatever is pending besides; nothing is lost, duplicated or changed while it waits. '
     'A message is refused exactly when the storage is full or the message does not fit, without touching what is pending, and taking from an empty storage gives nothing.',
     ['histories', 'inputs'], 'every storage state (any pending messages, any order of free places), every message and length',
     'Mixed-up places or lengths appear only after particular orders of putting in and taking out; no test covers the storage at all.',
     [RE + 'MsgMemStorage.cpp', A + 'common/utils/Queue.hpp'],
     [('MsgMemStorage::push/pop', RE + 'MsgMemStorage.cpp')],
     'inductive step over every state of the 64 x 4096 byte storage the reactor uses, one thread at a time (the mutex is not judged)')
prop('R03', 'Links, timers, acceptors and pool entities are never given out twice and never leak',
     'An entity of a pool (link, acceptor, timer, OPC UA entity) is given out only while it is free, and a request is refused exactly when all are in use. '
     'Releasing returns it exactly once and makes it usable again, and an attempt to create one that fails leaves nothing allocated or open. '
     'Events reach the current owner only: a released entity reports nothing, and a new owner gets its events.',
     ['histories', 'fault_sequences'], 'every pool state, every order of release, every failure of the operating system while creating',
     'Leaks and double allocation need long histories or failing system calls.',
     [RE + 'EntityPool.hpp', RE + 'Reactor.cpp', A + 'common/ua/common/UaEntityPool.hpp'],
     [('EntityPool/UaEntityPool alloc, release, get', RE + 'EntityPool.hpp'), ('createLink/createTimer/createLinkAcceptor and their release', RE + 'Reactor.cpp')],
     'inductive step over every pool state; the reactor part runs the pools to exhaustion with every choice of the released one')
prop('R04', 'The reactor hands each message and each event to its handler exactly once',
     'Every stored message wakes the reactor, and the reactor hands each message to the last handler registered for its id exactly once, as sent and in the order of sending; messages nobody handles are dropped, and an exception of one handler takes nothing from the others. '
     'Each ready descriptor is reported to its own object once, with its events; what is registered is what was asked for. '
     'The reactor manager passes a message to the reactor of the component it names, to no other, and starts every reactor once.',
     ['histories', 'inputs', 'fault_sequences'], 'every message id and content, every set of ready descriptors and events, every component id',
     'Tests contain no reactor; dispatch depends on ids, order and failures that examples do not cover.',
     [RE + 'Reactor.cpp', RE + 'Epoll.cpp', RE + 'Event.cpp', RE + 'ReactorManager.cpp'],
     [('Reactor::onFdEvent/sendInt/registerHandler', RE + 'Reactor.cpp'), ('Epoll::wait', RE + 'Epoll.cpp'), ('ReactorManager::send', RE + 'ReactorManager.cpp')],
     'bounded: at most 3 registered handlers, 3 pending messages of 4, 3 ready objects per wait; otherwise every value')
prop('R06', 'Links, acceptors and timers own one descriptor and report what happened to it',
     'An open link, acceptor or timer owns exactly one registered non-blocking descriptor, a closed one owns none; closing closes it exactly once, a failed operation leaves nothing open, and an object that is open is not opened again. '
     'Addresses and ports reach the operating system as configured; a timer fires once after the asked interval in microseconds, and a stopped one not at all. '
     'A link reports success of sending only when everything was sent, received data with its exact length, and end of stream, absence of data and failure as such; each event of a descriptor is reported once as connected, data or error, and after an error the link is closed.',
     ['inputs', 'fault_sequences'], 'every address, interval, buffer and every result of the operating system calls, in every state of the object',
     'The results of the operating system (partial writes, failing registration, end of stream at any time) can not be provoked by the tests.',
     [RE + 'Link.cpp', RE + 'Acceptor.cpp', RE + 'Timer.cpp', RE + 'Event.cpp', RE + 'types/LinkAddr.hpp'],
     [('Link', RE + 'Link.cpp'), ('Timer', RE + 'Timer.cpp'), ('Acceptor', RE + 'Acceptor.cpp')],
     'every state and every result of each system call (modelled by a ghost operating system in spec/env_os.h)')
UC = A + 'common/ua/common/'
prop('U01', 'OPC UA values on the wire are exactly the values that were given',
     'Every OPC UA value and message (numbers, texts, node ids, variants, arrays, data values, headers and all requests and responses of the stack) is encoded as exactly the octets of the OPC UA binary encoding as this stack defines it: fields in order, little endian, lengths and masks as the content requires, the right type node id in front of a message. '
     'Decoding those octets gives back an equal value, and consumes exactly them, wherever in the buffer they lie; other received forms of the same value (null texts and arrays, longer node id forms) decode to that value. '
     'What does not fit the buffer is refused and nothing outside the buffer is touched.',
     ['inputs'], 'every value of every field, every combination of optional parts, every position in the buffer',
     'The unit tests round-trip one hand-picked value per type; a swapped field, a wrong width or a wrong mask bit in another combination of parts is not seen.',
     [UC + 'OpcUaBinaryCodec.cpp', UC + 'OpcUaSduBuffer.cpp', UC + 'types', UC + 'msg'],
     [('OpcUaBinaryCodec operator<< and operator>>', UC + 'OpcUaBinaryCodec.cpp'), ('OpcUaSduBuffer', UC + 'OpcUaSduBuffer.cpp')],
     'numbers: every value at every position; texts and arrays of numbers of every length at every position (loop invariants; bounded: arrays of 4 and 8 octet numbers are read at one place); bounded: arrays of other elements of 0..3 elements, texts inside messages up to 3 octets')
prop('U02', 'No received octets make the OPC UA decoder leave its buffer or hang',
     'Whatever octets a peer sends and however many of them arrived, decoding any OPC UA type or message either succeeds or is refused with an exception; it reads only what was received, writes only inside the value decoded into, consumes no more than it was given and always ends. '
     'A text or array is accepted only when its announced length was really received, and then has that length and content; a null text or array is empty. An announced length alone never makes the decoder allocate or wait for more than what was received.',
     ['inputs'], 'every content of the buffer, every amount received and every read position, for every decodable type',
     'The decoder faces unauthenticated peers; tests decode only what the encoder produced.',
     [UC + 'OpcUaBinaryCodec.cpp', UC + 'OpcUaSduBuffer.cpp'],
     [('OpcUaBinaryCodec operator>>', UC + 'OpcUaBinaryCodec.cpp'), ('OpcUaSduBuffer::read', UC + 'OpcUaSduBuffer.cpp')],
     'every buffer content, amount and position; composed types by the contracts of their parts; texts and arrays of numbers of every length (loop invariants); bounded: other arrays of at most 3 elements (thorough 12) and announced lengths that were not received')
UT = A + 'ua/transport/'
prop('U03', 'An OPC UA TCP connection passes on exactly what its peer sends, and ends cleanly',
     'However the octets of a peer are split into reads, an OPC UA connection acts on whole frames only: a Hello is answered by exactly one Acknowledge with the limits of this server, and after that each complete OPN, MSG or CLO frame is passed on exactly once, unchanged, with its connection, channel and chunk type; MSG and CLO only for the channel of the connection. '
     'What a secure channel wants sent goes out as one frame with the right type, length, channel and content, on the connection it names and on no other. '
     'Whatever ends a connection (peer, malformed frame, failed sending, 30 s without a frame, request) gives back its link, timer and place exactly once and tells its channel; until then it keeps them and stays under the time limit. Connections are accepted while there are places and refused otherwise.',
     ['inputs', 'histories', 'fault_sequences'], 'every content and fragmentation of the stream, every message of the secure channels, every failure, timer expiry and order of events',
     'The tests do not contain this component at all; fragmentation, stray channels and failures at every point can not be enumerated by examples.',
     [UT + 'server/UaTcpConnection.cpp', UT + 'server/UaTcpConnectionConnected.cpp', UT + 'server/UaTcpConnectionReceiveHello.cpp', UT + 'server/UaTcpServer.cpp', UT + 'UaTransportComponent.cpp'],
     [('UaTcpConnection::receive/receiveHello/receiveSecuredMessage', UT + 'server/UaTcpConnection.cpp'), ('state classes', UT + 'server/UaTcpConnectionConnected.cpp'), ('UaTcpServer', UT + 'server/UaTcpServer.cpp')],
     'inductive step over every state of a connection (any partly received frame up to 4096 octets, any channel) and every event; bounded: the server is run with up to 33 connections in one order of arrival, every one of them ending (any order of places: R03)')
US = A + 'ua/securechannel/'
prop('U04', 'A secure channel belongs to one connection and lets through only its own messages, in order',
     'A channel is opened by a well formed request, for the connection that asked, and is answered once with the channel, a token, the request id and the request handle of the request. From then on a message is passed on to the services exactly once and unchanged, with its connection, channel, request id and session, only when it comes from the connection of the channel, carries its token and the sequence number after the last one; '
     'anything else from that connection ends the channel and the connection, and messages of other connections have no effect on the channel. '
     'What a service sends goes out once, unchanged, with the token, the next sequence number and the id of the request, only to the connection and session of the channel. '
     'A channel ends exactly once, on a close request (answered before the connection is released), a violation or the end of its connection, forgets connection and session and gives its place back; channels are opened while there are places, and a message reaches the channel it names and no other.',
     ['inputs', 'histories'], 'every state of a channel, every message content and length, connection, session, token and sequence number',
     'The tests do not contain this component; isolation between connections that reuse places shows only in particular histories.',
     [US + 'channel/UaServerSecureChannel.cpp', US + 'channel/UaServerSecureChannelEstablished.cpp', US + 'channel/UaServerSecureChannelInit.cpp', US + 'UaSecureChannel.cpp', US + 'UaSecureChannelComponent.cpp'],
     [('UaServerSecureChannel::receive', US + 'channel/UaServerSecureChannel.cpp'), ('state classes', US + 'channel/UaServerSecureChannelEstablished.cpp'), ('UaSecureChannel', US + 'UaSecureChannel.cpp')],
     'inductive step over every state of a channel and every message; request bodies by the contracts of the decoder (U02), and concretely in 4 shapes; bounded: the component is run with up to 33 channels')
UV = A + 'ua/service/'
prop('U05', 'OPC UA services answer each request once, and session services only in the right session',
     'A well formed service request (GetEndpoints, CreateSession, ActivateSession, CloseSession, Read) is answered exactly once, on the connection and channel and with the request id it came with, with its request handle and the content the service defines; one that is malformed, unknown or not allowed in the present state is not answered and changes nothing. '
     'CreateSession gives a free session with its own identity and token, and is not answered when all are taken. ActivateSession finds the session by its token, associates it with the channel before it answers, and binds it to that channel. '
     'CloseSession finds the session by its token and gives its place back for another. Read is answered only in a session that was activated, and only on the channel it was activated on. '
     'The start and stop requests of the controller are answered once each, to the controller.',
     ['inputs', 'histories'], 'every message, id, channel, token and state of the sessions',
     'The tests do not contain the services; who may use which session shows only in histories with several sessions and channels.',
     [UV + 'UaService.cpp', UV + 'UaServiceComponent.cpp', UV + 'session', UV + 'attribute', UV + 'discovery'],
     [('UaService', UV + 'UaService.cpp'), ('UaSessionService', UV + 'session/UaSessionService.cpp'), ('UaSession and its states', UV + 'session/UaSession.cpp'), ('UaRead', UV + 'attribute/UaRead.cpp')],
     'inductive step over every message and every state of the sessions; request bodies by the contracts of the decoder (U02), and concretely in 4 histories; bounded: at most 3 occupied sessions of the 32, and one history that fills all')
UN = A + 'common/ua/protocols/connection/'
prop('U07', 'The OPC UA connection library hands over whole messages and ends exactly once',
     'A client or server connection makes the handshake of its side with exactly the Hello and Acknowledge (or ReverseHello) octets configured, tells its owner once that it is connected, and from then on hands over each received message whole, unchanged and once, however it was split into reads; nothing is handed over before. '
     'What the owner sends goes out as given, once. '
     'Whatever ends the connection (peer, malformed message, failed handshake, time limit, or the owner) gives back its link and its timer exactly once and, unless the owner asked for it, tells the owner exactly once; until then the connection keeps them and stays under a time limit. The owner may close at any time it is told something, that it is connected included.',
     ['inputs', 'histories', 'fault_sequences'], 'every content and fragmentation of the stream, every failure, timer expiry and order of events, every reaction of the owner',
     'The unit tests run one handshake with whole messages; fragments, failures and reactions of the owner in between are not sampled.',
     [UN + 'OpcUaConnection.cpp', UN + 'ClientConnection.cpp', UN + 'ServerConnection.cpp', UN + 'ClientConnectionConnected.cpp', UN + 'ServerConnectionConnected.cpp', UN + 'ClientConnectionReceiveAck.cpp', UN + 'ServerConnectionReceiveHello.cpp'],
     [('OpcUaConnection', UN + 'OpcUaConnection.cpp'), ('ClientConnection', UN + 'ClientConnection.cpp'), ('ServerConnection', UN + 'ServerConnection.cpp'), ('state classes', UN + 'ServerConnectionReceiveHello.cpp')],
     'inductive step over every state of a connection and every event, with every answer of the link')
CT = A + 'controller/'
prop('C01', 'The program comes up, serves and goes down as a whole',
     'Every component runs in exactly one reactor of the program and is reachable there under its own name. '
     'On a start request the controller initialises each subsystem exactly once, and configures it, with its address, exactly once after it reported to be initialised; on a stop request, in whatever phase it comes, it releases each subsystem exactly once and keeps nothing, and it can be started again; a stop without a start, and messages that do not belong to the phase, have no effect. '
     'Every Modbus request the controller serves is answered exactly once, to the session that asked, with what its registers hold, or with an error when it lies outside of them; writing changes the registers written and nothing else, and no message makes it touch other memory. '
     'A script run asks each of its cases once as it is, goes on when all were answered as expected, and ends at the first answer that is not.',
     ['inputs', 'histories', 'schedules'], 'every message content in every phase of the controller; every order of preference among the reactors for coming up and going down',
     'The tests do not contain the controller or the deployment; out of range requests and requests in the middle of a phase are not sampled.',
     [CT + 'ControllerComponent.cpp', CT + 'modbus/ModbusTestController.cpp', CT + 'modbus/ModbusTestRun.cpp', CT + 'modbus/ModbusTestConfigure.cpp', CT + 'ua/UaController.cpp', A + 'Deployer.cpp'],
     [('ControllerComponent', CT + 'ControllerComponent.cpp'), ('ModbusTestController and its states', CT + 'modbus/ModbusTestController.cpp'), ('UaController', CT + 'ua/UaController.cpp'), ('Deployer::apply', A + 'Deployer.cpp')],
     'inductive step over every phase of the controller and every message; bounded: the program as a whole comes up and goes down twice in 24 schedules with system calls that succeed')
