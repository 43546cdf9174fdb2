#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing the table)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, H, S, C, F = 'inputs', 'histories', 'schedules', 'configurations', 'fault_sequences'
P = []
def p(id, title, statement, over, qtext, why, files, mech, tech, note, level='exploration'):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), tech, note, level))

PARSER = ['src/http_parser.cpp', 'include/pion/http/parser.hpp']
MSG = ['src/http_message.cpp', 'include/pion/http/message.hpp', 'include/pion/http/request.hpp', 'include/pion/http/response.hpp']

p('P01', 'No byte stream can crash, hang or over-read the HTTP parser',
  'For every byte sequence, in whatever pieces it arrives, parsing an HTTP request or response (as well as a query string, multipart form, cookie header or stream) ends with done, more-needed or an error code, without reading or writing outside the supplied buffers, without an escaping exception and in bounded time. The number of bytes reported as consumed never exceeds the number supplied.',
  [I], 'all byte strings, splits into reads and parser settings', 'Unit tests feed a few recorded messages; memory safety has to hold for every hostile input, and the tests do not run under a memory checker.',
  PARSER + MSG, [('state machine over one byte at a time, bounded by m_read_end_ptr', 'src/http_parser.cpp: parse, parse_headers, parse_chunks, consume_content')],
  'structured + mutation fuzzing under ASan with exact-size heap buffers', 'Randomised search over generated, mutated and raw byte streams; trusts AddressSanitizer to see out-of-bounds access.')
p('P02', 'Parsing does not depend on how the network splits the bytes',
  'Whatever way a message is cut into reads, the parser accepts or rejects it at the same byte with the same error, and the resulting message (start line, headers, cookies, queries, content, validity, bytes consumed) is identical to parsing it in one piece.',
  [I, H], 'all messages, well-formed or not, and all partitions of their bytes', 'Tests use one or two hand-chosen splits of a few messages; the property quantifies over all cut points.',
  PARSER, [('all parse state kept in the parser between reads', 'src/http_parser.cpp: m_message_parse_state, m_headers_parse_state, m_chunked_content_parse_state')],
  'metamorphic property testing (split vs whole)', 'Differential against the same parser fed in one piece; random messages, mutations and cut points.')
p('P03', 'A message written out is read back identically',
  'Any request or response built with valid parts (method, resource, query, version, status, headers, cookies, content) and written to a stream or connection is read back as an equal message, consuming exactly the bytes that were written. Reusing the message objects, in either role, for further messages does not change that.',
  [I, H], 'all messages that can be built from valid parts; sequences of messages over one stream', 'Tests check a handful of fixed messages, one at a time.',
  MSG + PARSER, [('prepare_buffers_for_send / read', 'include/pion/http/message.hpp, src/http_message.cpp')],
  'round-trip property testing', 'Random messages written by pion and read by pion, compared with the generating model.')
p('P04', 'Message bodies end exactly where the framing says',
  'For well-formed messages the delivered content is exactly the bytes designated by Content-Length, by the chunk sizes or by end of stream, and the first byte not consumed is the first byte of the next message; trailing chunk footers become headers. Content above the configured maximum is discarded and never moves the end of the message, and a content callback sees the same bytes in the same order.',
  [I, H], 'all well-formed messages, pipelines of them, content limits and delivery modes', 'Tests cover single fixed bodies; boundary errors depend on body size, chunk layout, limits and pipelining.',
  PARSER + MSG, [('finish_header_parsing / consume_content / parse_chunks', 'src/http_parser.cpp')],
  'model-based generation with a reference model of framing', 'Messages are generated together with the content a reader must see; checks the parser against that model.')
p('P05', 'Size limits and malformed messages are enforced with the documented error',
  'Each documented limit on a message element (method, resource, query, header name and value, status text, cookie) accepts an element of exactly the limit and rejects anything longer with its own error, and malformed start lines, versions, status codes, headers, lengths and chunk sizes are rejected with the matching error code. A rejected message is never reported as complete or valid.',
  [I], 'all element lengths around the limits, all values of numeric fields, all malformed variants', 'Tests never approach the limits and try few malformed messages.',
  PARSER, [('*_MAX constants and set_error calls', 'src/http_parser.cpp')],
  'boundary-value and grammar-violation generation with an expected-error oracle', 'Oracle is the documented limit table and the HTTP grammar pion accepts.')
p('P06', 'Queries, form fields and cookies decode to exactly the encoded pairs',
  'For every list of names and values free of zero bytes, encoding them as a query string, form body or cookie header and parsing that gives back exactly those names and values, including repeated names, empty values and separators inside values. Values beyond the limits or containing control characters are refused.',
  [I], 'all lists of name/value pairs over all bytes', 'Tests use a few fixed strings.',
  PARSER + MSG + ['src/http_types.cpp'], [('parse_url_encoded, parse_cookie_header, make_query_string, make_set_cookie_header', 'src/http_parser.cpp, src/http_types.cpp')],
  'round-trip and reference-parser property testing', 'Reference parsers written from the documented grammar, plus encode/decode round trips.')
p('P07', 'Multipart form data yields exactly the submitted fields',
  'For every set of fields and boundary not occurring in them, parsing the multipart body gives exactly the submitted names and values: text fields byte for byte, other types as an encoded value that decodes back to the same type and bytes.',
  [I], 'all field lists, part headers and boundaries', 'Tests use two fixed bodies.',
  PARSER, [('parse_multipart_form_data, binary_2base64, base64_2binary', 'src/http_parser.cpp')],
  'round-trip property testing', 'Generated forms with known fields.')
p('P08', 'Base64, URL and XML codecs are exact and total',
  'Base64 and URL decoding invert encoding for every byte string and base64 decoding refuses text that is not base64. XML escaping of any byte string gives text that contains no markup and un-escapes to the original (with invalid UTF-8 replaced). None of them fails or reads out of bounds on any input.',
  [I], 'all byte strings', 'Tests use a few short strings.',
  ['src/algorithm.cpp', 'include/pion/algorithm.hpp'], [('base64_*, url_*, xml_encode', 'src/algorithm.cpp')],
  'round-trip and reference-implementation property testing', 'Reference codecs in the harness.')
p('P09', 'Integer and floating point byte codecs are exact',
  'Converting an integer of any supported width to network bytes and back gives the same number, and the bytes are the big-endian representation. Floating point values converted to and from IEEE single, double and quadruple precision bytes keep their value, including signed zero, subnormals, infinities and NaN.',
  [I], 'all values of each width', 'Tests sample a few values per width.',
  ['src/algorithm.cpp', 'include/pion/algorithm.hpp'], [('to_/from_ integers, float_from_bytes, float_to_bytes', 'include/pion/algorithm.hpp, src/algorithm.cpp')],
  'round-trip and differential property testing against hardware IEEE formats', 'Oracle: byte shifting and the compiler\'s float, double and __float128.')
p('P10', 'Messages behave as case-insensitive multi-dictionaries with value semantics',
  'Over any history of adding, changing, deleting and reading headers, queries and cookies, of setting start-line parts and content, and of copying, assigning and clearing messages, every accessor returns what a case-insensitive multi-map model predicts. Copies are independent of their source.',
  [H], 'all operation sequences over all names and values', 'Tests exercise single operations in isolation.',
  ['include/pion/hash_map.hpp', 'src/http_types.cpp', 'src/algorithm.cpp'] + MSG, [('ihash / iequal_to, change_value, delete_value, message copy operations', 'include/pion/hash_map.hpp, include/pion/http/message.hpp')],
  'stateful model-based testing', 'Model: ordered list of (lower-cased name, value) plus plain fields.')
p('P11', 'SPDY frames are decoded faithfully and safely',
  'For every well-formed sequence of SPDY frames the parser reports the stream, type, header fields and payload that were encoded, carrying the compression context from frame to frame; for any other byte string it reports an error, asks for more or ignores the frame. It never reads outside the packet or the decompressed data.',
  [I, H], 'all frame sequences, header sets, compression contexts and corruptions', 'Tests use three recorded packets.',
  ['src/spdy_parser.cpp', 'src/spdy_decompressor.cpp', 'include/pion/spdy/parser.hpp', 'include/pion/spdy/decompressor.hpp'], [('populate_frame, parse_header_payload, decompressor', 'src/spdy_parser.cpp, src/spdy_decompressor.cpp')],
  'reference-encoder property testing and mutation fuzzing under ASan', 'Encoder in the harness, deflate with the SPDY dictionary.')
p('P12', 'Only the current password of an existing user matches',
  'Over any history of adding, updating, re-hashing and removing users, looking a user up with a password succeeds exactly when the user exists and the password is the one most recently set (or whose given hash was set). Stored credentials never contain the clear text.',
  [H, I], 'all histories over all user names and passwords, also concurrent ones', 'Tests cover one user and one password.',
  ['include/pion/user.hpp'], [('user, user_manager', 'include/pion/user.hpp')],
  'stateful model-based testing', 'Model: map of user to password; SHA hashes recomputed with OpenSSL.')
p('P13', 'Protected resources are reachable only with valid credentials',
  'A request to a protected resource that is not exempted reaches the service only with the user name and current password of an existing user, or with an unexpired session (which nobody can guess) of one; otherwise it is answered with the configured challenge or redirection and the service does not run. Requests outside the protected set are not affected.',
  [H, I, C], 'all request paths, headers, restriction sets and user-management histories', 'Tests need the network server and cover a few fixed requests.',
  ['src/http_auth.cpp', 'src/http_basic_auth.cpp', 'src/http_cookie_auth.cpp', 'src/http_server.cpp'], [('handle_request, need_authentication', 'src/http_basic_auth.cpp, src/http_cookie_auth.cpp')],
  'stateful model-based testing over loopback connections', 'Model of the user base, the restriction lists and sessions.')
p('P14', 'Requests are routed to the longest registered resource',
  'Over any history of adding and removing resources, a request is handled by the handler registered for the longest path-segment prefix of the requested resource, and by the not-found handler when there is none. Redirects are followed to the same outcome and always terminate.',
  [H, I], 'all sets of resources, histories of registration and request paths', 'Tests register one or two resources.',
  ['src/http_server.cpp', 'include/pion/http/server.hpp', 'include/pion/plugin_manager.hpp', 'src/http_plugin_server.cpp'], [('find_request_handler, plugin_manager::find', 'src/http_server.cpp, include/pion/plugin_manager.hpp')],
  'stateful model-based testing', 'Model: set of prefixes.')
p('P15', 'The server answers every request once, in order, with the right framing',
  'Over any connection history (keep-alive, pipelining, arbitrary splits, methods, versions and sizes) a client receives for each request exactly one response, in order, with the status text that belongs to its status and whose framing lets it find the next one (never chunks for an HTTP/1.0 client), and the connection stays open or closes as requested. A malformed request gets an error response and does not disturb other connections.',
  [H, S, F], 'all request sequences, splits into packets and concurrent connections', 'Tests send one request at a time.',
  ['src/http_server.cpp', 'src/http_reader.cpp', 'src/http_writer.cpp', 'src/tcp_server.cpp', 'include/pion/tcp/connection.hpp'], [('reader/writer/server connection life cycle', 'src/http_reader.cpp, src/http_server.cpp')],
  'stateful testing over loopback with an independent client', 'Client with its own HTTP framing code.')
p('P16', 'The file service serves and modifies only files below its directory',
  'Whatever path is requested, with whatever method, the file service returns content of, creates, changes or removes only files inside its configured directory (or the configured file), and what it returns is the current content of the file addressed. Write methods have no effect unless writing is enabled.',
  [I, H, C], 'all request paths and encodings, methods, options and file histories', 'Tests try a fixed list of paths.',
  ['services/FileService.cpp', 'services/FileService.hpp'], [('path containment check and file cache', 'services/FileService.cpp')],
  'stateful model-based testing in a scratch directory', 'Model of a directory tree; run as an unprivileged user.')
p('P17', 'The scheduler runs every piece of work and shuts down cleanly',
  'Over any history and interleaving of starting, posting work, registering users, waiting and shutting down, every piece of work posted while the scheduler runs is executed exactly once (at most once if a shutdown that no registered user holds back overtakes it), on as many threads as configured; work that throws does not stop the others. Shutdown returns once all registered users have left, nothing runs afterwards, an idle scheduler uses no CPU, and it can be started again.',
  [S, H, F], 'all operation histories, thread counts and interleavings', 'Interleavings are not controlled by unit tests; only start/stop is covered.',
  ['src/scheduler.cpp', 'include/pion/scheduler.hpp'], [('startup/shutdown/process_service_work', 'src/scheduler.cpp')],
  'stateful testing with randomised schedules and fault injection', 'Random histories with random delays; hangs are detected by timeout.')
p('P18', 'Plug-ins are found, shared and released exactly',
  'A plug-in is found in the first search directory that has it, by name with or without suffix; over any history of opening, copying, assigning and closing handles it stays loaded exactly while some handle refers to it, each instance is created and destroyed once by the plug-in that made it, and a missing or malformed plug-in is an error that leaves other handles intact.',
  [H, C], 'all histories of handles, instances and search paths', 'Tests open one plug-in at a time.',
  ['src/plugin.cpp', 'include/pion/plugin.hpp', 'include/pion/plugin_manager.hpp'], [('plugin reference counts, find_plugin_file, plugin_manager', 'src/plugin.cpp')],
  'stateful model-based testing with real shared objects', 'Plug-ins are compiled by the check into a scratch directory.')
p('P19', 'A TCP stream carries every byte in order in both directions',
  'For every sequence of formatted, block and character writes, flushes and reads on connected streams, the receiver gets exactly the bytes written, in order, including bytes above 127 and zero, and reads report end of stream only after the last byte.',
  [H, S], 'all write/read/flush sequences and sizes', 'Tests exchange a few short lines.',
  ['include/pion/tcp/stream.hpp', 'include/pion/tcp/connection.hpp'], [('stream_buffer overflow/underflow/xsputn/xsgetn/sync', 'include/pion/tcp/stream.hpp')],
  'stateful round-trip testing over loopback', 'Model: the byte sequence written.')
p('P20', 'Missing packets never corrupt or crash message parsing',
  'When bytes of a message are reported missing, the parser either reports an error, or continues with a message of unchanged length that is marked as having missing packets, in which every received byte is at its place. It never over-reads, and the bytes that follow the message are parsed as before.',
  [F, I], 'all messages and positions and lengths of losses', 'Tests drop one range in two messages.',
  PARSER, [('parse_missing_data', 'src/http_parser.cpp')],
  'fault-injection property testing', 'Random losses at random positions.', 'fault_enumeration')
p('P21', 'Writers emit complete, correctly framed messages',
  'Whatever mix of text, binary, copied and referenced pieces is written through a request or response writer, sent at once or in chunks, the peer receives a message whose decoded content is exactly the concatenation of the pieces, with a matching length or chunk framing and with no body where HTTP forbids one. The completion handler is called exactly once per send, and a cleared writer keeps nothing of what was sent.',
  [I, H], 'all sequences of writes, chunk sends and message settings', 'Tests send short fixed strings.',
  ['src/http_writer.cpp', 'include/pion/http/writer.hpp', 'include/pion/http/response_writer.hpp', 'include/pion/http/request_writer.hpp'], [('writer buffers and prepare_write_buffers', 'include/pion/http/writer.hpp')],
  'stateful model-based testing over loopback', 'Independent decoder in the harness.')
p('P22', 'URIs and forwarding headers are split faithfully',
  'Splitting a URI built from any scheme, host, port, path and query returns those parts, with defaults for absent ones, and refuses a missing host or a port that is no valid number. The client address found in a forwarding header is always the first public address in it.',
  [I], 'all URIs and header values', 'Tests use a few URIs.',
  PARSER, [('parse_uri, parse_forwarded_for', 'src/http_parser.cpp')],
  'round-trip and reference-implementation property testing', 'Reference splitter in the harness.')
p('P23', 'Client input cannot inject markup or headers into responses',
  'Whatever a client puts into its request, error pages and redirects generated by the server contain it only in escaped form: the page is complete and contains no markup, and the response no header line, that the server did not intend.',
  [I], 'all request resources, queries and headers', 'Tests never send hostile resources.',
  ['src/http_server.cpp', 'src/http_cookie_auth.cpp', 'services/FileService.cpp', 'services/EchoService.cpp', 'services/CookieService.cpp', 'services/LogService.cpp'], [('xml_encode in the error handlers', 'src/http_server.cpp')],
  'structured fuzzing with a markup and header oracle', 'Tags in the response must be those of the response to a harmless request.')
p('P24', 'Servers start, stop and restart without losing or leaking connections',
  'Over any history of starting and stopping servers with open, idle and busy connections, stop returns with the port released and all connections closed (or finished when waiting was requested), each accepted connection is handled once, and a restarted server serves again. The web services of a server are started and stopped with it, once each time, and go when it is cleared.',
  [H, S, F], 'all histories of start/stop and client behaviour', 'Tests start and stop once.',
  ['src/tcp_server.cpp', 'include/pion/tcp/server.hpp', 'src/tcp_timer.cpp', 'include/pion/tcp/connection.hpp'], [('start/stop/finish_connection', 'src/tcp_server.cpp')],
  'stateful testing over loopback with randomised schedules', 'Hangs detected by timeout.')
p('P25', 'Service configuration files load exactly the services they name',
  'Loading a configuration file assembled from any mix of valid statements, comments, blank lines, whitespace and line ends gives exactly the configured plug-in paths, services, options, users and restrictions; a file with an unknown or incomplete statement is refused.',
  [I, C], 'all configuration texts', 'Tests load three fixed files.',
  ['src/http_plugin_server.cpp'], [('load_service_config', 'src/http_plugin_server.cpp')],
  'grammar-based generation with a recording service', 'Configuration files rendered from a model.')
p('P26', 'HTTP dates are correct for every instant and from every thread',
  'For every point in time the date string is the RFC 1123 representation of that instant in GMT, also when several threads format dates at once.',
  [I, S], 'all instants, all interleavings', 'Tests check one instant.',
  ['src/http_types.cpp'], [('get_date_string', 'src/http_types.cpp')],
  'differential property testing', 'Reference calendar arithmetic in the harness.')
exec(open(os.path.join(V, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'more_props.py')) else None

with open(V + '/properties.jsonl', 'w') as f:
    for d, *_ in P: f.write(json.dumps(d) + '\n')
checks, na = [], []
for d, tech, note, level in P:
    i = d['id']
    if glob.glob('%s/harness/%s_*.cpp' % (V, i)):
        checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i, technique=tech, level=level, level_note=note))
    else: na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='python3 build.py --all', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks compile the unmodified sources. See DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'pending')
