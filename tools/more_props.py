p('P27', 'A shutdown request ends every wait of the process, and nothing else does',
  'A call that waits for the process to shut down returns after a shutdown was requested, by any thread or by a termination signal arriving in any thread at any point, for every waiting thread, and never returns before that; ignored signals have no effect. A daemonised process is detached from its parent, session and terminal.',
  [S, H], 'all interleavings of waiters, requests and signals', 'No test delivers a signal or waits.',
  ['src/process.cpp', 'include/pion/process.hpp'], [('handle_signal, wait_for_shutdown, daemonize', 'src/process.cpp')],
  'randomised schedules with injected signals in forked processes', 'Signals delivered to forked children only; hangs detected by timeout.')
p('P28', 'Administrator rights last exactly as long as their scope',
  'While an object that took administrator rights is alive the process has them, no two threads hold them at once, and when the object goes the rights are given back to exactly the user that had them, whatever the user id. Changing to a user or group named in the user and group files gives exactly the id of that entry, or the name is refused.',
  [I, S, H], 'all user ids, user/group files and interleavings', 'Tests run as one user.',
  ['src/admin_rights.cpp', 'include/pion/admin_rights.hpp'], [('admin_rights, find_system_id', 'src/admin_rights.cpp')],
  'stateful testing with interposed credentials and generated user files', 'The system calls that change credentials are replaced by a model inside the harness.')
p('P29', 'Silent peers are given up after the read timeout, active ones never',
  'A reader with a timeout gives up a peer that sends nothing for that time, after that time and not before, reporting it once; a peer that keeps sending before the timeout has all its messages delivered however slow it is; a timeout of a finished message never disturbs what is done with the connection later; without a timeout nobody is given up.',
  [S, F, I], 'all paces of sending and all numbers of peers', 'Tests wait for one timeout.',
  ['src/http_reader.cpp', 'src/tcp_timer.cpp', 'include/pion/tcp/timer.hpp', 'include/pion/http/reader.hpp'], [('read_bytes_with_timeout', 'src/http_reader.cpp'), ('timer_callback', 'src/tcp_timer.cpp')],
  'generated peer schedules in real time with a timing oracle', 'Peers delayed by the machine are not judged.')
p('P30', 'Objects shared by threads have no data races and keep their promises',
  'Servers with resources, authentication, sessions and file services, user managers, plug-in managers and the plug-in registry, schedulers, timers, streams and date formatting can be used by any number of threads at once, in any mix of operations their interfaces offer: there is no data race, every answer is one that some order of the operations explains, and concurrent logins get distinct sessions.',
  [S, H], 'all mixes of operations and interleavings', 'Tests use one thread at a time.',
  ['src/tcp_server.cpp', 'src/http_server.cpp', 'src/http_cookie_auth.cpp', 'src/http_basic_auth.cpp', 'src/http_auth.cpp', 'src/plugin.cpp', 'src/scheduler.cpp', 'src/tcp_timer.cpp', 'include/pion/user.hpp', 'include/pion/plugin_manager.hpp', 'services/FileService.cpp'], [('m_cache_mutex', 'src/http_cookie_auth.cpp'), ('m_plugin_mutex', 'include/pion/plugin_manager.hpp')],
  'randomised concurrent histories under ThreadSanitizer', 'ThreadSanitizer as race oracle plus invariants over the answers.')

p('P31', 'A well-formed message is received with every part as it was sent',
  'Whatever valid message arrives, by parsing it in memory, receiving it from a connection or through the asynchronous request and response readers, alone or in a pipeline and in whatever pieces, the start line, every header (with its value, also when empty, repeated or written without a blank), the content and the decision to keep the connection are those that were sent. An incomplete message is never reported as received, and each read finishes exactly once.',
  [I, H], 'all well-formed messages, pipelines and splits', 'Tests check a few fixed messages in one piece.',
  ['src/http_parser.cpp', 'src/http_reader.cpp', 'src/http_message.cpp', 'include/pion/http/request_reader.hpp', 'include/pion/http/response_reader.hpp', 'include/pion/tcp/connection.hpp'], [('parse_headers', 'src/http_parser.cpp'), ('consume_bytes / save_read_pos', 'src/http_reader.cpp'), ('receive', 'src/http_message.cpp')],
  'model-based generation with an independent renderer', 'Messages are rendered by the harness together with what a reader must see.')

p('P32', 'Encrypted servers answer TLS clients only, and clear text never leaves',
  'A server configured for TLS gives TLS clients, whatever the protocol version, record boundaries, pipelining, message sizes and behaviour of other peers, exactly the answers a plain server would give; peers that speak clear text, send garbage or stop during the handshake never reach a request handler, get nothing in clear and do not disturb others. As a TLS client, pion exchanges exactly the messages it was given, reports a peer that does not speak TLS, and sends no message in clear.',
  [I, H, S], 'all exchanges, protocol versions, record splits and mixes of peers', 'Tests barely use encrypted connections, with one exchange at a time.',
  ['include/pion/tcp/connection.hpp', 'src/tcp_server.cpp', 'src/http_reader.cpp', 'src/http_writer.cpp', 'src/http_message.cpp'], [('m_ssl_flag / m_ssl_socket', 'include/pion/tcp/connection.hpp'), ('handle_ssl_handshake', 'src/tcp_server.cpp')],
  'stateful testing over loopback with an independent TLS peer', 'The other side is OpenSSL driven by the harness, which sees every byte on the wire.')

p('P33', 'The bundled services report every request exactly as it was made',
  'Whatever mix of well-formed requests clients make to the bundled echo, cookie, hello, log and refusing services behind one server with basic authentication and a redirect (methods, protocol versions, query strings, form bodies, chunked and plain content, repeated headers, cookies, pipelining, pieces), each answer is the one of the service asked for, in order on its connection, and shows exactly the method, resources, query, headers, parameters, cookies, content and user of that request; text of the client that goes into HTML is escaped and links name the cookie they delete; the connection is kept or closed as the request asked.',
  [I, H], 'all mixes of requests, connections and pieces', 'Tests ask one service a few fixed questions.',
  ['services/EchoService.cpp', 'services/CookieService.cpp', 'services/HelloService.cpp', 'services/LogService.cpp', 'services/AllowNothingService.cpp', 'src/http_plugin_server.cpp', 'src/http_server.cpp', 'src/http_reader.cpp', 'src/http_writer.cpp'], [('EchoService::operator()', 'services/EchoService.cpp'), ('CookieService::operator()', 'services/CookieService.cpp')],
  'stateful testing of the bundled services over loopback against a reference answer', 'Names of parameters, headers and cookies are compared in any order.')

p('P34', 'The bundled programs serve what they were told to until asked to stop',
  'piond, given a resource and a service or a configuration file and any valid mix of its options, serves exactly those services (options applied, restricted resources protected, encrypted if asked to, anything else not found) until it receives SIGINT or SIGTERM, when it ends soon with status 0, however many clients are connected, and leaves no connection and no open port; helloserver greets every client and closes its connection. Signals that do not ask to stop change nothing. A command line that is incomplete or wrong is refused with a message and status 1, and what cannot be served ends the program instead of leaving it running.',
  [I, S, F], 'all command lines, configurations and signals', 'No test runs the programs.',
  ['utils/piond.cpp', 'utils/helloserver.cpp', 'src/process.cpp', 'src/http_plugin_server.cpp', 'src/tcp_server.cpp', 'src/plugin.cpp'], [('main', 'utils/piond.cpp'), ('HelloServer', 'utils/helloserver.cpp')],
  'generated command lines, signals and clients against the programs in child processes', 'The programs are linked into the check with main() renamed; services are linked in.')

p('P35', 'Connections reach the peer asked for and finish every operation once',
  'However a connection is made (connecting by endpoint, address or a name with several addresses, accepting, with or without TLS, blocking or not), it ends up with the peer asked for, the first address of a name that answers, or reports an error; each read gives the next bytes the peer sent, as many as its completion condition and buffers ask for, and each write sends all it was given, however little the system takes at once. Every asynchronous operation finishes exactly once, also when it is cancelled, shut down or closed; cancelling loses no byte, and a timer cancels the operations of its connection when its time has passed, unless it was cancelled before.',
  [I, H, F], 'all histories of connecting, reading, writing and cancelling', 'Tests connect once to one address and hardly use completion conditions or cancellation.',
  ['include/pion/tcp/connection.hpp', 'include/pion/tcp/timer.hpp', 'src/tcp_timer.cpp'], [('connect, accept, async_read, read, async_write, write, cancel, close, shutdown', 'include/pion/tcp/connection.hpp'), ('timer_callback', 'src/tcp_timer.cpp')],
  'stateful model-based testing over loopback and socket pairs with injected short writes', 'Byte streams of both directions as model; names are resolved by the check; one thread drives the connections.')

p('P36', 'A failing call says what failed',
  'Whatever call is refused (plug-ins, plug-in directories, services, configuration files, options of services, authentication and the file service, password hashes), for whatever name, it throws an exception of the kind documented for it whose text names what was at fault, and does the same when repeated. The text, the information attached and the place it was thrown survive copying, catching as any base class and carrying to another thread, in whatever order the information was attached; what a request handler throws reaches the error handler, once.',
  [I], 'all names, kinds of errors and combinations of attached information', 'Tests check a few exceptions for their type only.',
  ['include/pion/error.hpp', 'src/plugin.cpp', 'include/pion/plugin_manager.hpp', 'src/http_plugin_server.cpp', 'services/FileService.cpp', 'include/pion/user.hpp', 'src/http_server.cpp'], [('exception::what, update_what_msg, diagnostic_information, error_info tags', 'include/pion/error.hpp')],
  'property-based testing over kinds, names and failing calls', 'The text of an error is compared with that of its kind followed by the name attached.')
