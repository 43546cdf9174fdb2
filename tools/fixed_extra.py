T += [('plugin_manager::find', 'P14'), ('redirects were', 'P30'), ('HEAD', 'P03'), ('cookies were repeated', 'P03'), ('passed on', 'P03')]
T += [('missing content was', 'P20')]

T += [('service configuration: do not ignore', 'P25'), ('not in memory or not allowed', 'P21'), ('first byte is zero', 'P21'), ('where HTTP forbids it', 'P21'),
      ('announce chunked content exactly', 'P21'), ('send_final_chunk() alone', 'P21'), ('writer::clear() releases', 'P21'), ('205 responses have', 'P21'), ('cannot have content end after', 'P04')]
T += [('basic_auth: do not accept', 'P13'), ('cookie_auth: session identifiers', 'P13'), ('cookie_auth: sessions end', 'P13')]
T += [('do not hold the lock while handling a kept-alive','P15'),('close a connection after a write error','P15')]
T += [('FileService: ','P16')]
T += [('tcp::stream_buffer: ','P19')]
T += [('forbidden page','P23'),('failed DELETE','P23'),('header values cannot add headers','P23'),('CookieService: escape','P23')]
T += [('could not be started can be started','P24'),('does not close sockets that other threads','P24')]
T += [('process: signal handlers','P27'),('admin_rights: ','P28')]
T += [('the running flag is read','P30'),('the listening flag is read','P30'),('concurrent logins cannot get','P30')]
T += [('invalid IP address', 'P34')]
T += [('could not be compiled','P35')]
T += [('without content used','P01')]
T += [('error messages and symbol names','P36')]
