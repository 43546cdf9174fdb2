#!/bin/bash
# Generates the Boost shim headers: copies of two installed Boost.Asio headers with the two
# members that pion's connection.hpp uses and that Asio removed after 1.66 put back.
#   $1 = output include directory
set -euo pipefail
OUT=$1
mkdir -p "$OUT/boost/asio/ssl"
python3 - "$OUT" <<'PY'
import sys,re
out=sys.argv[1]
def patch(rel, needle, repl):
    s=open('/usr/include/'+rel).read()
    assert s.count(needle)==1, (rel, s.count(needle))
    s=s.replace(needle, repl)
    try:
        if open(out+'/'+rel).read()==s: return
    except OSError: pass
    open(out+'/'+rel,'w').write(s)
patch('boost/asio/basic_socket.hpp',
 '''  const executor_type& get_executor() BOOST_ASIO_NOEXCEPT
  {
    return impl_.get_executor();
  }
''','''  const executor_type& get_executor() BOOST_ASIO_NOEXCEPT
  {
    return impl_.get_executor();
  }

  boost::asio::io_context& get_io_service()
  {
    return static_cast<boost::asio::io_context&>(
        boost::asio::query(impl_.get_executor(), boost::asio::execution::context));
  }
''')
patch('boost/asio/ssl/context.hpp',
 '''  BOOST_ASIO_DECL explicit context(method m);
''','''  BOOST_ASIO_DECL explicit context(method m);
  context(boost::asio::io_context&, method m) : context(m) {}
''')
PY
