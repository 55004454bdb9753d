def check(r):
    k = 12 if r.thorough else 1
    exe = r.build("s01", ["s01_tls.cc"], ["io", "tls"])
    r.mode(exe, "nego", 2000 * k, jobs=16)
    for c, n in (('accepted', 2000), ('v10', 80), ('v11', 120), ('v12', 250), ('v13', 900), ('no_common_version', 150), ('alpn', 300), ('sni_child', 250), ('resumed', 300), ('not_resumed_disabled', 250)): r.require("nego." + c, n)
    return r.finish('a case is one set-up of version ranges, ALPN lists, server contexts and session resumption with up to three connections; distinct cases differ in it', ['version masks are contiguous ranges', 'the protocol version, trust and ALPN settings of a connection are those of the parent context, a child context is given the same', 'that a session is resumed when both sides allow it is not required, only that it is not otherwise'])
DESIGN = "A TLS client and a TLS listener of mstdlib run in one event loop over loopback sockets (epoll or poll), with certificates the harness makes with OpenSSL; the io events, the data delivered and what the M_tls_get_* functions report on both ends are judged. Random version ranges on both sides, ALPN lists, up to four server contexts with own names and session resumption switched on and off on either side: the version on both ends has to be the highest common one, the application the first of the server's list the client offers or none, the certificate that of the first context naming the host (the parent if none), the server has to see the host name requested, both ends agree on the cipher and on resumption, which only happens after a first connection if both sides enabled it, and nothing connects without a common version."
