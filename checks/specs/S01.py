def check(r):
    k = 12 if r.thorough else 1
    exe = r.build("s01", ["s01_tls.cc"], ["io", "tls"])
    r.mode(exe, "verify", 3000 * k, jobs=16)
    for c, n in (('accepted', 1500), ('bad_chain', 700), ('bad_name', 300), ('server_refused', 350), ('mutual', 350), ('resumed', 300), ('full', 700), ('fuzzy', 180), ('cert_only', 250), ('none', 300), ('self-signed and trusted', 60), ('intermediate trusted locally', 60)): r.require("verify." + c, n)
    return r.finish('a case is one set-up of chain, names, host, verification level, protocol version and client certificate with one or two connections; distinct cases differ in it', ['whether a common name counts beside subject alternative names of the same kind is not judged (the code accepts it)', 'a TLS 1.3 client may be connected before the server refuses its certificate; no data may be exchanged', 'localhost is trusted at the fuzzy level, as documented'])
DESIGN = "A TLS client and a TLS listener of mstdlib run in one event loop over loopback sockets (epoll or poll), with certificates the harness makes with OpenSSL; the io events, the data delivered and what the M_tls_get_* functions report on both ends are judged. The certificate is valid or expired, not yet valid, from another root, self-signed (trusted or not), with a forged issuer signature, for another use, below an issuer that is no CA, expired, not sent or trusted locally; its names are the requested host or near misses (case, wildcards of zero, one and two labels, addresses as address or text, NUL bytes, prefixes); an independent model of the documented name rules says whether the client may connect at each verification level, and likewise whether a server that demands client certificates may. Accepted connections must deliver the data of both sides and report the peer's exact certificate, refused ones must end without a connected event and without a byte of data, also when the application reads in the error event; second connections resume."
