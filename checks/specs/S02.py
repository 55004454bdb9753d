def check(r):
    k = 12 if r.thorough else 1
    exe = r.build("s01", ["s01_tls.cc"], ["io", "tls"])
    r.mode(exe, "stream", 2000 * k, jobs=16)
    for c, n in (('untampered', 900), ('cut_short', 300), ('errors', 200), ('handshakes_refused', 80), ('flip', 40), ('drop', 40), ('dup', 40), ('swap', 40), ('replay', 40), ('insert', 40), ('cut', 40), ('cutmid', 40), ('tls10', 30), ('tls11', 30), ('tls12', 120), ('tls13', 200)): r.require("stream." + c, n)
    return r.finish('a case is one connection through an interposer that forwards records and may change one; distinct cases differ in the set-up or the ciphertext forwarded before the change', ['a handshake record may carry unauthenticated bits, so a changed handshake is only required to deliver nothing false and to end'])
DESIGN = 'A TLS client and a TLS listener of mstdlib run in one event loop over loopback sockets (epoll or poll), with certificates the harness makes with OpenSSL; the io events, the data delivered and what the M_tls_get_* functions report on both ends are judged. Between them a thread forwards the records, segmented or not, and flips a bit in one, drops, duplicates, swaps, replays or enlarges it, or cuts the connection before or inside it, in either direction, during the handshake or among the data, for TLS 1.0 to 1.3. What arrives has to be a prefix of what was sent; it must not be complete if a record carrying data was changed, both ends have to learn of the end (the wire goes down once nothing moves any more), and unchanged connections deliver everything and close cleanly.'
