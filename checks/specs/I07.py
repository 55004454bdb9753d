DESIGN = """Real TCP connections on the loopback interface carry a PROXY protocol header (v1 and v2, IPv4, IPv6, local/unknown, with and without TLVs) and application data to a server with the inbound layer; the byte stream is written in random segments (one write, byte by byte, cut exactly after the header, random cuts) and closed at once or left open.
An independent parser of the published format decides what the stream is: for a valid header exactly one CONNECTED event is delivered, the reported endpoints, family and relayed flag are those of the header, and the application reads exactly the bytes after the header, also when the peer disconnects straight after them; a malformed header (mutated bits, fields, ports, families, versions, commands, lengths, foreign protocols, a version the flags exclude) leads to a terminal event, no CONNECTED event and not one readable byte, and a truncated one to the same within the configured timeout.
The outbound layer is compared with an independent encoder on the wire (a server without the layer), and both layers are run against each other with data in both directions."""


def check(r):
    k = 12 if r.thorough else 1
    exe = r.build("i07", ["i07_proxy.cc"], ["io"])
    r.mode(exe, "inbound", 4000 * k, jobs=16)
    r.mode(exe, "outbound", 1500 * k, jobs=16)
    for c, m in (("valid_v1", 500), ("valid_v2", 500), ("malformed", 800), ("truncated", 100), ("timeouts", 40)):
        r.require("inbound." + c, m * k)
    r.require("outbound.wire", 400 * k)
    r.require("outbound.both", 600 * k)
    return r.finish("a case is a connection whose byte stream, segmentation and layer flags are drawn at random; distinct by the stream and the number of segments (inbound) or the endpoints and flags (outbound)", ["Not judged: 'PROXY UNKNOWN' followed by further fields, lower-case protocol names, ports with leading zeros, LOCAL commands that carry an address family, a PROXY command with the unspecified family, and abbreviated IPv4 forms that c-ares reads as addresses", "Application data that the client writes before its CONNECTED event is not part of the workload"])
