DESIGN = """Real requests through M_net_http_simple on an event loop to an independent socket server (plain POSIX calls in a thread) that records every request it is sent and plays scripted responses: sized, chunked and close-delimited bodies of binary data, in random segments, with connections closed or kept open, behind chains of redirects.
The monitor requires exactly one completion per request (none after a cancellation), with the final response's status, reason, headers and body, the number of requests and connections the redirect limit allows, and on the wire the method, target, Host, headers, type and body that were asked, also through a proxy with and without authentication.
Faults are scripted too: truncated and malformed responses, unusable or TLS-only redirects, responses around the size limit, silence against the stall and overall timeouts (not before the configured time, and a slow but steady response never stalls); none of them may be reported as a success. After each case the event loop must hold no leftover object. ASAN, UBSAN and LSan watch the whole."""


def check(r):
    k = 10 if r.thorough else 1
    exe = r.build("n02", ["n02_http.cc"], ["net"])
    r.mode(exe, "final", 1500 * k, jobs=12)
    r.mode(exe, "proxy", 400 * k, jobs=12)
    r.mode(exe, "bad", 1200 * k, jobs=12)
    r.mode(exe, "cancel", 800 * k, jobs=12)
    r.mode(exe, "slow", 60 * k, jobs=4)
    for c, m in (("final.sized", 200), ("final.chunked", 200), ("final.unsized", 200), ("final.redirected", 200), ("final.redirect_limit", 60), ("proxy.proxied", 380), ("bad.bad", 700), ("bad.over_limit", 80), ("bad.timeouts", 100), ("bad.refused", 80), ("cancel.cancelled", 200), ("cancel.completed", 100), ("slow.overall", 5)):
        r.require(c, m * k)
    return r.finish("a case is one request with its scripted chain of responses, their framing and segmentation, or a scripted fault or cancellation time; distinct by the request and the responses", ["TLS connections of the client are covered by the TLS checks, not here", "HEAD and CONNECT requests are not part of the workload (the response reader is not told that such responses have no body)", "Whether a redirected POST becomes a GET is not judged: the request is repeated as it was asked"])
