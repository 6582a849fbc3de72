// One upstream attempt.

define given_up(proxy) = proxy.Up.Atmpt.AbortedFlag || proxy.Dwn.AbortedFlag

func performUpstreamRequest
params proxy
results resp err
anchor C01 C03 C02 C07 C08 C09 C10 C11 C12 C19 C20 C22 C23
modular
requires attempting(proxy) && httpClient != nil
requires the client ends it: proxy.Dwn.Aborted != nil && ghost("G:ext", proxy.Dwn.Aborted)
requires a fresh attempt: proxy.Up.Atmpt.CompleteHeader != nil && !closed(proxy.Up.Atmpt.CompleteHeader) && !ghost("G:ext", proxy.Up.Atmpt.CompleteHeader)
requires proxy.Dwn.Resp.Writer != nil
latewhen given up: given_up(proxy)
late proxy.Up.Atmpt.resp
late closed(proxy.Up.Atmpt.CompleteHeader)
ensures a response has a body: implies(resp != nil, resp.Body != nil && resp.Header != nil && resp.Header != whdr(w(proxy)) && resp.StatusCode >= 0 && resp.StatusCode <= 999)
ensures it is that of the attempt: implies(!given_up(proxy), proxy.Up.Atmpt.resp == resp && iff(resp == nil, err != nil))
ensures the body comes later: implies(old(proxy.Up.Atmpt.CompleteBody != proxy.Up.Atmpt.CompleteHeader && !closed(proxy.Up.Atmpt.CompleteBody) && !ghost("G:ext", proxy.Up.Atmpt.CompleteBody)), !closed(proxy.Up.Atmpt.CompleteBody))
ensures giving up is final: implies(old(proxy.Dwn.AbortedFlag), proxy.Dwn.AbortedFlag) && implies(old(proxy.Up.Atmpt.AbortedFlag), proxy.Up.Atmpt.AbortedFlag)
ensures the attempt can be cancelled: proxy.Up.Atmpt.Aborted != nil && ghost("G:ext", proxy.Up.Atmpt.Aborted)
ensures one upstream request: ghost("W:do") == old(ghost("W:do")) + 1
ensures[C01,C02,C03] it goes to the mapped resource: ghost("W:do.url", old(ghost("W:do"))) == upstreamURI(*proxy.Up.Atmpt.URL, *proxy.Route, proxy.Dwn.URI)
ensures[C02,C07,C10] with the method received: implies(proxy.Dwn.Method != "", ghost("W:do.method", old(ghost("W:do"))) == proxy.Dwn.Method)
ensures[C10] with the body received: ghost("W:do.body", old(ghost("W:do"))) == bytes(proxy.Dwn.Body)
ensures[C11] with the headers received: all(k, string, implies(canon(k) == k && !owned(k) && k != "X-Request-Id", ghost("W:do.h", old(ghost("W:do")), k) == old(hdr(proxy.Dwn.Req.Header, k))))
ensures[C11] without the hop-owned headers: all(k, string, implies(canon(k) == k && owned(k) && k != "X-Request-Id", len(ghost("W:do.h", old(ghost("W:do")), k)) == 0))
ensures[C19] with the request id: ghost("W:do.h", old(ghost("W:do")), "X-Request-Id") == list(proxy.XRequestID)

define upContent(r) = uf("rdcontent", string, r.Body)
define upError(r) = uf("rderr", iface, r.Body)

func parseUpstreamResponse
params upstreamResponse proxy
results body err
anchor C08 C09 C12 C20 C22 C23
modular
requires proxy != nil && proxy.Up.Atmpt != nil && Runner != nil
requires upstreamResponse != nil && upstreamResponse.Body != nil
requires the client ends it: proxy.Dwn.Aborted != nil && ghost("G:ext", proxy.Dwn.Aborted)
requires so does the timeout: proxy.Up.Atmpt.Aborted != nil && ghost("G:ext", proxy.Up.Atmpt.Aborted)
requires the body of a fresh attempt: proxy.Up.Atmpt.CompleteBody != nil && !closed(proxy.Up.Atmpt.CompleteBody) && !ghost("G:ext", proxy.Up.Atmpt.CompleteBody)
latewhen given up: given_up(proxy)
late proxy.Up.Atmpt.StatusCode
late proxy.Up.Atmpt.isGzip
late closed(proxy.Up.Atmpt.CompleteBody)
ensures giving up is final: implies(old(proxy.Dwn.AbortedFlag), proxy.Dwn.AbortedFlag) && implies(old(proxy.Up.Atmpt.AbortedFlag), proxy.Up.Atmpt.AbortedFlag)
ensures the whole body: implies(!given_up(proxy), bytes(body) == upContent(upstreamResponse) && err == upError(upstreamResponse))
ensures the status: implies(!given_up(proxy), proxy.Up.Atmpt.StatusCode == upstreamResponse.StatusCode)
ensures[C12] packed or not: implies(!given_up(proxy) && upContent(upstreamResponse) != "" && upContent(upstreamResponse) != "\x1f", proxy.Up.Atmpt.isGzip == (old(proxy.Up.Atmpt.isGzip) || hasPrefix(upContent(upstreamResponse), "\x1f\x8b")))
