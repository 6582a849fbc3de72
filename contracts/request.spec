// The request sent upstream.

define owned(k) = lower(k) == "date" || lower(k) == "content-length" || lower(k) == "transfer-encoding" || lower(k) == "server"
define attempting(proxy) = proxy != nil && proxy.Route != nil && proxy.Up.Atmpt != nil && proxy.Up.Atmpt.URL != nil && proxy.Dwn.Req != nil && Runner != nil

func shouldProxyHeader
params header
anchor C11 C22
ensures[C11] exactly the four hop-owned headers stay, in any letter case: result == !owned(header)

func scaffoldUpstreamRequest
params proxy
anchor C01 C02 C03 C10 C11 C16 C19 C22
modular
requires attempting(proxy)
ensures result != nil && result.Header != nil
ensures a context ends it: ghost("G:ext", proxy.Up.Atmpt.Aborted) && proxy.Up.Atmpt.Aborted != nil
ensures[C01,C02,C03] URL of the mapped resource: ghost("W:rq.url", result) == upstreamURI(*proxy.Up.Atmpt.URL, *proxy.Route, proxy.Dwn.URI)
ensures[C10] body as received: ghost("W:rq.body", result) == bytes(proxy.Dwn.Body)
ensures[C11] request headers copied with all values in order: all(k, string, implies(canon(k) == k && !owned(k) && k != "X-Request-Id", hdr(result.Header, k) == old(hdr(proxy.Dwn.Req.Header, k))))
ensures[C11] hop-owned request headers not copied: all(k, string, implies(canon(k) == k && owned(k) && k != "X-Request-Id", len(hdr(result.Header, k)) == 0))
ensures[C19] request id sent upstream: hdr(result.Header, "X-Request-Id") == list(proxy.XRequestID)
ensures[C16] attempt cancelled after the upstream read timeout: ghost("W:timer", proxy.Up.Atmpt.Aborted) == Runner.Config.Connection.Upstream.ReadTimeoutSeconds * 1000000000
ensures[C16] one timer: ghost("W:timers", proxy.Up.Atmpt.Aborted) == 1
ensures[C07,C10,C02] method as received: implies(proxy.Dwn.Method != "", result.Method == proxy.Dwn.Method)
