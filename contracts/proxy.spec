// The downstream exchange.

define served(q) = q != nil && q.URL != nil && q.Body != nil
define content(q) = uf("rdcontent", string, q.Body)
define bodyError(q) = uf("rderr", iface, q.Body)
define maxBody = Runner.Config.Connection.Downstream.MaxBodyBytes

func (*Proxy).parseRequestBody
params proxy request
anchor C10 C22
modular
requires proxy != nil && served(request) && Runner != nil
requires an empty announced body is empty: implies(request.ContentLength == 0, content(request) == "" && bodyError(request) == nil)
requires proxy.Dwn.ReqTooLarge == false && proxy.Dwn.ReqUnread == false && len(proxy.Dwn.Body) == 0
ensures over the limit: iff(proxy.Dwn.ReqTooLarge, request.ContentLength != 0 && (request.ContentLength > maxBody || len(content(request)) > maxBody || len(content(request)) > 0 && maxBody < 0))
ensures unreadable: implies(bodyError(request) != nil, proxy.Dwn.ReqTooLarge || proxy.Dwn.ReqUnread)
ensures only then: implies(bodyError(request) == nil, !proxy.Dwn.ReqUnread)
ensures otherwise the body as received: implies(!proxy.Dwn.ReqTooLarge && !proxy.Dwn.ReqUnread, bytes(proxy.Dwn.Body) == content(request))

func (*Proxy).parseIncoming
params proxy request
anchor C01 C03 C05 C07 C08 C09 C10 C11 C16 C19 C22 C02 C20
modular
requires proxy != nil && served(request) && Runner != nil
requires an empty announced body is empty: implies(request.ContentLength == 0, content(request) == "" && bodyError(request) == nil)
requires proxy.Dwn.ReqTooLarge == false && proxy.Dwn.ReqUnread == false && len(proxy.Dwn.Body) == 0
ensures result == proxy
ensures proxy.Dwn.Req == request && !proxy.Dwn.AbortedFlag
ensures the context ends it: proxy.Dwn.Aborted != nil && ghost("G:ext", proxy.Dwn.Aborted)
ensures over the limit: iff(proxy.Dwn.ReqTooLarge, request.ContentLength != 0 && (request.ContentLength > maxBody || len(content(request)) > maxBody || len(content(request)) > 0 && maxBody < 0))
ensures unreadable: implies(bodyError(request) != nil, proxy.Dwn.ReqTooLarge || proxy.Dwn.ReqUnread)
ensures only then: implies(bodyError(request) == nil, !proxy.Dwn.ReqUnread)
ensures otherwise the body as received: implies(!proxy.Dwn.ReqTooLarge && !proxy.Dwn.ReqUnread, bytes(proxy.Dwn.Body) == content(request))
ensures[C19] the client's request id: let(ids, hdr(request.Header, "X-Request-Id"), implies(len(ids) > 0 && ids[0] != "", proxy.XRequestID == ids[0]))
ensures[C19] or a new one: proxy.XRequestID != ""
ensures[C16] the request is cancelled after the round trip timeout: ghost("W:timer", proxy.Dwn.Aborted) == seconds(Runner.Config.Connection.Downstream.RoundTripTimeoutSeconds)
ensures[C16] by one timer: ghost("W:timers", proxy.Dwn.Aborted) == 1
ensures the method of the request: proxy.Dwn.Method == upper(request.Method)
ensures its URI: proxy.Dwn.URI == uf("urluri", string, request.URL)
ensures[C12,C09] gzip only if the client accepts it: proxy.Dwn.Resp.SendGzip == let(ae, hdr(request.Header, "Accept-Encoding"), len(ae) > 0 && contains(ae[0], "gzip"))
