// One exchange: what is made of an upstream answer, retries, and the answer to the client.

define exchanging(proxy) = writable(proxy) && attempting(proxy) && proxy.Dwn.Aborted != nil && ghost("G:ext", proxy.Dwn.Aborted)
define untouched(proxy) = unanswered(proxy) && all(k, string, hdr(whdr(w(proxy)), k) == list())
define passes(proxy) = let(s, proxy.Up.Atmpt.resp.StatusCode, s >= 100 && s < 500)
define generated(proxy) = let(s, proxy.Up.Atmpt.resp.StatusCode, s >= 400 && s < 500)
define body(proxy) = ghost("W:body", w(proxy))
define status(proxy) = ghost("W:status", w(proxy))

func processUpstreamResponse
params proxy resp err
anchor C07 C08 C09 C11 C12 C19 C20 C22 C23
modular
requires exchanging(proxy) && untouched(proxy)
requires the timeout ends it: proxy.Up.Atmpt.Aborted != nil && ghost("G:ext", proxy.Up.Atmpt.Aborted)
requires the body of a fresh attempt: proxy.Up.Atmpt.CompleteBody != nil && !closed(proxy.Up.Atmpt.CompleteBody) && !ghost("G:ext", proxy.Up.Atmpt.CompleteBody) && !proxy.Up.Atmpt.isGzip
requires a response has a body: implies(resp != nil, resp.Body != nil && resp.Header != nil && resp.Header != whdr(w(proxy)) && resp.StatusCode >= 0 && resp.StatusCode <= 999)
requires it is that of the attempt: implies(!given_up(proxy), proxy.Up.Atmpt.resp == resp && iff(resp == nil, err != nil))
latewhen given up: given_up(proxy)
late proxy.Up.Atmpt.StatusCode
late proxy.Up.Atmpt.isGzip
late closed(proxy.Up.Atmpt.CompleteBody)
ensures giving up is final: implies(old(proxy.Dwn.AbortedFlag), proxy.Dwn.AbortedFlag) && implies(old(proxy.Up.Atmpt.AbortedFlag), proxy.Up.Atmpt.AbortedFlag)
ensures one answer: implies(result, answered(proxy))
ensures or none: implies(!result, untouched(proxy))
ensures only a complete response is passed on: implies(result, !given_up(proxy) && resp != nil && err == nil && passes(proxy) && upError(resp) == nil)
ensures[C09] every complete response is: implies(!result, given_up(proxy) || resp == nil || err != nil || upError(resp) != nil || !passes(proxy))
ensures[C09] with its status: implies(result, status(proxy) == resp.StatusCode)
ensures[C11] the request's headers stay: implies(proxy.Dwn.Req.Header != whdr(w(proxy)), all(k, string, hdr(proxy.Dwn.Req.Header, k) == old(hdr(proxy.Dwn.Req.Header, k))))
ensures[C19] and the request id: implies(result, len(sent(proxy, "X-Request-Id")) > 0 && sent(proxy, "X-Request-Id")[0] == proxy.XRequestID)
ensures[C11] with all its headers: implies(result && !generated(proxy), all(k, string, implies(canon(k) == k && !owned(k) && k != "Strict-Transport-Security" && k != "X-Request-Id" && k != "Content-Encoding", sent(proxy, k) == hdr(resp.Header, k))))
ensures[C11] but never the hop-owned: implies(result && !generated(proxy), all(k, string, implies(canon(k) == k && owned(k) && k != "Server" && k != "Content-Length", len(sent(proxy, k)) == 0)) && sent(proxy, "Server") == list("j8a " + Version + " " + ID))
ensures[C11] and none of a 4xx: implies(result && generated(proxy), all(k, string, implies(k != "Server" && k != "Strict-Transport-Security" && k != "X-Request-Id" && k != "Content-Type" && k != "Content-Encoding", len(sent(proxy, k)) == 0)))
ensures[C09] a generated answer carries its code and a message: implies(result && generated(proxy), uf("jfield_Code", int, plain(proxy, body(proxy))) == status(proxy) && uf("jfield_Message", string, plain(proxy, body(proxy))) != "")
ensures[C12] the bytes received or their gzip form: implies(result && !generated(proxy) && upContent(resp) != "\x1f", body(proxy) == upContent(resp) ||
  (proxy.Dwn.Resp.SendGzip && !foreign(proxy) && !hasPrefix(upContent(resp), "\x1f\x8b") && uf("isgz", bool, body(proxy)) && uf("gunz", string, body(proxy)) == upContent(resp)) ||
  (!proxy.Dwn.Resp.SendGzip && !foreign(proxy) && hasPrefix(upContent(resp), "\x1f\x8b") && (body(proxy) == uf("gunz", string, upContent(resp)) || !uf("isgz", bool, upContent(resp)))))
ensures[C12] gzip is declared when gzip is sent: implies(result && !generated(proxy) && proxy.Dwn.Resp.SendGzip && !foreign(proxy) && body(proxy) != "" && upContent(resp) != "\x1f", sent(proxy, "Content-Encoding") == list("gzip") && (uf("isgz", bool, body(proxy)) || hasPrefix(body(proxy), "\x1f\x8b")))
ensures[C12] what was unpacked is not declared packed: implies(result && !generated(proxy) && !proxy.Dwn.Resp.SendGzip && !foreign(proxy) && hasPrefix(upContent(resp), "\x1f\x8b") && body(proxy) != "", sent(proxy, "Content-Encoding") == list("identity"))
ensures[C12] otherwise what the upstream declared: implies(result && !generated(proxy) && body(proxy) != "" && upContent(resp) != "\x1f" && (foreign(proxy) || (!proxy.Dwn.Resp.SendGzip && !hasPrefix(upContent(resp), "\x1f\x8b"))),
  sent(proxy, "Content-Encoding") == list(ite(len(declared(proxy)) > 0, uf("join", string, declared(proxy), " "), "identity")) && body(proxy) == upContent(resp))
ensures[C12] the length sent: implies(result && !generated(proxy) && !zeroLength(proxy) && proxy.Dwn.Method != "HEAD", sent(proxy, "Content-Length") == list(itoa(len(body(proxy)))))
ensures[C12] no length: implies(result && !generated(proxy) && zeroLength(proxy), sent(proxy, "Content-Length") == list("0"))
ensures[C12] that of the upstream: implies(result && !generated(proxy) && !zeroLength(proxy) && proxy.Dwn.Method == "HEAD", sent(proxy, "Content-Length") == list(upLength(proxy)) || sent(proxy, "Content-Length") == list("0"))
ensures[C12] a generated body is declared as sent: implies(result && generated(proxy), sent(proxy, "Content-Encoding") == list(ite(proxy.Dwn.Resp.SendGzip, "gzip", "identity")) && implies(proxy.Dwn.Resp.SendGzip, uf("isgz", bool, body(proxy))) && len(sent(proxy, "Content-Length")) == 0 && len(sent(proxy, "Transfer-Encoding")) == 0)

define repeatable(m) = in(m, "GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE")
define maxAttempts = Runner.Config.Connection.Upstream.MaxAttempts

func (*Proxy).shouldRetryUpstreamAttempt
params proxy
anchor C07 C08 C09 C22
modular
requires proxy != nil && proxy.Up.Atmpt != nil && Runner != nil && proxy.Dwn.Aborted != nil && ghost("G:ext", proxy.Dwn.Aborted)
ensures giving up is final: implies(old(proxy.Dwn.AbortedFlag), proxy.Dwn.AbortedFlag) && implies(old(proxy.Up.Atmpt.AbortedFlag), proxy.Up.Atmpt.AbortedFlag)
ensures only repeatable methods: implies(result, repeatable(proxy.Dwn.Method))
ensures while attempts are left: implies(result, proxy.Up.Atmpt.Count < maxAttempts)
ensures for a request still wanted: implies(result, !proxy.Dwn.AbortedFlag)
ensures not once the client is gone: implies(old(closed(proxy.Dwn.Aborted)), !result)
ensures[C09] all attempts are used: implies(!result, !repeatable(proxy.Dwn.Method) || proxy.Up.Atmpt.Count >= maxAttempts || proxy.Dwn.AbortedFlag)

define freshAttempt(proxy) = proxy.Up.Atmpt.CompleteHeader != nil && !closed(proxy.Up.Atmpt.CompleteHeader) && !ghost("G:ext", proxy.Up.Atmpt.CompleteHeader) &&
  proxy.Up.Atmpt.CompleteBody != nil && !closed(proxy.Up.Atmpt.CompleteBody) && !ghost("G:ext", proxy.Up.Atmpt.CompleteBody) && proxy.Up.Atmpt.CompleteBody != proxy.Up.Atmpt.CompleteHeader &&
  !proxy.Up.Atmpt.isGzip && proxy.Up.Atmpt.resp == nil && !proxy.Up.Atmpt.AbortedFlag && proxy.Up.Atmpt.StatusCode == 0

define latest(proxy) = len(proxy.Up.Atmpts) > 0 && proxy.Up.Atmpt == &proxy.Up.Atmpts[len(proxy.Up.Atmpts)-1]

func (*Proxy).nextAttempt
params proxy
anchor C01 C02 C03 C07 C08 C09 C23 C22
requires attempting(proxy) && latest(proxy) && proxy.Up.Atmpt.Count < 9223372036854775807
ensures result == proxy
ensures one more: proxy.Up.Atmpt != nil && proxy.Up.Atmpt.Count == old(proxy.Up.Atmpt.Count) + 1
ensures of the same resource: proxy.Up.Atmpt.URL == old(proxy.Up.Atmpt.URL) && proxy.Up.Atmpt.Label == old(proxy.Up.Atmpt.Label)
ensures untouched by the attempts before: freshAttempt(proxy) && latest(proxy) && proxy.Up.Atmpt != old(proxy.Up.Atmpt)

func (*Proxy).firstAttempt
params proxy url label
anchor C01 C02 C03 C07 C08 C09 C22
modular
requires proxy != nil && url != nil && Runner != nil && proxy.Route != nil
ensures result == proxy
ensures the first: proxy.Up.Atmpt != nil && proxy.Up.Atmpt.Count == 1
ensures of the mapped resource: proxy.Up.Atmpt.URL == url && proxy.Up.Atmpt.Label == label
ensures a new attempt: freshAttempt(proxy) && latest(proxy)

define dones = ghost("W:do")
define answerable(proxy) = proxy.Up.Atmpt.resp != nil && passes(proxy) && upError(proxy.Up.Atmpt.resp) == nil

func handle
params proxy
anchor C01 C03 C05 C02 C07 C08 C09 C10 C11 C12 C19 C20 C22 C23
modular
requires exchanging(proxy) && untouched(proxy) && httpClient != nil
requires the response has its own headers: proxy.Dwn.Req.Header != whdr(w(proxy))
requires freshAttempt(proxy) && latest(proxy) && proxy.Up.Atmpt.Count >= 1
ensures[C08] exactly one status line and one body: answered(proxy)
ensures at least one attempt: dones > old(dones)
ensures[C07] at most the configured number: dones - old(dones) <= 1 || dones - old(dones) <= maxAttempts - old(proxy.Up.Atmpt.Count) + 1
ensures[C07] only one once the client is gone: implies(old(closed(proxy.Dwn.Aborted)), dones - old(dones) <= 1)
ensures[C07] more than one only for repeatable methods: dones - old(dones) <= 1 || repeatable(proxy.Dwn.Method)
ensures[C01,C02,C03] those before stay: all(k, int, implies(k < old(dones), ghost("W:do.url", k) == old(ghost("W:do.url", k))))
ensures[C10,C07] methods before stay: all(k, int, implies(k < old(dones), ghost("W:do.method", k) == old(ghost("W:do.method", k))))
ensures[C10] bodies before stay: all(k, int, implies(k < old(dones), ghost("W:do.body", k) == old(ghost("W:do.body", k))))
ensures[C11,C19] headers before stay: all(k, int, implies(k < old(dones), all(h, string, ghost("W:do.h", k, h) == old(ghost("W:do.h", k, h)))))
ensures[C01,C02,C03] each goes to the mapped resource: forall(k, old(dones), dones, ghost("W:do.url", k) == old(upstreamURI(*proxy.Up.Atmpt.URL, *proxy.Route, proxy.Dwn.URI)))
ensures[C10,C07] each with the method received: implies(proxy.Dwn.Method != "", forall(k, old(dones), dones, ghost("W:do.method", k) == proxy.Dwn.Method))
ensures[C10] each with the body received: forall(k, old(dones), dones, ghost("W:do.body", k) == bytes(proxy.Dwn.Body))
ensures[C11] each with the headers received: all(h, string, implies(canon(h) == h && !owned(h) && h != "X-Request-Id", forall(k, old(dones), dones, ghost("W:do.h", k, h) == old(hdr(proxy.Dwn.Req.Header, h)))))
ensures[C11] each without the hop-owned headers: all(h, string, implies(canon(h) == h && owned(h), forall(k, old(dones), dones, len(ghost("W:do.h", k, h)) == 0)))
ensures[C19] each with the request id: forall(k, old(dones), dones, ghost("W:do.h", k, "X-Request-Id") == list(proxy.XRequestID))
ensures[C19] as is the response: len(sent(proxy, "X-Request-Id")) > 0 && sent(proxy, "X-Request-Id")[0] == proxy.XRequestID
ensures attempts are added: latest(proxy) && len(proxy.Up.Atmpts) >= old(len(proxy.Up.Atmpts)) && (&proxy.Up.Atmpts[0] == old(&proxy.Up.Atmpts[0]) || fresh(arr(proxy.Up.Atmpts)))
ensures[C09] passed on or failed: in(status(proxy), 502, 504) || (!given_up(proxy) && answerable(proxy) && status(proxy) == proxy.Up.Atmpt.resp.StatusCode)
ensures[C09] a complete response is passed on: implies(!given_up(proxy) && answerable(proxy), status(proxy) == proxy.Up.Atmpt.resp.StatusCode)
ensures[C09] a timeout is 504: implies(status(proxy) == 504, given_up(proxy)) && implies(given_up(proxy), status(proxy) == 504)
ensures[C09] a generated answer carries its code and a message: implies(status(proxy) >= 400, uf("jfield_Code", int, plain(proxy, body(proxy))) == status(proxy) && uf("jfield_Message", string, plain(proxy, body(proxy))) != "")
ensures[C09] all attempts are used before: implies(given_up(proxy) || !answerable(proxy), proxy.Dwn.AbortedFlag || !repeatable(proxy.Dwn.Method) || proxy.Up.Atmpt.Count >= maxAttempts)
