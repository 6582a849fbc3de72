// What is written to the client.

define w(proxy) = proxy.Dwn.Resp.Writer
define sent(proxy, k) = ghost("W:hsnap", whdr(w(proxy)), k)
define writable(proxy) = proxy != nil && w(proxy) != nil && whdr(w(proxy)) != nil && Runner != nil && proxy.Dwn.Req != nil && implies(proxy.Up.Atmpt != nil, proxy.Route != nil && proxy.Up.Atmpt.URL != nil)
define unanswered(proxy) = ghost("W:wh", w(proxy)) == 0 && ghost("W:writes", w(proxy)) == 0 && ghost("W:body", w(proxy)) == ""
define answered(proxy) = ghost("W:wh", w(proxy)) == 1 && ghost("W:writes", w(proxy)) == 1
define plain(proxy, b) = ite(proxy.Dwn.Resp.SendGzip, uf("gunz", string, b), b)

func (*Proxy).writeStandardResponseHeaders
params proxy
anchor C19 C11 C12 C22
requires proxy != nil && w(proxy) != nil && whdr(w(proxy)) != nil && Runner != nil
ensures[C19] the request id is returned: hdr(whdr(w(proxy)), "X-Request-Id") == list(proxy.XRequestID)
ensures[C11,C12] no other header is touched: all(k, string, implies(k != "Server" && k != "Strict-Transport-Security" && k != "X-Request-Id", hdr(whdr(w(proxy)), k) == old(hdr(whdr(w(proxy)), k))))

func sendStatusCodeAsJSON
params proxy
anchor C04 C08 C09 C12 C19 C11 C22 C20
modular
requires writable(proxy)
ensures[C04] the draws are not re-seeded: ghost("W:seed") == old(ghost("W:seed"))
requires a status code: proxy.Dwn.Resp.StatusCode >= 200 && proxy.Dwn.Resp.StatusCode <= 999
ensures the status is sent: ghost("W:wh", w(proxy)) == old(ghost("W:wh", w(proxy))) + 1
ensures with a body: ghost("W:writes", w(proxy)) == old(ghost("W:writes", w(proxy))) + 1
ensures the status it was given: implies(old(ghost("W:wh", w(proxy))) == 0, ghost("W:status", w(proxy)) == old(proxy.Dwn.Resp.StatusCode))
ensures[C09] the body carries the status: implies(old(ghost("W:body", w(proxy))) == "", uf("jfield_Code", int, plain(proxy, ghost("W:body", w(proxy)))) == old(proxy.Dwn.Resp.StatusCode))
ensures[C09] and a message: implies(old(ghost("W:body", w(proxy))) == "", uf("jfield_Message", string, plain(proxy, ghost("W:body", w(proxy)))) != "")
ensures[C12] gzip declared exactly when sent: implies(old(unanswered(proxy)), sent(proxy, "Content-Encoding") == list(ite(proxy.Dwn.Resp.SendGzip, "gzip", "identity")) && implies(proxy.Dwn.Resp.SendGzip, uf("isgz", bool, ghost("W:body", w(proxy)))))
ensures[C12] no length claimed: implies(old(unanswered(proxy)), sent(proxy, "Content-Length") == old(hdr(whdr(w(proxy)), "Content-Length")) && sent(proxy, "Transfer-Encoding") == old(hdr(whdr(w(proxy)), "Transfer-Encoding")))
ensures[C19] the request id is returned: implies(old(unanswered(proxy)), sent(proxy, "X-Request-Id") == list(proxy.XRequestID))
ensures[C11] no header of an upstream: implies(old(unanswered(proxy)), all(k, string, implies(k != "Server" && k != "Strict-Transport-Security" && k != "X-Request-Id" && k != "Content-Type" && k != "Content-Encoding", sent(proxy, k) == old(hdr(whdr(w(proxy)), k)))))

define made(proxy) = proxy.Up.Atmpt != nil && proxy.Up.Atmpt.resp != nil
define declared(proxy) = hdr(proxy.Up.Atmpt.resp.Header, "Content-Encoding")
define otherCoding(c) = c != "" && lower(c) != "gzip" && lower(c) != "identity"
define foreign(proxy) = made(proxy) && exists(i, 0, len(declared(proxy)), otherCoding(declared(proxy)[i]))
define decoded(proxy) = !proxy.Dwn.Resp.SendGzip && proxy.Up.Atmpt.isGzip && !foreign(proxy)
define received(proxy) = ite(proxy.Up.Atmpt.respBody == nil, "", bytes(*proxy.Up.Atmpt.respBody))

func (*Proxy).hasForeignContentEncoding
params proxy
anchor C12 C22
modular
requires proxy != nil
ensures result == foreign(proxy)

func (*Proxy).contentEncoding
params proxy
anchor C12 C22
modular
requires proxy != nil && implies(!proxy.Dwn.Resp.SendGzip, proxy.Up.Atmpt != nil || !made(proxy))
ensures[C12] gzip when gzip is sent: implies(proxy.Dwn.Resp.SendGzip && !foreign(proxy), result == "gzip")
ensures[C12] what was declared otherwise: implies(!(proxy.Dwn.Resp.SendGzip && !foreign(proxy)), result == ite(made(proxy) && !decoded(proxy) && len(declared(proxy)) > 0, uf("join", string, declared(proxy), " "), "identity"))

func (*Proxy).encodeUpstreamResponseBody
params proxy
anchor C12 C22
modular
requires proxy != nil && proxy.Up.Atmpt != nil && Runner != nil
ensures proxy.Dwn.Resp.Body != nil
ensures[C12] nothing for nothing: implies(received(proxy) == "", bytes(*proxy.Dwn.Resp.Body) == "")
ensures[C12] gzip data of the body if the client accepts it: implies(received(proxy) != "" && proxy.Dwn.Resp.SendGzip && !foreign(proxy) && !proxy.Up.Atmpt.isGzip, uf("isgz", bool, bytes(*proxy.Dwn.Resp.Body)) && uf("gunz", string, bytes(*proxy.Dwn.Resp.Body)) == received(proxy))
ensures[C12] unpacked if it does not: implies(received(proxy) != "" && decoded(proxy) && uf("isgz", bool, received(proxy)), bytes(*proxy.Dwn.Resp.Body) == uf("gunz", string, received(proxy)))
ensures[C12] as received otherwise: implies(!decoded(proxy) && !(proxy.Dwn.Resp.SendGzip && !foreign(proxy) && !proxy.Up.Atmpt.isGzip), bytes(*proxy.Dwn.Resp.Body) == received(proxy))

func (*Proxy).copyUpstreamResponseHeaders
params proxy
anchor C11 C12 C19 C22
modular
requires proxy != nil && made(proxy) && w(proxy) != nil && whdr(w(proxy)) != nil && proxy.Up.Atmpt.resp.Header != whdr(w(proxy))
ensures[C11,C19] all values in order: all(k, string, implies(canon(k) == k && !owned(k), hdr(whdr(w(proxy)), k) == old(hdr(whdr(w(proxy)), k)) + hdr(proxy.Up.Atmpt.resp.Header, k)))
ensures never the hop-owned ones: all(k, string, implies(canon(k) == k && owned(k), hdr(whdr(w(proxy)), k) == old(hdr(whdr(w(proxy)), k))))

define zeroLength(proxy) = proxy.Dwn.Resp.StatusCode == 204 || (proxy.Dwn.Resp.StatusCode >= 100 && proxy.Dwn.Resp.StatusCode < 200) || proxy.Dwn.Method == "CONNECT"
define upLength(proxy) = let(l, hdr(proxy.Up.Atmpt.resp.Header, "Content-Length"), ite(len(l) > 0, l[0], ""))

func (*Proxy).setContentLengthHeader
params proxy
anchor C12 C22
modular
requires proxy != nil && proxy.Dwn.Resp.Body != nil && w(proxy) != nil && whdr(w(proxy)) != nil
requires proxy.Up.Atmpt != nil && proxy.Up.Atmpt.resp != nil && proxy.Up.Atmpt.resp.Header != whdr(w(proxy))
requires no transfer encoding set: len(hdr(whdr(w(proxy)), "Transfer-Encoding")) == 0
ensures proxy.Dwn.Resp.ContentLength == len(*proxy.Dwn.Resp.Body)
ensures[C12] length of the body: implies(!zeroLength(proxy) && proxy.Dwn.Method != "HEAD", hdr(whdr(w(proxy)), "Content-Length") == list(itoa(len(*proxy.Dwn.Resp.Body))))
ensures[C12] none: implies(zeroLength(proxy), hdr(whdr(w(proxy)), "Content-Length") == list("0"))
ensures[C12] that of the upstream: implies(!zeroLength(proxy) && proxy.Dwn.Method == "HEAD", hdr(whdr(w(proxy)), "Content-Length") == list(upLength(proxy)) || hdr(whdr(w(proxy)), "Content-Length") == list("0"))

func (*Proxy).writeContentEncodingHeader
params proxy
anchor C12 C22
requires proxy != nil && w(proxy) != nil && whdr(w(proxy)) != nil
ensures[C12] nothing to describe: implies(proxy.Dwn.Resp.ContentLength <= 0, hdr(whdr(w(proxy)), "Content-Encoding") == old(hdr(whdr(w(proxy)), "Content-Encoding")))

func (AboutResponse).AsJSON
params aboutResponse
anchor C04
ensures[C04] the draws are not re-seeded: ghost("W:seed") == old(ghost("W:seed"))
