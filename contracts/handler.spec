// A request from its arrival to its answer.

define routes = Runner.Config.Routes
define matches(r, q) = ite(r.PathRegex != nil, uf("rematch", bool, r.PathRegex, q.RequestURI), uf("reok", bool, "^" + r.Path) && uf("rematch", bool, uf("re", addr, "^" + r.Path), q.RequestURI))
define firstMatch(i, q) = matches(routes[i], q) && forall(j, 0, i, !matches(routes[j], q))
define noMatch(q) = forall(j, 0, len(routes), !matches(routes[j], q))
define validAlg(a) = in(a, "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "HS256", "HS384", "HS512", "ES256", "ES384", "ES512", "none")
define validRoutes = forall(i, 0, len(routes), routes[i].Jwt == "" || (has(Runner.Config.Jwt, routes[i].Jwt) && Runner.Config.Jwt[routes[i].Jwt] != nil && validAlg(Runner.Config.Jwt[routes[i].Jwt].Alg)))
define legalMethod(m) = repeatable(m) || in(m, "POST", "CONNECT")
define answer(w) = ghost("W:status", w)
define returned(w, k) = ghost("W:hsnap", whdr(w), k)
define noUpstream = dones == old(dones)
define tooLarge(q) = q.ContentLength != 0 && (q.ContentLength > maxBody || len(content(q)) > maxBody || len(content(q)) > 0 && maxBody < 0)

define rejected(q) = tooLarge(q) || bodyError(q) != nil || !legalMethod(upper(q.Method))
define acceptsGzip(q) = let(ae, old(hdr(q.Header, "Accept-Encoding")), len(ae) > 0 && contains(ae[0], "gzip"))
define unpacked(q, w) = ite(acceptsGzip(q), uf("gunz", string, ghost("W:body", w)), ghost("W:body", w))
define unmapped(r) = ite(r.Policy == "", len(entries(r)) == 0, forall(h, 0, len(entries(r)), !carries(entries(r)[h], chosen)))
define asked = ghost("W:calls.validateJwt")
define admitted = ghost("W:ret.validateJwt", old(asked))
define security(i) = Runner.Config.Jwt[routes[i].Jwt]
define bearer(q) = let(a, old(hdr(q.Header, "Authorization")), words(ite(len(a) > 0, a[0], "")))
define secured(i, q) = !noUpstream && 0 <= i && i < len(routes) && firstMatch(i, q) && routes[i].Jwt != ""

func proxyHandler
params response request
anchor C01 C02 C03 C04 C05 C07 C08 C09 C10 C11 C19 C20 C22
requires a running server: Runner != nil && httpClient != nil && validRoutes
requires a request: served(request) && request.Header != nil
requires an empty announced body is empty: implies(request.ContentLength == 0, content(request) == "" && bodyError(request) == nil)
requires a fresh response: response != nil && whdr(response) != nil && whdr(response) != request.Header
requires nothing sent: ghost("W:wh", response) == 0 && ghost("W:writes", response) == 0 && ghost("W:body", response) == "" && all(k, string, hdr(whdr(response), k) == list())
ensures[C04] the draws are not re-seeded: ghost("W:seed") == old(ghost("W:seed"))
preserves[C20] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Route.* F:LabelWeight.* F:ResourceMapping.* F:URL.* F:Runtime.* F:Jwt.Name F:Jwt.Alg F:Jwt.Key F:Jwt.JwksUrl F:Jwt.Secret.* F:Jwt.AcceptableSkewSeconds M:*
ensures[C08] exactly one status line and one body: ghost("W:wh", response) == 1 && ghost("W:writes", response) == 1
ensures[C10] over the limit is 413: implies(tooLarge(request), answer(response) == 413 && noUpstream)
ensures[C10] unreadable is 400: implies(bodyError(request) != nil && !tooLarge(request), answer(response) == 400 && noUpstream)
ensures[C10] forwarded as received: forall(k, old(dones), dones, ghost("W:do.body", k) == content(request))
ensures[C09] an unknown method is 400: implies(!legalMethod(upper(request.Method)) && !tooLarge(request), answer(response) == 400 && noUpstream)
ensures[C09] an answer without upstream is an error: implies(noUpstream, in(answer(response), 400, 401, 404, 413, 503))
ensures[C09] an answer with upstream: implies(!noUpstream, in(answer(response), 502, 504) || answer(response) >= 100 && answer(response) < 500)
ensures[C09] a generated answer carries its code and a message: implies(answer(response) >= 400, uf("jfield_Code", int, unpacked(request, response)) == answer(response) && uf("jfield_Message", string, unpacked(request, response)) != "")
ensures[C01] unmatched is 404: implies(!rejected(request) && noMatch(request), answer(response) == 404 && noUpstream)
ensures[C01,C02,C03] only to the first entry of the first matching route: all(i, int, implies(!noUpstream && 0 <= i && i < len(routes) && firstMatch(i, request) && routes[i].Policy == "", len(entries(routes[i])) > 0 && forall(k, old(dones), dones, ghost("W:do.url", k) == upstreamURI(entries(routes[i])[0].URL, routes[i], uf("urluri", string, request.URL)))))
ensures[C01,C02,C03] or to the one its policy selects: all(i, int, implies(!noUpstream && 0 <= i && i < len(routes) && firstMatch(i, request) && routes[i].Policy != "", forall(e, 0, len(entries(routes[i])), implies(selected(routes[i], e), forall(k, old(dones), dones, ghost("W:do.url", k) == upstreamURI(entries(routes[i])[e].URL, routes[i], uf("urluri", string, request.URL)))))))
ensures[C01] never without a match: implies(noMatch(request), noUpstream)
ensures[C03] unmapped is 503: all(i, int, implies(!rejected(request) && 0 <= i && i < len(routes) && firstMatch(i, request) && (routes[i].Jwt == "" || admitted) && unmapped(routes[i]), answer(response) == 503 && noUpstream))
ensures[C05] not admitted is 401: all(i, int, implies(!rejected(request) && 0 <= i && i < len(routes) && firstMatch(i, request) && routes[i].Jwt != "", asked == old(asked) + 1 && implies(!admitted, answer(response) == 401 && noUpstream)))
ensures[C05] admitted means a bearer token: all(i, int, implies(secured(i, request), len(bearer(request)) > 1 && uf("jwtok", bool, bearer(request)[1])))
ensures[C05] verified by an RSA key: all(i, int, implies(secured(i, request) && in(security(i).Alg, "RS256", "RS384", "RS512", "PS256", "PS384", "PS512"), someKey(bearer(request)[1], security(i), old(security(i).RSAPublic))))
ensures[C05] verified by an ECDSA key: all(i, int, implies(secured(i, request) && in(security(i).Alg, "ES256", "ES384", "ES512"), someKey(bearer(request)[1], security(i), old(security(i).ECDSAPublic))))
ensures[C05] verified by a secret: all(i, int, implies(secured(i, request) && in(security(i).Alg, "HS256", "HS384", "HS512"), someKey(bearer(request)[1], security(i), old(security(i).Secret))))
ensures[C05] valid at that time: all(i, int, implies(secured(i, request) && uf("atoiok", bool, security(i).AcceptableSkewSeconds) && skewOf(security(i)) >= 0 && skewOf(security(i)) <= 9000000000, old(ghost("W:now")) <= verified && verified <= ghost("W:now") && datesValid(bearer(request)[1], skewOf(security(i)), verified)))
ensures[C07] at most the configured number: dones - old(dones) <= 1 || dones - old(dones) <= maxAttempts
ensures[C07] more than one only for repeatable methods: dones - old(dones) <= 1 || repeatable(upper(request.Method))
ensures[C07,C10] each with the method received: implies(request.Method != "", forall(k, old(dones), dones, ghost("W:do.method", k) == upper(request.Method)))
ensures[C11] each with the headers received: all(h, string, implies(canon(h) == h && !owned(h) && h != "X-Request-Id", forall(k, old(dones), dones, ghost("W:do.h", k, h) == old(hdr(request.Header, h)))))
ensures[C11] each without the hop-owned headers: all(h, string, implies(canon(h) == h && owned(h), forall(k, old(dones), dones, len(ghost("W:do.h", k, h)) == 0)))
ensures[C19] the client's request id: let(ids, old(hdr(request.Header, "X-Request-Id")), implies(len(ids) > 0 && ids[0] != "", returned(response, "X-Request-Id")[0] == ids[0]))
ensures[C19] one in any case: len(returned(response, "X-Request-Id")) > 0 && returned(response, "X-Request-Id")[0] != ""
ensures[C19] the same upstream: forall(k, old(dones), dones, ghost("W:do.h", k, "X-Request-Id") == list(returned(response, "X-Request-Id")[0]))

func aboutHandler
params response request
anchor C04 C08 C12 C19 C20 C22
requires a running server: Runner != nil
requires a request: served(request) && request.Header != nil
requires an empty announced body is empty: implies(request.ContentLength == 0, content(request) == "" && bodyError(request) == nil)
requires a fresh response: response != nil && whdr(response) != nil && whdr(response) != request.Header
requires nothing sent: ghost("W:wh", response) == 0 && ghost("W:writes", response) == 0 && ghost("W:body", response) == "" && all(k, string, hdr(whdr(response), k) == list())
ensures[C04] the draws are not re-seeded: ghost("W:seed") == old(ghost("W:seed"))
preserves[C20] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Route.* F:LabelWeight.* F:ResourceMapping.* F:URL.* F:Runtime.* F:Jwt.* M:*
ensures[C08] exactly one status line and one body: ghost("W:wh", response) == 1 && ghost("W:writes", response) == 1
ensures[C12] gzip exactly when the body is: returned(response, "Content-Encoding") == list("gzip") && uf("isgz", bool, ghost("W:body", response)) || returned(response, "Content-Encoding") == list("identity")
ensures[C12] only if the client accepts it: implies(returned(response, "Content-Encoding") == list("gzip"), contains(uf("join", string, old(hdr(request.Header, "Accept-Encoding")), " "), "gzip"))
ensures[C12] with its length: returned(response, "Content-Length") == list(itoa(len(ghost("W:body", response))))
ensures[C19] the client's request id: let(ids, old(hdr(request.Header, "X-Request-Id")), implies(len(ids) > 0 && ids[0] != "", returned(response, "X-Request-Id") == list(ids[0])))
ensures[C19] one in any case: len(returned(response, "X-Request-Id")) == 1 && returned(response, "X-Request-Id")[0] != ""
