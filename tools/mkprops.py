#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Longest-path-first route dispatch, unmatched requests get 404",
 "A request is served by the first route, taken in order of descending path length, whose path pattern (anchored at the start, and given a leading slash if the configuration omitted it) matches the request URI. A request that matches no route is answered 404 and no upstream is contacted for it. No other route's upstream or JWT policy is ever consulted.",
 ["inputs","configurations"],"for every list of configured routes (any number, order and path text) and every request URI",
 "Tests sample a handful of two- and three-route tables and fixed URIs; the guarantee quantifies over all route tables and all URIs, including the position of the match in an arbitrarily long table.",
 ["route.go","config.go","proxyhandler.go","server.go"],
 [("route ordering","route.go Routes.Less / config.go validateRoutes"),("path compilation","config.go compileRoutePaths"),("match","route.go Route.matchURI"),("dispatch loop","proxyhandler.go proxyHandler"),("boot order of the normalisation steps","server.go BootStrap")],
 [("Runner.Routes","ordered route table","server.go Runtime")],["HTTP status sent downstream","requests seen by the upstream client"])
p("C02","Upstream requests are confined to the mapped resource's authority",
 "Every upstream request is sent to exactly the scheme, host and port of the resource mapped for its route: the text of the request can never alter that authority. Without a transform the path and query are forwarded unchanged; with a transform a leading literal occurrence of the route path is replaced by the transform, the rest of the URI is forwarded unchanged, and the result always starts with a slash.",
 ["inputs","configurations"],"for every request URI, every route path and transform and every resource URL",
 "The test table covers fourteen benign path/transform pairs; confinement is about adversarial URIs (an @, a missing separator, a port suffix) that no sample covers.",
 ["proxy.go","upstream.go","proxyhandler.go","config.go"],
 [("URI resolution","proxy.go Proxy.resolveUpstreamURI"),("resource URL rendering","upstream.go URL.String"),("request construction","proxyhandler.go scaffoldUpstreamRequest"),("transform validation","config.go compileRouteTransforms")],None,["URL of requests handed to the upstream HTTP client"])
p("C03","Policy label selects the upstream resource, unmapped requests get 503",
 "A route without a policy is mapped to the first entry of its named resource; a route with a policy is mapped to the first entry of that resource carrying the label the policy chose. When no entry qualifies, or the resource does not exist or is empty, the request is answered 503 and no upstream is contacted.",
 ["inputs","configurations"],"for every resource table, label assignment, policy and chosen label",
 "Tests use one resource with one or two labels; the guarantee is over every table shape including empty, missing and multiply labelled entries.",
 ["route.go","proxyhandler.go","config.go"],
 [("mapping","route.go Route.mapURL"),("503 branch","proxyhandler.go proxyHandler"),("resource names and schemes","config.go reApplyResourceNames, reApplyResourceSchemes")],
 [("Runner.Resources","named resource tables","config.go Config"),("Runner.Policies","named policies","config.go Config")])
p("C04","Policy labels are drawn with exactly their configured weights",
 "Given a uniform draw from [0,1), a policy yields each of its entries on a set of draws that is one interval whose length is that entry's weight, so an entry of weight zero is never chosen and entries with larger weights are chosen proportionally more often. The label returned is always a label of that policy, or \"default\" when the draw lies beyond the sum of all weights. Serving requests never re-seeds the generator the draws come from.",
 ["inputs","configurations"],"for every policy (any number of entries, any non-negative weights) and every draw",
 "The tests roll the dice a few thousand times on two fixed policies and compare frequencies loosely; an off-by-one in the cumulative sums or a boundary error passes them.",
 ["policy.go"],
 [("weighted choice","policy.go Policy.resolveLabel"),("ordering","policy.go Policy.Less")])
p("C05","JWT protected routes only admit verified, unexpired bearer tokens",
 "A request to a route with a JWT configuration reaches an upstream only if it carries a bearer token whose signature verifies under the configured algorithm with one of the configured keys (no signature is needed only when the algorithm is configured as none) and whose exp, nbf and iat claims are valid at that time allowing for the configured clock skew. Every other request, including one with a missing, malformed or unsigned token, is answered 401 without contacting an upstream.",
 ["inputs","configurations"],"for every Authorization header, every configured algorithm, key set and skew and every time",
 "Tests try a few dozen fixed tokens; the gate must hold for every header text, every key set (zero, one, several keys, matching or unknown kid) and every skew.",
 ["proxy.go","proxyhandler.go","route.go","jwt.go"],
 [("gate","proxyhandler.go proxyHandler"),("token validation","proxy.go Proxy.validateJwt"),("signature check over the key set","proxy.go Proxy.verifySignature"),("date claims with skew","proxy.go verifyDateClaims"),("kid extraction","proxy.go extractKid"),("has jwt","route.go Route.hasJwt")])
p("C06","JWT key sets only ever hold current keys of the configured algorithm",
 "A key enters a JWT configuration's key set only if its type and curve fit the configured algorithm and, when fetched remotely, only if it declares exactly that algorithm; looking up a key id returns the most recently stored key for it, so a rotated key replaces its predecessor and other ids keep theirs. A JWT configuration whose name, algorithm, key material or skew is invalid is rejected.",
 ["inputs","histories","configurations"],"for every sequence of key set updates, every remote key set and every JWT configuration",
 "Tests insert and look up a handful of keys once; replacement under rotation and rejection over all algorithm/key combinations are not sampled.",
 ["jwt.go","config.go"],
 [("insert or replace","jwt.go KeySet.Upsert"),("lookup","jwt.go KeySet.Find"),("remote load","jwt.go Jwt.LoadJwks"),("local key","jwt.go Jwt.parseKey"),("curve check","jwt.go Jwt.checkECDSABitSize"),("validation","jwt.go Jwt.Validate")],
 [("RSAPublic, ECDSAPublic, Secret","key sets","jwt.go Jwt")])
p("C07","Retries are bounded and only for repeatable methods",
 "For one downstream request the upstream is contacted at most the configured maximum number of times, and more than once only if the method is GET, HEAD, OPTIONS, TRACE, PUT or DELETE. No further attempt is started once an attempt has produced a proxied response or the downstream request has been aborted.",
 ["inputs","configurations","fault_sequences"],"for every method, attempt limit and sequence of upstream outcomes (errors, timeouts, status codes)",
 "Tests exercise shouldRetry on single values; the bound must hold across every sequence of failing attempts.",
 ["proxyhandler.go","proxy.go"],
 [("retry decision","proxy.go Proxy.shouldRetryUpstreamAttempt"),("attempt loop","proxyhandler.go handle"),("attempt bookkeeping","proxy.go firstAttempt, nextAttempt"),("send","proxyhandler.go performUpstreamRequest")],
 [("Up.Atmpt.Count","ordinal of the current attempt","proxy.go Atmpt")])
p("C08","Every downstream request gets exactly one response",
 "For every downstream request, whatever the upstream does, exactly one status line and exactly one body are written to the client; never none and never two.",
 ["inputs","configurations","fault_sequences"],"for every request, configuration and every sequence of upstream outcomes and aborts",
 "Integration tests observe single outcomes; a path that writes nothing or twice only shows for particular combinations of branches.",
 ["proxyhandler.go","server.go","proxy.go","responses.go"],
 [("handler branches","proxyhandler.go proxyHandler, handle, processUpstreamResponse"),("error response","server.go sendStatusCodeAsJSON"),("proxied response","proxy.go sendDownstreamStatusCodeHeader, pipeDownstreamResponse"),("about endpoint","responses.go aboutHandler")],None,["http.ResponseWriter calls"])
p("C09","Status codes: upstream below 500 passes through, failures become 502/504",
 "A completed upstream response with a status of 100 to 499 is answered with the same status; an upstream status of 500 or more (or below 100, which is no status), a connection failure or an unreadable body is answered 502 once attempts are used up, and an upstream or downstream timeout 504. A request with a method the proxy does not support is answered 400, and a generated error response carries its own status code, and a non-empty message, in its JSON body.",
 ["inputs","fault_sequences","configurations"],"for every upstream status, error and timeout outcome and every method",
 "Unit tests never run the response path against a live upstream; the mapping is over all statuses and all failure kinds.",
 ["proxyhandler.go","proxy.go","responses.go","server.go"],
 [("outcome selection","proxyhandler.go handle, processUpstreamResponse, shouldProxyUpstreamResponse, isUpstreamClientError"),("method check","proxy.go hasLegalHTTPMethod, proxyhandler.go validate"),("JSON error","server.go sendStatusCodeAsJSON, responses.go withCode")])
p("C10","Request bodies: over limit is 413, otherwise forwarded byte-identical",
 "A request whose body exceeds the configured maximum, whether announced or streamed, is answered 413 and not forwarded, and one whose body cannot be read completely is not forwarded either. Every other request is forwarded with exactly the bytes the client sent as its body, on every attempt.",
 ["inputs","configurations","fault_sequences"],"for every body length and content, announced or chunked, every limit, every read failure and every attempt",
 "Tests never stream a chunked body over the limit nor fail a read half way; truncation and silent replacement by an empty body only appear there.",
 ["proxy.go","proxyhandler.go"],
 [("body parsing","proxy.go Proxy.parseRequestBody"),("body per attempt","proxy.go Proxy.bodyReader, proxyhandler.go scaffoldUpstreamRequest"),("413/400","proxyhandler.go validate, proxyHandler")])
p("C11","Headers pass through in both directions except the four hop-owned ones",
 "Every request header and every response header is forwarded with all its values in order, except Date, Content-Length, Transfer-Encoding and Server, which are never copied whatever their letter case. X-Request-Id goes upstream as the one id of the request, and a response header the proxy sets itself keeps the proxy's value first with the upstream's values after it. Response headers of an upstream 4xx are not forwarded because its response is replaced by a generated one.",
 ["inputs"],"for every header multimap on requests and on upstream responses",
 "Tests copy two or three single-valued headers; multi-valued headers and arbitrary names are quantified over.",
 ["proxyhandler.go","proxy.go"],
 [("filter","proxyhandler.go shouldProxyHeader"),("request headers","proxyhandler.go scaffoldUpstreamRequest"),("response headers","proxy.go Proxy.copyUpstreamResponseHeaders")])
p("C12","Content-Length and Content-Encoding sent downstream describe the body sent",
 "The Content-Encoding sent with a non-empty response truthfully describes its bytes: gzip exactly when the bytes written are gzip data the client accepts, otherwise the encoding the upstream declared or identity. The Content-Length sent equals the number of bytes written, except for HEAD where an upstream's numeric value is passed on and for CONNECT, 1xx and 204 where it is 0.",
 ["inputs","configurations"],"for every upstream body and Content-Encoding, client Accept-Encoding, method and status",
 "Tests check selected combinations of two flags; truthfulness relates header text to bytes for every combination including foreign encodings and generated errors.",
 ["proxy.go","server.go","responses.go","proxyhandler.go"],
 [("encode","proxy.go encodeUpstreamResponseBody, contentEncoding, writeContentEncodingHeader"),("length","proxy.go setContentLengthHeader"),("error bodies","server.go sendStatusCodeAsJSON"),("about","responses.go aboutHandler")])
p("C13","Compression is lossless and independent of recycled compressors",
 "Compressing any byte sequence and decompressing the result yields the original bytes, decompressing valid gzip data yields its content, and neither result depends on what the pooled compressor or decompressor was used for before.",
 ["inputs","histories"],"for every byte sequence and every history of earlier uses of the pool",
 "Tests round-trip a few short strings through fresh pools; pooled state carried over from an earlier (possibly failed) use is not sampled.",
 ["gzip.go"],
 [("compress","gzip.go Gzip"),("decompress","gzip.go Gunzip"),("pools","gzip.go zipPool, unzipPool")])
p("C14","Unset configuration gets the documented default, set values are kept",
 "Every connection parameter left unset takes its documented default (downstream read 120s, round trip 240s, idle 120s, body 2 MiB, mode HTTP, port 8080 or 443 for TLS; upstream socket 3s, read 120s, idle 120s, pool 32768, one attempt) and every parameter that is set, as well as all other configuration, is left as given; serving modes compare case-insensitively. The policy named default is always the built-in one. Resource schemes are normalised: one that mentions https becomes https, one that mentions http becomes http, an empty one becomes http and any other is kept, and every resource entry carries its resource's name.",
 ["configurations"],"for every combination of set and unset parameters and every resource table",
 "Tests check each default once with everything else unset; non-interference between parameters and over whole tables is not sampled.",
 ["config.go","server.go"],
 [("downstream defaults","config.go setDefaultDownstreamParams, isTLSMode"),("upstream defaults","config.go setDefaultUpstreamParams"),("schemes","config.go reApplyResourceSchemes"),("names","config.go reApplyResourceNames"),("default policy","config.go addDefaultPolicy")])
p("C15","TLS mode never serves plaintext or weak TLS; upstream TLS is verified",
 "In TLS mode the server listens only with TLS, at version 1.2 or later, restricted to its forward-secret AEAD cipher suites and only with a certificate chain that verified; otherwise it refuses to start. Upstream TLS certificates are verified unless the operator opted out, and upstream redirects are returned to the client, never followed.",
 ["configurations","inputs"],"for every configuration and certificate chain",
 "Tests look at one good and one bad certificate; the listening decision must hold for every configuration and verification outcome.",
 ["server.go","httpclient.go","tls.go"],
 [("listen decision","server.go startListening"),("TLS parameters","server.go tlsConfig"),("chain check","tls.go checkCertChain"),("upstream client","httpclient.go scaffoldHTTPClient")])
p("C16","Configured timeouts are the timeouts in force",
 "The listener, upstream client and per-attempt and per-request timers are armed with exactly the configured durations in seconds: downstream read and idle timeouts, the round trip timeout plus one second for writing, upstream connect and TLS handshake, idle and pool limits, and cancellation of each attempt after the upstream read timeout and of each request after the round trip timeout.",
 ["configurations"],"for every configured set of durations",
 "Tests inspect one client with one set of values; unit and field mix-ups for other values are not sampled.",
 ["server.go","httpclient.go","proxyhandler.go","proxy.go","config.go"],
 [("listener","server.go startListening"),("client","httpclient.go scaffoldHTTPClient"),("attempt timer","proxyhandler.go scaffoldUpstreamRequest"),("round trip timer","proxy.go parseIncoming, config.go getDownstreamRoundTripTimeoutDuration")])
p("C17","Certificate chain report: one link per certificate, true earliest expiry",
 "The chain report has one entry per certificate in chain order with that certificate's own dates, and exactly one entry is marked as expiring first, namely one with the smallest remaining validity. CA certificates in the configured chain are used as roots only when self-issued (issuer and subject have the same common name) and as intermediates otherwise, and a serial number of any length is rendered as all its hex bytes separated by dashes.",
 ["inputs"],"for every certificate chain and every serial number",
 "Tests analyse two fixed chains; position of the earliest expiry and serial lengths are quantified over.",
 ["tls.go"],
 [("links","tls.go parseTlsLinks"),("pools","tls.go splitCertPools, isRoot, verifyOptions"),("serial","tls.go formatSerial")])
p("C18","Process sample history is a bounded first-in first-out window",
 "After any sequence of appended samples the history holds the most recent samples in arrival order and its size never grows beyond the maximum once within it; reported growth rates compare each sample with the oldest one and are flagged high exactly at twice the oldest or more.",
 ["histories","inputs"],"for every history of samples",
 "Tests append a fixed sequence; the window property is over every history.",
 ["stats.go"],
 [("append","stats.go samples.append"),("growth","stats.go samples.log")],[("procHistory","sample window","stats.go")])
p("C19","One X-Request-Id per request, the client's if it sent one",
 "If the client sent an X-Request-Id that value (the first of several), and otherwise a freshly generated one, is the id sent upstream on every attempt and returned to the client on every response, proxied or generated.",
 ["inputs","fault_sequences"],"for every request header set and every outcome",
 "Tests check the parsing helper; consistency over attempts and all response kinds is not sampled.",
 ["proxy.go","proxyhandler.go","server.go"],
 [("id","proxy.go createXRequestID, parseIncoming"),("upstream","proxyhandler.go scaffoldUpstreamRequest"),("downstream","server.go writeStandardResponseHeaders")])
p("C20","Serving requests never changes the configuration",
 "Handling a request, whatever it contains and however it ends, leaves every route, policy, resource, connection parameter and JWT setting of the running server unchanged (only remotely fetched keys may be added or replaced).",
 ["inputs","schedules","histories"],"for every request and every configuration; because nothing shared is written, for every interleaving of requests too",
 "A test sees one request at a time; in-place modification of shared tables shows only as a race or drift over many requests.",
 ["proxyhandler.go","proxy.go","route.go","policy.go"],
 [("request path","proxyhandler.go proxyHandler and everything it calls"),("label choice","policy.go Policy.resolveLabel")],[("Runner","shared configuration","server.go")])
p("C21","Invalid configuration stops the boot, the configuration source has a fixed order",
 "The server refuses to boot when a route refers to an unknown JWT configuration, a JWT configuration is invalid, a route path is not a valid pattern or a transform does not start with a slash; a server that boots has none of these. The configuration is read from the given file if there is one, else from the environment variable, else from the default file, and an empty one is refused.",
 ["configurations"],"for every configuration",
 "Tests check single bad configurations; that every accepted configuration satisfies all the rules is universally quantified.",
 ["config.go","server.go","jwt.go"],
 [("load","config.go load, ok"),("routes","config.go validateRoutes, compileRoutePaths, compileRouteTransforms"),("jwt","config.go validateJwt"),("boot","server.go BootStrap")])
p("C22","No request, token, key or upstream answer can crash the proxy",
 "No downstream request, bearer token, upstream response, remote key set, configured key text or certificate chain, however malformed, makes the proxy dereference nothing, index out of bounds or otherwise panic while it is serving or validating it.",
 ["inputs","fault_sequences"],"for every byte content of requests, tokens, upstream responses, key sets, PEM texts and certificates",
 "A crash needs a specific malformed input; tests contain a few. The obligation is on every dereference, index, slice and type assertion for all values.",
 ["proxy.go","proxyhandler.go","jwt.go","route.go","policy.go","gzip.go","tls.go","responses.go","server.go","stats.go"],
 [("request path","proxyhandler.go, proxy.go"),("key parsing","jwt.go"),("certificate report","tls.go"),("responses","server.go, responses.go")])
p("C23","A late answer to an abandoned attempt never affects a later attempt",
 "When an upstream attempt has been abandoned and another one started, whatever the abandoned attempt's upstream later returns changes neither the status, body, encoding nor completion of the later attempt nor the response given to the client.",
 ["schedules","fault_sequences"],"for every interleaving of a late upstream answer with later attempts",
 "Needs a slow first upstream answer to arrive during the second attempt; no test has a retry in flight.",
 ["proxyhandler.go","proxy.go"],
 [("send goroutine","proxyhandler.go performUpstreamRequest"),("body goroutine","proxyhandler.go parseUpstreamResponse"),("attempt records","proxy.go nextAttempt")],[("Up.Atmpts","one record per attempt","proxy.go Up")])
p("C24","Every request is answered within the round trip timeout",
 "Every downstream request is answered no later than its round trip timeout plus scheduling delay, however slow its upstreams are.",
 ["schedules","fault_sequences"],"for every upstream timing",
 "Depends on real time and fair scheduling; tests only measure samples.",
 ["proxyhandler.go","proxy.go"],
 [("abort select","proxyhandler.go performUpstreamRequest, parseUpstreamResponse")])
p("C25","Key rotation in the background is safe alongside token checks",
 "While a remote key set is being refreshed, concurrent token checks see either the old or the new key for each key id, never a torn or partial one.",
 ["schedules"],"for every interleaving of a refresh with token checks",
 "Only particular thread interleavings show it.",
 ["jwt.go","proxy.go"],
 [("refresh","jwt.go Jwt.LoadJwks"),("check","proxy.go Proxy.verifySignature")])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))
