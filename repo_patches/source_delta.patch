From 59c5c09c4017e3dc0c953feb0f120a9a7de9df6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:14 +0000
Subject: [PATCH 01/19] fix: KeySet.Upsert replaces the key of a known kid

---
 jwt.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jwt.go b/jwt.go
index bbd7114..51a2204 100644
--- a/jwt.go
+++ b/jwt.go
@@ -20,9 +20,9 @@ type KeySet []KidPair
 
 func (ks *KeySet) Upsert(kp KidPair) {
 	updated := false
-	for _, k := range *ks {
-		if k.Kid == kp.Kid {
-			k.Key = kp.Key
+	for i := range *ks {
+		if (*ks)[i].Kid == kp.Kid {
+			(*ks)[i].Key = kp.Key
 			updated = true
 		}
 	}
-- 
2.43.0


From 2b022ca5aef3726fbb57b40abd738a5864585004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:15 +0000
Subject: [PATCH 02/19] fix: compile route paths after they were given their
 leading slash

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index ccb4004..56a3ff9 100644
--- a/server.go
+++ b/server.go
@@ -64,9 +64,9 @@ func BootStrap() {
 		reApplyResourceSchemes().
 		reApplyResourceNames().
 		validateJwt().
+		validateRoutes().
 		compileRoutePaths().
 		compileRouteTransforms().
-		validateRoutes().
 		addDefaultPolicy().
 		setDefaultUpstreamParams().
 		setDefaultDownstreamParams()
-- 
2.43.0


From bfce0bc50b7aab59ca0eeffad705c6bdbc0f8dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:16 +0000
Subject: [PATCH 03/19] fix: resolveLabel does not reorder the shared policy

---
 policy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/policy.go b/policy.go
index a2603e7..42bfa3d 100644
--- a/policy.go
+++ b/policy.go
@@ -28,7 +28,9 @@ func (policy Policy) Less(i, j int) bool {
 //resolve a label inside a policy
 func (policy Policy) resolveLabel() string {
 	dice := rand.Float64()
-	sort.Sort(Policy(policy))
+	//sort a copy, the configured policy is shared by all requests
+	policy = append(Policy{}, policy...)
+	sort.Sort(policy)
 	var cw []float64
 	//add up cumulative weights 0 < w < 1
 	for i := 1; i <= len(policy); i++ {
-- 
2.43.0


From 5765e84cd83a5232cc8af6455cf4f92678f21a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:17 +0000
Subject: [PATCH 04/19] fix: reject requests whose body is over the limit or
 cannot be read instead of forwarding them without a body

---
 proxy.go        | 5 ++++-
 proxyhandler.go | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index c07c6ca..f406d43 100644
--- a/proxy.go
+++ b/proxy.go
@@ -35,6 +35,7 @@ const (
 	TLS_NONE      TLSType = "none"
 	Authorization         = "Authorization"
 	Sep                   = " "
+	bodyTooLarge          = "http: request body too large"
 )
 
 //RFC7231 4.2.1
@@ -97,6 +98,7 @@ type Down struct {
 	Aborted     <-chan struct{}
 	AbortedFlag bool
 	ReqTooLarge bool
+	ReqUnread   bool
 	startDate   time.Time
 	HttpVer     string
 	TlsVer      string
@@ -260,13 +262,14 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 
 	buf, err = ioutil.ReadAll(bodyReader)
 	n := len(buf)
-	if int64(n) > Runner.Connection.Downstream.MaxBodyBytes {
+	if int64(n) > Runner.Connection.Downstream.MaxBodyBytes || (err != nil && err.Error() == bodyTooLarge) {
 		proxy.Dwn.ReqTooLarge = true
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
 			Msgf("downstream request body too large. %d body bytes > server max %d", n, Runner.Connection.Downstream.MaxBodyBytes)
 	} else if err != nil && err != io.EOF {
+		proxy.Dwn.ReqUnread = true
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
diff --git a/proxyhandler.go b/proxyhandler.go
index a32064b..646eea5 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -77,7 +77,8 @@ func proxyHandler(response http.ResponseWriter, request *http.Request) {
 
 func validate(proxy *Proxy) bool {
 	return proxy.hasLegalHTTPMethod() &&
-		!proxy.Dwn.ReqTooLarge
+		!proxy.Dwn.ReqTooLarge &&
+		!proxy.Dwn.ReqUnread
 }
 
 func handle(proxy *Proxy) {
-- 
2.43.0


From 09a5b5faea637384385a84c9f931184768f36f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:18 +0000
Subject: [PATCH 05/19] fix: a request body of exactly the maximum size is
 within the limit

---
 proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index f406d43..8dbe457 100644
--- a/proxy.go
+++ b/proxy.go
@@ -240,7 +240,7 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 	}
 
 	//only try to parse the request if supplied content-length is within limits
-	if request.ContentLength >= Runner.Connection.Downstream.MaxBodyBytes {
+	if request.ContentLength > Runner.Connection.Downstream.MaxBodyBytes {
 		proxy.Dwn.ReqTooLarge = true
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
-- 
2.43.0


From 7e0398a7357bdceab9d27d09a0ac8d8741a2fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:19 +0000
Subject: [PATCH 06/19] fix: do not re-encode upstream bodies with a foreign
 content encoding

---
 proxy.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/proxy.go b/proxy.go
index 8dbe457..dca7f13 100644
--- a/proxy.go
+++ b/proxy.go
@@ -436,7 +436,7 @@ func (proxy *Proxy) encodeUpstreamResponseBody() {
 
 func (proxy *Proxy) contentEncoding() string {
 	ce := "identity"
-	if proxy.Dwn.Resp.SendGzip {
+	if proxy.Dwn.Resp.SendGzip && !proxy.hasForeignContentEncoding() {
 		ce = "gzip"
 	} else if proxy.hasMadeUpstreamAttempt() && !proxy.shouldGzipDecodeResponseBody() {
 		ceA := proxy.Up.Atmpt.resp.Header[contentEncoding]
@@ -510,11 +510,23 @@ func (proxy *Proxy) hasLegalHTTPMethod() bool {
 }
 
 func (proxy *Proxy) shouldGzipEncodeResponseBody() bool {
-	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip
+	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip && !proxy.hasForeignContentEncoding()
 }
 
 func (proxy *Proxy) shouldGzipDecodeResponseBody() bool {
-	return !proxy.Dwn.Resp.SendGzip && proxy.Up.Atmpt.isGzip
+	return !proxy.Dwn.Resp.SendGzip && proxy.Up.Atmpt.isGzip && !proxy.hasForeignContentEncoding()
+}
+
+//upstream declared a content coding other than gzip, body and header are passed on as they are.
+func (proxy *Proxy) hasForeignContentEncoding() bool {
+	if proxy.hasMadeUpstreamAttempt() {
+		for _, ce := range proxy.Up.Atmpt.resp.Header[contentEncoding] {
+			if len(ce) > 0 && !strings.EqualFold(ce, "gzip") && !strings.EqualFold(ce, "identity") {
+				return true
+			}
+		}
+	}
+	return false
 }
 
 //get bearer token from request. feed into lib. check signature. check expiry. return true || false.
-- 
2.43.0


From de4092c181cbbbc43dca839cc85bff9ac28845c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:20 +0000
Subject: [PATCH 07/19] fix: declare the content encoding of generated
 responses

---
 server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 56a3ff9..5cba3bd 100644
--- a/server.go
+++ b/server.go
@@ -214,7 +214,11 @@ func (runtime Runtime) tlsConfig() *tls.Config {
 func sendStatusCodeAsJSON(proxy *Proxy) {
 	proxy.writeStandardResponseHeaders()
 	proxy.Dwn.Resp.Writer.Header().Set("Content-Type", "application/json")
-	proxy.writeContentEncodingHeader()
+	if proxy.Dwn.Resp.SendGzip {
+		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, "gzip")
+	} else {
+		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, "identity")
+	}
 
 	proxy.Dwn.Resp.Writer.WriteHeader(proxy.Dwn.Resp.StatusCode)
 
-- 
2.43.0


From c3aa8fd0020fb554755d020d0b7f7d18ac5d102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:21 +0000
Subject: [PATCH 08/19] fix: keep the upstream URI path separated from its
 authority

---
 proxy.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/proxy.go b/proxy.go
index dca7f13..6bf6e3c 100644
--- a/proxy.go
+++ b/proxy.go
@@ -129,15 +129,19 @@ func (proxy *Proxy) hasDownstreamAborted() bool {
 }
 
 func (proxy *Proxy) resolveUpstreamURI() string {
-	uri := proxy.Up.Atmpt.URL.String() + proxy.Dwn.URI
-	if len(proxy.Route.Transform) > 0 {
+	uri := proxy.Dwn.URI
+	if len(proxy.Route.Transform) > 0 && strings.HasPrefix(uri, proxy.Route.Path) {
 		t := proxy.Route.Transform
 		if t == "/" {
 			t = ""
 		}
-		uri = proxy.Up.Atmpt.URL.String() + strings.Replace(proxy.Dwn.URI, proxy.Route.Path, t, 1)
+		uri = strings.Replace(proxy.Dwn.URI, proxy.Route.Path, t, 1)
 	}
-	return uri
+	//never let the request extend the authority of the upstream URL
+	if !strings.HasPrefix(uri, "/") {
+		uri = "/" + uri
+	}
+	return proxy.Up.Atmpt.URL.String() + uri
 }
 
 func (proxy *Proxy) abortAllUpstreamAttempts() {
-- 
2.43.0


From 71d8f8c0340e98f60622b015ff9b0372b40727c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:23 +0000
Subject: [PATCH 09/19] fix: reject malformed bearer tokens instead of
 panicking

---
 proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index 6bf6e3c..12503cb 100644
--- a/proxy.go
+++ b/proxy.go
@@ -598,7 +598,7 @@ func (proxy *Proxy) verifySignature(token string, keySet KeySet, alg jwa.Signatu
 	var parsed jwt.Token
 
 	msg, err = jws.Parse(bytes.NewReader([]byte(token)))
-	if len(msg.Signatures()) > 0 {
+	if err == nil && len(msg.Signatures()) > 0 {
 		//first we try to validate by a key with the kid parameter to match.
 		kid := extractKid(token)
 		var key interface{}
-- 
2.43.0


From 2869cfb98fc0a5aba262322da3232b28c8a47393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:24 +0000
Subject: [PATCH 10/19] fix: do not panic on remote keys that are not EC keys

---
 jwt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index 51a2204..d79b06f 100644
--- a/jwt.go
+++ b/jwt.go
@@ -224,7 +224,9 @@ func (jwt *Jwt) LoadJwks() error {
 							},
 						}
 						err = key.Raw(k.Key)
-						err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						if err == nil {
+							err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						}
 						if err == nil {
 							jwt.ECDSAPublic.Upsert(k)
 						}
-- 
2.43.0


From d81081e7f72ea2ffc097de4bed31f840e0203971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:25 +0000
Subject: [PATCH 11/19] fix: do not panic on jwt certificates with invalid asn
 data

---
 jwt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jwt.go b/jwt.go
index d79b06f..aa44b7a 100644
--- a/jwt.go
+++ b/jwt.go
@@ -288,6 +288,9 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 		case "CERTIFICATE":
 			var cert interface{}
 			cert, err = x509.ParseCertificate(p.Bytes)
+			if err != nil {
+				return errors.New(fmt.Sprintf(pemAsn1Bad, jwt.Name))
+			}
 			switch cert.(type) {
 			case *x509.Certificate:
 				key := cert.(*x509.Certificate).PublicKey
@@ -347,6 +350,9 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 		case "CERTIFICATE":
 			var cert interface{}
 			cert, err = x509.ParseCertificate(p.Bytes)
+			if err != nil {
+				return errors.New(fmt.Sprintf(pemAsn1Bad, jwt.Name))
+			}
 			switch cert.(type) {
 			case *x509.Certificate:
 				key := cert.(*x509.Certificate).PublicKey
-- 
2.43.0


From 5b6735b12b0e47c4eb98f9fe7bea3f5033d793ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:26 +0000
Subject: [PATCH 12/19] fix: format serial numbers of any length

---
 tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index 1654702..eaaafb8 100644
--- a/tls.go
+++ b/tls.go
@@ -106,7 +106,7 @@ func verifyOptions(inter *x509.CertPool, root *x509.CertPool) x509.VerifyOptions
 
 func formatSerial(serial *big.Int) string {
 	hex := fmt.Sprintf("%X", serial)
-	if len(hex) == 1 || len(hex) == 31 {
+	if len(hex)%2 == 1 {
 		hex = "0" + hex
 	}
 	if len(hex) > 2 {
-- 
2.43.0


From 1b25bbec10e7bc8c082461c4dd877effb8b4a18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:27 +0000
Subject: [PATCH 13/19] fix: an empty resource list is unmapped

---
 route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/route.go b/route.go
index 7bcdbf1..5e3be29 100644
--- a/route.go
+++ b/route.go
@@ -53,7 +53,7 @@ func (route Route) mapURL(proxy *Proxy) (*URL, string, bool) {
 	}
 
 	resource := Runner.Resources[route.Resource]
-	if resource == nil {
+	if len(resource) == 0 {
 		return nil, "", false
 	}
 	//if a policy exists, we match resources with a label. TODO: this should be an interface
-- 
2.43.0


From 35806753abe09d76f9bfd09ff330d47e2a7e086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:28 +0000
Subject: [PATCH 14/19] fix: apply acceptable skew of any size to iat and nbf

---
 proxy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index 12503cb..b124842 100644
--- a/proxy.go
+++ b/proxy.go
@@ -684,10 +684,10 @@ func verifyDateClaims(token string, skew int) error {
 	//so i need to parse it again.
 	skewed, _ := jwt.Parse(bytes.NewReader([]byte(token)))
 
-	if skewed.IssuedAt().Unix() > int64(skew*1000) {
+	if skewed.IssuedAt().Unix() > 1 {
 		skewed.Set("iat", skewed.IssuedAt().Add(-time.Second*time.Duration(skew)))
 	}
-	if skewed.NotBefore().Unix() > int64(skew*1000) {
+	if skewed.NotBefore().Unix() > 1 {
 		skewed.Set("nbf", skewed.NotBefore().Add(-time.Second*time.Duration(skew)))
 	}
 	if skewed.Expiration().Unix() > 1 {
-- 
2.43.0


From dee8a011f58d4f0ce467ec87bc78a1e180c622ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:55 +0000
Subject: [PATCH 15/19] fix: a late upstream response only touches its own
 attempt

---
 proxyhandler.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 646eea5..625820e 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -145,8 +145,8 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 }
 
 func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
-	//get a reference to this before any race conditions may occur
-	attemptIndex := proxy.Up.Count - 1
+	//get a reference to this before any race conditions may occur. a late response must only ever touch its own attempt
+	atmpt := proxy.Up.Atmpt
 	req := scaffoldUpstreamRequest(proxy)
 	var upstreamResponse *http.Response
 	var upstreamError error
@@ -154,7 +154,7 @@ func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
 	go func() {
 		//this blocks until upstream headers come in
 		upstreamResponse, upstreamError = httpClient.Do(req)
-		proxy.Up.Atmpt.resp = upstreamResponse
+		atmpt.resp = upstreamResponse
 
 		defer func() {
 			if err := recover(); err != nil {
@@ -167,8 +167,8 @@ func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
 			}
 		}()
 
-		if proxy.Up.Atmpts[attemptIndex].CompleteHeader != nil && !proxy.Up.Atmpts[attemptIndex].AbortedFlag && !proxy.Dwn.AbortedFlag {
-			close(proxy.Up.Atmpts[attemptIndex].CompleteHeader)
+		if atmpt.CompleteHeader != nil && !atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
+			close(atmpt.CompleteHeader)
 		}
 	}()
 
@@ -198,14 +198,14 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 	var upstreamResponseBody []byte
 	var bodyError error
 
-	//get a reference to this before any race conditions may occur
-	attemptIndex := proxy.Up.Count - 1
+	//get a reference to this before any race conditions may occur. a late response must only ever touch its own attempt
+	atmpt := proxy.Up.Atmpt
 
 	go func() {
-		proxy.Up.Atmpt.StatusCode = upstreamResponse.StatusCode
+		atmpt.StatusCode = upstreamResponse.StatusCode
 		upstreamResponseBody, bodyError = ioutil.ReadAll(upstreamResponse.Body)
 		if c := bytes.Compare(upstreamResponseBody[0:2], gzipMagicBytes); c == 0 {
-			proxy.Up.Atmpt.isGzip = true
+			atmpt.isGzip = true
 		}
 
 		defer func() {
@@ -216,8 +216,8 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 		}()
 
 		//this is ok, see: https://stackoverflow.com/questions/8593645/is-it-ok-to-leave-a-channel-open#:~:text=5%20Answers&text=It's%20OK%20to%20leave%20a,it%20will%20be%20garbage%20collected.&text=Closing%20the%20channel%20is%20a,that%20no%20more%20data%20follows.
-		if proxy.Up.Atmpt.CompleteBody != nil && !proxy.Up.Atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
-			close(proxy.Up.Atmpts[attemptIndex].CompleteBody)
+		if atmpt.CompleteBody != nil && !atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
+			close(atmpt.CompleteBody)
 		}
 	}()
 
-- 
2.43.0


From f313f2450b0a28d1852380bed4897f7faa228816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:56 +0000
Subject: [PATCH 16/19] fix: an upstream status code below 100 is a bad
 gateway, it cannot be written downstream

---
 proxyhandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxyhandler.go b/proxyhandler.go
index 625820e..1f14c7b 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -279,6 +279,7 @@ func shouldProxyUpstreamResponse(proxy *Proxy, bodyError error) bool {
 	return !proxy.hasDownstreamAborted() &&
 		!proxy.hasUpstreamAttemptAborted() &&
 		bodyError == nil &&
+		proxy.Up.Atmpt.resp.StatusCode > 99 &&
 		proxy.Up.Atmpt.resp.StatusCode < 500
 }
 
-- 
2.43.0


From ad928a94830bd2d094c3e330914bfa25eda0df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:57 +0000
Subject: [PATCH 17/19] fix: serving a generated response does not reset the
 random numbers policies are drawn with

---
 responses.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/responses.go b/responses.go
index b983b15..4fc8b40 100644
--- a/responses.go
+++ b/responses.go
@@ -147,8 +147,9 @@ func (statusCodeResponse StatusCodeResponse) AsString() string {
 }
 
 func randomHuttese() string {
-	rand.Seed(time.Now().Unix())
-	return huttese[rand.Int()%len(huttese)]
+	//own source, the global one draws the policy labels and must not be reset by serving a response
+	rnd := rand.New(rand.NewSource(time.Now().UnixNano()))
+	return huttese[rnd.Int()%len(huttese)]
 }
 
 func aboutHandler(w http.ResponseWriter, r *http.Request) {
-- 
2.43.0


From 2ac5d724ffd1953e90142aef2b9885b35a41d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:58 +0000
Subject: [PATCH 18/19] fix: malformed certificates in the chain do not panic
 the chain check

---
 tls.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tls.go b/tls.go
index eaaafb8..88a989e 100644
--- a/tls.go
+++ b/tls.go
@@ -78,7 +78,7 @@ func checkCertChain(chain tls.Certificate) ([]TlsLink, error) {
 	var err error
 	cert, e1 := x509.ParseCertificate(chain.Certificate[0])
 	if e1 != nil {
-		err = e1
+		return tlsLinks, e1
 	}
 	if cert.DNSNames == nil || len(cert.DNSNames) == 0 {
 		err = errors.New("no DNS name specified")
@@ -212,7 +212,7 @@ func splitCertPools(chain tls.Certificate) (*x509.CertPool, *x509.CertPool) {
 	for _, c := range chain.Certificate {
 		c1, _ := x509.ParseCertificate(c)
 		//for CA's we treat you as intermediate unless you signed yourself
-		if c1.IsCA {
+		if c1 != nil && c1.IsCA {
 			//as above, you're intermediate in the last position unless you signed yourself, that makes you a root cert.
 			if isRoot(c1) {
 				root.AddCert(c1)
-- 
2.43.0


From 8096a271a4ff54d46d1bfaf0de0e284a9af4a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:13 +0000
Subject: [PATCH 19/19] fix: an empty jwt configuration stops the boot with a
 message instead of a nil dereference

---
 config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config.go b/config.go
index 4ac0c52..b1469b0 100644
--- a/config.go
+++ b/config.go
@@ -243,6 +243,9 @@ func (config Config) setDefaultUpstreamParams() *Config {
 func (config Config) validateJwt() *Config {
 	if len(config.Jwt) > 0 {
 		for name, jwt := range config.Jwt {
+			if jwt == nil {
+				config.panic(fmt.Sprintf("jwt [%s] is empty, check your configuration", name))
+			}
 			//update name on resource
 			jwt.Name = name
 			jwt.Init()
-- 
2.43.0

