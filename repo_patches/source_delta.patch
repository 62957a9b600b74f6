From 02a4c2ead741bf05af629bcec5baaaba0465c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:55 +0000
Subject: [PATCH 01/30] fix: reject chunked bodies above maxBodyBytes with 413,
 accept bodies of exactly maxBodyBytes

---
 proxy.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index c07c6ca..bdae7cf 100644
--- a/proxy.go
+++ b/proxy.go
@@ -238,7 +238,7 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 	}
 
 	//only try to parse the request if supplied content-length is within limits
-	if request.ContentLength >= Runner.Connection.Downstream.MaxBodyBytes {
+	if request.ContentLength > Runner.Connection.Downstream.MaxBodyBytes {
 		proxy.Dwn.ReqTooLarge = true
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
@@ -249,9 +249,10 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 
 	//create buffered reader so we can fetch chunks of request as they come.
 	//No need to close request.Body of type io.ReadCloser, see: https://golang.org/pkg/net/http/#Request
+	//reads up to one byte past the limit, so that bodies without content-length are found to exceed it.
 	bodyReader := bufio.NewReader(http.MaxBytesReader(proxy.Dwn.Resp.Writer,
 		request.Body,
-		Runner.Connection.Downstream.MaxBodyBytes))
+		Runner.Connection.Downstream.MaxBodyBytes+1))
 
 	var err error
 	var buf []byte
-- 
2.43.0


From 4358f4c3479a7635bbfff3fef57366704efd0038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:56 +0000
Subject: [PATCH 02/30] fix: respond 400 to requests whose body could not be
 read, instead of forwarding them with an empty body

---
 proxy.go        | 2 ++
 proxyhandler.go | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index bdae7cf..2907307 100644
--- a/proxy.go
+++ b/proxy.go
@@ -97,6 +97,7 @@ type Down struct {
 	Aborted     <-chan struct{}
 	AbortedFlag bool
 	ReqTooLarge bool
+	ReqAborted  bool
 	startDate   time.Time
 	HttpVer     string
 	TlsVer      string
@@ -268,6 +269,7 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
 			Msgf("downstream request body too large. %d body bytes > server max %d", n, Runner.Connection.Downstream.MaxBodyBytes)
 	} else if err != nil && err != io.EOF {
+		proxy.Dwn.ReqAborted = true
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
diff --git a/proxyhandler.go b/proxyhandler.go
index a32064b..457c4c9 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -77,7 +77,8 @@ func proxyHandler(response http.ResponseWriter, request *http.Request) {
 
 func validate(proxy *Proxy) bool {
 	return proxy.hasLegalHTTPMethod() &&
-		!proxy.Dwn.ReqTooLarge
+		!proxy.Dwn.ReqTooLarge &&
+		!proxy.Dwn.ReqAborted
 }
 
 func handle(proxy *Proxy) {
-- 
2.43.0


From 13c081a6dc74c54b9b3a30655ea6cbbdf18679a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:57 +0000
Subject: [PATCH 03/30] fix: respond 401 to bearer tokens that are not
 parseable as jws instead of panicking

---
 proxy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index 2907307..f5c12ea 100644
--- a/proxy.go
+++ b/proxy.go
@@ -582,7 +582,7 @@ func (proxy *Proxy) verifySignature(token string, keySet KeySet, alg jwa.Signatu
 	var parsed jwt.Token
 
 	msg, err = jws.Parse(bytes.NewReader([]byte(token)))
-	if len(msg.Signatures()) > 0 {
+	if err == nil && len(msg.Signatures()) > 0 {
 		//first we try to validate by a key with the kid parameter to match.
 		kid := extractKid(token)
 		var key interface{}
@@ -614,7 +614,7 @@ func (proxy *Proxy) verifySignature(token string, keySet KeySet, alg jwa.Signatu
 				}
 			}
 		}
-	} else {
+	} else if err == nil {
 		err = errors.New("no signature found on jwt token")
 	}
 	return parsed, err
-- 
2.43.0


From db6386793a2fa18f2a1c3b0d0e66c2af81149bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:57 +0000
Subject: [PATCH 04/30] fix: root transform cannot change the upstream host or
 port any more

---
 proxy.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index f5c12ea..1b643e8 100644
--- a/proxy.go
+++ b/proxy.go
@@ -134,7 +134,12 @@ func (proxy *Proxy) resolveUpstreamURI() string {
 		if t == "/" {
 			t = ""
 		}
-		uri = proxy.Up.Atmpt.URL.String() + strings.Replace(proxy.Dwn.URI, proxy.Route.Path, t, 1)
+		path := strings.Replace(proxy.Dwn.URI, proxy.Route.Path, t, 1)
+		//the transformed path must never extend into the upstream authority
+		if !strings.HasPrefix(path, "/") {
+			path = "/" + path
+		}
+		uri = proxy.Up.Atmpt.URL.String() + path
 	}
 	return uri
 }
-- 
2.43.0


From 804e5aeb6a2a77fc60e9faa72989c0939b505928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 05/30] fix: compile route paths after adding their leading
 slash so these routes match

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index ccb4004..56a3ff9 100644
--- a/server.go
+++ b/server.go
@@ -64,9 +64,9 @@ func BootStrap() {
 		reApplyResourceSchemes().
 		reApplyResourceNames().
 		validateJwt().
+		validateRoutes().
 		compileRoutePaths().
 		compileRouteTransforms().
-		validateRoutes().
 		addDefaultPolicy().
 		setDefaultUpstreamParams().
 		setDefaultDownstreamParams()
-- 
2.43.0


From a0b71ffd4f2326b5d36a17bc7e82e81dd51d5c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:39 +0000
Subject: [PATCH 06/30] fix: label gzipped JSON error responses with their
 content-encoding

---
 server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 56a3ff9..709ef2d 100644
--- a/server.go
+++ b/server.go
@@ -214,7 +214,9 @@ func (runtime Runtime) tlsConfig() *tls.Config {
 func sendStatusCodeAsJSON(proxy *Proxy) {
 	proxy.writeStandardResponseHeaders()
 	proxy.Dwn.Resp.Writer.Header().Set("Content-Type", "application/json")
-	proxy.writeContentEncodingHeader()
+	if proxy.Dwn.Resp.SendGzip {
+		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, "gzip")
+	}
 
 	proxy.Dwn.Resp.Writer.WriteHeader(proxy.Dwn.Resp.StatusCode)
 
-- 
2.43.0


From e9ac43e0e6aa8c213f427ceb74060dcafdee66c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 07/30] fix: pass through custom upstream content-encodings
 with their own label instead of gzipping on top

---
 proxy.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/proxy.go b/proxy.go
index 1b643e8..cab7e77 100644
--- a/proxy.go
+++ b/proxy.go
@@ -441,18 +441,31 @@ func (proxy *Proxy) encodeUpstreamResponseBody() {
 
 func (proxy *Proxy) contentEncoding() string {
 	ce := "identity"
-	if proxy.Dwn.Resp.SendGzip {
+	if proxy.hasCustomUpstreamContentEncoding() {
+		ce = proxy.upstreamContentEncoding()
+	} else if proxy.Dwn.Resp.SendGzip {
 		ce = "gzip"
-	} else if proxy.hasMadeUpstreamAttempt() && !proxy.shouldGzipDecodeResponseBody() {
-		ceA := proxy.Up.Atmpt.resp.Header[contentEncoding]
-		if len(ceA) > 0 {
-			ce = strings.Join(ceA, " ")
-		}
 	}
 
 	return ce
 }
 
+func (proxy *Proxy) upstreamContentEncoding() string {
+	ce := ""
+	if proxy.hasMadeUpstreamAttempt() {
+		ce = strings.Join(proxy.Up.Atmpt.resp.Header[contentEncoding], ", ")
+	}
+	if len(ce) == 0 {
+		ce = "identity"
+	}
+	return ce
+}
+
+//anything but identity and well-formed gzip, which we must pass on with the upstream's own label.
+func (proxy *Proxy) hasCustomUpstreamContentEncoding() bool {
+	return !strings.EqualFold(proxy.upstreamContentEncoding(), "identity") && !proxy.Up.Atmpt.isGzip
+}
+
 func (proxy *Proxy) setRoute(route *Route) {
 	proxy.Route = route
 }
@@ -515,7 +528,7 @@ func (proxy *Proxy) hasLegalHTTPMethod() bool {
 }
 
 func (proxy *Proxy) shouldGzipEncodeResponseBody() bool {
-	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip
+	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip && !proxy.hasCustomUpstreamContentEncoding()
 }
 
 func (proxy *Proxy) shouldGzipDecodeResponseBody() bool {
-- 
2.43.0


From e972e7ba1708a786f0835ec19a9019fa36d3b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:02 +0000
Subject: [PATCH 08/30] fix: do not read past the end of upstream bodies
 shorter than two bytes

---
 proxyhandler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 457c4c9..801d6dd 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -204,7 +204,7 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 	go func() {
 		proxy.Up.Atmpt.StatusCode = upstreamResponse.StatusCode
 		upstreamResponseBody, bodyError = ioutil.ReadAll(upstreamResponse.Body)
-		if c := bytes.Compare(upstreamResponseBody[0:2], gzipMagicBytes); c == 0 {
+		if bytes.HasPrefix(upstreamResponseBody, gzipMagicBytes) {
 			proxy.Up.Atmpt.isGzip = true
 		}
 
-- 
2.43.0


From 1a908d8c0c7d5a725b9392baffd6448f3de9fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:03 +0000
Subject: [PATCH 09/30] fix: detect upstream gzip by content-encoding, so that
 gzip files are neither decoded nor mislabelled

---
 proxyhandler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 801d6dd..30e63f3 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -204,7 +204,10 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 	go func() {
 		proxy.Up.Atmpt.StatusCode = upstreamResponse.StatusCode
 		upstreamResponseBody, bodyError = ioutil.ReadAll(upstreamResponse.Body)
-		if bytes.HasPrefix(upstreamResponseBody, gzipMagicBytes) {
+		//the body alone does not tell, it may well be a gzip file served with identity encoding
+		ce := upstreamResponse.Header.Get(contentEncoding)
+		if (strings.EqualFold(ce, "gzip") || strings.EqualFold(ce, "x-gzip")) &&
+			bytes.HasPrefix(upstreamResponseBody, gzipMagicBytes) {
 			proxy.Up.Atmpt.isGzip = true
 		}
 
-- 
2.43.0


From 68251f4cd1ff1e2520e2f29bd04f4a79eae15f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:04 +0000
Subject: [PATCH 10/30] fix: late results of abandoned upstream attempts no
 longer overwrite the current attempt

---
 proxyhandler.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 30e63f3..176b087 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -146,7 +146,7 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 
 func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
 	//get a reference to this before any race conditions may occur
-	attemptIndex := proxy.Up.Count - 1
+	atmpt := proxy.Up.Atmpt
 	req := scaffoldUpstreamRequest(proxy)
 	var upstreamResponse *http.Response
 	var upstreamError error
@@ -154,21 +154,21 @@ func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
 	go func() {
 		//this blocks until upstream headers come in
 		upstreamResponse, upstreamError = httpClient.Do(req)
-		proxy.Up.Atmpt.resp = upstreamResponse
+		atmpt.resp = upstreamResponse
 
 		defer func() {
 			if err := recover(); err != nil {
 				log.Trace().
 					Str("error", fmt.Sprintf("error: %v", err)).
 					Str(XRequestID, proxy.XRequestID).
-					Int64("upAtmptElapsedMicros", time.Since(proxy.Up.Atmpt.startDate).Microseconds()).
-					Str("upAtmpt", proxy.Up.Atmpt.print()).
+					Int64("upAtmptElapsedMicros", time.Since(atmpt.startDate).Microseconds()).
+					Str("upAtmpt", atmpt.print()).
 					Msgf("safe to ignore. recovered internally from closed header success channel after request already handled.")
 			}
 		}()
 
-		if proxy.Up.Atmpts[attemptIndex].CompleteHeader != nil && !proxy.Up.Atmpts[attemptIndex].AbortedFlag && !proxy.Dwn.AbortedFlag {
-			close(proxy.Up.Atmpts[attemptIndex].CompleteHeader)
+		if atmpt.CompleteHeader != nil && !atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
+			close(atmpt.CompleteHeader)
 		}
 	}()
 
@@ -199,16 +199,16 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 	var bodyError error
 
 	//get a reference to this before any race conditions may occur
-	attemptIndex := proxy.Up.Count - 1
+	atmpt := proxy.Up.Atmpt
 
 	go func() {
-		proxy.Up.Atmpt.StatusCode = upstreamResponse.StatusCode
+		atmpt.StatusCode = upstreamResponse.StatusCode
 		upstreamResponseBody, bodyError = ioutil.ReadAll(upstreamResponse.Body)
 		//the body alone does not tell, it may well be a gzip file served with identity encoding
 		ce := upstreamResponse.Header.Get(contentEncoding)
 		if (strings.EqualFold(ce, "gzip") || strings.EqualFold(ce, "x-gzip")) &&
 			bytes.HasPrefix(upstreamResponseBody, gzipMagicBytes) {
-			proxy.Up.Atmpt.isGzip = true
+			atmpt.isGzip = true
 		}
 
 		defer func() {
@@ -219,8 +219,8 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 		}()
 
 		//this is ok, see: https://stackoverflow.com/questions/8593645/is-it-ok-to-leave-a-channel-open#:~:text=5%20Answers&text=It's%20OK%20to%20leave%20a,it%20will%20be%20garbage%20collected.&text=Closing%20the%20channel%20is%20a,that%20no%20more%20data%20follows.
-		if proxy.Up.Atmpt.CompleteBody != nil && !proxy.Up.Atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
-			close(proxy.Up.Atmpts[attemptIndex].CompleteBody)
+		if atmpt.CompleteBody != nil && !atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
+			close(atmpt.CompleteBody)
 		}
 	}()
 
-- 
2.43.0


From a9187fb63da09558933dd5fb2b0789e1dba90f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 11/30] fix: a key re-published in the jwks under a known kid
 now replaces the previous key

---
 jwt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jwt.go b/jwt.go
index bbd7114..2f2b107 100644
--- a/jwt.go
+++ b/jwt.go
@@ -20,9 +20,9 @@ type KeySet []KidPair
 
 func (ks *KeySet) Upsert(kp KidPair) {
 	updated := false
-	for _, k := range *ks {
+	for i, k := range *ks {
 		if k.Kid == kp.Kid {
-			k.Key = kp.Key
+			(*ks)[i].Key = kp.Key
 			updated = true
 		}
 	}
-- 
2.43.0


From 54a7d73efc8e6d757bb370b29f24c385af80fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:29 +0000
Subject: [PATCH 12/30] fix: jwks entries that declare an ES alg but hold
 another key type no longer crash the server

---
 jwt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index 2f2b107..760b62e 100644
--- a/jwt.go
+++ b/jwt.go
@@ -224,7 +224,9 @@ func (jwt *Jwt) LoadJwks() error {
 							},
 						}
 						err = key.Raw(k.Key)
-						err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						if err == nil {
+							err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						}
 						if err == nil {
 							jwt.ECDSAPublic.Upsert(k)
 						}
-- 
2.43.0


From 38d7943156e08ccd857a06989d275b7bc85663d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 13/30] fix: report jwt keys that are not pem encoded as config
 error instead of nil pointer dereference

---
 jwt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jwt.go b/jwt.go
index 760b62e..419fe7a 100644
--- a/jwt.go
+++ b/jwt.go
@@ -267,6 +267,9 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 		if len(p1) > 0 {
 			return errors.New(fmt.Sprintf(pemOverflow, jwt.Name))
 		}
+		if p == nil {
+			return errors.New(fmt.Sprintf(pemTypeBad, jwt.Name))
+		}
 		if p.Type != "PUBLIC KEY" && p.Type != "RSA PUBLIC KEY" && p.Type != "CERTIFICATE" {
 			return errors.New(fmt.Sprintf(pemTypeBad, jwt.Name))
 		}
@@ -322,6 +325,9 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 		if len(p1) > 0 {
 			return errors.New(fmt.Sprintf(pemOverflow, jwt.Name))
 		}
+		if p == nil {
+			return errors.New(fmt.Sprintf(pemTypeBad, jwt.Name))
+		}
 		if p.Type != "PUBLIC KEY" && p.Type != "CERTIFICATE" {
 			return errors.New(fmt.Sprintf(pemTypeBad, jwt.Name))
 		}
-- 
2.43.0


From cafbb077e28f7b3bd7cca48f849a1101c9a1c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 14/30] fix: resolving a policy label no longer reorders the
 shared policy under concurrent requests

---
 policy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/policy.go b/policy.go
index a2603e7..4c2a0ee 100644
--- a/policy.go
+++ b/policy.go
@@ -28,6 +28,8 @@ func (policy Policy) Less(i, j int) bool {
 //resolve a label inside a policy
 func (policy Policy) resolveLabel() string {
 	dice := rand.Float64()
+	//sort a copy, this policy is shared by all concurrent requests.
+	policy = append(Policy{}, policy...)
 	sort.Sort(Policy(policy))
 	var cw []float64
 	//add up cumulative weights 0 < w < 1
-- 
2.43.0


From 4fa1bac6f7b32f3075d04fcec5ac8c078b64bca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:31 +0000
Subject: [PATCH 15/30] fix: seed the shared random source once, canned
 responses used to reset the policy dice

---
 responses.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/responses.go b/responses.go
index b983b15..d904d1d 100644
--- a/responses.go
+++ b/responses.go
@@ -146,8 +146,11 @@ func (statusCodeResponse StatusCodeResponse) AsString() string {
 	return strings.ToLower(string(statusCodeResponse.AsJSON()))
 }
 
+func init() {
+	rand.Seed(time.Now().UnixNano())
+}
+
 func randomHuttese() string {
-	rand.Seed(time.Now().Unix())
 	return huttese[rand.Int()%len(huttese)]
 }
 
-- 
2.43.0


From 33bc5e969a37a69636b7147f90f1d4492014e96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:32 +0000
Subject: [PATCH 16/30] fix: format certificate serials of any odd hex length,
 these stopped the TLS health check

---
 tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index 1654702..eaaafb8 100644
--- a/tls.go
+++ b/tls.go
@@ -106,7 +106,7 @@ func verifyOptions(inter *x509.CertPool, root *x509.CertPool) x509.VerifyOptions
 
 func formatSerial(serial *big.Int) string {
 	hex := fmt.Sprintf("%X", serial)
-	if len(hex) == 1 || len(hex) == 31 {
+	if len(hex)%2 == 1 {
 		hex = "0" + hex
 	}
 	if len(hex) > 2 {
-- 
2.43.0


From aa864252d3eca076c71dad744112dc3392a5bd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:33 +0000
Subject: [PATCH 17/30] fix: do not duplicate X-Request-Id in the response if
 upstream echoes it

---
 proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index cab7e77..ac54390 100644
--- a/proxy.go
+++ b/proxy.go
@@ -404,7 +404,8 @@ func (proxy *Proxy) writeContentEncodingHeader() {
 
 func (proxy *Proxy) copyUpstreamResponseHeaders() {
 	for key, values := range proxy.Up.Atmpt.resp.Header {
-		if shouldProxyHeader(key) {
+		//our own X-Request-Id was already written and identifies this request
+		if shouldProxyHeader(key) && !strings.EqualFold(key, XRequestID) {
 			for _, value := range values {
 				proxy.Dwn.Resp.Writer.Header().Add(key, value)
 			}
-- 
2.43.0


From 1b5fc45a68a7c60487ee78bc0f40b307a173d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 18/30] fix: routes to resources without any url respond 503
 instead of dropping the connection

---
 route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/route.go b/route.go
index 7bcdbf1..5e3be29 100644
--- a/route.go
+++ b/route.go
@@ -53,7 +53,7 @@ func (route Route) mapURL(proxy *Proxy) (*URL, string, bool) {
 	}
 
 	resource := Runner.Resources[route.Resource]
-	if resource == nil {
+	if len(resource) == 0 {
 		return nil, "", false
 	}
 	//if a policy exists, we match resources with a label. TODO: this should be an interface
-- 
2.43.0


From 3f8d11ef6ec6df6a4c33775dab37dd1aeff84d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:35 +0000
Subject: [PATCH 19/30] fix: time out jwks requests so an unresponsive endpoint
 cannot stop key rotation for good

---
 jwt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index 419fe7a..971fbe2 100644
--- a/jwt.go
+++ b/jwt.go
@@ -12,6 +12,7 @@ import (
 	"github.com/lestrrat-go/jwx/jwk"
 	"github.com/rs/zerolog/log"
 	"golang.org/x/sync/semaphore"
+	"net/http"
 	"strconv"
 	"time"
 )
@@ -173,7 +174,8 @@ func (jwt *Jwt) LoadJwks() error {
 	//acquires the lock with true else skips
 	if jwt.lock.TryAcquire(1) {
 		var keyset *jwk.Set
-		keyset, err = jwk.Fetch(jwt.JwksUrl)
+		//without a timeout an unresponsive endpoint would hold on to the lock and stop key rotation for good
+		keyset, err = jwk.Fetch(jwt.JwksUrl, jwk.WithHTTPClient(&http.Client{Timeout: jwksRefreshSlowwait}))
 		if err == nil {
 			log.Debug().Msgf("jwt [%s] fetched %d jwk from jwks URL %s", jwt.Name, keyset.Len(), jwt.JwksUrl)
 		} else {
-- 
2.43.0


From f75a6c7cb2c6442f894ae59b3b1965bec445451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:36 +0000
Subject: [PATCH 20/30] fix: key rotation no longer races with requests that
 are being validated

---
 jwt.go   | 20 ++++++++++++++++++--
 proxy.go |  6 +++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/jwt.go b/jwt.go
index 971fbe2..e22eaa6 100644
--- a/jwt.go
+++ b/jwt.go
@@ -14,6 +14,7 @@ import (
 	"golang.org/x/sync/semaphore"
 	"net/http"
 	"strconv"
+	"sync"
 	"time"
 )
 
@@ -59,6 +60,21 @@ type Jwt struct {
 	AcceptableSkewSeconds string
 	lock                  *semaphore.Weighted
 	updateCount           int
+	keyLock               sync.RWMutex
+}
+
+// upsert is safe to use while requests are being validated.
+func (jwt *Jwt) upsert(ks *KeySet, kp KidPair) {
+	jwt.keyLock.Lock()
+	defer jwt.keyLock.Unlock()
+	ks.Upsert(kp)
+}
+
+// snapshot of the key set that does not change while it is used to validate a request.
+func (jwt *Jwt) snapshot(ks *KeySet) KeySet {
+	jwt.keyLock.RLock()
+	defer jwt.keyLock.RUnlock()
+	return append(KeySet{}, *ks...)
 }
 
 var validAlgNoNone = []string{"RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "HS256", "HS384", "HS512", "ES256", "ES384", "ES512"}
@@ -213,7 +229,7 @@ func (jwt *Jwt) LoadJwks() error {
 						}
 						err = key.Raw(k.Key)
 						if err == nil {
-							jwt.RSAPublic.Upsert(k)
+							jwt.upsert(&jwt.RSAPublic, k)
 						}
 					//Note, removed support for HS256, secret keys make no sense for JWKS even over TLS.
 					case jwa.ES256, jwa.ES384, jwa.ES512:
@@ -230,7 +246,7 @@ func (jwt *Jwt) LoadJwks() error {
 							err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
 						}
 						if err == nil {
-							jwt.ECDSAPublic.Upsert(k)
+							jwt.upsert(&jwt.ECDSAPublic, k)
 						}
 					default:
 						err = errors.New(fmt.Sprintf("unknown key type in Jwks %v", alg.String()))
diff --git a/proxy.go b/proxy.go
index ac54390..92855b0 100644
--- a/proxy.go
+++ b/proxy.go
@@ -559,11 +559,11 @@ func (proxy *Proxy) validateJwt() bool {
 
 		switch alg {
 		case jwa.RS256, jwa.RS384, jwa.RS512, jwa.PS256, jwa.PS384, jwa.PS512:
-			parsed, err = proxy.verifySignature(token, routeSec.RSAPublic, alg, ev)
+			parsed, err = proxy.verifySignature(token, routeSec.snapshot(&routeSec.RSAPublic), alg, ev)
 		case jwa.ES256, jwa.ES384, jwa.ES512:
-			parsed, err = proxy.verifySignature(token, routeSec.ECDSAPublic, alg, ev)
+			parsed, err = proxy.verifySignature(token, routeSec.snapshot(&routeSec.ECDSAPublic), alg, ev)
 		case jwa.HS256, jwa.HS384, jwa.HS512:
-			parsed, err = proxy.verifySignature(token, routeSec.Secret, alg, ev)
+			parsed, err = proxy.verifySignature(token, routeSec.snapshot(&routeSec.Secret), alg, ev)
 		case jwa.NoSignature:
 			parsed, err = jwt.Parse(bytes.NewReader([]byte(token)))
 		default:
-- 
2.43.0


From a1a06c06efb942cef4e9d6777f954b5b30f13f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:37 +0000
Subject: [PATCH 21/30] fix: do not send gzip to clients that refuse it with
 q=0

---
 proxy.go     | 24 +++++++++++++++++++++++-
 responses.go | 18 +++++-------------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/proxy.go b/proxy.go
index 92855b0..c023961 100644
--- a/proxy.go
+++ b/proxy.go
@@ -222,7 +222,7 @@ func (proxy *Proxy) parseIncoming(request *http.Request) *Proxy {
 	proxy.Dwn.Req = request
 
 	proxy.Dwn.AbortedFlag = false
-	proxy.Dwn.Resp.SendGzip = strings.Contains(request.Header.Get("Accept-Encoding"), "gzip")
+	proxy.Dwn.Resp.SendGzip = parseAcceptsGzip(request)
 
 	log.Trace().
 		Str("path", proxy.Dwn.Path).
@@ -289,6 +289,28 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 
 }
 
+//gzip is acceptable if listed, unless explicitly refused with a weight of zero, see RFC7231 5.3.4
+func parseAcceptsGzip(request *http.Request) bool {
+	for _, coding := range strings.Split(strings.Join(request.Header["Accept-Encoding"], ","), ",") {
+		params := strings.Split(coding, ";")
+		if !strings.Contains(strings.ToLower(params[0]), "gzip") {
+			continue
+		}
+		accepted := true
+		for _, param := range params[1:] {
+			kv := strings.SplitN(strings.TrimSpace(param), "=", 2)
+			if len(kv) == 2 && strings.EqualFold(kv[0], "q") {
+				q, err := strconv.ParseFloat(kv[1], 64)
+				accepted = err != nil || q > 0
+			}
+		}
+		if accepted {
+			return true
+		}
+	}
+	return false
+}
+
 func parseMethod(request *http.Request) string {
 	return strings.ToUpper(request.Method)
 }
diff --git a/responses.go b/responses.go
index d904d1d..a0d9ece 100644
--- a/responses.go
+++ b/responses.go
@@ -162,21 +162,13 @@ func aboutHandler(w http.ResponseWriter, r *http.Request) {
 	proxy.writeStandardResponseHeaders()
 	proxy.respondWith(200, "ok")
 
-	ae := r.Header["Accept-Encoding"]
 	res := AboutResponse{}.AsJSON()
 	w.Header().Set("Content-Type", "application/json")
-	if len(ae) > 0 {
-		s := strings.Join(ae, " ")
-		if strings.Contains(s, "gzip") {
-			w.Header().Set("Content-Encoding", "gzip")
-			res = *Gzip(res)
-			w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
-			w.Write(res)
-		} else {
-			w.Header().Set("Content-Encoding", "identity")
-			w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
-			w.Write(res)
-		}
+	if parseAcceptsGzip(r) {
+		w.Header().Set("Content-Encoding", "gzip")
+		res = *Gzip(res)
+		w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
+		w.Write(res)
 	} else {
 		w.Header().Set("Content-Encoding", "identity")
 		w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
-- 
2.43.0


From 2ad00a431c6b1d18081e0de49849a1885e911b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:40 +0000
Subject: [PATCH 22/30] fix: pass on upstream redirects whose Location cannot
 be parsed instead of responding 502

---
 httpclient.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/httpclient.go b/httpclient.go
index 5c94500..7830e1b 100644
--- a/httpclient.go
+++ b/httpclient.go
@@ -16,6 +16,16 @@ type HTTPClient interface {
 	Get(uri string) (*http.Response, error)
 }
 
+//upstreamClient makes one round trip per request. http.Client fails for redirects if it cannot parse their Location
+//before it asks CheckRedirect, yet these need to be passed on like any other.
+type upstreamClient struct {
+	*http.Client
+}
+
+func (client upstreamClient) Do(req *http.Request) (*http.Response, error) {
+	return client.Transport.RoundTrip(req)
+}
+
 // scaffoldHTTPClient is a factory method that applies connection params to the transport layer of http.Client
 func scaffoldHTTPClient(runtime Runtime) HTTPClient {
 	idleConnTimeoutDuration := time.Duration(runtime.Connection.Upstream.IdleTimeoutSeconds) * time.Second
@@ -24,7 +34,7 @@ func scaffoldHTTPClient(runtime Runtime) HTTPClient {
 	readTimeoutDuration := time.Duration(runtime.Connection.Upstream.ReadTimeoutSeconds) * time.Second
 	tlsInsecureSkipVerify := runtime.Connection.Upstream.TlsInsecureSkipVerify
 
-	httpClient = &http.Client{
+	httpClient = upstreamClient{&http.Client{
 		Transport: &http.Transport{
 			DialContext: (&net.Dialer{
 				Timeout:   socketTimeoutDuration,
@@ -43,7 +53,7 @@ func scaffoldHTTPClient(runtime Runtime) HTTPClient {
 		CheckRedirect: func(req *http.Request, via []*http.Request) error {
 			return http.ErrUseLastResponse
 		},
-	}
+	}}
 
 	log.Debug().
 		Int("upMaxIdleConns", runtime.Connection.Upstream.PoolSize).
-- 
2.43.0


From 1de17e638515f9b07a8fa191fe277aa7788b232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:07 +0000
Subject: [PATCH 23/30] fix: apply acceptable skews of 20 days and more to jwt
 iat and nbf claims

---
 proxy.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proxy.go b/proxy.go
index c023961..9be29dd 100644
--- a/proxy.go
+++ b/proxy.go
@@ -709,13 +709,13 @@ func verifyDateClaims(token string, skew int) error {
 	//so i need to parse it again.
 	skewed, _ := jwt.Parse(bytes.NewReader([]byte(token)))
 
-	if skewed.IssuedAt().Unix() > int64(skew*1000) {
+	if !skewed.IssuedAt().IsZero() {
 		skewed.Set("iat", skewed.IssuedAt().Add(-time.Second*time.Duration(skew)))
 	}
-	if skewed.NotBefore().Unix() > int64(skew*1000) {
+	if !skewed.NotBefore().IsZero() {
 		skewed.Set("nbf", skewed.NotBefore().Add(-time.Second*time.Duration(skew)))
 	}
-	if skewed.Expiration().Unix() > 1 {
+	if !skewed.Expiration().IsZero() {
 		skewed.Set("exp", skewed.Expiration().Add(time.Second*time.Duration(skew)))
 	}
 	return jwt.Verify(skewed)
-- 
2.43.0


From 1564bd3f6541230f8f0177d352e1de7a1e8aef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:07 +0000
Subject: [PATCH 24/30] fix: do not replace a default policy that is configured

---
 config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 4ac0c52..fa8ee47 100644
--- a/config.go
+++ b/config.go
@@ -176,7 +176,9 @@ func (config Config) addDefaultPolicy() *Config {
 	if config.Policies == nil {
 		config.Policies = make(map[string]Policy)
 	}
-	config.Policies["default"] = *defaultPolicy
+	if _, ok := config.Policies["default"]; !ok {
+		config.Policies["default"] = *defaultPolicy
+	}
 	return &config
 }
 
-- 
2.43.0


From 80547b05862609e5600dc8554d7711d6303422c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:07 +0000
Subject: [PATCH 25/30] fix: TLS health check names the link that expires first
 if it is a CA

---
 tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index eaaafb8..badb6e7 100644
--- a/tls.go
+++ b/tls.go
@@ -162,7 +162,7 @@ func logCertStats(tlsLinks []TlsLink) {
 				formatSerial(link.cert.SerialNumber),
 				link.cert.Subject.CommonName,
 				link.cert.Issuer.CommonName,
-				link.remainingValidity.AsString(),
+				link.printRemainingValidity(),
 			))
 		}
 	}
-- 
2.43.0


From c1ef4b9dde36428fc0ebd44fc6a1b54b0cd3dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:45 +0000
Subject: [PATCH 26/30] fix: slow down the first jwks update of a jwt that also
 has a static key

---
 jwt.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jwt.go b/jwt.go
index e22eaa6..5f1cf9d 100644
--- a/jwt.go
+++ b/jwt.go
@@ -258,8 +258,9 @@ func (jwt *Jwt) LoadJwks() error {
 			}
 		}
 
-		//slow down JWKS updates to once every 10 seconds per route to prevent DOS attacks
-		if jwt.updateCount > 0 {
+		//slow down JWKS updates to once every 10 seconds per route to prevent DOS attacks.
+		//with a static key there was no load at startup, so the first one is an update too
+		if jwt.updateCount > 0 || len(jwt.Key) > 0 {
 			time.Sleep(jwksRefreshSlowwait)
 		}
 		jwt.updateCount++
-- 
2.43.0


From 601febc52014b92d8de7f6e692a98b1a8663b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:37 +0000
Subject: [PATCH 27/30] fix: report jwt certificates that do not parse as
 config error instead of nil pointer dereference

---
 jwt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jwt.go b/jwt.go
index 5f1cf9d..a99942f 100644
--- a/jwt.go
+++ b/jwt.go
@@ -310,6 +310,9 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 		case "CERTIFICATE":
 			var cert interface{}
 			cert, err = x509.ParseCertificate(p.Bytes)
+			if err != nil {
+				return errors.New(fmt.Sprintf(pemAsn1Bad, jwt.Name))
+			}
 			switch cert.(type) {
 			case *x509.Certificate:
 				key := cert.(*x509.Certificate).PublicKey
@@ -372,6 +375,9 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 		case "CERTIFICATE":
 			var cert interface{}
 			cert, err = x509.ParseCertificate(p.Bytes)
+			if err != nil {
+				return errors.New(fmt.Sprintf(pemAsn1Bad, jwt.Name))
+			}
 			switch cert.(type) {
 			case *x509.Certificate:
 				key := cert.(*x509.Certificate).PublicKey
-- 
2.43.0


From 0117275caf95e36360bfcb12e7bcbe994902a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:19 +0000
Subject: [PATCH 28/30] fix: report jwt public keys that do not parse as config
 error instead of nil pointer dereference

---
 jwt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jwt.go b/jwt.go
index a99942f..23cc7e9 100644
--- a/jwt.go
+++ b/jwt.go
@@ -297,6 +297,9 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 		case "PUBLIC KEY", "RSA PUBLIC KEY":
 			var pub interface{}
 			pub, err = x509.ParsePKIXPublicKey(p.Bytes)
+			if err != nil {
+				return errors.New(fmt.Sprintf(pemAsn1Bad, jwt.Name))
+			}
 			switch pub.(type) {
 			case *rsa.PublicKey:
 				jwt.RSAPublic.Upsert(
@@ -358,6 +361,9 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 		case "PUBLIC KEY":
 			var pub interface{}
 			pub, err = x509.ParsePKIXPublicKey(p.Bytes)
+			if err != nil {
+				return errors.New(fmt.Sprintf(pemAsn1Bad, jwt.Name))
+			}
 			switch pub.(type) {
 			case *ecdsa.PublicKey:
 				parsed := pub.(*ecdsa.PublicKey)
-- 
2.43.0


From a829ab50eec0eacea2b7ac6cb8b297a9b0dcb281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:44 +0000
Subject: [PATCH 29/30] fix: treat upstream status codes below 100 as failed
 attempts instead of panicking in WriteHeader

---
 proxyhandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxyhandler.go b/proxyhandler.go
index 176b087..ac7e2cf 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -282,6 +282,7 @@ func shouldProxyUpstreamResponse(proxy *Proxy, bodyError error) bool {
 	return !proxy.hasDownstreamAborted() &&
 		!proxy.hasUpstreamAttemptAborted() &&
 		bodyError == nil &&
+		proxy.Up.Atmpt.resp.StatusCode >= 100 &&
 		proxy.Up.Atmpt.resp.StatusCode < 500
 }
 
-- 
2.43.0


From 0e51e3e6a7bda4689410cd50b8870951df51606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:48 +0000
Subject: [PATCH 30/30] fix: only the content codings gzip and x-gzip in
 Accept-Encoding mean that gzip is acceptable

---
 proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index 9be29dd..ed39c59 100644
--- a/proxy.go
+++ b/proxy.go
@@ -293,7 +293,7 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 func parseAcceptsGzip(request *http.Request) bool {
 	for _, coding := range strings.Split(strings.Join(request.Header["Accept-Encoding"], ","), ",") {
 		params := strings.Split(coding, ";")
-		if !strings.Contains(strings.ToLower(params[0]), "gzip") {
+		if name := strings.ToLower(strings.TrimSpace(params[0])); name != "gzip" && name != "x-gzip" {
 			continue
 		}
 		accepted := true
-- 
2.43.0

