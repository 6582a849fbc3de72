// The listener and the upstream client.

define tlsMode(c) = upper(c.Connection.Downstream.Mode) == "TLS"
define seconds(n) = n * 1000000000

func (Runtime).tlsConfig
params r
anchor C15 C22
ensures[C15] TLS 1.2 or later: result != nil && result.MinVersion >= 771
ensures[C15] no upper limit below: result.MaxVersion == 0 || result.MaxVersion >= result.MinVersion
ensures[C15] forward secret AEAD suites only: len(result.CipherSuites) > 0 && forall(i, 0, len(result.CipherSuites), in(result.CipherSuites[i], 4865, 4866, 4867, 49199, 49200, 49195, 49196, 52392, 52393))
ensures[C15] the configured certificate: len(result.Certificates) == 1 && len(result.Certificates[0].Certificate) > 0 && uf("kpok", bool, r.Connection.Downstream.Cert, r.Connection.Downstream.Key)
ensures[C15] and no other: result.GetCertificate == nil && result.GetConfigForClient == nil && !result.InsecureSkipVerify

define goodTLS(c) = c != nil && c.MinVersion >= 771 && (c.MaxVersion == 0 || c.MaxVersion >= c.MinVersion) && len(c.CipherSuites) > 0 && forall(i, 0, len(c.CipherSuites), in(c.CipherSuites[i], 4865, 4866, 4867, 49199, 49200, 49195, 49196, 52392, 52393)) && len(c.Certificates) == 1 && c.GetCertificate == nil && c.GetConfigForClient == nil
define srv = as(ghost("W:listen.srv"), "net/http.Server")
define listened = ghost("W:listen") > old(ghost("W:listen"))

func (Runtime).startListening
params r
anchor C15 C16 C22
modular[C01,C14,C21]
requires[C21] some route: len(r.Routes) > 0
requires[C21] every JWT configuration is valid: all(k, string, implies(has(r.Jwt, k), r.Jwt[k] != nil && validJwt(r.Jwt[k])))
requires[C21] routes refer to known JWT configurations: forall(i, 0, len(r.Routes), r.Routes[i].Jwt == "" || has(r.Jwt, r.Routes[i].Jwt))
requires[C21] route paths are valid patterns: forall(i, 0, len(r.Routes), uf("reok", bool, "^" + r.Routes[i].Path))
requires[C21] transforms start with a slash: forall(i, 0, len(r.Routes), r.Routes[i].Transform == "" || hasPrefix(r.Routes[i].Transform, "/"))
requires[C01] longest path first: forall(i, 0, len(r.Routes), forall(j, 0, i, len(r.Routes[j].Path) >= len(r.Routes[i].Path)))
requires[C01] paths start with a slash and match from the start: forall(i, 0, len(r.Routes), hasPrefix(r.Routes[i].Path, "/") && r.Routes[i].PathRegex == uf("re", addr, "^" + r.Routes[i].Path))
requires[C14] limits have values: r.Connection.Downstream.ReadTimeoutSeconds != 0 && r.Connection.Downstream.RoundTripTimeoutSeconds != 0 && r.Connection.Downstream.IdleTimeoutSeconds != 0 && r.Connection.Downstream.MaxBodyBytes != 0 && r.Connection.Downstream.Port != 0 && r.Connection.Downstream.Mode != "" && r.Connection.Upstream.SocketTimeoutSeconds != 0 && r.Connection.Upstream.ReadTimeoutSeconds != 0 && r.Connection.Upstream.IdleTimeoutSeconds != 0 && r.Connection.Upstream.PoolSize != 0 && r.Connection.Upstream.MaxAttempts != 0
requires[C14] default policy: has(r.Policies, "default") && len(r.Policies["default"]) == 1 && r.Policies["default"][0].Label == "default" && r.Policies["default"][0].Weight == 1
requires[C14] resource entries have a scheme and their name: all(k, string, implies(has(r.Resources, k), forall(i, 0, len(r.Resources[k]), r.Resources[k][i].URL.Scheme != "" && r.Resources[k][i].Name == k)))
exits[C15] in TLS mode only TLS: implies(tlsMode(r) && listened, ghost("W:listen.tls"))
exits[C15] with a safe configuration: implies(tlsMode(r) && listened, goodTLS(srv.TLSConfig))
exits[C15] and a chain that verified: implies(tlsMode(r) && listened, uf("vfok", bool, ghost("W:vf")) && ghost("W:vf") > old(ghost("W:vf")))
exits[C15] the chain it serves: implies(tlsMode(r) && listened, ghost("W:vf.cert") == uf("cert", addr, bytes(srv.TLSConfig.Certificates[0].Certificate[0])))
exits[C15,C16] it listens once: ghost("W:listen") <= old(ghost("W:listen")) + 1
exits[C16] header and body read timeout: implies(listened, srv.ReadTimeout == seconds(r.Connection.Downstream.ReadTimeoutSeconds) && srv.ReadHeaderTimeout == seconds(r.Connection.Downstream.ReadTimeoutSeconds))
exits[C16] idle timeout: implies(listened, srv.IdleTimeout == seconds(r.Connection.Downstream.IdleTimeoutSeconds))
exits[C16] write timeout one second beyond the round trip: implies(listened, srv.WriteTimeout == seconds(r.Connection.Downstream.RoundTripTimeoutSeconds) + 1000000000)

define client = as(httpClient, "net/http.Client")
define transport = as(client.Transport, "net/http.Transport")

func scaffoldHTTPClient
params r
anchor C15 C16 C22
requires Runner != nil
ensures[C15,C16] a standard client: typeis(result, "*net/http.Client") && result == httpClient && typeis(client.Transport, "*net/http.Transport")
ensures[C15] certificates verified unless opted out: transport.TLSClientConfig == nil || transport.TLSClientConfig.InsecureSkipVerify == r.Connection.Upstream.TlsInsecureSkipVerify
ensures[C15] no weaker dialing: transport.DialTLS == nil && transport.DialTLSContext == nil && transport.Proxy == nil
ensures[C15] redirects are returned, never followed: yields(client.CheckRedirect, library("net/http", "ErrUseLastResponse"))
ensures[C16] TLS handshake timeout: transport.TLSHandshakeTimeout == seconds(r.Connection.Upstream.SocketTimeoutSeconds)
ensures[C16] connect timeout: bound(transport.DialContext, "*net.Dialer").Timeout == seconds(r.Connection.Upstream.SocketTimeoutSeconds)
ensures[C16] idle timeout: transport.IdleConnTimeout == seconds(r.Connection.Upstream.IdleTimeoutSeconds)
ensures[C16] pool size: transport.MaxIdleConns == r.Connection.Upstream.PoolSize && transport.MaxIdleConnsPerHost == r.Connection.Upstream.PoolSize && transport.MaxConnsPerHost == 0
ensures[C16] no other limit: client.Timeout == 0 && transport.ResponseHeaderTimeout == 0

func checkCertChain
params chain
results links err
anchor C15 C17 C22
requires len(chain.Certificate) > 0
ensures[C15] no error only for a chain that verified: implies(err == nil, uf("vfok", bool, ghost("W:vf")) && ghost("W:vf") == old(ghost("W:vf")) + 1 && ghost("W:vf.cert") == uf("cert", addr, bytes(chain.Certificate[0])))
ensures[C17] one link per certificate of the verified chain: implies(err == nil, len(links) == uf("vfn", int, ghost("W:vf")) && forall(i, 0, len(links), links[i].cert == uf("vfchain", addr, ghost("W:vf"), i)))
ensures[C17] verified against the self-issued CAs: implies(err == nil && ghost("W:vf.roots") != nil, all(c, "*crypto/x509.Certificate", ghost("W:pool", ghost("W:vf.roots"), c) == exists(i, 0, len(chain.Certificate), uf("certok", bool, bytes(chain.Certificate[i])) && c == uf("cert", addr, bytes(chain.Certificate[i])) && selfIssued(c))))
ensures[C17] through the other CAs: implies(err == nil && ghost("W:vf.inter") != nil, all(c, "*crypto/x509.Certificate", ghost("W:pool", ghost("W:vf.inter"), c) == exists(i, 0, len(chain.Certificate), uf("certok", bool, bytes(chain.Certificate[i])) && c == uf("cert", addr, bytes(chain.Certificate[i])) && c.IsCA && !selfIssued(c))))
ensures[C17] which are used if there are any: implies(err == nil && exists(i, 0, len(chain.Certificate), uf("certok", bool, bytes(chain.Certificate[i])) && selfIssued(as(uf("cert", addr, bytes(chain.Certificate[i])), "crypto/x509.Certificate"))), ghost("W:vf.roots") != nil)
ensures[C17] intermediates too: implies(err == nil && exists(i, 0, len(chain.Certificate), uf("certok", bool, bytes(chain.Certificate[i])) && as(uf("cert", addr, bytes(chain.Certificate[i])), "crypto/x509.Certificate").IsCA && !selfIssued(as(uf("cert", addr, bytes(chain.Certificate[i])), "crypto/x509.Certificate"))), ghost("W:vf.inter") != nil)
