func (Config).setDefaultDownstreamParams
params c
anchor C14 C22
modular[C01,C14,C21]
ensures[C14] read timeout default: result.Connection.Downstream.ReadTimeoutSeconds == ite(c.Connection.Downstream.ReadTimeoutSeconds == 0, 120, c.Connection.Downstream.ReadTimeoutSeconds)
ensures[C14] round trip timeout default: result.Connection.Downstream.RoundTripTimeoutSeconds == ite(c.Connection.Downstream.RoundTripTimeoutSeconds == 0, 240, c.Connection.Downstream.RoundTripTimeoutSeconds)
ensures[C14] idle timeout default: result.Connection.Downstream.IdleTimeoutSeconds == ite(c.Connection.Downstream.IdleTimeoutSeconds == 0, 120, c.Connection.Downstream.IdleTimeoutSeconds)
ensures[C14] body limit default: result.Connection.Downstream.MaxBodyBytes == ite(c.Connection.Downstream.MaxBodyBytes == 0, 2097152, c.Connection.Downstream.MaxBodyBytes)
ensures[C14] mode default: implies(c.Connection.Downstream.Mode == "", result.Connection.Downstream.Mode == "HTTP")
ensures[C14] mode kept up to case: implies(c.Connection.Downstream.Mode != "", upper(result.Connection.Downstream.Mode) == upper(c.Connection.Downstream.Mode))
ensures[C14] port default: result.Connection.Downstream.Port == ite(c.Connection.Downstream.Port != 0, c.Connection.Downstream.Port, ite(upper(c.Connection.Downstream.Mode) == "TLS", 443, 8080))
ensures[C14] certificate and key kept: result.Connection.Downstream.Cert == c.Connection.Downstream.Cert && result.Connection.Downstream.Key == c.Connection.Downstream.Key
ensures[C14] upstream parameters kept: result.Connection.Upstream == c.Connection.Upstream
ensures[C01,C14,C21] other configuration kept: result.Routes == c.Routes && result.Policies == c.Policies && result.Jwt == c.Jwt && result.Resources == c.Resources
preserves[C01,C14,C21] F:Route.* F:Policy.* F:LabelWeight.* F:Jwt.* F:ResourceMapping.* F:URL.* F:Runtime.* M:* F:Config.* F:Connection.* F:Downstream.* F:Upstream.*

func (Config).setDefaultUpstreamParams
params c
anchor C14 C22
modular[C01,C14,C21]
ensures[C14] socket timeout default: result.Connection.Upstream.SocketTimeoutSeconds == ite(c.Connection.Upstream.SocketTimeoutSeconds == 0, 3, c.Connection.Upstream.SocketTimeoutSeconds)
ensures[C14] read timeout default: result.Connection.Upstream.ReadTimeoutSeconds == ite(c.Connection.Upstream.ReadTimeoutSeconds == 0, 120, c.Connection.Upstream.ReadTimeoutSeconds)
ensures[C14] idle timeout default: result.Connection.Upstream.IdleTimeoutSeconds == ite(c.Connection.Upstream.IdleTimeoutSeconds == 0, 120, c.Connection.Upstream.IdleTimeoutSeconds)
ensures[C14] pool size default: result.Connection.Upstream.PoolSize == ite(c.Connection.Upstream.PoolSize == 0, 32768, c.Connection.Upstream.PoolSize)
ensures[C14] attempts default: result.Connection.Upstream.MaxAttempts == ite(c.Connection.Upstream.MaxAttempts == 0, 1, c.Connection.Upstream.MaxAttempts)
ensures[C14] certificate check option kept: result.Connection.Upstream.TlsInsecureSkipVerify == c.Connection.Upstream.TlsInsecureSkipVerify
ensures[C14] downstream parameters kept: result.Connection.Downstream == c.Connection.Downstream
ensures[C01,C14,C21] other configuration kept: result.Routes == c.Routes && result.Policies == c.Policies && result.Jwt == c.Jwt && result.Resources == c.Resources
preserves[C01,C14,C21] F:Route.* F:Policy.* F:LabelWeight.* F:Jwt.* F:ResourceMapping.* F:URL.* F:Runtime.* M:* F:Config.* F:Connection.* F:Downstream.* F:Upstream.*

func (Config).isTLSMode
params c
anchor C14 C15 C22
ensures[C14,C15] TLS mode regardless of letter case: result == (upper(c.Connection.Downstream.Mode) == "TLS")

func (Config).reApplyResourceSchemes
params c
anchor C14 C22
modular[C01,C14,C21]
preserves[C01,C14,C21] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Runtime.* F:Route.* F:Jwt.* F:LabelWeight.* M:*
requires resources do not share storage: all(k1, string, all(k2, string, implies(k1 != k2 && has(c.Resources, k1) && has(c.Resources, k2) && arr(c.Resources[k1]) != nil, arr(c.Resources[k1]) != arr(c.Resources[k2]))))
ensures[C14] schemes normalised: all(k, string, implies(has(c.Resources, k), forall(i, 0, len(c.Resources[k]), c.Resources[k][i].URL.Scheme == normScheme(old(c.Resources[k][i].URL.Scheme)))))
ensures[C14] hosts and ports kept: all(k, string, implies(has(c.Resources, k), forall(i, 0, len(c.Resources[k]), c.Resources[k][i].URL.Host == old(c.Resources[k][i].URL.Host) && c.Resources[k][i].URL.Port == old(c.Resources[k][i].URL.Port))))
ensures[C14] resource names and labels kept: all(k, string, implies(has(c.Resources, k), forall(i, 0, len(c.Resources[k]), c.Resources[k][i].Name == old(c.Resources[k][i].Name) && c.Resources[k][i].Labels == old(c.Resources[k][i].Labels))))
ensures[C14] resource tables kept: all(k, string, has(c.Resources, k) == old(has(c.Resources, k)) && c.Resources[k] == old(c.Resources[k]))
ensures[C01,C14,C21] other configuration kept: result.Connection == c.Connection && result.Routes == c.Routes && result.Policies == c.Policies && result.Jwt == c.Jwt && result.Resources == c.Resources

define normScheme(s) = ite(s == "", "http", ite(contains(s, "https"), "https", ite(contains(s, "http"), "http", s)))

func (Config).reApplyResourceNames
params c
anchor C14 C22
modular[C01,C14,C21]
preserves[C01,C14,C21] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Runtime.* F:Route.* F:Jwt.* F:LabelWeight.* M:*
requires resources do not share storage: all(k1, string, all(k2, string, implies(k1 != k2 && has(c.Resources, k1) && has(c.Resources, k2) && arr(c.Resources[k1]) != nil, arr(c.Resources[k1]) != arr(c.Resources[k2]))))
ensures[C14] every entry carries its resource's name: all(k, string, implies(has(c.Resources, k), forall(i, 0, len(c.Resources[k]), c.Resources[k][i].Name == k)))
ensures[C14] URLs and labels kept: all(k, string, implies(has(c.Resources, k), forall(i, 0, len(c.Resources[k]), c.Resources[k][i].URL == old(c.Resources[k][i].URL) && c.Resources[k][i].Labels == old(c.Resources[k][i].Labels))))
ensures[C14] resource tables kept: all(k, string, has(c.Resources, k) == old(has(c.Resources, k)) && c.Resources[k] == old(c.Resources[k]))
ensures[C01,C14,C21] other configuration kept: result.Connection == c.Connection && result.Routes == c.Routes && result.Policies == c.Policies && result.Jwt == c.Jwt && result.Resources == c.Resources

func (Config).addDefaultPolicy
params c
anchor C14 C22
modular[C01,C14,C21]
preserves[C01,C14,C21] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Runtime.* F:Route.* F:Jwt.* F:ResourceMapping.* F:URL.* M:map[string]*Jwt* M:map[string][]*
ensures[C14] default policy: has(result.Policies, "default") && len(result.Policies["default"]) == 1 && result.Policies["default"][0].Label == "default" && result.Policies["default"][0].Weight == 1
ensures[C14] other policies kept: all(k, string, implies(k != "default", has(result.Policies, k) == old(has(c.Policies, k)) && result.Policies[k] == old(c.Policies[k])))
ensures[C01,C14,C21] other configuration kept: result.Connection == c.Connection && result.Routes == c.Routes && result.Jwt == c.Jwt && result.Resources == c.Resources

func (Config).getDownstreamRoundTripTimeoutDuration
params c
anchor C16 C22
ensures[C16] round trip timeout in seconds: implies(c.Connection.Downstream.RoundTripTimeoutSeconds >= 0 && c.Connection.Downstream.RoundTripTimeoutSeconds <= 9000000000, result == c.Connection.Downstream.RoundTripTimeoutSeconds * 1000000000)
