// Admission by bearer token.

define verifies(token, alg, key) = uf("jwsver", bool, token, alg, key)

func (*Proxy).verifySignature
params proxy token keySet alg ev
results parsed err
anchor C05 C22 C20
modular
requires proxy != nil && proxy.Route != nil && Runner != nil && ev != nil
requires the route has a configuration: has(Runner.Config.Jwt, proxy.Route.Jwt) && Runner.Config.Jwt[proxy.Route.Jwt] != nil
preserves[C20] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Route.* F:LabelWeight.* F:ResourceMapping.* F:URL.* F:Runtime.* F:Jwt.Name F:Jwt.Alg F:Jwt.Key F:Jwt.JwksUrl F:Jwt.Secret.* F:Jwt.AcceptableSkewSeconds M:*
ensures a token was parsed: implies(parsed != nil && err == nil, uf("jwtok", bool, token))
ensures[C05] admitted means a key of the set verifies it: implies(parsed != nil && err == nil, exists(i, 0, len(keySet), verifies(token, alg, keySet[i].Key)))

define instant(t) = t - t % 1000000000
define given(t) = t / 1000000000 - 62135596800 > 1
define later(t, skew) = ite(given(t), t + skew * 1000000000, t)
define earlier(t, skew) = ite(given(t), t - skew * 1000000000, t)
define datesValid(token, skew, now) = (uf("exp", int, token) == 0 || instant(now) < instant(later(uf("exp", int, token), skew))) &&
  (uf("iat", int, token) == 0 || instant(now) >= instant(earlier(uf("iat", int, token), skew))) &&
  (uf("nbf", int, token) == 0 || instant(now) > instant(earlier(uf("nbf", int, token), skew)))

define verified = ghost("W:ver.now")

func verifyDateClaims
params token skew
anchor C05 C22
modular
requires the token was parsed before: uf("jwtok", bool, token)
ensures[C05] valid now allowing for the skew: implies(result == nil && skew >= 0 && skew <= 9000000000, datesValid(token, skew, verified))
ensures at that time: old(ghost("W:now")) <= verified && verified <= ghost("W:now")

define authorization(proxy) = let(a, hdr(proxy.Dwn.Req.Header, "Authorization"), ite(len(a) > 0, a[0], ""))
define words(s) = uf("split", list, s, " ")
define settings(proxy) = Runner.Config.Jwt[proxy.Route.Jwt]
define skewOf(j) = uf("atoi", int, j.AcceptableSkewSeconds)
define someKey(token, j, keys) = exists(i, 0, len(keys), verifies(token, j.Alg, keys[i].Key))

func (*Proxy).validateJwt
params proxy
anchor C05 C22 C20
modular
records bool
requires proxy != nil && proxy.Route != nil && Runner != nil && proxy.Dwn.Req != nil
requires the route has a configuration: has(Runner.Config.Jwt, proxy.Route.Jwt) && settings(proxy) != nil
requires a valid one: in(settings(proxy).Alg, "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "HS256", "HS384", "HS512", "ES256", "ES384", "ES512", "none")
preserves[C20] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Route.* F:LabelWeight.* F:ResourceMapping.* F:URL.* F:Runtime.* F:Jwt.Name F:Jwt.Alg F:Jwt.Key F:Jwt.JwksUrl F:Jwt.Secret.* F:Jwt.AcceptableSkewSeconds M:*
ensures[C05] admitted means a bearer token: implies(result, len(words(authorization(proxy))) > 1 && uf("jwtok", bool, words(authorization(proxy))[1]))
ensures[C05] verified by an RSA key: implies(result && in(settings(proxy).Alg, "RS256", "RS384", "RS512", "PS256", "PS384", "PS512"), someKey(words(authorization(proxy))[1], settings(proxy), old(settings(proxy).RSAPublic)))
ensures[C05] verified by an ECDSA key: implies(result && in(settings(proxy).Alg, "ES256", "ES384", "ES512"), someKey(words(authorization(proxy))[1], settings(proxy), old(settings(proxy).ECDSAPublic)))
ensures[C05] verified by a secret: implies(result && in(settings(proxy).Alg, "HS256", "HS384", "HS512"), someKey(words(authorization(proxy))[1], settings(proxy), old(settings(proxy).Secret)))
ensures[C05] valid at that time: implies(result && uf("atoiok", bool, settings(proxy).AcceptableSkewSeconds) && skewOf(settings(proxy)) >= 0 && skewOf(settings(proxy)) <= 9000000000, old(ghost("W:now")) <= verified && verified <= ghost("W:now") && datesValid(words(authorization(proxy))[1], skewOf(settings(proxy)), verified))
