func (*KeySet).Upsert
params ks kp
anchor C06 C22
requires ks != nil
ensures[C06] other ids keep their key, in place: forall(i, 0, len(old(*ks)), (*ks)[i].Kid == old((*ks)[i].Kid) && implies((*ks)[i].Kid != kp.Kid, (*ks)[i].Key == old((*ks)[i].Key)))
ensures[C06] every entry of the id holds the new key: forall(i, 0, len(*ks), implies((*ks)[i].Kid == kp.Kid, (*ks)[i].Key == kp.Key))
ensures[C06] the id is present afterwards: exists(i, 0, len(*ks), (*ks)[i].Kid == kp.Kid)
ensures[C06] a known id adds no entry: implies(exists(i, 0, len(old(*ks)), old((*ks)[i].Kid) == kp.Kid), len(*ks) == len(old(*ks)))
ensures[C06] an entry added is the new one: implies(len(*ks) > len(old(*ks)), (*ks)[len(old(*ks))].Kid == kp.Kid)
ensures[C06] at most one entry is added: len(*ks) == len(old(*ks)) || len(*ks) == len(old(*ks)) + 1

func (*KeySet).Find
params ks kid
anchor C06 C22
requires ks != nil
ensures[C06] found key belongs to the id: implies(exists(i, 0, len(*ks), (*ks)[i].Kid == kid), exists(i, 0, len(*ks), (*ks)[i].Kid == kid && result == (*ks)[i].Key))
ensures[C06] unknown id finds nothing: implies(!exists(i, 0, len(*ks), (*ks)[i].Kid == kid), result == nil)


define rsaAlg(a) = in(a, "RS256", "RS384", "RS512", "PS256", "PS384", "PS512")
define ecAlg(a) = in(a, "ES256", "ES384", "ES512")
define hsAlg(a) = in(a, "HS256", "HS384", "HS512")
define bits(k) = as(uf("curveparams", addr, unbox(k, "*crypto/ecdsa.PublicKey").Curve), "crypto/elliptic.CurveParams").BitSize
define curveFits(k, a) = (a != "ES256" || bits(k) == 256) && (a != "ES384" || bits(k) == 384) && (a != "ES512" || bits(k) == 521)
define fromSet(kp, p, a) = uf("jwkalg", string, ghost("W:raw", p)) == a && uf("jwkid", string, ghost("W:raw", p)) == kp.Kid
define rsaOK(j) = forall(i, 0, len(j.RSAPublic), i < len(old(j.RSAPublic)) && j.RSAPublic[i].Key == old(j.RSAPublic[i].Key) || typeis(j.RSAPublic[i].Key, "*crypto/rsa.PublicKey") && rsaAlg(j.Alg) && fromSet(j.RSAPublic[i], unbox(j.RSAPublic[i].Key, "*crypto/rsa.PublicKey"), j.Alg))
define ecOK(j) = forall(i, 0, len(j.ECDSAPublic), i < len(old(j.ECDSAPublic)) && j.ECDSAPublic[i].Key == old(j.ECDSAPublic[i].Key) || typeis(j.ECDSAPublic[i].Key, "*crypto/ecdsa.PublicKey") && ecAlg(j.Alg) && fromSet(j.ECDSAPublic[i], unbox(j.ECDSAPublic[i].Key, "*crypto/ecdsa.PublicKey"), j.Alg) && curveFits(j.ECDSAPublic[i].Key, j.Alg))
define rsaKept(j) = len(j.RSAPublic) >= len(old(j.RSAPublic)) && forall(i, 0, len(old(j.RSAPublic)), j.RSAPublic[i].Kid == old(j.RSAPublic[i].Kid))
define ecKept(j) = len(j.ECDSAPublic) >= len(old(j.ECDSAPublic)) && forall(i, 0, len(old(j.ECDSAPublic)), j.ECDSAPublic[i].Kid == old(j.ECDSAPublic[i].Kid))
define apart(j) = arr(j.RSAPublic) != arr(j.ECDSAPublic) && arr(j.RSAPublic) != arr(j.Secret) && arr(j.ECDSAPublic) != arr(j.Secret)

define othersKept(jwt) = all(o, "*Jwt", o == jwt || o.RSAPublic == old(o.RSAPublic) && o.ECDSAPublic == old(o.ECDSAPublic) && o.Secret == old(o.Secret) && o.AcceptableSkewSeconds == old(o.AcceptableSkewSeconds))

func (*Jwt).checkECDSABitSize
params jwt alg parsed
anchor C06 C22
modular
requires a key: jwt != nil && parsed != nil && parsed.Curve != nil
ensures[C06,C21] no error means the curve fits: implies(result == nil, (alg != "ES256" || as(uf("curveparams", addr, parsed.Curve), "crypto/elliptic.CurveParams").BitSize == 256) && (alg != "ES384" || as(uf("curveparams", addr, parsed.Curve), "crypto/elliptic.CurveParams").BitSize == 384) && (alg != "ES512" || as(uf("curveparams", addr, parsed.Curve), "crypto/elliptic.CurveParams").BitSize == 521))

func (*Jwt).LoadJwks
params jwt
anchor C06 C20 C22
modular
requires jwt != nil && jwt.lock != nil
requires key lists do not share storage: apart(jwt)
preserves[C05,C20,C21] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Route.* F:LabelWeight.* F:ResourceMapping.* F:URL.* F:Runtime.* F:Jwt.Name F:Jwt.Alg F:Jwt.Key F:Jwt.JwksUrl F:Jwt.Secret.* F:Jwt.AcceptableSkewSeconds M:*
ensures[C06] RSA keys are those held or fetched ones of this algorithm: rsaOK(jwt)
ensures[C06] RSA keys held keep their id: rsaKept(jwt)
ensures[C06] ECDSA keys are those held or fetched ones of this algorithm: ecOK(jwt)
ensures[C06] ECDSA keys held keep their id: ecKept(jwt)
invariant[C06] rsaOK(jwt)
invariant[C06] rsaKept(jwt)
invariant[C06] ecOK(jwt)
invariant[C06] ecKept(jwt)
ensures[C21,C22] no other JWT configuration changes: othersKept(jwt)
invariant[C06] apart(jwt)
invariant[C21,C22] othersKept(jwt)

define heldRSA(j) = exists(i, 0, len(j.RSAPublic), typeis(j.RSAPublic[i].Key, "*crypto/rsa.PublicKey"))
define heldEC(j, a) = exists(i, 0, len(j.ECDSAPublic), typeis(j.ECDSAPublic[i].Key, "*crypto/ecdsa.PublicKey") && curveFits(j.ECDSAPublic[i].Key, a))
define heldSecret(j) = exists(i, 0, len(j.Secret), typeis(j.Secret[i].Key, "[]byte") && bytes(unbox(j.Secret[i].Key, "[]byte")) == j.Key)

func (*Jwt).parseKey
params jwt alg
anchor C06 C21 C22
modular
requires a key to parse: jwt != nil && jwt.Key != ""
requires key lists do not share storage: apart(jwt)
preserves F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Route.* F:LabelWeight.* F:ResourceMapping.* F:URL.* F:Runtime.* F:Jwt.Name F:Jwt.Alg F:Jwt.Key F:Jwt.JwksUrl F:Jwt.AcceptableSkewSeconds F:Jwt.lock M:*
ensures[C06] key lists do not share storage: apart(jwt)
ensures[C06,C21] a key of an RSA algorithm is held: implies(result == nil && rsaAlg(alg), heldRSA(jwt))
ensures[C06,C21] a key of an ECDSA algorithm is held and fits: implies(result == nil && ecAlg(alg), heldEC(jwt, alg))
ensures[C06,C21] a shared secret is held: implies(result == nil && hsAlg(alg), heldSecret(jwt))
ensures[C21,C22] no other JWT configuration changes: othersKept(jwt)
ensures[C21] no other algorithm takes a key: implies(result == nil, rsaAlg(alg) || ecAlg(alg) || hsAlg(alg))

define goodSkew(s) = uf("atoiok", bool, s) && uf("atoi", int, s) >= 0
define validJwt(j) = j.Name != "" && (j.Alg == "none" || rsaAlg(j.Alg) || ecAlg(j.Alg) || hsAlg(j.Alg)) && (j.Alg != "none" || j.Key == "") && (j.Alg == "none" || j.Key != "" || j.JwksUrl != "") && goodSkew(j.AcceptableSkewSeconds)

func (*Jwt).Validate
params jwt
anchor C05 C06 C21 C22
modular
requires jwt != nil && jwt.lock != nil
requires key lists do not share storage: apart(jwt)
preserves F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Route.* F:LabelWeight.* F:ResourceMapping.* F:URL.* F:Runtime.* F:Jwt.Name F:Jwt.Alg F:Jwt.Key F:Jwt.JwksUrl F:Jwt.lock M:*
ensures[C21,C22] no other JWT configuration changes: othersKept(jwt)
ensures[C21] it has a name: implies(result == nil, jwt.Name != "")
ensures[C21] it has a known algorithm: implies(result == nil, jwt.Alg == "none" || rsaAlg(jwt.Alg) || ecAlg(jwt.Alg) || hsAlg(jwt.Alg))
ensures[C21] none takes no key: implies(result == nil && jwt.Alg == "none", jwt.Key == "")
ensures[C21] any other algorithm has a key or a key set address: implies(result == nil && jwt.Alg != "none", jwt.Key != "" || jwt.JwksUrl != "")
ensures[C05,C21] the acceptable skew is a number of seconds: implies(result == nil, goodSkew(jwt.AcceptableSkewSeconds))
ensures[C05] two minutes unless configured: implies(result == nil, jwt.AcceptableSkewSeconds == ite(old(jwt.AcceptableSkewSeconds) == "", "120", old(jwt.AcceptableSkewSeconds)))
ensures[C06,C21] a configured RSA key is held: implies(result == nil && jwt.Key != "" && rsaAlg(jwt.Alg), heldRSA(jwt))
ensures[C06,C21] a configured ECDSA key is held and fits: implies(result == nil && jwt.Key != "" && ecAlg(jwt.Alg), heldEC(jwt, jwt.Alg))
ensures[C06,C21] a configured secret is held: implies(result == nil && jwt.Key != "" && hsAlg(jwt.Alg), heldSecret(jwt))
