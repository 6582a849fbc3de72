// Reading, validating and starting with a configuration.

define yml(b) = uf("yamljson", string, b)
define file(f) = uf("filecontent", string, f)

define apartOrNone(j) = (arr(j.RSAPublic) == nil || arr(j.RSAPublic) != arr(j.ECDSAPublic) && arr(j.RSAPublic) != arr(j.Secret)) && (arr(j.ECDSAPublic) == nil || arr(j.ECDSAPublic) != arr(j.Secret))

func (Config).load
params c
anchor C21 C22
modular[C01,C14,C21]
ensures[C01,C14,C21] resources do not share storage: all(k1, string, all(k2, string, implies(k1 != k2 && has(result.Resources, k1) && has(result.Resources, k2) && arr(result.Resources[k1]) != nil, arr(result.Resources[k1]) != arr(result.Resources[k2]))))
ensures[C01,C14,C21] JWT entries are distinct: all(k1, string, all(k2, string, implies(k1 != k2 && has(result.Jwt, k1) && has(result.Jwt, k2) && result.Jwt[k1] != nil, result.Jwt[k1] != result.Jwt[k2])))
ensures[C01,C14,C21] their key lists do not share storage: all(k, string, implies(has(result.Jwt, k) && result.Jwt[k] != nil, apartOrNone(result.Jwt[k])))
ensures[C21] an empty configuration is refused: result != nil && len(result.Routes) > 0
ensures[C21] one source is read: ghost("W:jsons") == old(ghost("W:jsons")) + 1
ensures[C21] the given file comes first: implies(ConfigFile != "", ghost("W:json") == yml(file(ConfigFile)))
ensures[C21] then the environment: implies(ConfigFile == "" && uf("env", string, "J8ACFG_YML") != "", ghost("W:json") == yml(uf("env", string, "J8ACFG_YML")))
ensures[C21] then the default file: implies(ConfigFile == "" && uf("env", string, "J8ACFG_YML") == "", ghost("W:json") == yml(file("j8acfg.yml")))
ensures[C21] the configuration is what was read: arr(result.Routes) == ghost("W:json.ref", "Routes") && len(result.Routes) == ghost("W:json.len", "Routes")

func (*Jwt).Init
params jwt
anchor C06 C21 C22
requires jwt != nil
ensures[C06,C21,C22] ready for keys: jwt.lock != nil


func (Config).validateJwt
params c
anchor C21 C22
modular[C01,C14,C21]
preserves[C01,C14,C21] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Route.* F:LabelWeight.* F:ResourceMapping.* F:URL.* F:Runtime.* M:*
requires entries are distinct: all(k1, string, all(k2, string, implies(k1 != k2 && has(c.Jwt, k1) && has(c.Jwt, k2) && c.Jwt[k1] != nil, c.Jwt[k1] != c.Jwt[k2])))
requires key lists do not share storage: all(k, string, implies(has(c.Jwt, k) && c.Jwt[k] != nil, apartOrNone(c.Jwt[k])))
ensures[C21] every JWT configuration is valid: all(k, string, implies(has(result.Jwt, k), result.Jwt[k] != nil && validJwt(result.Jwt[k])))
ensures[C21] named as configured: all(k, string, implies(has(result.Jwt, k), result.Jwt[k].Name == k))
ensures[C21] JWT configurations kept: all(k, string, has(result.Jwt, k) == old(has(c.Jwt, k)) && implies(has(result.Jwt, k), result.Jwt[k] == old(c.Jwt[k])))
ensures[C01,C14,C21] other configuration kept: result.Routes == c.Routes && result.Connection == c.Connection && result.Policies == c.Policies && result.Jwt == c.Jwt && result.Resources == c.Resources


invariant[C21,C22] all(k, string, implies(has(c.Jwt, k) && c.Jwt[k] != nil && !visited(k), apartOrNone(c.Jwt[k])))
invariant[C21,C22] all(k, string, implies(visited(k), has(c.Jwt, k) && c.Jwt[k] != nil && validJwt(c.Jwt[k]) && c.Jwt[k].Name == k))

define sameConfig(a, b) = a.Routes == b.Routes && a.Connection == b.Connection && a.Policies == b.Policies && a.Jwt == b.Jwt && a.Resources == b.Resources

func (Runtime).initStats
params r
anchor C14 C21
modular[C01,C14,C21]
preserves[C01,C14,C21] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Runtime.* F:Route.* F:Jwt.* F:ResourceMapping.* F:URL.* F:LabelWeight.* M:map[string]*
ensures[C01,C14,C21] configuration kept: sameConfig(result, r)

func (Runtime).initUserAgent
params r
anchor C14 C21
modular[C01,C14,C21]
requires Runner != nil
preserves[C01,C14,C21] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Runtime.* F:Route.* F:Jwt.* F:ResourceMapping.* F:URL.* F:LabelWeight.* M:map[string]*
ensures[C01,C14,C21] configuration kept: sameConfig(result, r)

func initLogger
anchor C21
modular[C01,C14,C21]

func BootStrap
anchor C01 C14 C21

// The command: the file given on the command line, if any, is the one the server reads.
func cmd/j8a.main
anchor C21
ensures[C21] the server is started once: ghost("W:boot") == 1
ensures[C21] with the file given: implies(uf("flagset", bool, "c"), ghost("W:boot.file") == uf("flagvalue", string, "c"))
ensures[C21] with none otherwise: implies(!uf("flagset", bool, "c"), ghost("W:boot.file") == "")
