// Validation of the routes at boot and their order.

define slashed(p) = ite(indexOf(p, "/") == 0, p, "/" + p)

define sameRoute(r, c, j) = r.Path == slashed(old(c.Routes[j].Path)) && r.Transform == old(c.Routes[j].Transform) && r.Resource == old(c.Routes[j].Resource) && r.Policy == old(c.Routes[j].Policy) && r.Jwt == old(c.Routes[j].Jwt)

func (Routes).Swap
params s i j
anchor C01 C22
requires indices: 0 <= i && i < len(s) && 0 <= j && j < len(s)
ensures[C01] exchanges two routes: s[i] == old(s[j]) && s[j] == old(s[i])
ensures[C01] and no other: forall(k, 0, len(s), implies(k != i && k != j, s[k] == old(s[k])))

func (Routes).Less
params s i j
anchor C01 C22
requires indices: 0 <= i && i < len(s) && 0 <= j && j < len(s)
ensures[C01] longer paths come first: result == (len(s[i].Path) > len(s[j].Path))

func (Config).validateRoutes
params c
anchor C01 C21 C22
modular[C01,C14,C21]
preserves[C01,C14,C21] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Runtime.* F:Jwt.* F:ResourceMapping.* F:URL.* F:LabelWeight.* M:*
ensures[C01] longest path first: forall(i, 0, len(result.Routes), forall(j, 0, i, len(result.Routes[j].Path) >= len(result.Routes[i].Path)))
ensures[C01] every path starts with a slash: forall(i, 0, len(result.Routes), hasPrefix(result.Routes[i].Path, "/"))
ensures[C01] each is one of those configured: len(result.Routes) == len(c.Routes) && forall(i, 0, len(c.Routes), exists(j, 0, len(c.Routes), sameRoute(result.Routes[i], c, j)))
ensures[C01] none is lost: forall(j, 0, len(c.Routes), exists(i, 0, len(c.Routes), sameRoute(result.Routes[i], c, j)))
ensures[C21] as many as configured: len(result.Routes) == len(c.Routes)
ensures[C21] only known JWT configurations: forall(i, 0, len(result.Routes), result.Routes[i].Jwt == "" || has(result.Jwt, result.Routes[i].Jwt))
ensures[C01,C14,C21] other configuration kept: result.Connection == c.Connection && result.Policies == c.Policies && result.Jwt == c.Jwt && result.Resources == c.Resources

func (Config).compileRoutePaths
params c
anchor C01 C21 C22
modular[C01,C14,C21]
preserves[C01,C14,C21] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Runtime.* F:Jwt.* F:ResourceMapping.* F:URL.* F:LabelWeight.* M:* F:Route.Path F:Route.Transform F:Route.Resource F:Route.Policy F:Route.Jwt
ensures[C01,C21] each path is a valid pattern: forall(i, 0, len(result.Routes), uf("reok", bool, "^" + result.Routes[i].Path))
ensures[C01] matched from the start: forall(i, 0, len(result.Routes), result.Routes[i].PathRegex == uf("re", addr, "^" + result.Routes[i].Path))
ensures[C01,C21] routes kept: result.Routes == c.Routes && forall(i, 0, len(c.Routes), c.Routes[i].Path == old(c.Routes[i].Path) && c.Routes[i].Transform == old(c.Routes[i].Transform) && c.Routes[i].Resource == old(c.Routes[i].Resource) && c.Routes[i].Policy == old(c.Routes[i].Policy) && c.Routes[i].Jwt == old(c.Routes[i].Jwt))
ensures[C01,C14,C21] other configuration kept: result.Connection == c.Connection && result.Policies == c.Policies && result.Jwt == c.Jwt && result.Resources == c.Resources

func (Config).compileRouteTransforms
params c
anchor C21 C22
modular[C01,C14,C21]
preserves[C01,C14,C21] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Runtime.* F:Jwt.* F:ResourceMapping.* F:URL.* F:LabelWeight.* M:* F:Route.*
ensures[C21] transforms start with a slash: forall(i, 0, len(result.Routes), result.Routes[i].Transform == "" || hasPrefix(result.Routes[i].Transform, "/"))
ensures[C01,C14,C21] other configuration kept: result.Routes == c.Routes && result.Connection == c.Connection && result.Policies == c.Policies && result.Jwt == c.Jwt && result.Resources == c.Resources
