// The draw: entry number W:perm(i) of the policy owns the draws from the sum of the weights before it (in the order the
// entries were sorted into) up to that sum plus its own weight.
define labelOf(p, i) = let(e, ghost("W:perm", i), old(p[e].Label))
define weightOf(p, i) = let(e, ghost("W:perm", i), old(p[e].Weight))
define below(p, i) = sum(j, 0, i, weightOf(p, j))

func (Policy).resolveLabel
params policy
anchor C04 C20 C22
modular
records string
preserves[C20] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Route.* F:LabelWeight.* F:ResourceMapping.* F:URL.* F:Runtime.* F:Jwt.Name F:Jwt.Alg F:Jwt.Key F:Jwt.JwksUrl F:Jwt.Secret.* F:Jwt.AcceptableSkewSeconds M:*
ensures[C04] every entry is drawn on one interval as long as its weight: exists(i, 0, len(policy), result == labelOf(policy, i) && below(policy, i) <= ghost("W:dice") && ghost("W:dice") < below(policy, i) + weightOf(policy, i)) || (result == "default" && below(policy, len(policy)) <= ghost("W:dice"))
ensures[C04] the intervals are those of a reordering of the entries: forall(i, 0, len(policy), 0 <= ghost("W:perm", i) && ghost("W:perm", i) < len(policy) && forall(k, 0, i, ghost("W:perm", k) != ghost("W:perm", i)))
ensures[C04] no re-seeding: ghost("W:seed") == old(ghost("W:seed"))

// Which resource entry a route is mapped to.

define chosen = ghost("W:ret.resolveLabel", old(ghost("W:calls.resolveLabel")))
define entries(r) = Runner.Config.Resources[r.Resource]
define carries(m, l) = exists(j, 0, len(m.Labels), m.Labels[j] == l)
define selected(r, e) = ite(r.Policy == "", e == 0, carries(entries(r)[e], chosen) && forall(h, 0, e, !carries(entries(r)[h], chosen)))

func (Route).mapURL
params route proxy
results url label mapped
anchor C01 C02 C03 C22 C20
modular
records bool mapped
requires Runner != nil && proxy != nil
preserves[C20] F:Config.* F:Connection.* F:Downstream.* F:Upstream.* F:Route.* F:LabelWeight.* F:ResourceMapping.* F:URL.* F:Runtime.* F:Jwt.Name F:Jwt.Alg F:Jwt.Key F:Jwt.JwksUrl F:Jwt.Secret.* F:Jwt.AcceptableSkewSeconds M:*
ensures mapped means a URL: implies(mapped, url != nil && has(Runner.Config.Resources, route.Resource))
ensures[C01,C02,C03] the policy is asked once: implies(route.Policy != "", ghost("W:calls.resolveLabel") == old(ghost("W:calls.resolveLabel")) + 1)
ensures[C01,C02,C03] first entry without a policy: implies(route.Policy == "", mapped == (len(entries(route)) > 0) && implies(mapped, *url == entries(route)[0].URL))
ensures[C01,C02,C03] with a policy the first entry with the label it chose: implies(route.Policy != "" && mapped, label == chosen && exists(i, 0, len(entries(route)), *url == entries(route)[i].URL && carries(entries(route)[i], chosen) && forall(h, 0, i, !carries(entries(route)[h], chosen))))
ensures[C01,C02,C03] the entry selected is the one used: implies(route.Policy != "" && mapped, forall(e, 0, len(entries(route)), implies(selected(route, e), *url == entries(route)[e].URL)))
ensures[C03] unmapped only if no entry carries it: implies(route.Policy != "" && !mapped, forall(i, 0, len(entries(route)), !carries(entries(route)[i], chosen)))

// sort.Sort reorders by these.

func (Policy).Len
params policy
anchor C04
ensures its size: result == len(policy)

func (Policy).Swap
params policy i j
anchor C04
requires 0 <= i && i < len(policy) && 0 <= j && j < len(policy)
ensures exchanged: policy[i] == old(policy[j]) && policy[j] == old(policy[i])
ensures the others stay: forall(k, 0, len(policy), implies(k != i && k != j, policy[k] == old(policy[k])))

func (Policy).Less
params policy i j
anchor C04
requires 0 <= i && i < len(policy) && 0 <= j && j < len(policy)
preserves *
