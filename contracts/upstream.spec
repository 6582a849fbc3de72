// The URL of an upstream request: authority from the mapped resource, path and query from the request.

define base(u) = u.Scheme + "://" + u.Host + ":" + itoa(u.Port)
define slashed(s) = ite(hasPrefix(s, "/"), s, "/" + s)
define root(t) = ite(t == "/", "", t)
define upstreamURI(u, r, uri) = base(u) + ite(r.Transform != "" && hasPrefix(uri, r.Path), slashed(root(r.Transform) + uri[len(r.Path):]), slashed(uri))

func (URL).String
params u
anchor C02 C22
ensures[C02] scheme, host and port of the resource: result == base(u)

func (*Proxy).resolveUpstreamURI
params proxy
anchor C01 C02 C03 C22
modular[C01,C03,C02,C10,C11,C19,C16,C07,C08,C09,C12,C20,C22,C23]
requires proxy != nil && proxy.Route != nil && proxy.Up.Atmpt != nil && proxy.Up.Atmpt.URL != nil
ensures[C02] authority is that of the mapped resource: hasPrefix(result, base(*proxy.Up.Atmpt.URL) + "/")
ensures[C02] without a transform path and query are unchanged: implies(proxy.Route.Transform == "" && hasPrefix(proxy.Dwn.URI, "/"), result == base(*proxy.Up.Atmpt.URL) + proxy.Dwn.URI)
ensures[C02] a transform replaces the leading route path only: implies(proxy.Route.Transform != "" && hasPrefix(proxy.Dwn.URI, proxy.Route.Path), result == base(*proxy.Up.Atmpt.URL) + slashed(root(proxy.Route.Transform) + proxy.Dwn.URI[len(proxy.Route.Path):]))
ensures[C02] a transform leaves other URIs unchanged: implies(!hasPrefix(proxy.Dwn.URI, proxy.Route.Path) && hasPrefix(proxy.Dwn.URI, "/"), result == base(*proxy.Up.Atmpt.URL) + proxy.Dwn.URI)
ensures[C01,C02,C03] the whole URI: result == upstreamURI(*proxy.Up.Atmpt.URL, *proxy.Route, proxy.Dwn.URI)
preserves[C02] F:Proxy.* F:Route.* F:URL.* F:Atmpt.* F:Down.*
