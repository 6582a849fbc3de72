// Logging: writes nothing but the log. The contracts keep it out of the callers.

func scaffoldUpAttemptLog
params proxy
anchor C22 C20
modular
requires proxy != nil && proxy.Up.Atmpt != nil && Runner != nil
ensures result != nil

func logHandledDownstreamRoundtrip
params proxy
anchor C22 C20
modular
requires proxy != nil && Runner != nil && proxy.Dwn.Req != nil && implies(proxy.Up.Atmpt != nil, proxy.Route != nil && proxy.Up.Atmpt.URL != nil)

func logSuccessfulUpstreamAttempt
params proxy resp
anchor C22 C20
modular
requires proxy != nil && proxy.Up.Atmpt != nil && Runner != nil && resp != nil

func logUnsuccessfulUpstreamAttempt
params proxy resp err
anchor C22 C20
modular
requires proxy != nil && proxy.Up.Atmpt != nil && Runner != nil

func logDateClaims
params parsed ev
anchor C22 C20
modular
requires parsed != nil && ev != nil

func logCertStats
params tlsLinks
anchor C22
modular[C15,C22,C17]
requires forall(i, 0, len(tlsLinks), tlsLinks[i].cert != nil && tlsLinks[i].cert.SerialNumber != nil)

func (*zerologAdapter).Write
params a p
results n err
anchor C22
requires an adapter: a != nil
ensures[C22] takes every line: n == len(p) && err == nil
