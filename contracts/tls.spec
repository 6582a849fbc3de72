// Certificate chains.

define sat(d) = ite(d > 9223372036854775807, 9223372036854775807, ite(d < -9223372036854775808, -9223372036854775808, d))
define selfIssued(c) = c.IsCA && c.Issuer.CommonName == c.Subject.CommonName

func isRoot
params c
anchor C17 C22
requires c != nil
ensures[C17] self-issued CA: result == selfIssued(c)

func parseTlsLinks
params chain
anchor C17 C22
requires len(chain) > 0 && forall(i, 0, len(chain), chain[i] != nil)
ensures[C17] one link per certificate: len(result) == len(chain)
ensures[C17] in chain order with its own dates: forall(i, 0, len(chain), result[i].cert == chain[i] && result[i].issued == chain[i].NotBefore && result[i].isCA == chain[i].IsCA && result[i].totalValidity == sat(chain[i].NotAfter - chain[i].NotBefore))
ensures[C17] remaining validity as of now: forall(i, 0, len(chain), sat(chain[i].NotAfter - ghost("W:now")) <= result[i].remainingValidity && result[i].remainingValidity <= sat(chain[i].NotAfter - old(ghost("W:now"))))
ensures[C17] exactly one expires first and it has the smallest remaining validity: exists(i, 0, len(chain), result[i].earliestExpiry && forall(j, 0, len(chain), result[i].remainingValidity <= result[j].remainingValidity && implies(j != i, !result[j].earliestExpiry)))

func splitCertPools
params chain
results inter root
anchor C17 C22
ensures two new pools: inter != nil && root != nil && inter != root
ensures[C17] roots are the self-issued CAs: all(c, "*crypto/x509.Certificate", ghost("W:pool", root, c) == exists(i, 0, len(chain.Certificate), uf("certok", bool, bytes(chain.Certificate[i])) && c == uf("cert", addr, bytes(chain.Certificate[i])) && selfIssued(c)))
ensures[C17] intermediates are the other CAs: all(c, "*crypto/x509.Certificate", ghost("W:pool", inter, c) == exists(i, 0, len(chain.Certificate), uf("certok", bool, bytes(chain.Certificate[i])) && c == uf("cert", addr, bytes(chain.Certificate[i])) && c.IsCA && !selfIssued(c)))
