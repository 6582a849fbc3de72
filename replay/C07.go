package j8a

import (
	"context"
	"fmt"
	"net/http"
	"testing"
)

func TestVerifC07(t *testing.T) {
	vrfRun(t, "C07", func(v *vrf) {
		vrfE2E(v, v.N(1500), judgeC07)
		vrfTimed(v, "slow upstream", 30, 3, vrfSlowCases(), func(c *vrfCase) string {
			return vrfSlowC07(c)
		})
		vrfTimed(v, "slow upstream, short round trip", 2, 4, vrfOffset(vrfSlowCases()), func(c *vrfCase) string {
			return vrfSlowC07(c)
		})
		vrfAborted(v)
	})
}

// vrfAborted: the request is given up while, or before, an attempt fails.
func vrfAborted(v *vrf) {
	id := 0
	for _, m := range []string{"GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST"} {
		for n := 2; n < 6; n++ {
			for _, u := range []vrfUp{{connErr: true}, {status: 503}, {status: 200, bodyErr: true}} {
				for late := 0; late < 2; late++ {
					m, n, u, late := m, n, u, late
					id++
					uri := fmt.Sprintf("/x%d", id) // an attempt left behind may reach the client of the next case
					v.run("aborted", fmt.Sprintf("%s given up %s; upstream %v; attempts %d", m, []string{"before the first attempt", "during the first attempt"}[late], u, n), func() {
						vrfBoot(vrfConfig(n, 64))
						ctx, cancel := context.WithCancel(context.Background())
						cl := newVrfClient()
						cl.all = []vrfUp{u}
						httpClient = &vrfCancelling{cl, cancel}
						if late == 0 {
							cancel()
						}
						req, _ := vrfReq{method: m, uri: uri, header: http.Header{}}.build()
						p := new(Proxy).setOutgoing(newVrfWriter()).parseIncoming(req)
						p.setRoute(&Runner.Routes[0])
						p.firstAttempt(&Runner.Resources["main"][0].URL, "default")
						p.Dwn.Aborted = ctx.Done()
						handle(p)
						made := 0
						cl.mu.Lock()
						for _, r := range cl.every {
							if r.u.Path == uri {
								made++
							}
						}
						cl.mu.Unlock()
						if made > 1 {
							v.fail("%s was given up %s (upstream %v, attempts %d) and yet %d attempts were made", m, []string{"before the first attempt", "during the first attempt"}[late], u, n, made)
						}
						cancel()
						p.Dwn.AbortedFlag = false
						if p.shouldRetryUpstreamAttempt() {
							v.fail("%s was given up after attempt %d of %d failed (upstream %v) and yet another one is to be made", m, p.Up.Atmpt.Count, n, u)
						}
					})
				}
			}
		}
	}
}

// vrfCancelling gives the downstream request up while it answers.
type vrfCancelling struct {
	*vrfClient
	cancel func()
}

func (c *vrfCancelling) Do(r *http.Request) (*http.Response, error) {
	c.cancel()
	return c.vrfClient.Do(r)
}
