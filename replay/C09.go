package j8a

import "testing"

func TestVerifC09(t *testing.T) {
	vrfRun(t, "C09", func(v *vrf) {
		vrfE2E(v, v.N(1500), judgeC09)
		vrfTimed(v, "slow upstream", 30, 3, vrfSlowCases(), func(c *vrfCase) string {
			return vrfSlowC09(c)
		})
		vrfTimed(v, "slow upstream, short round trip", 2, 4, vrfOffset(vrfSlowCases()), func(c *vrfCase) string {
			return vrfSlowC09(c)
		})
	})
}
