package j8a

import "testing"

func TestVerifC08(t *testing.T) {
	vrfRun(t, "C08", func(v *vrf) {
		vrfE2E(v, v.N(1500), judgeC08)
		vrfAbout(v, v.N(200), judgeC08)
		vrfTimed(v, "slow upstream", 30, 3, vrfSlowCases(), func(c *vrfCase) string {
			return vrfSlowC08(c)
		})
		vrfTimed(v, "slow upstream, short round trip", 2, 4, vrfOffset(vrfSlowCases()), func(c *vrfCase) string {
			return vrfSlowC08(c)
		})
	})
}
