package j8a

import "testing"

func TestVerifC19(t *testing.T) {
	vrfRun(t, "C19", func(v *vrf) {
		vrfE2E(v, v.N(1500), judgeC19)
		vrfAbout(v, v.N(200), judgeC19)
	})
}
