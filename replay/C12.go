package j8a

import "testing"

func TestVerifC12(t *testing.T) {
	vrfRun(t, "C12", func(v *vrf) {
		vrfE2E(v, v.N(1500), judgeC12)
		vrfAbout(v, v.N(200), judgeAbout)
	})
}
