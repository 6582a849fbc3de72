package j8a

import "testing"

func TestVerifC11(t *testing.T) {
	vrfRun(t, "C11", func(v *vrf) {
		vrfE2E(v, v.N(1500), judgeC11)
	})
}
