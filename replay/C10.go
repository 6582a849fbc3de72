package j8a

import "testing"

func TestVerifC10(t *testing.T) {
	vrfRun(t, "C10", func(v *vrf) {
		vrfE2E(v, v.N(1500), judgeC10)
	})
}
