package j8a

import "testing"

func TestVerifC23(t *testing.T) {
	vrfRun(t, "C23", func(v *vrf) {
		vrfTimed(v, "late answers", 30, 3, vrfSlowCases(), judgeSlow)
		vrfTimed(v, "late answers, four attempts", 30, 4, vrfSlowCases(), judgeSlow)
	})
}
