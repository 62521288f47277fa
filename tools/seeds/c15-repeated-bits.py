property = "C15"
needs = "a coordinator with a bad generator that prepares for a challenge that repeats every eight bits"
breaks = "the challenge of the honesty proof is one random byte repeated"
edits = [("primitive/fujiokam/FujiOkamCommitment.go", """	for i, _ := range bits {
		bits[i] = random.Bool(random.Stream)
	}
""", """	b := random.Byte(random.Stream)
	for i, _ := range bits {
		// eight challenges from each random byte
		bits[i] = b>>uint(i%8)&1 == 1
	}
""")]
pkg = "primitive/fujiokam"
demo = r'''
package fujiokam

import "testing"

func TestDemo(t *testing.T) {
	base := &FujiOkamBase{}
	for try := 0; try < 10; try++ {
		bits := make([]bool, GN_HONESTY_PROOF_SIZE)
		base.ChallengeGnHonesty(bits)
		same := true
		for i := 8; i < len(bits); i++ { same = same && bits[i] == bits[i-8] }
		if !same { return }
	}
	t.Fatal("the challenge repeats every eight bits")
}
'''
