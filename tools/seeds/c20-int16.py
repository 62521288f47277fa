property = "C20"
needs = "a number outside the range of 16 bits in a list"
breaks = "lists of numbers are cut to 16 bits"
edits = [("util/Util.go", """func EncodeIntArray(arr []int) []byte {
	var buf bytes.Buffer
	encoder := gob.NewEncoder(&buf)
	err := encoder.Encode(arr)
""", """func EncodeIntArray(arr []int) []byte {
	var buf bytes.Buffer
	encoder := gob.NewEncoder(&buf)
	// changes of reputation are small
	small := make([]int16, len(arr))
	for i, n := range arr {
		small[i] = int16(n)
	}
	err := encoder.Encode(small)
""")]
pkg = "util"
demo = r'''
package util

import "testing"

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, -1, 255, 32767, -32768, 32768, -32769, 70000, 1 << 40} {
		if got := DecodeIntArray(EncodeIntArray([]int{7, n})); len(got) != 2 || got[0] != 7 || got[1] != n {
			t.Fatal(n, "read back as", got)
		}
	}
}
'''
