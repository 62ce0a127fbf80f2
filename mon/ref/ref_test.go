package ref

import "testing"

func TestSelf(t *testing.T) {
	if err := SelfTest(); err != nil {
		t.Fatal(err)
	}
	e, i := SmallEncodings()
	t.Log(len(e), i)
}
func BenchmarkSign(b *testing.B) {
	for i := 0; i < b.N; i++ {
		Sign([]byte{1}, make([]byte, 32), nil)
	}
}
func BenchmarkMul(b *testing.B) {
	q := MulBase(SHA256(nil))
	for i := 0; i < b.N; i++ {
		Mul(SHA256(nil), q)
	}
}
func BenchmarkShared(b *testing.B) {
	q := MulBase(SHA256(nil)).Bytes()
	for i := 0; i < b.N; i++ {
		SharedKey(q, q, q)
	}
}
