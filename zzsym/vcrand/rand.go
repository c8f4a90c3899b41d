// Package rand stands in for crypto/rand.
package rand

import "github.com/apache/datasketches-go/internal/zzsym"

func Read(b []byte) (int, error) {
	for i := range b {
		b[i] = zzsym.U8("crnd")
	}
	return len(b), nil
}
