//go:build verifsha

package sym

import (
	"crypto/sha256"
	"fmt"
	"strings"
)

// Names starting with "sym:" have the digests of the recorded assignment.
func init() {
	sha256.VerifHook = func(data []byte) []byte {
		if cur == nil || !strings.HasPrefix(string(data), "sym:") {
			return nil
		}
		cur.mu.Lock()
		defer cur.mu.Unlock()
		if d := cur.shaMap[string(data)]; d != nil {
			return d
		}
		d := make([]byte, 32)
		for i := range d {
			d[i] = byte(cur.Inputs[fmt.Sprintf("~sha%d[%d]", cur.shaN, i)])
		}
		cur.shaN++
		cur.shaMap[string(data)] = d
		return d
	}
}
