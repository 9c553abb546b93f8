// Package h is the common machinery of the checks: plans that survive JSON,
// running properties under rapid with shrinking and replay files, and the
// counters behind the evidence files.
package h

import (
	"encoding/json"
	"strconv"
)

// Bytes is a byte string that survives a JSON round-trip whatever it contains.
type Bytes string

// MarshalJSON writes the Go-quoted ASCII form.
func (b Bytes) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(string(b)))
}

// UnmarshalJSON reads the Go-quoted form back.
func (b *Bytes) UnmarshalJSON(data []byte) error {
	var s string
	if err := json.Unmarshal(data, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	if err != nil {
		return err
	}
	*b = Bytes(u)
	return nil
}

// Strs converts a slice of Bytes.
func Strs(b []Bytes) []string {
	out := make([]string, len(b))
	for i := range b {
		out[i] = string(b[i])
	}
	return out
}

// Short renders s for a message, cut to n bytes.
func Short(s string, n int) string {
	if len(s) > n {
		return strconv.QuoteToASCII(s[:n]) + "...(" + strconv.Itoa(len(s)) + " bytes)"
	}
	return strconv.QuoteToASCII(s)
}
