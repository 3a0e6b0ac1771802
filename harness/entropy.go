package main

import (
	"encoding/json"

	zxcvbn "github.com/ccojocar/zxcvbn-go"
)

// entropy: the strength of strings as the library measures it.
func init() {
	modes["entropy"] = func(req []byte) (any, error) {
		var in [][]byte
		if err := json.Unmarshal(req, &in); err != nil {
			return nil, err
		}
		out := make([]float64, len(in))
		for i, s := range in {
			out[i] = zxcvbn.PasswordStrength(string(s), nil).Entropy
		}
		return out, nil
	}
}
