package main

import (
	"encoding/json"

	"github.com/securego/gosec/v2"
)

// paths: expansion of path arguments.
func init() {
	modes["paths"] = func(req []byte) (any, error) {
		var in []struct {
			Root     string
			Excludes []string
		}
		if err := json.Unmarshal(req, &in); err != nil {
			return nil, err
		}
		type res struct {
			Paths []string `json:"paths"`
			Err   string   `json:"err"`
		}
		out := make([]res, len(in))
		for i, c := range in {
			p, err := gosec.PackagePaths(c.Root, gosec.ExcludedDirsRegExp(c.Excludes))
			if err != nil {
				out[i].Err = err.Error()
			}
			if p == nil {
				p = []string{}
			}
			out[i].Paths = p
		}
		return out, nil
	}
}
