package main

import (
	"encoding/json"
	"sync"

	"github.com/securego/gosec/v2"
	"golang.org/x/tools/go/packages"
)

// load: what the Go tool chain itself reports about groups of files.
func init() {
	modes["load"] = func(req []byte) (any, error) {
		var in struct {
			Root   string
			Groups [][]string
			Tests  bool
		}
		if err := json.Unmarshal(req, &in); err != nil {
			return nil, err
		}
		type perr struct {
			Pos string `json:"pos"`
			Msg string `json:"msg"`
		}
		type res struct {
			Errors []perr `json:"errors"`
			Err    string `json:"err"`
		}
		out := make([]res, len(in.Groups))
		var wg sync.WaitGroup
		sem := make(chan bool, 4)
		for i, g := range in.Groups {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				out[i].Errors = []perr{}
				pkgs, err := packages.Load(&packages.Config{Mode: gosec.LoadMode, Tests: in.Tests, Dir: in.Root}, g...)
				if err != nil {
					out[i].Err = err.Error()
					return
				}
				for _, p := range pkgs {
					if p.Name == "" {
						continue
					}
					for _, e := range p.Errors {
						out[i].Errors = append(out[i].Errors, perr{e.Pos, e.Msg})
					}
				}
			}()
		}
		wg.Wait()
		return out, nil
	}
}
