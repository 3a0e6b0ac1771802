package main

import (
	"encoding/json"
	"fmt"
	"sync"

	"github.com/securego/gosec/v2/autofix"
	"github.com/securego/gosec/v2/issue"
)

// autofix: asks the service at the given endpoints for suggestions.
func init() {
	modes["autofix"] = func(req []byte) (any, error) {
		type one struct {
			Provider, Key, Endpoint string
			Finds                   []struct {
				Rule, What, File, Line string
				Sev, Conf              int
				NoSec                  bool
			}
			Issues []*issue.Issue
		}
		var in []*one
		if err := json.Unmarshal(req, &in); err != nil {
			return nil, err
		}
		for _, r := range in {
			for _, f := range r.Finds {
				r.Issues = append(r.Issues, &issue.Issue{RuleID: f.Rule, What: f.What, File: f.File, Line: f.Line, Severity: issue.Score(f.Sev), Confidence: issue.Score(f.Conf), NoSec: f.NoSec, Code: "1: x\n"})
			}
		}
		type res struct {
			Err   string   `json:"err"`
			Panic string   `json:"panic"`
			Same  bool     `json:"same"`
			Fixes []string `json:"fixes"`
		}
		out := make([]res, len(in))
		var wg sync.WaitGroup
		sem := make(chan bool, 64)
		for i, r := range in {
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				defer func() {
					if p := recover(); p != nil {
						out[i].Panic = fmt.Sprint(p)
					}
				}()
				before, _ := json.Marshal(r.Issues)
				order := append([]*issue.Issue{}, r.Issues...)
				if err := autofix.GenerateSolution(r.Provider, r.Key, r.Endpoint, r.Issues); err != nil {
					out[i].Err = err.Error()
				}
				same := true
				for k, x := range r.Issues {
					same = same && order[k] == x
					out[i].Fixes = append(out[i].Fixes, x.Autofix)
					x.Autofix = ""
				}
				after, _ := json.Marshal(r.Issues)
				out[i].Same = same && string(before) == string(after)
			}()
		}
		wg.Wait()
		return out, nil
	}
}
