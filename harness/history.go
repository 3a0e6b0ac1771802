package main

import (
	"encoding/json"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"sync"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/rules"
)

// history: replays sequences of operations on analyzers of their own, several at the same time.
type historyOp struct {
	Op      string // scan, reset, edit, remove
	Paths   []string
	Include []string // rules of the reset, all if empty
	Config  json.RawMessage
	File    string
	Content string
}

type historyFinding struct {
	File, Line, Col, Rule, What string
	Sev, Conf                   string
	Cwe                         string
	NoSec                       bool
	Supp                        []issue.SuppressionInfo
}

type historyStep struct {
	Issues  []historyFinding
	Errors  map[string][]string
	Metrics [4]int
	Err     string
	Panic   string
}

func historyLoad(a *gosec.Analyzer, include []string) {
	var rf []rules.RuleFilter
	var af []analyzers.AnalyzerFilter
	if len(include) > 0 {
		rf = append(rf, rules.NewRuleFilter(false, include...))
		af = append(af, analyzers.NewAnalyzerFilter(false, include...))
	}
	rl := rules.Generate(false, rf...)
	a.LoadRules(rl.RulesInfo())
	al := analyzers.Generate(false, af...)
	a.LoadAnalyzers(al.AnalyzersInfo())
}

func historyConfig(raw json.RawMessage) gosec.Config {
	c := gosec.NewConfig()
	if len(raw) > 0 {
		m := map[string]interface{}{}
		if json.Unmarshal(raw, &m) == nil {
			for k, v := range m {
				if k == gosec.Globals {
					for n, w := range v.(map[string]interface{}) {
						c.SetGlobal(gosec.GlobalOption(n), w.(string))
					}
					continue
				}
				c.Set(k, v)
			}
		}
	}
	return c
}

func historyRun(a *gosec.Analyzer, op historyOp) (st historyStep) {
	defer func() {
		if r := recover(); r != nil {
			st.Panic = toString(r)
		}
	}()
	switch op.Op {
	case "edit":
		if err := os.MkdirAll(filepath.Dir(op.File), 0o755); err != nil {
			st.Err = err.Error()
		} else if err := os.WriteFile(op.File, []byte(op.Content), 0o644); err != nil {
			st.Err = err.Error()
		}
	case "remove":
		if err := os.Remove(op.File); err != nil {
			st.Err = err.Error()
		}
	case "reset":
		a.Reset()
		a.SetConfig(historyConfig(op.Config))
		historyLoad(a, op.Include)
	case "scan":
		if err := a.Process(nil, op.Paths...); err != nil {
			st.Err = err.Error()
		}
	}
	issues, stats, errs := a.Report()
	st.Issues = []historyFinding{}
	for _, i := range issues {
		f := historyFinding{File: i.File, Line: i.Line, Col: i.Col, Rule: i.RuleID, What: i.What, Sev: i.Severity.String(), Conf: i.Confidence.String(), NoSec: i.NoSec, Supp: i.Suppressions}
		if i.Cwe != nil {
			f.Cwe = i.Cwe.ID
		}
		st.Issues = append(st.Issues, f)
	}
	st.Errors = map[string][]string{}
	for f, es := range errs {
		for _, e := range es {
			st.Errors[f] = append(st.Errors[f], e.Err)
		}
		sort.Strings(st.Errors[f])
	}
	st.Metrics = [4]int{stats.NumFound, stats.NumNosec, stats.NumFiles, stats.NumLines}
	return st
}

func toString(r any) string {
	if e, ok := r.(error); ok {
		return e.Error()
	}
	if s, ok := r.(string); ok {
		return s
	}
	return "panic"
}

func init() {
	modes["history"] = func(req []byte) (any, error) {
		var in struct {
			Sessions []struct {
				Ops         []historyOp
				Config      json.RawMessage
				Include     []string
				Tests       bool
				Track       bool
				Generated   bool
				Concurrency int
			}
			Parallel int
		}
		if err := json.Unmarshal(req, &in); err != nil {
			return nil, err
		}
		out := make([][]historyStep, len(in.Sessions))
		var wg sync.WaitGroup
		sem := make(chan bool, max(1, in.Parallel))
		for i, s := range in.Sessions {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				a := gosec.NewAnalyzer(historyConfig(s.Config), s.Tests, s.Generated, s.Track, max(1, s.Concurrency), log.New(io.Discard, "", 0))
				historyLoad(a, s.Include)
				out[i] = []historyStep{}
				for _, op := range s.Ops {
					out[i] = append(out[i], historyRun(a, op))
				}
			}()
		}
		wg.Wait()
		return out, nil
	}
}
