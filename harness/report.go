package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/report"
)

// report: renders findings with arbitrary field contents in a sequence of formats.
type rfinding struct {
	Sev, Conf              int
	Rule, Line, Col, Cwe   string
	What, File, Code, Fix_ []byte
	NoSec                  bool
	Supp                   [][2]string
}

type faultyWriter struct {
	left int
	n    int
}

func (f *faultyWriter) Write(p []byte) (int, error) {
	f.n += len(p)
	if len(p) > f.left {
		k := f.left
		f.left = 0
		return k, errors.New("no space left on device")
	}
	f.left -= len(p)
	return len(p), nil
}

func init() {
	modes["report"] = func(req []byte) (any, error) {
		var in []struct {
			Findings []rfinding
			Roots    []string
			Formats  []string
			Color    bool
			Fail     []int
			Stats    [4]int
			Errors   map[string][]struct {
				Line, Column int
				Err          string
			}
		}
		if err := json.Unmarshal(req, &in); err != nil {
			return nil, err
		}
		type res struct {
			Out []byte `json:"out"`
			Err string `json:"err"`
		}
		type out struct {
			Docs  []res  `json:"docs"`
			Fails []bool `json:"fails"` // whether the write fault was reported
		}
		render := func(w interface{ Write([]byte) (int, error) }, format string, color bool, roots []string, data *gosec.ReportInfo) (err error) {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r)
				}
			}()
			return report.CreateReport(w, format, color, roots, data)
		}
		outs := make([]out, len(in))
		for i, c := range in {
			mk := func() *gosec.ReportInfo {
				issues := []*issue.Issue{}
				for _, f := range c.Findings {
					is := &issue.Issue{Severity: issue.Score(f.Sev), Confidence: issue.Score(f.Conf), RuleID: f.Rule, What: string(f.What), File: string(f.File),
						Code: string(f.Code), Line: f.Line, Col: f.Col, NoSec: f.NoSec, Autofix: string(f.Fix_)}
					if f.Cwe != "" {
						if is.Cwe = cwe.Get(f.Cwe); is.Cwe == nil {
							is.Cwe = &cwe.Weakness{ID: f.Cwe, Name: "N" + f.Cwe, Description: "D" + f.Cwe}
						}
					}
					for _, s := range f.Supp {
						is.Suppressions = append(is.Suppressions, issue.SuppressionInfo{Kind: s[0], Justification: s[1]})
					}
					issues = append(issues, is)
				}
				errs := map[string][]gosec.Error{}
				for f, es := range c.Errors {
					for _, e := range es {
						errs[f] = append(errs[f], *gosec.NewError(e.Line, e.Column, e.Err))
					}
				}
				m := &gosec.Metrics{NumFiles: c.Stats[0], NumLines: c.Stats[1], NumNosec: c.Stats[2], NumFound: c.Stats[3]}
				return gosec.NewReportInfo(issues, m, errs).WithVersion("dev")
			}
			data := mk()
			for _, f := range c.Formats {
				var b bytes.Buffer
				var r res
				if err := render(&b, f, c.Color, c.Roots, data); err != nil {
					r.Err = err.Error()
				}
				r.Out = b.Bytes()
				if r.Out == nil {
					r.Out = []byte{}
				}
				outs[i].Docs = append(outs[i].Docs, r)
			}
			for k, n := range c.Fail {
				f := c.Formats[k%len(c.Formats)]
				w := &faultyWriter{left: n % (len(outs[i].Docs[k%len(c.Formats)].Out) + 1)}
				err := render(w, f, c.Color, c.Roots, mk())
				outs[i].Fails = append(outs[i].Fails, err != nil || w.n <= w.left)
				if n%(len(outs[i].Docs[k%len(c.Formats)].Out)+1) == len(outs[i].Docs[k%len(c.Formats)].Out) {
					outs[i].Fails[len(outs[i].Fails)-1] = err == nil || outs[i].Docs[k%len(c.Formats)].Err != ""
				}
			}
		}
		return outs, nil
	}
}
