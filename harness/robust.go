package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"log"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/securego/gosec/v2"
)

// robust: scans directories, each with an analyzer of its own, and tells how that ended.
func init() {
	modes["robust"] = func(req []byte) (any, error) {
		var in struct {
			Dirs     []string
			Config   json.RawMessage
			Timeout  int
			Parallel int
			Tests    bool
		}
		if err := json.Unmarshal(req, &in); err != nil {
			return nil, err
		}
		type file struct {
			Name    string   `json:"name"`
			Pkg     string   `json:"pkg"`  // empty if there is no readable package clause
			Head    bool     `json:"head"` // the package clause and imports parse
			Body    bool     `json:"body"` // all of it parses
			Imports []string `json:"imports"`
		}
		type res struct {
			Outcome string   `json:"outcome"` // done, panic, hang
			Detail  string   `json:"detail"`
			Errors  int      `json:"errors"`
			Err     string   `json:"err"`
			Files   []file   `json:"files"`
			Lines   []string `json:"lines"` // files and lines with errors
			Finds   []string `json:"finds"`
			Ms      int64    `json:"ms"`
		}
		out := make([]res, len(in.Dirs))
		var wg sync.WaitGroup
		sem := make(chan bool, max(1, in.Parallel))
		for i, d := range in.Dirs {
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				done := make(chan res, 1)
				start := time.Now()
				go func() {
					r := res{Outcome: "done", Finds: []string{}, Lines: []string{}}
					defer func() {
						if p := recover(); p != nil {
							r.Outcome = "panic"
							r.Detail = fmt.Sprint(p) + "\n" + string(debug.Stack())
							done <- r
						}
					}()
					a := gosec.NewAnalyzer(historyConfig(in.Config), in.Tests, false, false, 1, log.New(io.Discard, "", 0))
					historyLoad(a, nil)
					if err := a.Process(nil, d); err != nil {
						r.Err = err.Error()
					}
					issues, _, errs := a.Report()
					for f, e := range errs {
						r.Errors += len(e)
						for _, x := range e {
							r.Lines = append(r.Lines, fmt.Sprintf("%s:%d", filepath.Base(f), x.Line))
						}
					}
					for _, f := range issues {
						if rel, err := filepath.Rel(d, f.File); err == nil && !strings.HasPrefix(rel, "..") {
							r.Finds = append(r.Finds, rel+":"+f.Line+":"+f.RuleID)
						} else {
							r.Finds = append(r.Finds, f.File+":"+f.Line+":"+f.RuleID)
						}
					}
					done <- r
				}()
				select {
				case out[i] = <-done:
				case <-time.After(time.Duration(in.Timeout) * time.Second):
					out[i] = res{Outcome: "hang", Finds: []string{}, Lines: []string{}}
				}
				out[i].Ms = time.Since(start).Milliseconds()
				files, _ := filepath.Glob(filepath.Join(d, "*.go"))
				sort.Strings(files)
				for _, f := range files {
					inf := file{Name: filepath.Base(f), Imports: []string{}}
					head, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.ImportsOnly)
					inf.Head = err == nil
					if head != nil && head.Name != nil {
						inf.Pkg = head.Name.Name
						for _, s := range head.Imports {
							inf.Imports = append(inf.Imports, s.Path.Value)
						}
					}
					_, err = parser.ParseFile(token.NewFileSet(), f, nil, parser.SkipObjectResolution)
					inf.Body = err == nil
					out[i].Files = append(out[i].Files, inf)
				}
			}()
		}
		wg.Wait()
		return out, nil
	}
}
