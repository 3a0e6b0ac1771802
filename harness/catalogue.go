package main

import (
	"encoding/json"
	"strconv"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/rules"
)

// catalogue: what the library offers and how it describes it.
func init() {
	modes["catalogue"] = func(req []byte) (any, error) {
		var in struct{ Foreign []string }
		if err := json.Unmarshal(req, &in); err != nil {
			return nil, err
		}
		type rule struct {
			ID    string `json:"id"`
			Key   string `json:"key"`
			Built string `json:"built"`
			Text  string `json:"text"`
			Cwe   string `json:"cwe"`
			Known bool   `json:"known"`
		}
		type entry struct {
			N    string `json:"n"`
			ID   string `json:"id"`
			Name string `json:"name"`
			Desc string `json:"desc"`
			URL  string `json:"url"`
			Text string `json:"text"`
		}
		type pair struct {
			ID  string `json:"id"`
			Cwe string `json:"cwe"`
		}
		type defs struct {
			Kind  string `json:"kind"`
			Rules []rule `json:"rules"`
		}
		out := struct {
			Defs    []defs  `json:"defs"`
			Entries []entry `json:"entries"`
			Foreign []pair  `json:"foreign"`
		}{Foreign: []pair{}}
		weak := func(r *rule) {
			if w := issue.GetCweByRule(r.ID); w != nil {
				r.Cwe = w.ID
				r.Known = cwe.Get(w.ID) == w
			}
		}
		for _, track := range []bool{false, true} {
			rl := rules.Generate(track)
			d := defs{Kind: "rules"}
			builders, _ := rl.RulesInfo()
			for k, def := range rl.Rules {
				r := rule{ID: def.ID, Key: k, Text: def.Description}
				b, _ := def.Create(def.ID, gosec.NewConfig())
				r.Built = b.ID()
				if _, ok := builders[def.ID]; !ok {
					r.Key = ""
				}
				weak(&r)
				d.Rules = append(d.Rules, r)
			}
			out.Defs = append(out.Defs, d)
			al := analyzers.Generate(track)
			d = defs{Kind: "analyzers"}
			infos, _ := al.AnalyzersInfo()
			for k, def := range al.Analyzers {
				r := rule{ID: def.ID, Key: k, Text: def.Description}
				a := def.Create(def.ID, def.Description)
				r.Built = a.Name
				if a.Doc == "" || infos[def.ID].ID != def.ID {
					r.Text = ""
				}
				weak(&r)
				d.Rules = append(d.Rules, r)
			}
			out.Defs = append(out.Defs, d)
		}
		d := defs{Kind: "analyzers"}
		for _, a := range analyzers.BuildDefaultAnalyzers() {
			r := rule{ID: a.Name, Key: a.Name, Built: a.Name, Text: a.Doc}
			weak(&r)
			d.Rules = append(d.Rules, r)
		}
		out.Defs = append(out.Defs, d)
		for i := 0; i < 3000; i++ {
			if w := cwe.Get(strconv.Itoa(i)); w != nil {
				out.Entries = append(out.Entries, entry{N: strconv.Itoa(i), ID: w.ID, Name: w.Name, Desc: w.Description, URL: w.SprintURL(), Text: w.SprintID()})
			}
		}
		for _, id := range in.Foreign {
			p := pair{ID: id}
			if w := issue.GetCweByRule(id); w != nil {
				p.Cwe = w.ID
			}
			out.Foreign = append(out.Foreign, p)
		}
		return out, nil
	}
}
