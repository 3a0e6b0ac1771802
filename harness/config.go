package main

import (
	"bytes"
	"encoding/json"
	"strings"

	"github.com/securego/gosec/v2"
)

// config: histories of one configuration object; after each step its answers.
func init() {
	modes["config"] = func(req []byte) (any, error) {
		var in struct {
			Histories [][]struct {
				Op   string
				Text string // document to read
				K, V string
			}
			Opts, Secs []string
			Docs       []string // documents which have to be refused
		}
		if err := json.Unmarshal(req, &in); err != nil {
			return nil, err
		}
		type ans struct {
			K   string `json:"k"`
			Has bool   `json:"has"`
			V   string `json:"v"`
			On  bool   `json:"on"`
		}
		type step struct {
			Refused bool  `json:"refused"`
			Opts    []ans `json:"opts"`
			Secs    []ans `json:"secs"`
		}
		out := struct {
			Histories [][]step `json:"histories"`
			Accepted  []string `json:"accepted"`
		}{Accepted: []string{}}
		for _, h := range in.Histories {
			c := gosec.NewConfig()
			steps := []step{}
			for _, o := range h {
				s := step{Opts: []ans{}, Secs: []ans{}}
				switch o.Op {
				case "read":
					n, err := c.ReadFrom(strings.NewReader(o.Text))
					s.Refused = err != nil || n != int64(len(o.Text))
				case "global":
					c.SetGlobal(gosec.GlobalOption(o.K), o.V)
				case "section":
					var v any
					if err := json.Unmarshal([]byte(o.V), &v); err != nil {
						return nil, err
					}
					c.Set(o.K, v)
				case "reload":
					var b bytes.Buffer
					n, err := c.WriteTo(&b)
					if err != nil || n != int64(b.Len()) {
						s.Refused = true
						break
					}
					d := gosec.NewConfig()
					if _, err := d.ReadFrom(&b); err != nil {
						s.Refused = true
						break
					}
					c = d
				}
				for _, k := range in.Opts {
					v, err := c.GetGlobal(gosec.GlobalOption(k))
					on, err2 := c.IsGlobalEnabled(gosec.GlobalOption(k))
					s.Opts = append(s.Opts, ans{k, err == nil, v, on && err2 == nil})
				}
				for _, k := range in.Secs {
					v, err := c.Get(k)
					t := ""
					if err == nil {
						b, e := json.Marshal(v)
						if e != nil {
							return nil, e
						}
						t = string(b)
					}
					s.Secs = append(s.Secs, ans{k, err == nil, t, false})
				}
				steps = append(steps, s)
			}
			out.Histories = append(out.Histories, steps)
		}
		for _, d := range in.Docs {
			if _, err := gosec.NewConfig().ReadFrom(strings.NewReader(d)); err == nil {
				out.Accepted = append(out.Accepted, d)
			}
		}
		return out, nil
	}
}
