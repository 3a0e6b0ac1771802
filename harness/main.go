// Command gv exercises gosec's public Go API for the checks: gv MODE REQUEST RESPONSE
package main

import (
	"encoding/json"
	"fmt"
	"os"
)

var modes = map[string]func(req []byte) (any, error){}

func main() {
	if len(os.Args) != 4 {
		fmt.Fprintln(os.Stderr, "usage: gv MODE REQUEST RESPONSE")
		os.Exit(2)
	}
	f, ok := modes[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such mode")
		os.Exit(2)
	}
	req, err := os.ReadFile(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	resp, err := f(req)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gv:", err)
		os.Exit(3)
	}
	b, err := json.Marshal(resp)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gv:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(os.Args[3], b, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, "gv:", err)
		os.Exit(3)
	}
}
