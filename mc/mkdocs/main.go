// mkdocs prints the documents of the packages of a property, as JSON.
package main

import (
	"encoding/json"
	"os"

	"verifmc/sch"
)

func main() {
	type pkg struct {
		Name    string
		Version int
		Args    []string
		Doc     any
	}
	var out []pkg
	for _, p := range sch.Packages(os.Args[1]) {
		out = append(out, pkg{p.Name, p.Version, p.Args, p.Doc()})
	}
	if err := json.NewEncoder(os.Stdout).Encode(out); err != nil {
		panic(err)
	}
}
