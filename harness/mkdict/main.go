// mkdict writes the baseline of package dict from the current tree.
package main

import (
	"encoding/json"
	"os"

	"vertexverif/dict"
)

func main() {
	b, err := json.MarshalIndent(dict.Harvest(dict.Root), "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile("dict/baseline.json", append(b, '\n'), 0o644); err != nil {
		panic(err)
	}
}
