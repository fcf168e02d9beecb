// mandosmon watches the scenario language (P23) and the scenario runner (P24).
package main

import (
	"verif/harness/run"
)

func main() {
	run.Main([]*run.Prop{p23, p24})
}
