// ver replays on pkg/extensions/versioning the scenarios given by the
// specification, and records executions for it.
package main

import "verifharness/core"

func main() {
	core.Main(map[string]core.Mode{
		"versioning": walkMode,
		"verstress":  stressMode,
		"verpublish": publishMode,
	})
}
