// ext replays on pkg/extensions the scenarios given by the specification, and
// records executions for it.
package main

import "verifharness/core"

func main() {
	core.Main(map[string]core.Mode{
		"subscription": subscriptionMode,
		"substress":    subStressMode,
	})
}
