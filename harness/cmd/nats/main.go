// nats replays on pkg/extensions/brokers/nats and natsjetstream the scenarios
// given by the specifications, against a server that follows a script.
package main

import "verifharness/core"

func main() {
	core.Main(map[string]core.Mode{
		"nats":       natsMode,
		"natsstress": natsStressMode,
		"jetstream":  jsMode,
		"match":      matchMode,
		"setup":      setupMode,
		"jsstress":   jsStressMode,
	})
}
