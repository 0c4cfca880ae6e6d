// kafka replays on pkg/extensions/brokers/kafka the scenarios given by the
// specifications, against a broker that follows a script.
package main

import "verifharness/core"

func main() {
	core.Main(map[string]core.Mode{
		"kafka":   kafkaMode,
		"options": optionsMode,
		"topic":   topicMode,
	})
}
