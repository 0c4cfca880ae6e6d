// wire replays on generated packages the scenarios about what is on the wire.
package main

import "verifharness/core"

func main() {
	core.Main(map[string]core.Mode{
		"api":      apiMode,
		"echo":     echoMode,
		"validate": validateMode,
	})
}
