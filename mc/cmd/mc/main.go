// Command mc runs one property's check.
package main

import (
	"verif.local/mc/core"
	_ "verif.local/mc/props/fsu"
	_ "verif.local/mc/props/streams"
	_ "verif.local/mc/props/tarp"
	_ "verif.local/mc/props/vr"
)

func main() { core.Main() }
