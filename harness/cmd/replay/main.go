// Command replay runs the harnesses of package h natively.
package main

import (
	"aminoharness/h"
	"aminoharness/replaymain"
)

func main() { replaymain.Main(h.Table) }
