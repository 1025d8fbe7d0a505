// Command replayscan runs the harnesses of package scan natively. It is built with an overlay that makes aminoscan a
// package.
package main

import (
	"aminoharness/replaymain"
	"aminoharness/scan"
)

func main() { replaymain.Main(scan.Table) }
