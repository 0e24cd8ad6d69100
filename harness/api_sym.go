package main

// Primitives of the symbolic executor. The engine replaces every body; the
// native build uses api_native.go instead.

func vByte() byte                   { return 0 }
func vByteIn(set string) byte       { return 0 }
func vStr(n int) string             { return "" }
func vStrIn(n int, s string) string { return "" }
func vChoice(n int) int             { return 0 }
func vBool() bool                   { return false }
func vAssume(c bool)                {}
func vAssert(c bool, msg string)    {}

// vFinding ends a path on which a listed known finding was observed.
func vFinding(id string)  {}
func vReach(label string) {}
func vObs(s string)       {}
func vObsInt(i int)       {}
func vMapOrders(on bool)  {}

// vPar runs f and g concurrently, in every order of their lock operations that
// takes the processor from a goroutine at most the given number of times.
func vPar(switches int, f, g func()) {}
func vThorough() bool                { return false }
func vNative() bool                  { return false }

func main() {}
