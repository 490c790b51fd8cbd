package simhook

// Words and Ints are the string and integer constants of the code under test,
// one list per source file. The build overlay of check.sh fills them in.
var Words [][]string

var Ints [][]int64
