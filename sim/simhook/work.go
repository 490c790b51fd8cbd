package simhook

import (
	"bytes"
	"crypto/sha1"
	"slices"
	"sort"
	"strings"
)

// WorkHook is told how many bytes or elements a standard library function is
// about to go over, or has gone over: what the statement hook cannot see.
var WorkHook func(n int)

func work(n int) {
	if h := WorkHook; h != nil {
		h(n)
	}
}

// upTo is the work of a search through n that ended at i.
func upTo(i, n int) {
	if i < 0 {
		i = n
	}
	work(i + 1)
}

// Copy replaces copy.
func Copy[D ~[]E, S ~[]E, E any](d D, s S) int {
	n := copy(d, s)
	work(n)
	return n
}

// CopyString replaces copy from a string.
func CopyString[D ~[]byte, S ~string](d D, s S) int {
	n := copy(d, s)
	work(n)
	return n
}

// Slice stands around what append copies.
func Slice[S ~[]E, E any](s S) S { work(len(s)); return s }

// String stands around a string that append copies.
func String[S ~string](s S) S { work(len(s)); return s }

// The functions below replace those of the same name.

func BytesContains(b, x []byte) bool { i := bytes.Index(b, x); upTo(i, len(b)); return i >= 0 }
func BytesCount(b, x []byte) int     { work(len(b)); return bytes.Count(b, x) }
func BytesIndex(b, x []byte) int     { i := bytes.Index(b, x); upTo(i, len(b)); return i }
func BytesIndexByte(b []byte, c byte) int {
	i := bytes.IndexByte(b, c)
	upTo(i, len(b))
	return i
}
func BytesLastIndex(b, x []byte) int {
	i := bytes.LastIndex(b, x)
	work(len(b) - max(i, 0))
	return i
}
func BytesLastIndexByte(b []byte, c byte) int {
	i := bytes.LastIndexByte(b, c)
	work(len(b) - max(i, 0))
	return i
}
func BytesEqual(a, b []byte) bool {
	if len(a) == len(b) {
		work(len(a))
	}
	return bytes.Equal(a, b)
}
func BytesHasPrefix(b, x []byte) bool {
	if len(b) >= len(x) {
		work(len(x))
	}
	return bytes.HasPrefix(b, x)
}
func BytesCompare(a, b []byte) int { work(min(len(a), len(b))); return bytes.Compare(a, b) }
func BytesToLower(b []byte) []byte { work(len(b)); return bytes.ToLower(b) }
func BytesToUpper(b []byte) []byte { work(len(b)); return bytes.ToUpper(b) }
func BytesSplit(b, x []byte) [][]byte {
	work(len(b))
	return bytes.Split(b, x)
}
func BytesFields(b []byte) [][]byte { work(len(b)); return bytes.Fields(b) }

func StringsContains(b, x string) bool { i := strings.Index(b, x); upTo(i, len(b)); return i >= 0 }
func StringsCount(b, x string) int     { work(len(b)); return strings.Count(b, x) }
func StringsIndex(b, x string) int     { i := strings.Index(b, x); upTo(i, len(b)); return i }
func StringsIndexByte(b string, c byte) int {
	i := strings.IndexByte(b, c)
	upTo(i, len(b))
	return i
}
func StringsLastIndex(b, x string) int {
	i := strings.LastIndex(b, x)
	work(len(b) - max(i, 0))
	return i
}
func StringsLastIndexByte(b string, c byte) int {
	i := strings.LastIndexByte(b, c)
	work(len(b) - max(i, 0))
	return i
}
func StringsHasPrefix(b, x string) bool {
	if len(b) >= len(x) {
		work(len(x))
	}
	return strings.HasPrefix(b, x)
}
func StringsToLower(b string) string    { work(len(b)); return strings.ToLower(b) }
func StringsToUpper(b string) string    { work(len(b)); return strings.ToUpper(b) }
func StringsSplit(b, x string) []string { work(len(b)); return strings.Split(b, x) }
func StringsFields(b string) []string   { work(len(b)); return strings.Fields(b) }
func StringsJoin(l []string, x string) string {
	s := strings.Join(l, x)
	work(len(s))
	return s
}

func SlicesContains[S ~[]E, E comparable](s S, v E) bool {
	i := slices.Index(s, v)
	upTo(i, len(s))
	return i >= 0
}
func SlicesIndex[S ~[]E, E comparable](s S, v E) int {
	i := slices.Index(s, v)
	upTo(i, len(s))
	return i
}
func SlicesInsert[S ~[]E, E any](s S, i int, v ...E) S {
	work(len(s) - i + len(v))
	return slices.Insert(s, i, v...)
}
func SlicesDelete[S ~[]E, E any](s S, i, j int) S {
	work(len(s) - i)
	return slices.Delete(s, i, j)
}
func SlicesReverse[S ~[]E, E any](s S) { work(len(s)); slices.Reverse(s) }
func SlicesEqual[S ~[]E, E comparable](a, b S) bool {
	if len(a) == len(b) {
		work(len(a))
	}
	return slices.Equal(a, b)
}

func SortStrings(x []string) { work(len(x)); sort.Strings(x) }

func Sha1Sum(b []byte) [20]byte { work(len(b)); return sha1.Sum(b) }
