// Package vcost counts the steps of instrumented code.
package vcost

// N is the number of loop iterations begun, plus the bytes that calls into
// bytes, strings and unicode/utf8, copies and conversions go over.
var N int

// Tick counts an iteration.
func Tick() { N++ }

// Cost counts the length of a string or byte slice.
func Cost[T any](x T) T {
	switch v := any(x).(type) {
	case string:
		N += len(v)
	case []byte:
		N += len(v)
	}
	return x
}
