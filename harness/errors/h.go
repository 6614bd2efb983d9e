package errors

import stderrors "errors"

// verifChain reports whether the error made from e leads back to e by unwrapping.
func verifChain(e StandardError, v ...interface{}) (r error, leads bool) {
	r = e.WithArgs(v...)
	x := r
	if s, ok := x.(StandardError); ok && s == e {
		return r, true
	}
	for i := 0; i < 3; i++ {
		if x == nil {
			return r, false
		}
		x = stderrors.Unwrap(x)
		if s, ok := x.(StandardError); ok && s == e {
			return r, true
		}
	}
	return r, false
}
