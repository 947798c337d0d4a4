// Package zreset is replaced by the instrumenter: All resets the variables of every
// instrumented package.
package zreset

// All gives every instrumented package fresh package variables.
func All() {}
