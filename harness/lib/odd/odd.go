// Package odd has values of kinds that code may treat in a special way.
package odd

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
)

type typed struct{ s string }

func (t *typed) Error() string { return t.s }

type named string

func (n named) String() string { return "x" }

var first = errors.New("x")

// Values are different from each other, by Index.
var Values = []any{first, errors.New("x"), "x", named("x"), fmt.Errorf("%w", first), context.Canceled, context.DeadlineExceeded, io.EOF, (*typed)(nil), &typed{"x"},
	[]any{1, 2}, []any{}, []any(nil), []any{nil}, []int{1, 2}, []error{first}, map[string]int{"x": 1}, func() {}, func() error { return first }, (func())(nil), (chan any)(nil), (<-chan any)(nil),
	new(int), new(int), (*int)(nil), math.NaN(), math.Inf(1), 0, int64(0), uint8(0), 0.0, "", false, true, struct{}{}, struct{ A []int }{nil}, [2]int{1, 2}, 'x', [1]any{nil}, reflect.TypeOf(0)}

func same(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Type() != y.Type() {
		return false
	}
	switch x.Kind() {
	case reflect.Func, reflect.Ptr, reflect.Chan:
		return x.Pointer() == y.Pointer()
	case reflect.Float64:
		return math.Float64bits(x.Float()) == math.Float64bits(y.Float())
	}
	return reflect.DeepEqual(a, b)
}

// Index is the number of v among Values, -1 if it is nil, -2 if it is none of them.
func Index(v any) int {
	if v == nil {
		return -1
	}
	for i, w := range Values {
		if same(v, w) {
			return i
		}
	}
	return -2
}

// At is value number i; nil for -1.
func At(i int) any {
	if i < 0 {
		return nil
	}
	return Values[i]
}

// Name shows value number i.
func Name(i int) string {
	if i == -2 {
		return "another value"
	}
	v := At(i)
	if k := reflect.ValueOf(v).Kind(); k == reflect.Ptr || k == reflect.Func {
		return fmt.Sprintf("#%d %T", i, v)
	}
	return fmt.Sprintf("#%d %#v", i, v)
}

// Comparable says whether value number i can be a key that is found again.
func Comparable(i int) bool {
	v := At(i)
	return i < 0 || reflect.TypeOf(v).Comparable() && v == v
}
