package ctl

import (
	"context"
	"errors"
	"fmt"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
)

// Crash panics with a value of the kind n.
func Crash(n int) {
	switch n % 7 {
	case 0:
		panic("boom")
	case 1:
		panic(errors.New("boom"))
	case 2:
		var m map[string]int
		m["boom"] = 1
	case 3:
		panic(struct{ A string }{"boom"})
	case 4:
		panic(fmt.Errorf("boom: %w", extensions.ErrAsyncAPI))
	case 5:
		panic(fmt.Errorf("boom: %w", context.Canceled))
	case 6:
		var s []string
		_ = s[n]
	}
}

// Crashed are the texts of these values.
var Crashed = []string{"boom", "assignment to entry in nil map", "index out of range"}

// Failure is an error that is also another one, of the kind n.
func Failure(err error, n int) error {
	switch n % 5 {
	case 1:
		return fmt.Errorf("%w: %w", err, context.Canceled)
	case 2:
		return fmt.Errorf("%w: %w", err, extensions.ErrAsyncAPI)
	case 3:
		return fmt.Errorf("%w: %w", err, extensions.ErrSubscriptionCanceled)
	case 4:
		return fmt.Errorf("%w: %w", err, context.DeadlineExceeded)
	}
	return err
}
