package lib

import (
	"reflect"
	"runtime"
	"time"

	"google.golang.org/grpc/backoff"
)

func lockThread() { runtime.LockOSThread() }

var fastBackoff = backoff.Config{BaseDelay: 20 * time.Millisecond, Multiplier: 1.5, MaxDelay: time.Second}

// StringField returns the named string field of the struct p points to, if it
// has such a field.
func StringField(p any, name string) (string, bool) {
	f := reflect.ValueOf(p).Elem().FieldByName(name)
	if !f.IsValid() || f.Kind() != reflect.String {
		return "", false
	}
	return f.String(), true
}
