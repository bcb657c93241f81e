// Component driver for the configuration, built inside the core module through an overlay.
package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/spf13/viper"
	"open-match.dev/core/internal/config"
	"verif.local/h/lib"
)

func main() { lib.ChildMain(map[string]func(r *lib.Run){"all": all}) }

// the documented keys, their types and defaults
var keys = []struct {
	name, typ string
	def       any
}{
	{"OM_LOGGING_FORMAT", "format", "json"}, {"OM_LOGGING_LEVEL", "level", "info"},
	{"OM_MATCH_TICKET_DEACTIVATION_WAIT", "bool", false}, {"OM_MAX_STATE_UPDATES_PER_CALL", "int", 500}, {"OM_MMF_TIMEOUT_SECS", "int", 500},
	{"OM_STATE_STORAGE_TYPE", "string", "redis"},
	{"OM_REDIS_POOL_MAX_IDLE", "int", 500}, {"OM_REDIS_POOL_MAX_ACTIVE", "int", 500}, {"OM_REDIS_POOL_IDLE_TIMEOUT", "duration", time.Duration(0)},
	{"OM_REDIS_WRITE_HOST", "string", "127.0.0.1"}, {"OM_REDIS_WRITE_PORT", "int", 6379}, {"OM_REDIS_WRITE_USER", "string", "default"}, {"OM_REDIS_WRITE_PASSWORD", "string", "om-redis"},
	{"OM_REDIS_READ_HOST", "string", "127.0.0.1"}, {"OM_REDIS_READ_PORT", "int", 6379}, {"OM_REDIS_READ_USER", "string", "default"}, {"OM_REDIS_READ_PASSWORD", "string", "om-redis"},
	{"OM_CACHE_IN_MAX_UPDATES_PER_POLL", "int", 10000}, {"OM_CACHE_IN_WAIT_TIMEOUT_MS", "int", 1500},
	{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD", "int", 50}, {"OM_CACHE_OUT_WAIT_TIMEOUT_MS", "int", 500},
	{"OM_CACHE_TICKET_TTL_SECS", "int", 600}, {"OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS", "int", 600},
	{"OM_OTEL_COLLECTOR_HOST", "string", "localhost"}, {"OM_OTEL_COLLECTOR_PORT", "int", 4317},
	{"PORT", "int", 8080}, {"K_SERVICE", "string", "open_match_core"}, {"K_REVISION", "string", "open_match_core_rev.1"}, {"K_CONFIGURATION", "string", "open_match_core_cfg"},
	{"OM_VERBOSE", "bool", false},
}

func get(c *viper.Viper, name, typ string) any {
	switch typ {
	case "int":
		if x := c.GetInt64(name); x != int64(c.GetInt(name)) {
			return fmt.Sprint("GetInt64 ", x)
		}
		if x := c.GetString(name); x != strconv.Itoa(c.GetInt(name)) {
			return "GetString " + x
		}
		return c.GetInt(name)
	case "bool":
		return c.GetBool(name)
	case "duration":
		return c.GetDuration(name)
	}
	return c.GetString(name)
}

func value(rng *rand.Rand, typ string) (string, any) {
	switch typ {
	case "int":
		n := lib.Pick(rng, []int{0, 1, 2, -1, 7, 80, 500, 10000, 65535, 1 << 31, 1<<62 + 1, rng.Intn(1 << 30)})
		return strconv.Itoa(n), n
	case "bool":
		s := lib.Pick(rng, []string{"true", "false", "1", "0", "T", "F", "TRUE", "False"})
		b, _ := strconv.ParseBool(s)
		return s, b
	case "duration":
		d := time.Duration(rng.Intn(1000)) * lib.Pick(rng, []time.Duration{time.Millisecond, time.Second, time.Minute})
		return d.String(), d
	case "format":
		s := lib.Pick(rng, []string{"json", "text", "stackdriver", "JSON", "Text"})
		return s, s
	case "level":
		s := lib.Pick(rng, []string{"trace", "debug", "info", "warn", "warning", "error", "fatal", "panic", "Debug", "ERROR", "INFO"})
		return s, s
	}
	s := lib.Pick(rng, []string{"a", " ", "127.0.0.1", "redis.example.com", "pässword \"x\"", "a=b", "500", "true", "a,b", "0", "${HOME}", "x\ny", "memory", strings.Repeat("l", 3000)})
	return s, s
}

func all(r *lib.Run) {
	logrus.SetOutput(io.Discard)
	rng := r.Rng("config")
	for _, k := range keys {
		os.Unsetenv(k.name)
	}
	for n := 0; n < r.N(6000, 60000); n++ {
		set := map[string]string{}
		want := map[string]any{}
		p := lib.Pick(rng, []int{0, 1, 10, 50, 100})
		if n <= len(keys) { // nothing set, then every variable by itself
			p = 0
		}
		for i, k := range keys {
			want[k.name] = k.def
			if rng.Intn(100) < p || n == i+1 {
				set[k.name], want[k.name] = value(rng, k.typ)
				os.Setenv(k.name, set[k.name])
			} else {
				os.Unsetenv(k.name)
			}
		}
		// variables of other names have no influence
		other := lib.Pick(rng, []string{"OM_PORT", "om_max_state_updates_per_call", "LOGGING_LEVEL", "REDIS_WRITE_HOST", "OM_REDIS_HOST", "VIPER_PORT"})
		os.Setenv(other, "31")
		c := config.Read()
		for _, k := range keys {
			if got := get(c, k.name, k.typ); !reflect.DeepEqual(got, want[k.name]) {
				r.Violate("a configuration variable has another value than documented or set", map[string]any{"key": k.name, "got": fmt.Sprint(got), "want": fmt.Sprint(want[k.name]), "environment": set})
			}
			r.Count("values_read", 1)
		}
		// logging takes effect
		lvl := map[string]logrus.Level{"trace": logrus.TraceLevel, "debug": logrus.DebugLevel, "info": logrus.InfoLevel, "warn": logrus.WarnLevel, "warning": logrus.WarnLevel, "error": logrus.ErrorLevel, "fatal": logrus.FatalLevel, "panic": logrus.PanicLevel}[strings.ToLower(want["OM_LOGGING_LEVEL"].(string))]
		if logrus.GetLevel() != lvl {
			r.Violate("the logging level is not the configured one", map[string]any{"configured": want["OM_LOGGING_LEVEL"], "level": logrus.GetLevel().String(), "environment": set})
		}
		ft := fmt.Sprintf("%T", logrus.StandardLogger().Formatter)
		ok := false
		switch strings.ToLower(want["OM_LOGGING_FORMAT"].(string)) {
		case "json":
			ok = ft == "*logrus.JSONFormatter"
		case "text":
			ok = ft == "*logrus.TextFormatter"
		case "stackdriver":
			ok = ft != "*logrus.JSONFormatter" && ft != "*logrus.TextFormatter"
		}
		if !ok {
			r.Violate("the logging format is not the configured one", map[string]any{"configured": want["OM_LOGGING_FORMAT"], "formatter": ft, "environment": set})
		}
		os.Unsetenv(other)
		r.Eval(len(set) > 0 || n == 0, fmt.Sprint(set))
		if n%1000 == 3 {
			r.Sample(map[string]any{"environment": len(set), "first": fmt.Sprint(lib.SortedKeys(set))})
		}
	}
}
