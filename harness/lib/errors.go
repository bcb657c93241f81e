package lib

import (
	"fmt"
	"sync/atomic"
)

// What a Redis server answers to commands it refuses.
var storageErrors = []string{
	"OOM command not allowed when used memory > 'maxmemory'.",
	"LOADING Redis is loading the dataset in memory",
	"READONLY You can't write against a read only replica.",
	"MISCONF Redis is configured to save RDB snapshots, but it's currently unable to persist to disk.",
	"CLUSTERDOWN The cluster is down",
	"ERR internal",
	"WRONGTYPE Operation against a key holding the wrong kind of value",
	"BUSY Redis is busy running a script. You can only call SCRIPT KILL or SHUTDOWN NOSAVE.",
	"NOREPLICAS Not enough good replicas to write.",
	"NOAUTH Authentication required.",
	"NOPERM this user has no permissions to run the 'xadd' command",
	"MASTERDOWN Link with MASTER is down and replica-serve-stale-data is set to 'no'.",
	"ERR The ID specified in XADD is equal or smaller than the target stream top item",
	"ERR timeout",
	"TRYAGAIN Multiple keys request during rehashing of slot",
	"UNBLOCKED the stream key no longer exists",
	"MOVED 3999 127.0.0.1:6381",
	"EXECABORT Transaction discarded because of previous errors.",
	"NOGROUP No such key",
	"",
	"EOF",
	"nil",
}

var storageErrorN atomic.Int64

// StorageError cycles through the error replies.
func StorageError() string {
	n := storageErrorN.Add(1)
	e := storageErrors[int(n)%len(storageErrors)]
	if e == "" {
		e = fmt.Sprint("ERR ", n)
	}
	return e
}
