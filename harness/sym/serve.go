package sym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

type req struct {
	Harness   string
	Inputs    map[string]int64
	Reps      int
	Thorough  bool
	TimeoutMs int
}

type res struct {
	Kind string
	Msg  string
	Obs  map[string]string
}

// Serve answers replay requests: JSON lines on descriptor 3, results on 4.
func Serve(hs map[string]func()) {
	rd := bufio.NewReaderSize(os.NewFile(3, "in"), 1<<20)
	wr := os.NewFile(4, "out")
	put := func(r res) {
		b, _ := json.Marshal(r)
		wr.Write(append(b, '\n'))
	}
	scratch, _ = ioutil.TempDir(os.Getenv("ZZSCRATCH"), "s")
	jitter = os.Getenv("ZZJITTER") != ""
	rand.Seed(int64(os.Getpid()))
	for {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			os.RemoveAll(scratch)
			os.Exit(0)
		}
		var q req
		if json.Unmarshal(line, &q) != nil {
			os.Exit(3)
		}
		f := hs[q.Harness]
		if f == nil {
			put(res{Kind: "missing"})
			continue
		}
		var r res
		t0 := time.Now()
		for i := 0; i == 0 || i < q.Reps && time.Since(t0) < 20*time.Second; i++ {
			os.RemoveAll(scratch)
			os.MkdirAll(scratch, 0755)
			in, thorough = q.Inputs, q.Thorough
			nth, obs, nobs = map[string]int{}, map[string]string{}, map[string]int{}
			done := make(chan res, 1)
			go func() { done <- one(f) }()
			lim := time.After(time.Duration(q.TimeoutMs) * time.Millisecond)
			tick := time.NewTicker(100 * time.Millisecond)
		wait:
			for {
				select {
				case r = <-done:
					break wait
				case <-lim:
					put(res{Kind: "hang", Msg: "no result within the replay time limit"})
					os.Exit(0)
				case <-tick.C:
					var m runtime.MemStats
					runtime.ReadMemStats(&m)
					if m.HeapAlloc > 2<<30 {
						put(res{Kind: "hang", Msg: "replay allocated more than 2 GB"})
						os.Exit(0)
					}
				}
			}
			tick.Stop()
			if r.Kind != "ok" {
				break
			}
		}
		put(r)
	}
}

func one(f func()) (r res) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case fail:
				r = res{Kind: "assert", Msg: x.msg}
			case assumeFail:
				r = res{Kind: "assume"}
			default:
				r = res{Kind: "panic", Msg: fmt.Sprint(e)}
				if os.Getenv("ZZVERIF_STACK") != "" {
					r.Msg += "\n" + string(debug.Stack())
				}
			}
		}
		r.Obs = obs
	}()
	f()
	return res{Kind: "ok"}
}
