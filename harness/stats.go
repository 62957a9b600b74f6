package j8a

import (
	"encoding/json"
	"fmt"
	"testing"
	"time"
)

// Driver for the history of resource samples (spec Stats).

func init() {
	vvDrivers["stats"] = vvStats
}

type vvSample struct {
	Pid int32  `json:"pid"`
	Rss uint64 `json:"rss"`
	Tag int64  `json:"tag"`
}

type vvStatOp struct {
	Do   string // append, held, report
	S    vvSample
	More []vvSample
}

type vvGrowth struct {
	V    float64 `json:"v"`
	High bool    `json:"high"`
}

type vvStatsRec struct {
	Held    [][]vvSample `json:"held"`
	Reports [][]vvGrowth `json:"reports"`
	Panic   string       `json:"panic"`
}

func vvStats(t *testing.T) {
	vvEachCase(t, func(raw json.RawMessage) interface{} {
		var c struct {
			Start []vvSample
			Ops   []vvStatOp
		}
		json.Unmarshal(raw, &c)
		real := func(s vvSample) sample {
			return sample{pid: s.Pid, rssBytes: s.Rss, time: time.Unix(s.Tag, 0), mPc: float32(s.Tag % 3)}
		}
		var rec vvStatsRec
		func() {
			defer func() {
				if e := recover(); e != nil {
					rec.Panic = fmt.Sprint(e)
				}
			}()
			history := samples{}
			for _, s := range c.Start {
				history = append(history, real(s))
			}
			for _, op := range c.Ops {
				switch op.Do {
				case "append":
					history.append(real(op.S))
				case "held":
					h := []vvSample{}
					for _, s := range history {
						h = append(h, vvSample{s.pid, s.rssBytes, s.time.Unix()})
					}
					rec.Held = append(rec.Held, h)
				case "report":
					g := []vvGrowth{}
					for _, r := range history.log() {
						v := r.v
						if v != v || v > 1e18 {
							v = -1
						}
						g = append(g, vvGrowth{v, r.high})
					}
					rec.Reports = append(rec.Reports, g)
				}
			}
		}()
		return rec
	})
}

