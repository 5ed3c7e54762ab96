package harness

import (
	"simverif/pub"
	"time"

	"simverif/simnet"
	"simverif/simrt"
)

// serie is everything that follows one connection request of the application.
type serie struct {
	first int   // index of its first attempt
	stop  int64 // when the application ended it (0: not yet)
	stopN int   // attempts begun by then
	ret   int64 // when the request returned
	err   error
	task  int  // that makes the first attempts
	own   bool // an attempt of this series has connected
}

// backoff is the documented delay before the k-th retry.
func (h *H) backoff(k int) int64 {
	c := h.sc.Cfg
	d, max := int64(c.RetryInterval), int64(c.MaxRetryInterval)
	for i := 1; i < k && d < max; i++ {
		d *= 2
	}
	if d > max {
		d = max
	}
	return d * ms
}

// late is how much later than the ideal time an attempt may start.
func (h *H) late() int64 {
	if h.sc.Strat.PStall == 0 && h.sc.App.EventSlow == 0 && h.sc.App.Slow == 0 {
		return 2*sec + 4*h.sc.Net.LatMax + 4*h.sc.Net.LookupWait
	}
	return h.slack() + 10*h.sc.App.EventSlow + 10*h.sc.App.SlowMax + 4*h.sc.Net.LookupWait
}

// continued tells whether the subscriber confirmed something, which it does only after the publisher's response.
func (pc *PConn) continued() bool {
	for _, c := range pc.rx {
		switch c.code {
		case pub.CmdConfirmNotify, pub.CmdConfirmBlock, pub.CmdConfirmBaseTime, pub.CmdConfirmCache, pub.CmdConfirmKeys:
			return true
		}
	}
	return false
}

// checkRetries compares all connection attempts of the run with the retry rules.
func (h *H) checkRetries() {
	c := h.sc.Cfg
	limit := int(c.MaxRetries)
	for i, s := range h.series {
		end := len(h.dialRecs)
		if i+1 < len(h.series) {
			end = h.series[i+1].first
		}
		if s.stop > 0 && s.stopN < end {
			end = s.stopN
		}
		ds := h.dialRecs[s.first:end]
		k := 0         // attempts since the count was fresh; the first one is not a retry
		var base int64 // end of the last failure
		known := false // base is known
		lastGood := false
		for j, d := range ds {
			if j == 0 {
				k = 1
			} else {
				if lastGood {
					if !c.AutoReconnect {
						h.fail("C10", "request %d: another attempt after a loss although automatic reconnection is off", i)
						return
					}
				}
				want := h.backoff(k)
				k++
				h.evals++
				if limit >= 0 && k > limit+1 {
					h.fail("C10", "request %d: retry %d although at most %d are configured", i, k-1, limit)
					return
				}
				if known {
					gap := d.Start - base
					if gap < want {
						h.fail("C10", "request %d: retry %d came %s after the failure, expected a delay of %s", i, k-1, time.Duration(gap), time.Duration(want))
						return
					}
					if gap > want+h.late() {
						h.fail("C10", "request %d: retry %d came %s after the failure, expected a delay of %s", i, k-1, time.Duration(gap), time.Duration(want))
						return
					}
					h.probe("retry delay compared")
					if k > 3 {
						h.probe("third or later retry compared")
					}
					if want == int64(c.MaxRetryInterval)*ms && k > 2 {
						h.probe("retry at the longest delay")
					}
				}
			}
			base, known, lastGood = d.End, !d.Pending, false
			if d.OK {
				pc := h.pcOf(d.Conn)
				if pc == nil {
					return
				}
				lastGood = true
				base, known = pc.brokenAt, pc.brokenAt > 0
				if !pc.refused {
					k = 1
				} else {
					h.probe("refused by the publisher")
				}
				if !pc.validSent || !pc.refused && pc.deliv == 0 && !pc.continued() {
					// Perhaps lost before it became a good connection: not specified.
					return
				}
			}
		}
		if len(ds) == 0 {
			continue
		}
		// Did it give up too early?
		end2 := s.stop
		if end2 == 0 {
			end2 = simrt.Now()
		}
		if !known || lastGood && !c.AutoReconnect {
			continue
		}
		due := base + h.backoff(k) + h.late()
		if end2 > due && (limit < 0 || k < limit+1) {
			h.fail("C10", "request %d: no further attempt after %d (last failure %s, waited until %s)", i, k, time.Duration(base), time.Duration(end2))
			return
		}
		if limit >= 0 && k == limit+1 && end2 > due {
			h.probe("retries exhausted")
			h.evals++
			if !lastGood && len(ds) == limit+1 && s.ret > 0 && s.err == nil && allFailed(ds) {
				h.fail("C10", "request %d: every attempt failed but the request reported success", i)
			}
			if h.app.lastMsg < base {
				h.fail("C10", "request %d: giving up was not reported", i)
			}
		}
	}
}

func allFailed(ds []*simnet.DialRecord) bool {
	for _, d := range ds {
		if d.OK {
			return false
		}
	}
	return true
}
