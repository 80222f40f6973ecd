package checks

import "strings"

func init() {
	register("C01", func(c *Ctx) {
		c.concurrency(Linux, "send/")
		c.filter(true)
	})
	register("C02", func(c *Ctx) {
		c.concurrency(Linux, "barrier/")
		// When Stop returns, the registrations are gone.
		c.Keep = func(rule string) bool {
			return rule == "stop/left" || rule == "stop/skipped" || rule == "stop/unvisited"
		}
		if r := c.newTreeRun(perdir, "stop"); r != nil {
			r.stop(false, false)
		}
		c.Keep = nil
	})
	register("C04", func(c *Ctx) { c.concurrency(Linux, "guard/") })
	register("C05", func(c *Ctx) { c.concurrency(Linux, "lock/") })
	register("C06", func(c *Ctx) { c.concurrency(Linux, "wait/", "order/") })
	register("C19", func(c *Ctx) {
		c.concurrency(Linux, "pump/")
		// No content of an event makes a pump panic.
		c.Keep = func(rule string) bool {
			return strings.HasSuffix(rule, "/panic") || strings.HasSuffix(rule, "/ends")
		}
		checkParse(c)
		if r := c.newTreeRun(perdir, "tree"); r != nil {
			r.follow("create", "", false, false)
			r.follow("remove", "/a", false, false)
			r.dispatch()
		}
		c.Keep = nil
		c.inotifyPump()
	})
	register("C20", func(c *Ctx) {
		c.concurrency(Linux, "close/")
		c.inotifyLife("down")
	})
}
