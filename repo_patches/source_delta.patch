From f320eeab9221d3c7a0901ec5a66a2400255b95c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 01/34] fix: queue with a capacity of one or less panics when a
 line is added

---
 pkg/monny/proc/queue.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/proc/queue.go b/pkg/monny/proc/queue.go
index bd6dcf9..884e036 100644
--- a/pkg/monny/proc/queue.go
+++ b/pkg/monny/proc/queue.go
@@ -16,6 +16,9 @@ type Queue struct {
 // calls to add without pop will grow the size of the queue.  Use Enqueue to maintain a fixed capacity
 // queue.
 func NewQueue(capacity int) *Queue {
+	if capacity < 0 {
+		capacity = 0
+	}
 	q := make([]string, 0, capacity+1)
 	return &Queue{q: q, capacity: capacity}
 }
@@ -25,8 +28,9 @@ func (q *Queue) add(s string) {
 }
 
 func (q *Queue) pop() string {
+	head := q.q[0]
 	q.q = q.q[1:]
-	return q.q[0]
+	return head
 }
 
 // Add puts the string in the queue, popping the head if the queue is already filled to capacity
@@ -37,7 +41,7 @@ func (q *Queue) Add(s string) {
 	switch {
 	case len(q.q) < q.capacity:
 		q.add(s)
-	default:
+	case q.capacity > 0:
 		_ = q.pop()
 		q.add(s)
 	}
-- 
2.43.0


From e227f59ba186e00b3c2a01ae7e72c050ba778b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 02/34] fix: ticker goroutine spins forever after the event bus
 shuts down

---
 pkg/monny/proc/ticker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/monny/proc/ticker.go b/pkg/monny/proc/ticker.go
index 2e74597..183314d 100644
--- a/pkg/monny/proc/ticker.go
+++ b/pkg/monny/proc/ticker.go
@@ -22,6 +22,7 @@ func NewTicker(d time.Duration, e *eventbus.EventBus, evt eventbus.EventType) {
 				if !open {
 					t.Stop()
 					finished()
+					return
 				}
 
 			case <-t.C:
-- 
2.43.0


From 4ab5e42ecd659f3fc0f31bfbed585b76ae42b069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 03/34] fix: log source that fails while being scanned is
 reported as complete

---
 pkg/monny/proc/logs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/monny/proc/logs.go b/pkg/monny/proc/logs.go
index b971844..b189904 100644
--- a/pkg/monny/proc/logs.go
+++ b/pkg/monny/proc/logs.go
@@ -93,6 +93,9 @@ func startLogEmitter(bus eventbus.EventDispatcher, src source, sinks []sink, don
 			}
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		newError(bus, ScanError{fmt.Errorf("error reading from %s: %v", src.name, err)})
+	}
 }
 
 // Wait will wait for all log sources to finish processing.  Context can can
-- 
2.43.0


From ae2ddeb247aacd3782c022dc09653c5e26ea07d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 04/34] fix: event bus panics or deadlocks on shutdown,
 unsubscribe and slow subscribers

---
 pkg/eventbus/bus.go | 89 +++++++++++++++++++++++++++++++--------------
 1 file changed, 62 insertions(+), 27 deletions(-)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index 3f0ac1a..36fa610 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -24,16 +24,34 @@ const (
 // filter which events they respond to rather than configuring multiple topics.
 type EventBus struct {
 	subscribers map[Topic][]chan Event
+	outlets     map[chan Event]*outlet
 	done        []chan struct{}
 	mutex       sync.RWMutex
 	sdStarted   bool
 }
 
+// outlet tracks the sends in progress on one subscriber's event channel so that the channel is closed exactly once
+// and never while an event is being sent on it
+type outlet struct {
+	quit    chan struct{}
+	senders sync.WaitGroup
+}
+
+// close abandons any blocked sends then closes the subscriber's event channel
+func (o *outlet) close(c chan Event) {
+	close(o.quit)
+	o.senders.Wait()
+	// recover in case the channel was closed improperly by the subscriber
+	defer func() { _ = recover() }()
+	close(c)
+}
+
 // New returns a new event bus.  A default topic is created, but subscribers may create other topics
 // when they register.
 func New() *EventBus {
 	return &EventBus{
 		subscribers: make(map[Topic][]chan Event),
+		outlets:     make(map[chan Event]*outlet),
 	}
 }
 
@@ -72,6 +90,7 @@ func (e *EventBus) subscribe(topics ...Topic) (chan Event, chan struct{}) {
 	c := make(chan Event, 1)
 	done := make(chan struct{})
 	e.done = append(e.done, done)
+	e.outlets[c] = &outlet{quit: make(chan struct{})}
 
 	// subscribe to the default topic if no topics defined
 	if len(topics) == 0 {
@@ -93,24 +112,36 @@ func (e *EventBus) subscribe(topics ...Topic) (chan Event, chan struct{}) {
 // Unsubscribe removes the subscriber from receiving any more events and closes all its channels
 func (e *EventBus) Unsubscribe(c chan Event, done chan struct{}) {
 	e.mutex.Lock()
-	defer e.mutex.Unlock()
-
+	o, subscribed := e.outlets[c]
+	delete(e.outlets, c)
 	for topic, chs := range e.subscribers {
-		for i, ch := range chs {
-			if ch == c {
-				close(ch)
-				recover()
-				e.subscribers[topic] = append(e.subscribers[topic][0:i], e.subscribers[topic][i+1:]...)
+		kept := []chan Event{}
+		for _, ch := range chs {
+			if ch != c {
+				kept = append(kept, ch)
 			}
 		}
+		e.subscribers[topic] = kept
 	}
-
-	for i, d := range e.done {
+	waiting := false
+	kept := []chan struct{}{}
+	for _, d := range e.done {
 		if d == done {
-			close(d)
-			recover()
-			e.done = append(e.done[0:i], e.done[i+1:]...)
+			waiting = true
+			continue
 		}
+		kept = append(kept, d)
+	}
+	e.done = kept
+	e.mutex.Unlock()
+
+	if subscribed {
+		o.close(c)
+	}
+	if waiting {
+		// recover in case the subscriber has already signalled that it is done
+		defer func() { _ = recover() }()
+		close(done)
 	}
 }
 
@@ -150,12 +181,19 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 				// are still pending events because subscribers are blocking.
 				go func(evt Event, c chan Event) {
 					e.mutex.RLock()
-					defer e.mutex.RUnlock()
-					if e.sdStarted {
+					o, ok := e.outlets[c]
+					if !ok || e.sdStarted {
+						e.mutex.RUnlock()
 						return
 					}
-					defer recover()
-					c <- evt
+					o.senders.Add(1)
+					e.mutex.RUnlock()
+					defer o.senders.Done()
+					defer func() { _ = recover() }()
+					select {
+					case c <- evt:
+					case <-o.quit:
+					}
 				}(event, ch)
 			}
 		}(event, chs)
@@ -168,21 +206,18 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 // successful shutdown.
 func (e *EventBus) Shutdown(ctx context.Context) error {
 	e.mutex.Lock()
-	defer e.mutex.Unlock()
 	e.sdStarted = true
+	outlets := e.outlets
+	e.outlets = make(map[chan Event]*outlet)
+	waiting := append([]chan struct{}{}, e.done...)
+	e.mutex.Unlock()
 
 	done := make(chan struct{})
-	go shutdownNotify(done, append([]chan struct{}{}, e.done...))
+	go shutdownNotify(done, waiting)
 
-	for _, chs := range e.subscribers {
-		for _, ch := range chs {
-			// close all subscriber channels to signal shutdown, recover above in case
-			// one of the channels is closed improperly by subscriber which would cause a panic
-			close(ch)
-			if r := recover(); r != nil {
-				continue
-			}
-		}
+	// close all subscriber channels to signal shutdown
+	for c, o := range outlets {
+		o.close(c)
 	}
 
 	select {
-- 
2.43.0


From e44b4edf489bd2ec14944e7e23263b18b641224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 05/34] fix: Dispatch writes the default topic into the
 caller's slice of topics

---
 pkg/eventbus/bus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index 36fa610..b800bda 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -157,7 +157,7 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 	}
 
 	// always send to the defaultTopic even if other topics specified
-	topics = append(topics, defaultTopic)
+	topics = append(append([]Topic{}, topics...), defaultTopic)
 
 	for _, topic := range topics {
 		// it no subscribers on the topic, silently drop message.  This is probably the behavior we want since
-- 
2.43.0


From edfc1f2eb4e5f1dbe461bb86daed80a207ce1822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 06/34] fix: subscriber registered after shutdown is never told
 to exit

---
 pkg/eventbus/bus.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index b800bda..e2faa9d 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -89,6 +89,13 @@ func (e *EventBus) subscribe(topics ...Topic) (chan Event, chan struct{}) {
 
 	c := make(chan Event, 1)
 	done := make(chan struct{})
+
+	// the bus has already shut down, so signal shutdown to the late subscriber immediately
+	if e.sdStarted {
+		close(c)
+		return c, done
+	}
+
 	e.done = append(e.done, done)
 	e.outlets[c] = &outlet{quit: make(chan struct{})}
 
-- 
2.43.0


From 1afcbe4259129501baee3d1bf2e579b56abf95ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 07/34] fix: every event payload is echoed to stderr

---
 pkg/eventbus/event.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/eventbus/event.go b/pkg/eventbus/event.go
index 0675460..dce936c 100644
--- a/pkg/eventbus/event.go
+++ b/pkg/eventbus/event.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
-	"log"
 )
 
 // EventType represents the type of event being passed on the bus.  It allows handlers receiving the event to
@@ -46,8 +45,6 @@ func NewEvent(t EventType, data interface{}) (Event, error) {
 			return Event{}, fmt.Errorf("failed to create event %s: %v", t, err)
 		}
 	}
-
-	log.Printf("encoded: %v", string(b.Bytes()))
 	return Event{t: t, d: b.Bytes()}, nil
 }
 
-- 
2.43.0


From c8c69f2431c20b8c42c2c45c5f48baf9fa077726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 08/34] fix: observation recorded in the reset state is tested
 against a stale limit

---
 pkg/stat/estimator.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index a9cce8d..ff7fd5b 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -44,7 +44,7 @@ func (e *TestStatistic) Record(o float64) error {
 	switch e.fsm.State() {
 	case Reset:
 		// reset assumes that estimator should be restarted from steady state non-alarmed condition
-		// and next transition should be to testing the UCL
+		// and next transition should be to collecting a new baseline for the UCL
 		if err := e.fsm.Transition(UCLInitial); err != nil {
 			return err
 		}
@@ -55,6 +55,19 @@ func (e *TestStatistic) Record(o float64) error {
 			e.series.Record(o)
 		}
 		fallthrough
+	case UCLInitial:
+		if e.series.Count() >= e.series.Capacity() {
+			values := e.series.Values()
+			mean := e.pdf.Mean(values)
+			variance := e.pdf.Variance(values, mean)
+			if mean > 0.0 && variance > 0.0 {
+				if err := e.fsm.Transition(TestingUCL); err != nil {
+					return err
+				}
+				e.current = mean
+				e.limit = calculateLimit(mean, variance, e.lambda, e.pdf, 1)
+			}
+		}
 	case TestingUCL:
 		e.calculateCurrent(o)
 		if e.current >= e.limit {
@@ -69,19 +82,6 @@ func (e *TestStatistic) Record(o float64) error {
 				return err
 			}
 		}
-	case UCLInitial:
-		if e.series.Count() >= e.series.Capacity() {
-			values := e.series.Values()
-			mean := e.pdf.Mean(values)
-			variance := e.pdf.Variance(values, mean)
-			if mean > 0.0 && variance > 0.0 {
-				if err := e.fsm.Transition(TestingUCL); err != nil {
-					return err
-				}
-				e.current = mean
-				e.limit = calculateLimit(mean, variance, e.lambda, e.pdf, 1)
-			}
-		}
 	case LCLInitial:
 		if e.series.Count() >= e.series.Capacity() {
 			values := e.series.Values()
-- 
2.43.0


From 3ea5c91afb90551c0007837c08788daff3fdf783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 09/34] fix: log normal values with a median of one or less
 never leave the baseline state

---
 pkg/stat/estimator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index ff7fd5b..2a374c3 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -60,7 +60,7 @@ func (e *TestStatistic) Record(o float64) error {
 			values := e.series.Values()
 			mean := e.pdf.Mean(values)
 			variance := e.pdf.Variance(values, mean)
-			if mean > 0.0 && variance > 0.0 {
+			if variance > 0.0 {
 				if err := e.fsm.Transition(TestingUCL); err != nil {
 					return err
 				}
@@ -87,7 +87,7 @@ func (e *TestStatistic) Record(o float64) error {
 			values := e.series.Values()
 			mean := e.pdf.Mean(values)
 			variance := e.pdf.Variance(values, mean)
-			if mean > 0.0 && variance > 0.0 {
+			if variance > 0.0 {
 				if err := e.fsm.Transition(TestingLCL); err != nil {
 					return err
 				}
-- 
2.43.0


From 2406fdf9e74c95c380eb4dbf426ac77440eddcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 10/34] fix: refused manual transition discards the collected
 baseline

---
 pkg/stat/estimator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index 2a374c3..e45ac71 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -123,10 +123,13 @@ func (e *TestStatistic) calculateCurrent(o float64) {
 // Transition will attempt to transition to estimator to the desired state.  Optionally reset the series to
 // force it to collect new baseline observations before entering testing phase
 func (e *TestStatistic) Transition(state fsm.State, resetSeries bool) error {
+	if err := e.fsm.Transition(state); err != nil {
+		return err
+	}
 	if resetSeries {
 		e.series.Reset()
 	}
-	return e.fsm.Transition(state)
+	return nil
 }
 
 // calculateLimit will determine the UCL or LCL limit (UCL => direction +1, LCL => direction -1)
-- 
2.43.0


From 48f1da6b527b4a477eda5ebfcfae8cbbe0d78038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 11/34] fix: counter without a window duration always reads
 zero

---
 pkg/metric/counter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index c9aa9f1..114f882 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -78,7 +78,7 @@ func (c *WindowedCounter) Value() int {
 
 	// check if the current window has closed, if so return 0
 	switch {
-	case now.After(end) && c.current.duration >= 0:
+	case now.After(end) && c.current.duration > 0:
 		return 0
 	default:
 		return c.current.Value()
-- 
2.43.0


From 7af835a7815d2c1c72440fa97eb614d7a064f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 12/34] fix: windowed counter created as an empty struct panics

---
 pkg/metric/counter.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index 114f882..a12c0dc 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -74,20 +74,33 @@ type WindowedCounter struct {
 // Value returns the current value of the counter in the most recent window
 func (c *WindowedCounter) Value() int {
 	now := time.Now().UTC()
-	end := c.current.start.Add(c.current.duration)
+	current := c.window()
+	end := current.start.Add(current.duration)
 
 	// check if the current window has closed, if so return 0
 	switch {
-	case now.After(end) && c.current.duration > 0:
+	case now.After(end) && current.duration > 0:
 		return 0
 	default:
-		return c.current.Value()
+		return current.Value()
+	}
+}
+
+// window returns the counter for the current window, which is a zero-valued counter without a duration when the counter was
+// created as an empty struct and nothing has been added
+func (c *WindowedCounter) window() Counter {
+	if c.current == nil {
+		return Counter{}
 	}
+	return *c.current
 }
 
 // Add will increment the current counter value within the window by i
 func (c *WindowedCounter) Add(i uint) {
 	now := time.Now().UTC()
+	if c.current == nil {
+		c.current = &Counter{}
+	}
 	end := c.current.start.Add(c.current.duration)
 	switch {
 	case now.Before(end) || c.current.duration == 0:
@@ -102,10 +115,11 @@ func (c *WindowedCounter) Add(i uint) {
 // History will return the history of counters not including the current value if the window is still open
 func (c *WindowedCounter) History() []Counter {
 	now := time.Now().UTC()
-	end := c.current.start.Add(c.current.duration)
+	current := c.window()
+	end := current.start.Add(current.duration)
 	switch {
-	case now.After(end) || c.current.duration == 0:
-		return newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+	case now.After(end) || current.duration == 0:
+		return newHistory(append(c.hist, current), c.MaxHistory, c.MaxHistoryDuration)
 	default:
 		return newHistory(c.hist, c.MaxHistory, c.MaxHistoryDuration)
 	}
@@ -114,7 +128,7 @@ func (c *WindowedCounter) History() []Counter {
 // HistoryInclusive will return the history of all counters, including the current value even if the window
 // is still open on the current counter
 func (c *WindowedCounter) HistoryInclusive() []Counter {
-	return newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+	return newHistory(append(c.hist, c.window()), c.MaxHistory, c.MaxHistoryDuration)
 }
 
 // filters the history based on both MaxHistoryDuration and MaxHistory
@@ -140,7 +154,7 @@ func newHistory(hist []Counter, max int, maxduration time.Duration) []Counter {
 // Reset will clear the current counters history and start a new zero-valued counter with the same window duration
 func (c *WindowedCounter) Reset() {
 	c.hist = []Counter{}
-	c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}
+	c.current = &Counter{start: time.Now().UTC(), duration: c.window().duration}
 }
 
 // NewWindowedCounter creates a new windowed counter with a window size of duration
-- 
2.43.0


From 16e5cbe63b43a97cf2f9d39ca9b8e6220448ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 13/34] fix: returned counter history changes as the counter
 records more windows

---
 pkg/metric/counter.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index a12c0dc..5dfe2ea 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -119,16 +119,21 @@ func (c *WindowedCounter) History() []Counter {
 	end := current.start.Add(current.duration)
 	switch {
 	case now.After(end) || current.duration == 0:
-		return newHistory(append(c.hist, current), c.MaxHistory, c.MaxHistoryDuration)
+		return newHistory(append(c.copyHistory(), current), c.MaxHistory, c.MaxHistoryDuration)
 	default:
-		return newHistory(c.hist, c.MaxHistory, c.MaxHistoryDuration)
+		return newHistory(c.copyHistory(), c.MaxHistory, c.MaxHistoryDuration)
 	}
 }
 
 // HistoryInclusive will return the history of all counters, including the current value even if the window
 // is still open on the current counter
 func (c *WindowedCounter) HistoryInclusive() []Counter {
-	return newHistory(append(c.hist, c.window()), c.MaxHistory, c.MaxHistoryDuration)
+	return newHistory(append(c.copyHistory(), c.window()), c.MaxHistory, c.MaxHistoryDuration)
+}
+
+// copies the history so that callers never share storage with the counter
+func (c *WindowedCounter) copyHistory() []Counter {
+	return append([]Counter{}, c.hist...)
 }
 
 // filters the history based on both MaxHistoryDuration and MaxHistory
-- 
2.43.0


From 6d0746fce28f425643929104b213f386a8e22e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 14/34] fix: annotating a metric name created without metadata
 panics

---
 pkg/metric/name.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/metric/name.go b/pkg/metric/name.go
index 1fbb006..ca66cf1 100644
--- a/pkg/metric/name.go
+++ b/pkg/metric/name.go
@@ -31,6 +31,9 @@ func (n Name) String() string {
 
 // NewName returns a new name with the associated metadata
 func NewName(name string, md map[string]string) Name {
+	if md == nil {
+		md = make(map[string]string)
+	}
 	return Name{name: name, md: md}
 }
 
@@ -52,7 +55,7 @@ func (n Name) AddMetadata(md map[string]string) {
 // then is followed by (key, value) pairs k=v in sorted key order, the finally by annotations starting with @ in
 // sorted order.  Close with a ].  Example: [host=pod1 loc=us-west-1 @mean @summary]
 func MarshalText(m metadata) ([]byte, error) {
-	if m == nil {
+	if len(m) == 0 {
 		return []byte{}, nil
 	}
 	keys := make([]string, 0, len(m))
-- 
2.43.0


From 1b3b3ab4b3cf36e38ae788b2c3b35ff88b3fa53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 15/34] fix: time and memory warnings are never sent

---
 pkg/monny/handlers.go |  3 ++-
 pkg/monny/report.go   | 13 ++-----------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 9ecb99f..99d404f 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -95,10 +95,11 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 
 // TimeWarning is called and a report is sent when the process runs longer than the time warning.
 func (h handler) TimeWarning(c *Command) error {
+	c.mutex.Lock()
 	if c.timeWarnSent {
+		c.mutex.Unlock()
 		return nil
 	}
-	c.mutex.Lock()
 	c.ReportReason = proto.TimeWarning
 	c.timeWarnSent = true
 	c.mutex.Unlock()
diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 39e5fc9..a89481c 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -109,17 +109,8 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 			closeChannels()
 			return
 		}
-	case proto.MemoryWarning:
-		if c.memWarnSent {
-			closeChannels()
-			return
-		}
-		go r.sender.sendBackground(pb, result, cancel)
-	case proto.TimeWarning:
-		if c.timeWarnSent {
-			closeChannels()
-			return
-		}
+	case proto.MemoryWarning, proto.TimeWarning:
+		// the handlers send each warning once
 		go r.sender.sendBackground(pb, result, cancel)
 	case proto.Start:
 		if c.Config.Daemon {
-- 
2.43.0


From 7b3c9f52519de82ff6c0d91caecc1f813baac7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 16/34] fix: reports still being prepared are lost when the
 client exits

---
 pkg/monny/command.go  | 19 +++++++++++++++----
 pkg/monny/handlers.go | 16 ++++++++--------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 35c649a..053d352 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -38,6 +38,7 @@ type Command struct {
 	Messages      []string
 
 	mutex        sync.Mutex
+	pending      sync.WaitGroup
 	pid          int
 	memWarnSent  bool
 	timeWarnSent bool
@@ -90,9 +91,19 @@ func New(usercmd []string, options ...ConfigOption) (*Command, []error) {
 // Wait blocks program termination until the user's command finishes and all potential
 // reports and metrics are transmitted to the server
 func (c *Command) Wait() error {
+	c.pending.Wait()
 	return c.report.Wait()
 }
 
+// sendReport sends a report in the background.  It is registered before returning so that Wait does not miss it.
+func (c *Command) sendReport(reason proto.ReportReason) {
+	c.pending.Add(1)
+	go func() {
+		defer c.pending.Done()
+		c.report.Send(c, reason)
+	}()
+}
+
 // Exec will execute the user's command in a forked process and monitor log output and process
 // metrics
 func (c *Command) Exec() error {
@@ -300,9 +311,9 @@ func (c *Command) processStdout(line []byte) {
 	if len(c.RuleMatches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
-			go c.report.Send(c, proto.AlertRate)
+			c.sendReport(proto.AlertRate)
 		default:
-			go c.report.Send(c, proto.Alert)
+			c.sendReport(proto.Alert)
 		}
 	}
 	history := len(c.Stdout)
@@ -325,9 +336,9 @@ func (c *Command) processStderr(line []byte) {
 	if len(c.RuleMatches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
-			go c.report.Send(c, proto.AlertRate)
+			c.sendReport(proto.AlertRate)
 		default:
-			go c.report.Send(c, proto.Alert)
+			c.sendReport(proto.Alert)
 		}
 	}
 	history := len(c.Stderr)
diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 99d404f..0161ee9 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -38,7 +38,7 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ExitCodeValid = true
 		c.ReportReason = proto.Success
 		c.mutex.Unlock()
-		go c.report.Send(c, proto.Success)
+		c.sendReport(proto.Success)
 	default:
 		sysinfo, ok := cmd.ProcessState.Sys().(syscall.WaitStatus)
 		c.mutex.Lock()
@@ -49,7 +49,7 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ReportReason = proto.Failure
 		c.Success = false
 		c.mutex.Unlock()
-		go c.report.Send(c, proto.Failure)
+		c.sendReport(proto.Failure)
 	}
 	handleFileCreation(c)
 	return nil
@@ -66,7 +66,7 @@ func (h handler) Signal(c *Command, cmd *exec.Cmd, sig os.Signal) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.sendReport(proto.Killed)
 	if err := cmd.Process.Signal(sig); err != nil {
 		return err
 	}
@@ -85,7 +85,7 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.sendReport(proto.Killed)
 	if err := cmd.Process.Signal(os.Kill); err != nil {
 		return err
 	}
@@ -104,7 +104,7 @@ func (h handler) TimeWarning(c *Command) error {
 	c.timeWarnSent = true
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.TimeWarning)
+	c.sendReport(proto.TimeWarning)
 
 	return nil
 }
@@ -126,7 +126,7 @@ func (h handler) CheckMemory(c *Command, cmd *exec.Cmd) error {
 			c.memWarnSent = true
 			c.mutex.Unlock()
 
-			go c.report.Send(c, proto.MemoryWarning)
+			c.sendReport(proto.MemoryWarning)
 		}
 	}
 	if c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill {
@@ -145,7 +145,7 @@ func (h handler) KillOnHighMemory(c *Command, cmd *exec.Cmd) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.sendReport(proto.Killed)
 	if err := cmd.Process.Signal(os.Kill); err != nil {
 		return err
 	}
@@ -164,7 +164,7 @@ func handleFileCreation(c *Command) {
 			c.Messages = append(c.Messages, fmt.Sprintf("file not created: %s", f))
 			c.ReportReason = proto.FileNotCreated
 			c.mutex.Unlock()
-			go c.report.Send(c, proto.FileNotCreated)
+			c.sendReport(proto.FileNotCreated)
 		case err == nil:
 			c.mutex.Lock()
 			c.Created = append(c.Created, File{
-- 
2.43.0


From 4f8a085fc02809a038f3e48ac7a13f9ea171367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 17/34] fix: client crashes when a report can not be delivered

---
 pkg/monny/command.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 053d352..7ab9b0e 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -83,8 +83,9 @@ func New(usercmd []string, options ...ConfigOption) (*Command, []error) {
 				errors: errorService{},
 			},
 		},
-		out: cfg.out,
-		err: cfg.err,
+		errors: errorService{},
+		out:    cfg.out,
+		err:    cfg.err,
 	}, nil
 }
 
-- 
2.43.0


From 2b69a392ef21fd732556adbc7a631e1468953553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 18/34] fix: error report on a send timeout includes the user's
 output

---
 pkg/monny/report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index a89481c..0fa4969 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -133,7 +133,7 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		}
 	case <-timeout:
 		cancel <- true
-		c.errors.ReportError(fmt.Errorf("timeout on background report send: msg=%+v", pb))
+		c.errors.ReportError(fmt.Errorf("timeout on background report send: reason=%s", reason))
 	}
 	closeChannels()
 }
-- 
2.43.0


From b6e398782a5dcc156b959d341e01898590c63106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 19/34] fix: duration of a run killed by timeout is negative

---
 pkg/monny/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 0161ee9..0b1deec 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -81,7 +81,7 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 	c.Killed = true
 	c.KillReason = proto.Timeout
 	c.Finish = time.Now()
-	c.Duration = c.Start.Sub(c.Finish)
+	c.Duration = c.Finish.Sub(c.Start)
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-- 
2.43.0


From a9c2ca15431950745c41337274392d2a97426e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 20/34] fix: output history panics for small limits and keeps
 fewer lines than configured

---
 pkg/monny/command.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 7ab9b0e..8055bb8 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -317,14 +317,8 @@ func (c *Command) processStdout(line []byte) {
 			c.sendReport(proto.Alert)
 		}
 	}
-	history := len(c.Stdout)
 	c.mutex.Lock()
-	switch {
-	case history >= c.Config.StdoutHistory:
-		c.Stdout = append(c.Stdout[2:], string(line))
-	default:
-		c.Stdout = append(c.Stdout, string(line))
-	}
+	c.Stdout = appendHistory(c.Stdout, string(line), c.Config.StdoutHistory)
 	c.mutex.Unlock()
 	return
 }
@@ -342,18 +336,24 @@ func (c *Command) processStderr(line []byte) {
 			c.sendReport(proto.Alert)
 		}
 	}
-	history := len(c.Stderr)
 	c.mutex.Lock()
-	switch {
-	case history >= c.Config.StderrHistory:
-		c.Stderr = append(c.Stderr[2:], string(line))
-	default:
-		c.Stderr = append(c.Stderr, string(line))
-	}
+	c.Stderr = appendHistory(c.Stderr, string(line), c.Config.StderrHistory)
 	c.mutex.Unlock()
 	return
 }
 
+// appendHistory adds a line to the history, dropping the oldest lines so that at most max lines are kept
+func appendHistory(history []string, line string, max int) []string {
+	if max <= 0 {
+		return nil
+	}
+	history = append(history, line)
+	if len(history) > max {
+		history = history[len(history)-max:]
+	}
+	return history
+}
+
 func wrapComplexCommand(shell string, args []string) ([]string, func() error, error) {
 	return args, nil, nil
 	// r := regexp.MustCompile(`(&|\x7C|<|>)`)
-- 
2.43.0


From 42382d3a25a8003edf73b25102c2581b11373eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 21/34] fix: one rule match sends an alert for every line that
 follows it

---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 8055bb8..f08114d 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -309,7 +309,7 @@ func (c *Command) processStdout(line []byte) {
 	c.mutex.Lock()
 	c.RuleMatches = append(c.RuleMatches, matches...)
 	c.mutex.Unlock()
-	if len(c.RuleMatches) > 0 {
+	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
 			c.sendReport(proto.AlertRate)
@@ -328,7 +328,7 @@ func (c *Command) processStderr(line []byte) {
 	c.mutex.Lock()
 	c.RuleMatches = append(c.RuleMatches, matches...)
 	c.mutex.Unlock()
-	if len(c.RuleMatches) > 0 {
+	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
 			c.sendReport(proto.AlertRate)
-- 
2.43.0


From be7dd0db4e1054f9707b4f088928b9ed7c0deef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 22/34] fix: rule matches are read and cleared without holding
 the lock

---
 pkg/monny/report.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 0fa4969..3cfc19e 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -73,6 +73,11 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		close(cancel)
 	}
 
+	clearMatches := func() {
+		c.mutex.Lock()
+		c.RuleMatches = []RuleMatch{}
+		c.mutex.Unlock()
+	}
 	cb := func() { return }
 	switch reason {
 	case proto.Failure:
@@ -93,18 +98,14 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		go r.sender.sendBackground(pb, result, cancel)
 	case proto.Alert:
 		go r.sender.sendBackground(pb, result, cancel)
-		cb = func() {
-			c.RuleMatches = []RuleMatch{}
-			return
-		}
+		cb = clearMatches
 	case proto.AlertRate:
+		c.mutex.Lock()
 		alertRateExceeded := calcAlertRate(c.RuleMatches, c.Config.RuleQuantity, c.Config.RulePeriod)
+		c.mutex.Unlock()
 		if alertRateExceeded {
 			go r.sender.sendBackground(pb, result, cancel)
-			cb = func() {
-				c.RuleMatches = []RuleMatch{}
-				return
-			}
+			cb = clearMatches
 		} else {
 			closeChannels()
 			return
-- 
2.43.0


From 05e36160977672e139292f385e08a1231332474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 23/34] fix: transport options grow without bound and race
 between concurrent reports

---
 pkg/monny/report.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 3cfc19e..ba51386 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -39,6 +39,7 @@ type sender interface {
 type senderService struct {
 	host   string
 	port   string
+	mutex  sync.Mutex
 	opts   []grpc.DialOption
 	errors ErrorReporter
 	wg     sync.WaitGroup
@@ -47,10 +48,12 @@ type senderService struct {
 // Create prepares a new report based on the current status of the command.
 func (s *senderService) create(c *Command, reason proto.ReportReason) *pb.Report {
 	pb := reportFromCommand(c, reason, s.errors.ReportError)
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if c.Config.useTLS {
-		s.opts = append(s.opts, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{})))
+		s.opts = []grpc.DialOption{grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{}))}
 	} else {
-		s.opts = append(s.opts, grpc.WithInsecure())
+		s.opts = []grpc.DialOption{grpc.WithInsecure()}
 	}
 	return pb
 }
@@ -162,8 +165,11 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 	}
 	s.wg.Add(1)
 	defer s.wg.Done()
+	s.mutex.Lock()
+	opts := s.opts
+	s.mutex.Unlock()
 	send := func() error {
-		conn, err := grpc.Dial(net.JoinHostPort(s.host, s.port), s.opts...)
+		conn, err := grpc.Dial(net.JoinHostPort(s.host, s.port), opts...)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 32da19ff12147881565d23d557df0cfc79e55b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 24/34] fix: switch options are turned on when they are set to
 false

---
 pkg/monny/parse.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 91b89cc..5a5d252 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -102,11 +102,11 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	case "stderr-history":
 		return StderrHistory(value), nil
 	case "no-notify-on-success":
-		return NoNotifyOnSuccess(), nil
+		return switchOption(value, NoNotifyOnSuccess())
 	case "no-notify-on-failure":
-		return NoNotifyOnFailure(), nil
+		return switchOption(value, NoNotifyOnFailure())
 	case "daemon":
-		return Daemon(), nil
+		return switchOption(value, Daemon())
 	case "memory-warn":
 		return MemoryWarn(value), nil
 	case "memory-kill":
@@ -120,9 +120,9 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	case "host":
 		return Host(value), nil
 	case "insecure":
-		return Insecure(), nil
+		return switchOption(value, Insecure())
 	case "no-error-reports":
-		return NoErrorReports(), nil
+		return switchOption(value, NoErrorReports())
 	case "shell":
 		return Shell(value), nil
 	default:
@@ -130,6 +130,18 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	}
 }
 
+// switchOption applies the option only when the switch is turned on
+func switchOption(value string, option ConfigOption) (ConfigOption, error) {
+	on, err := strconv.ParseBool(value)
+	if err != nil {
+		return nil, fmt.Errorf("expected true or false, got %s", value)
+	}
+	if !on {
+		return func(c *Config) error { return nil }, nil
+	}
+	return option, nil
+}
+
 func parseFromFile(fpath string) ([]ConfigOption, error) {
 	var options []ConfigOption
 	data, err := ioutil.ReadFile(fpath)
@@ -157,7 +169,7 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 			}
 			options = append(options, opt)
 		case bool:
-			opt, err := handleOption(k, "")
+			opt, err := handleOption(k, strconv.FormatBool(v.(bool)))
 			if err != nil {
 				return options, err
 			}
-- 
2.43.0


From 9011473a9d787de80a61ebab93cc5a9c680eabd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 25/34] fix: each list in the config file applies every other
 list again

---
 pkg/monny/parse.go | 47 ++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 5a5d252..544da4f 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -180,25 +180,20 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 			if err := yaml.Unmarshal(data, &alt); err != nil {
 				return options, fmt.Errorf("Could not unmarshal config value for key: %s", k)
 			}
-			if len(alt.Rule) == 0 && len(alt.JSONRule) == 0 && len(alt.Creates) == 0 {
-				return options, fmt.Errorf("Unknown option: %s", k)
-			}
-			for _, val := range alt.Rule {
-				opt, err := handleOption("rule", val)
-				if err != nil {
-					return options, err
-				}
-				options = append(options, opt)
+			var values []string
+			switch k {
+			case "rule":
+				values = alt.Rule
+			case "rule-json":
+				values = alt.JSONRule
+			case "creates":
+				values = alt.Creates
 			}
-			for _, val := range alt.JSONRule {
-				opt, err := handleOption("rule-json", val)
-				if err != nil {
-					return options, err
-				}
-				options = append(options, opt)
+			if len(values) == 0 {
+				return options, fmt.Errorf("Unknown option: %s", k)
 			}
-			for _, val := range alt.Creates {
-				opt, err := handleOption("creates", val)
+			for _, val := range values {
+				opt, err := handleOption(k, val)
 				if err != nil {
 					return options, err
 				}
@@ -212,7 +207,19 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 }
 
 type listFieldsYAML struct {
-	Rule     []string `yaml:"rule"`
-	JSONRule []string `yaml:"rule-json"`
-	Creates  []string `yaml:"creates"`
+	Rule     stringOrList `yaml:"rule"`
+	JSONRule stringOrList `yaml:"rule-json"`
+	Creates  stringOrList `yaml:"creates"`
+}
+
+// stringOrList is a field that may be either a single string or a list
+type stringOrList []string
+
+func (s *stringOrList) UnmarshalYAML(unmarshal func(interface{}) error) error {
+	var single string
+	if err := unmarshal(&single); err == nil {
+		*s = stringOrList{single}
+		return nil
+	}
+	return unmarshal((*[]string)(s))
 }
-- 
2.43.0


From e9c37d13f17f6ce3580ef91d5aea73ed5f95a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 26/34] fix: shell option is replaced by the SHELL environment
 variable

---
 pkg/monny/config.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index 2b35c30..0c05265 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -76,11 +76,13 @@ func newConfig(options ...ConfigOption) (Config, []error) {
 		}
 	}
 
-	shell, err := findDefaultShell()
-	if err != nil {
-		errors = append(errors, err)
+	if len(c.Shell) == 0 {
+		shell, err := findDefaultShell()
+		if err != nil {
+			errors = append(errors, err)
+		}
+		c.Shell = shell
 	}
-	c.Shell = shell
 	if len(c.ID) == 0 {
 		errors = append(errors, fmt.Errorf("id is required, use monny -i <id>; new ids are created with monctl create or pass your email address to get a notifications via email without an account"))
 	}
-- 
2.43.0


From 35d910413e84cc037d354724fa53920ec311e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 27/34] fix: running without a user command panics

---
 pkg/monny/command.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index f08114d..bdc3134 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -116,6 +116,8 @@ func (c *Command) Exec() error {
 	c.cleanup = append(c.cleanup, cleanup)
 
 	switch len(wrappedCmd) {
+	case 0:
+		return fmt.Errorf("no command to run")
 	case 1:
 		cmd = exec.Command(wrappedCmd[0])
 	default:
-- 
2.43.0


From e8bb4d4b9704ccd25c31a94f7c01e9fc9911272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 28/34] fix: open standard input keeps the run from finishing

---
 pkg/monny/command.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index bdc3134..936aabb 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -145,14 +145,15 @@ func (c *Command) Exec() error {
 	c.pid = os.Getpid()
 
 	var wg sync.WaitGroup
-	wg.Add(3)
+	wg.Add(2)
+	// not waited for since standard input may stay open after the process exits
 	go func() {
-		defer wg.Done()
 		defer stdinWriter.Close()
 		// determine if a monny is after a previous piped process, copy to forked process stdin if necessary
 		fi, err := os.Stdin.Stat()
 		if err != nil {
 			c.errors.ReportError(fmt.Errorf("failed to get stdin properties: %+v", err))
+			return
 		}
 		if fi.Mode()&os.ModeNamedPipe != 0 {
 			_, err := io.Copy(stdinWriter, os.Stdin)
-- 
2.43.0


From a517664482049c9c3d0609493e43a6d98508c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 29/34] fix: process that prints a long line never finishes

---
 pkg/monny/command.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 936aabb..ad5baea 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -171,6 +171,11 @@ func (c *Command) Exec() error {
 			c.out.Write([]byte{'\n'})
 			c.processStdout(stdoutScanner.Bytes())
 		}
+		if err := stdoutScanner.Err(); err != nil {
+			c.errors.ReportError(fmt.Errorf("error reading from stdout: %+v", err))
+			// keep the process from blocking on output that can not be monitored
+			io.Copy(c.out, stdoutReader)
+		}
 	}()
 	go func() {
 		defer wg.Done()
@@ -181,6 +186,11 @@ func (c *Command) Exec() error {
 			c.err.Write([]byte{'\n'})
 			c.processStderr(stderrScanner.Bytes())
 		}
+		if err := stderrScanner.Err(); err != nil {
+			c.errors.ReportError(fmt.Errorf("error reading from stderr: %+v", err))
+			// keep the process from blocking on output that can not be monitored
+			io.Copy(c.err, stderrReader)
+		}
 	}()
 
 	runFinished := make(chan bool, 1)
-- 
2.43.0


From bd41a0c8cbe571fb22be068f835e6425b35b3147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 30/34] fix: report send that times out panics the client

---
 pkg/monny/report.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index ba51386..428b0e1 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -71,11 +71,6 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 	cancel := make(chan bool, 1)
 	timeout := time.After(1 * time.Hour)
 
-	closeChannels := func() {
-		close(result)
-		close(cancel)
-	}
-
 	clearMatches := func() {
 		c.mutex.Lock()
 		c.RuleMatches = []RuleMatch{}
@@ -87,14 +82,12 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		if c.Config.NotifyOnFailure {
 			go r.sender.sendBackground(pb, result, cancel)
 		} else {
-			closeChannels()
 			return
 		}
 	case proto.Success:
 		if c.Config.NotifyOnSuccess {
 			go r.sender.sendBackground(pb, result, cancel)
 		} else {
-			closeChannels()
 			return
 		}
 	case proto.FileNotCreated, proto.Killed:
@@ -110,7 +103,6 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 			go r.sender.sendBackground(pb, result, cancel)
 			cb = clearMatches
 		} else {
-			closeChannels()
 			return
 		}
 	case proto.MemoryWarning, proto.TimeWarning:
@@ -120,7 +112,6 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		if c.Config.Daemon {
 			go r.sender.sendBackground(pb, result, cancel)
 		} else {
-			closeChannels()
 			return
 		}
 	default:
@@ -139,7 +130,6 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		cancel <- true
 		c.errors.ReportError(fmt.Errorf("timeout on background report send: reason=%s", reason))
 	}
-	closeChannels()
 }
 
 // Wait will cause the process to block until the report is finished sending in the background.
-- 
2.43.0


From 9358369d8d6b9dfc714e4acf4f580c880c560566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 31/34] fix: rule on a JSON field holding a list of numbers
 panics

---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index ad5baea..97dab6e 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -302,9 +302,9 @@ func extractTextFromJSON(raw []byte, field string) []byte {
 				case string:
 					out = append(out, val.(string))
 				case float32:
-					out = append(out, fmt.Sprintf("%f", value.(float32)))
+					out = append(out, fmt.Sprintf("%f", val.(float32)))
 				case float64:
-					out = append(out, fmt.Sprintf("%f", value.(float64)))
+					out = append(out, fmt.Sprintf("%f", val.(float64)))
 				case bool:
 					out = append(out, fmt.Sprintf("%v", val.(bool)))
 				default:
-- 
2.43.0


From fc114c691ae7cc2cac76c513ee9e925c0c5f52cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 32/34] fix: default report server address can not be dialed

---
 pkg/monny/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index 0c05265..d809241 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -11,7 +11,7 @@ import (
 	"time"
 )
 
-const api string = "https://report.lmkwtf.com"
+const api string = "report.lmkwtf.com"
 const port string = "443"
 
 // Config stores configuration data for the monitoring service.  Functional options are
-- 
2.43.0


From a9108dcf042054d829a9c5ff3eae4490c88a21a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:27 +0000
Subject: [PATCH 33/34] fix: reports are lost when the run ends with an error

---
 cmd/monny/main.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/monny/main.go b/cmd/monny/main.go
index 0d662b0..e532ba5 100644
--- a/cmd/monny/main.go
+++ b/cmd/monny/main.go
@@ -28,14 +28,18 @@ func main() {
 		os.Exit(1)
 	}
 
-	if err := cmd.Exec(); err != nil {
-		fmt.Println("Process error:", err)
-		os.Exit(1)
+	execErr := cmd.Exec()
+	if execErr != nil {
+		fmt.Println("Process error:", execErr)
 	}
+	// reports may be in transmission even if the run ended with an error
 	if err := cmd.Wait(); err != nil {
 		fmt.Printf("Not all reports sent: %s\n", err)
 		os.Exit(1)
 	}
+	if execErr != nil {
+		os.Exit(1)
+	}
 
 	os.Exit(0)
 }
-- 
2.43.0


From 07279a6d7bda00dbc5aab053a0eda94e78889297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:42 +0000
Subject: [PATCH 34/34] fix: a negative period of a ticker means no ticking
 instead of a panic

---
 pkg/monny/proc/ticker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/proc/ticker.go b/pkg/monny/proc/ticker.go
index 183314d..24a0c48 100644
--- a/pkg/monny/proc/ticker.go
+++ b/pkg/monny/proc/ticker.go
@@ -9,7 +9,7 @@ import (
 // NewTicker returns a ticking handler that will emit a message with the passed EventType every specified duration.
 // This is the underlying mechanism to tell other handlers when to sample metrics or send accumulated metrics.
 func NewTicker(d time.Duration, e *eventbus.EventBus, evt eventbus.EventType) {
-	if d == 0 {
+	if d <= 0 {
 		return
 	}
 	ch, finished := e.Subscribe()
-- 
2.43.0

