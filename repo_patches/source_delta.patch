From 3ccf0e4a56b7ea8edc5046cdbe2d5bc1a8523f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 01/24] fix: return a copy of the runtime figures, so that
 readers never race with pushes and iterations

---
 core/ctrl.go  | 2 +-
 core/model.go | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index f1889c3..af6e78d 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -279,7 +279,7 @@ func (algo *Algo) run() {
 			// newData = algo.newData
 			centroids, runtimeFigures, err = algo.impl.Iterate(
 				NewSimpleOCModel(
-					algo.conf, algo.space, algo.status, algo.runtimeFigures, algo.centroids,
+					algo.conf, algo.space, algo.status, algo.RuntimeFigures(), algo.centroids,
 				),
 			)
 			duration = time.Now().Sub(start)
diff --git a/core/model.go b/core/model.go
index 6a422f0..f5e147e 100644
--- a/core/model.go
+++ b/core/model.go
@@ -24,11 +24,15 @@ func (algo *Algo) Space() Space {
 	return algo.space
 }
 
-// RuntimeFigures returns specific algo properties
+// RuntimeFigures returns a copy of specific algo properties
 func (algo *Algo) RuntimeFigures() (figures RuntimeFigures) {
 	algo.modelMutex.RLock()
 	defer algo.modelMutex.RUnlock()
-	return algo.runtimeFigures
+	figures = make(RuntimeFigures, len(algo.runtimeFigures))
+	for name, value := range algo.runtimeFigures {
+		figures[name] = value
+	}
+	return
 }
 
 // Conf returns configuration
-- 
2.43.0


From 590f57a6f87e1e0651f4665c592ab993728b7a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:11 +0000
Subject: [PATCH 02/24] fix: queue status notifications, so that a slow or
 reentrant notifier never blocks the algorithm

---
 core/algo.go | 34 ++++++++++++++++++++++++++--------
 core/ctrl.go |  4 ----
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/core/algo.go b/core/algo.go
index 214f9a3..1b1eebc 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -23,7 +23,6 @@ type Algo struct {
 	status         OCStatus
 	statusChannel  chan OCStatus
 	ackChannel     chan bool
-	notifChannel   chan OCStatus
 	runtimeFigures RuntimeFigures
 	newData        int
 	pushedData     int
@@ -34,6 +33,10 @@ type Algo struct {
 
 	modelMutex  sync.RWMutex // algo model mutex
 	statusMutex sync.RWMutex // algo model mutex
+
+	notifMutex    sync.Mutex // notifications mutex
+	notifications []OCStatus // statuses still to be notified
+	notifying     bool       // true while the notification loop is running
 }
 
 // NewAlgo creates a new algorithm instance
@@ -61,12 +64,10 @@ func NewAlgo(conf Conf, impl Impl, space Space) (algo *Algo) {
 func (algo *Algo) setStatus(status OCStatus, safe bool) {
 	if safe {
 		algo.statusMutex.Lock()
-		algo.status = status
-		algo.statusMutex.Unlock()
-	} else {
-		algo.status = status
+		defer algo.statusMutex.Unlock()
 	}
-	algo.notifChannel <- status
+	algo.status = status
+	algo.enqueue(status)
 }
 
 // receiveStatus status from main routine
@@ -92,12 +93,29 @@ func (algo *Algo) notify(status OCStatus) {
 	}
 }
 
+// enqueue a status to notify, without waiting for the notifier to return
+func (algo *Algo) enqueue(status OCStatus) {
+	algo.notifMutex.Lock()
+	defer algo.notifMutex.Unlock()
+	algo.notifications = append(algo.notifications, status)
+	if !algo.notifying {
+		algo.notifying = true
+		go algo.notificationLoop()
+	}
+}
+
+// notificationLoop notifies queued statuses in order, until there is none
 func (algo *Algo) notificationLoop() {
 	for {
-		var status, ok = <-algo.notifChannel
-		if !ok {
+		algo.notifMutex.Lock()
+		if len(algo.notifications) == 0 {
+			algo.notifying = false
+			algo.notifMutex.Unlock()
 			return
 		}
+		var status = algo.notifications[0]
+		algo.notifications = algo.notifications[1:]
+		algo.notifMutex.Unlock()
 		algo.notify(status)
 	}
 }
diff --git a/core/ctrl.go b/core/ctrl.go
index af6e78d..14e0aff 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -76,10 +76,6 @@ func (algo *Algo) init() (err error) {
 		algo.modelMutex.Unlock()
 		fallthrough
 	case Created:
-		if algo.status.Value == Created {
-			algo.notifChannel = make(chan OCStatus)
-			go algo.notificationLoop()
-		}
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
 		centroids, err = algo.impl.Init(algo)
-- 
2.43.0


From 819a14307b690e9f161081ef36b8ea9780a49b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:03 +0000
Subject: [PATCH 03/24] fix: serialize status commands so that they never hang
 nor act on a run which is over

Play left the status locked when initialization failed; commands racing with
the end of a run, or with each other, could hang, panic or leave the status
Idle without any run; concurrent plays started several runs; Push and status
changes locked mutexes in opposite orders.
---
 core/algo.go |  31 ++++++----
 core/ctrl.go | 166 ++++++++++++++++++++++++---------------------------
 2 files changed, 97 insertions(+), 100 deletions(-)

diff --git a/core/algo.go b/core/algo.go
index 1b1eebc..8361e55 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -21,8 +21,8 @@ type Algo struct {
 	space          Space
 	centroids      Clust
 	status         OCStatus
-	statusChannel  chan OCStatus
-	ackChannel     chan bool
+	statusChannel  chan OCStatus // status commands of the current run
+	ackChannel     chan bool     // acknowledgments of the current run, closed when it is over
 	runtimeFigures RuntimeFigures
 	newData        int
 	pushedData     int
@@ -32,7 +32,8 @@ type Algo struct {
 	timeout        Timeout
 
 	modelMutex  sync.RWMutex // algo model mutex
-	statusMutex sync.RWMutex // algo model mutex
+	statusMutex sync.RWMutex // algo status mutex, to lock before modelMutex
+	ctrlMutex   sync.Mutex   // serializes status commands to the run, to lock before statusMutex
 
 	notifMutex    sync.Mutex // notifications mutex
 	notifications []OCStatus // statuses still to be notified
@@ -52,8 +53,6 @@ func NewAlgo(conf Conf, impl Impl, space Space) (algo *Algo) {
 		impl:           impl,
 		space:          space,
 		status:         OCStatus{Value: Created},
-		statusChannel:  make(chan OCStatus),
-		ackChannel:     make(chan bool),
 		runtimeFigures: RuntimeFigures{},
 	}
 
@@ -71,17 +70,23 @@ func (algo *Algo) setStatus(status OCStatus, safe bool) {
 }
 
 // receiveStatus status from main routine
-func (algo *Algo) receiveStatus() {
-	var status = <-algo.statusChannel
+func (algo *Algo) receiveStatus(statusChannel chan OCStatus, ackChannel chan bool) {
+	var status = <-statusChannel
 	algo.setStatus(status, true)
-	algo.ackChannel <- true
+	if status.Value != Finished { // the end of the run is acknowledged by closing ackChannel
+		ackChannel <- true
+	}
 }
 
-// sendStatus status to run go routine
-func (algo *Algo) sendStatus(status OCStatus) (ok bool) {
-	algo.statusChannel <- status
-	_, ok = <-algo.ackChannel
-	return
+// sendStatus status to the given run go routine, return false if the run is over
+func sendStatus(status OCStatus, statusChannel chan OCStatus, ackChannel chan bool) bool {
+	select {
+	case statusChannel <- status:
+		<-ackChannel
+		return true
+	case <-ackChannel:
+		return false
+	}
 }
 
 func (algo *Algo) notify(status OCStatus) {
diff --git a/core/ctrl.go b/core/ctrl.go
index 14e0aff..45f3dd8 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -22,22 +22,23 @@ type OCCtrl interface {
 func (algo *Algo) Push(elemt Elemt) (err error) {
 	err = algo.impl.Push(elemt, algo)
 	if err == nil {
+		algo.statusMutex.Lock()
+		defer algo.statusMutex.Unlock()
 		algo.modelMutex.Lock()
 		algo.pushedData++
 		algo.lastDataTime = time.Now().Unix()
 		var conf = algo.conf.Ctrl()
-		if algo.Status().Value == Ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData {
+		var restart = algo.status.Value == Ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData
+		if restart {
 			algo.newData = 0
 		} else {
 			algo.newData++
 		}
 		algo.updateRuntimeFigures()
 		algo.modelMutex.Unlock()
-		// try to play if waiting
-		algo.modelMutex.RLock()
-		defer algo.modelMutex.RUnlock()
-		if algo.newData == 0 {
-			algo.Play()
+		// play if waiting
+		if restart {
+			algo.start()
 		}
 	}
 	return
@@ -58,6 +59,8 @@ func (algo *Algo) Batch() (err error) {
 
 // Init initialize centroids and set status to Ready
 func (algo *Algo) Init() error {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
 	algo.statusMutex.Lock()
 	defer algo.statusMutex.Unlock()
 	return algo.init()
@@ -95,49 +98,61 @@ func (algo *Algo) init() (err error) {
 
 // Play the algorithm in online mode
 func (algo *Algo) Play() (err error) {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
+	var status, statusChannel, ackChannel = algo.currentRun()
+	if status.Value == Idle {
+		sendStatus(NewOCStatus(Running), statusChannel, ackChannel)
+		return
+	}
 	algo.statusMutex.Lock()
+	defer algo.statusMutex.Unlock()
 	switch algo.status.Value {
-	case Idle:
-		algo.statusMutex.Unlock()
-		algo.sendStatus(NewOCStatus(Running))
 	case Finished:
 		fallthrough
 	case Created:
 		err = algo.init()
-		if err != nil && err != ErrAlreadyCreated {
-			return
+		if err == nil {
+			algo.start()
 		}
-		err = nil
-		fallthrough
 	case Ready:
-		go algo.run()
-		algo.statusMutex.Unlock()
-		algo.sendStatus(NewOCStatus(Running))
-		if algo.timeout != nil {
-			algo.timeout.Disable()
-		}
-		var interruptionTimeout = algo.Conf().Ctrl().Timeout
-		if interruptionTimeout > 0 {
-			algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
-		}
+		algo.start()
 	case Running:
-		algo.statusMutex.Unlock()
 		err = ErrRunning
 	}
 	return
 }
 
+// start a new run, statusMutex must be locked and status must be Ready
+func (algo *Algo) start() {
+	var ackChannel = make(chan bool)
+	algo.statusChannel = make(chan OCStatus)
+	algo.ackChannel = ackChannel
+	algo.setStatus(NewOCStatus(Running), false)
+	if algo.timeout != nil {
+		algo.timeout.Disable()
+	}
+	var interruptionTimeout = algo.Conf().Ctrl().Timeout
+	if interruptionTimeout > 0 {
+		algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
+	}
+	go algo.run(algo.statusChannel, ackChannel)
+}
+
+// currentRun returns status with the channels of the current run
+func (algo *Algo) currentRun() (status OCStatus, statusChannel chan OCStatus, ackChannel chan bool) {
+	algo.statusMutex.RLock()
+	defer algo.statusMutex.RUnlock()
+	return algo.status, algo.statusChannel, algo.ackChannel
+}
+
 // Pause the algorithm and set status to idle
 func (algo *Algo) Pause() (err error) {
-	algo.statusMutex.Lock()
-	if algo.status.Value == Running {
-		algo.statusMutex.Unlock()
-		if !algo.sendStatus(NewOCStatus(Idle)) {
-			err = ErrNotRunning
-		}
-	} else {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
+	var status, statusChannel, ackChannel = algo.currentRun()
+	if status.Value != Running || !sendStatus(NewOCStatus(Idle), statusChannel, ackChannel) {
 		err = ErrNotRunning
-		algo.statusMutex.Unlock()
 	}
 	return
 }
@@ -169,23 +184,24 @@ func (algo *Algo) Wait(finishing Finishing, timeout time.Duration) (err error) {
 }
 
 // interrupt the algorithm
-func (algo *Algo) interrupt(interruption error) (err error) {
-	algo.statusMutex.Lock()
-	switch algo.status.Value {
-	case Ready:
-		algo.setStatus(NewOCStatusError(interruption), false)
-		algo.statusMutex.Unlock()
-	case Idle:
-		fallthrough
-	case Running:
-		algo.statusMutex.Unlock()
-		algo.sendStatus(NewOCStatusError(interruption))
-		err = algo.status.Error
-	default:
+func (algo *Algo) interrupt(interruption error) error {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
+	for {
+		algo.statusMutex.Lock()
+		var status, statusChannel, ackChannel = algo.status, algo.statusChannel, algo.ackChannel
+		if status.Value == Ready {
+			algo.setStatus(NewOCStatusError(interruption), false)
+		}
 		algo.statusMutex.Unlock()
-		err = ErrNotAlive
+		if !status.Alive() {
+			return ErrNotAlive
+		}
+		// if the run is over in the meantime, try again with the new status
+		if status.Value == Ready || sendStatus(NewOCStatusError(interruption), statusChannel, ackChannel) {
+			return interruption
+		}
 	}
-	return
 }
 
 // Stop the algorithm
@@ -200,44 +216,29 @@ func (algo *Algo) Predict(elemt Elemt) (pred Elemt, label int, dist float64) {
 	return
 }
 
-func (algo *Algo) recover(start time.Time) {
-	algo.statusMutex.Lock()
-	defer algo.statusMutex.Unlock()
+// terminate the run: update duration and status, then free clients waiting for an acknowledgment
+func (algo *Algo) terminate(start time.Time, err *error, ackChannel chan bool) {
 	var recovery = recover()
 	if recovery != nil {
-		var err = fmt.Errorf("%v", recovery)
-		algo.setStatus(NewOCStatusError(err), false)
+		*err = fmt.Errorf("%v", recovery)
 	}
-	// wait a few between client time processing between releasing statusMutex and sendStatus
-	time.Sleep(100 * time.Millisecond)
+	algo.statusMutex.Lock()
+	defer algo.statusMutex.Unlock()
 	// update algo runtime figures
 	algo.modelMutex.Lock()
-	// algo.newData = int(math.Max(0, float64(algo.newData-newData)))
-	var duration = time.Now().Sub(start)
-	algo.duration += duration
+	algo.duration += time.Now().Sub(start)
 	algo.runtimeFigures[Duration] = float64(algo.duration)
 	algo.modelMutex.Unlock()
-	// clean up channels
-	select {
-	// get client status if client quiered to stop or timeout interruption
-	case status := <-algo.statusChannel:
-		if recovery == nil {
-			algo.setStatus(status, false)
-		}
-	default:
-	}
-	// free client ack channel
-	select { // close ack channel
-	case <-algo.ackChannel:
-	default:
-		close(algo.ackChannel)
+	if *err != nil {
+		algo.setStatus(NewOCStatusError(*err), false)
+	} else if algo.status.Value == Running {
+		algo.setStatus(NewOCStatus(Ready), false)
 	}
+	close(ackChannel)
 }
 
 // Initialize the algorithm, if success run it synchronously otherwise return an error
-func (algo *Algo) run() {
-	algo.ackChannel = make(chan bool)
-
+func (algo *Algo) run(statusChannel chan OCStatus, ackChannel chan bool) {
 	var err error
 	var conf = algo.conf.Ctrl()
 	var centroids = algo.centroids
@@ -258,17 +259,15 @@ func (algo *Algo) run() {
 		finishing = NewOrFinishing(finishing, conf.Finishing)
 	}
 
-	defer algo.recover(start)
-
-	algo.receiveStatus()
+	defer algo.terminate(start, &err, ackChannel)
 
 	for err == nil && algo.status.Value == Running && !IsFinished(finishing, algo) {
 		select { // check for algo status update
-		case status := <-algo.statusChannel:
+		case status := <-statusChannel:
 			algo.setStatus(status, true)
 			if status.Value == Idle {
-				algo.ackChannel <- true
-				algo.receiveStatus()
+				ackChannel <- true
+				algo.receiveStatus(statusChannel, ackChannel)
 			}
 		default:
 			// run implementation
@@ -297,13 +296,6 @@ func (algo *Algo) run() {
 			}
 		}
 	}
-	if err == nil {
-		if algo.status.Value == Running {
-			algo.setStatus(NewOCStatus(Ready), true)
-		}
-	} else {
-		algo.setStatus(NewOCStatusError(err), true)
-	}
 }
 
 func (algo *Algo) updateRuntimeFigures() {
-- 
2.43.0


From 1d732400a2f95ae31ed7bc2a93818885d70f79e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 04/24] fix: Batch returns the error of an execution that
 failed before being waited for

---
 core/ctrl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ctrl.go b/core/ctrl.go
index 45f3dd8..003e5fe 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -50,6 +50,10 @@ func (algo *Algo) Batch() (err error) {
 	err = algo.Play()
 	if err == nil {
 		err = algo.Wait(nil, 0)
+		if err == nil {
+			// the algorithm may have failed before waiting for it
+			err = algo.Status().Error
+		}
 		if err == nil {
 			algo.Stop()
 		}
-- 
2.43.0


From 13e0c975d79305a4d5b8548221202c2afb428cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:42 +0000
Subject: [PATCH 05/24] fix: a timeout only interrupts the execution it was
 armed for

---
 core/ctrl.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 003e5fe..2e0acd0 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -73,6 +73,7 @@ func (algo *Algo) Init() error {
 func (algo *Algo) init() (err error) {
 	switch algo.status.Value {
 	case Finished:
+		algo.ackChannel = nil // the last run belongs to the previous session
 		algo.modelMutex.Lock()
 		algo.pushedData = 0
 		algo.duration = 0
@@ -138,7 +139,9 @@ func (algo *Algo) start() {
 	}
 	var interruptionTimeout = algo.Conf().Ctrl().Timeout
 	if interruptionTimeout > 0 {
-		algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
+		algo.timeout = InterruptionTimeout(interruptionTimeout, func(interruption error) error {
+			return algo.interruptRun(interruption, ackChannel)
+		})
 	}
 	go algo.run(algo.statusChannel, ackChannel)
 }
@@ -189,11 +192,20 @@ func (algo *Algo) Wait(finishing Finishing, timeout time.Duration) (err error) {
 
 // interrupt the algorithm
 func (algo *Algo) interrupt(interruption error) error {
+	return algo.interruptRun(interruption, nil)
+}
+
+// interruptRun interrupts the algorithm, only if its last run is the given one when not nil
+func (algo *Algo) interruptRun(interruption error, run chan bool) error {
 	algo.ctrlMutex.Lock()
 	defer algo.ctrlMutex.Unlock()
 	for {
 		algo.statusMutex.Lock()
 		var status, statusChannel, ackChannel = algo.status, algo.statusChannel, algo.ackChannel
+		if run != nil && run != ackChannel {
+			algo.statusMutex.Unlock()
+			return ErrNotAlive
+		}
 		if status.Value == Ready {
 			algo.setStatus(NewOCStatusError(interruption), false)
 		}
-- 
2.43.0


From ada1f4acc6de10e5ef1efbcaeab8ba5a474e9913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:20 +0000
Subject: [PATCH 06/24] fix: protect the data buffer, and keep the order of
 elements staged before a direct push

---
 core/buffer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/buffer.go b/core/buffer.go
index dce1fbd..7704e9d 100644
--- a/core/buffer.go
+++ b/core/buffer.go
@@ -1,5 +1,7 @@
 package core
 
+import "sync"
+
 // Buffer interface
 type Buffer interface {
 	Push(elemt Elemt, running bool) error
@@ -15,6 +17,7 @@ type DataBuffer struct {
 	pipe     chan Elemt
 	data     []Elemt
 	strategy bufferSizeStrategy
+	mutex    sync.RWMutex // data mutex
 }
 
 // Maximal default pipe size
@@ -55,6 +58,11 @@ func (b *DataBuffer) Push(elmt Elemt, running bool) (err error) {
 	if running {
 		b.pipe <- elmt
 	} else {
+		b.mutex.Lock()
+		defer b.mutex.Unlock()
+		// elements already staged come first
+		for b.applyNext() {
+		}
 		b.data = b.strategy.push(b.data, elmt)
 	}
 	return
@@ -62,11 +70,15 @@ func (b *DataBuffer) Push(elmt Elemt, running bool) (err error) {
 
 // Data returns buffer data
 func (b *DataBuffer) Data() (data []Elemt) {
+	b.mutex.RLock()
+	defer b.mutex.RUnlock()
 	return b.data
 }
 
 // Apply all staged data in asynchronous mode, otherwise do nothing
 func (b *DataBuffer) Apply() (err error) {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
 	for b.applyNext() {
 	}
 	return
-- 
2.43.0


From a482db7ea9317a7c10aea16058d0950f396ccb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:28 +0000
Subject: [PATCH 07/24] fix: a framed buffer keeps push order, so that a copy
 drops its oldest elements first and data never changes during an iteration

---
 core/buffer.go | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/core/buffer.go b/core/buffer.go
index 7704e9d..50b305e 100644
--- a/core/buffer.go
+++ b/core/buffer.go
@@ -33,13 +33,13 @@ func NewDataBuffer(data []Elemt, size int) Buffer {
 	switch {
 	case size > len(data):
 		// fixed size buffer, less data than buffer size
-		db.strategy = &fixedSizeStrategy{size, len(data)}
+		db.strategy = &fixedSizeStrategy{size}
 		db.data = make([]Elemt, len(data), size)
 		copy(db.data[:len(data)], data)
 
 	case size > 0:
 		// fixed size buffer, more data than buffer size
-		db.strategy = &fixedSizeStrategy{size, size}
+		db.strategy = &fixedSizeStrategy{size}
 		db.data = make([]Elemt, size)
 		copy(db.data, data[len(data)-size:])
 
@@ -105,26 +105,17 @@ type bufferSizeStrategy interface {
 	push(data []Elemt, elemt Elemt) []Elemt
 }
 
-// Fixed size buffer
+// Fixed size buffer, in push order. Slices returned before a push are left unchanged.
 type fixedSizeStrategy struct {
-	size     int
-	position int
+	size int
 }
 
 func (s *fixedSizeStrategy) push(data []Elemt, elemt Elemt) []Elemt {
-	if s.position == s.size {
-		s.position = 0
+	if len(data) == s.size {
+		data = data[1:]
 	}
 
-	if s.position < len(data) {
-		data[s.position] = elemt
-	} else {
-		data = append(data, elemt)
-	}
-
-	s.position++
-
-	return data
+	return append(data, elemt)
 }
 
 // Infinite size buffer
-- 
2.43.0


From ab54afac9d293c88b896a14c0204f468a01dd738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:02 +0000
Subject: [PATCH 08/24] fix: streaming returns snapshots of its centers, that
 next iterations do not change

---
 streaming/impl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streaming/impl.go b/streaming/impl.go
index 84b3730..6e48e2c 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -62,7 +62,8 @@ func (impl *Impl) Iterate(model core.OCModel) (clust core.Clust, runtimeFigures
 	select {
 	case elemt := <-impl.c:
 		impl.Process(elemt, model.Space())
-		clust = impl.clust
+		// centers are updated in place, return a snapshot
+		clust = append(core.Clust(nil), impl.clust...)
 	default:
 	}
 	runtimeFigures = impl.runtimeFigures()
-- 
2.43.0


From 70f191af3bd9ab1e27df8decad866e6014e10d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:03 +0000
Subject: [PATCH 09/24] fix: a restarted streaming algorithm resumes from its
 existing centers

---
 streaming/impl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streaming/impl.go b/streaming/impl.go
index 6e48e2c..4c203da 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -45,6 +45,9 @@ func NewImpl(conf Conf, elemts []core.Elemt) Impl {
 
 // Init initializes the streaming algorithm.
 func (impl *Impl) Init(model core.OCModel) (clust core.Clust, err error) {
+	if len(impl.clust) > 0 { // resume from existing centers
+		return append(clust, impl.clust...), nil
+	}
 	select {
 	case centroids := <-impl.c:
 		clust = core.Clust{centroids}
-- 
2.43.0


From 5728452270aa026cc26d51974ca7137fff497b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 10/24] fix: acceptations are counted from the last
 initialization

---
 mcmc/impl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mcmc/impl.go b/mcmc/impl.go
index 9e6d469..be5054b 100644
--- a/mcmc/impl.go
+++ b/mcmc/impl.go
@@ -56,6 +56,7 @@ func (impl *Impl) Init(model core.OCModel) (centroids core.Clust, err error) {
 			pdf:     impl.proba(*mcmcConf, space, centroids, centroids, currentTime),
 		}
 		impl.time = currentTime
+		impl.acc = 0
 	}
 	return
 }
-- 
2.43.0


From bd2cbf88572058016e57ae7d7ab0b433314f3766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:55 +0000
Subject: [PATCH 11/24] fix: a weighted draw always returns an index of
 positive weight

---
 kmeans/init.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index 600abe1..08544aa 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -100,7 +100,6 @@ func RandInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Ran
 // WeightedChoice returns random index given corresponding weights
 func WeightedChoice(weights []float64, rand *rand.Rand) (int, error) {
 	var sum float64
-	var idx int
 
 	for _, x := range weights {
 		sum += x
@@ -111,10 +110,17 @@ func WeightedChoice(weights []float64, rand *rand.Rand) (int, error) {
 	}
 
 	var cursor = rand.Float64() * sum
-	for cursor > 0 {
-		cursor -= weights[idx]
-		idx++
+	var last = 0
+	for idx, weight := range weights {
+		if weight > 0 {
+			if cursor <= weight {
+				return idx, nil
+			}
+			last = idx
+		}
+		cursor -= weight
 	}
 
-	return idx - 1, nil
+	// cursor may exceed weights because of rounding
+	return last, nil
 }
-- 
2.43.0


From d9b0ab8c74889cd47c07ccff82cc899f64173f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:55 +0000
Subject: [PATCH 12/24] fix: DTW without window is not limited by the length of
 the second series

---
 dtw/cost.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtw/cost.go b/dtw/cost.go
index 7f59c2f..f5f7942 100644
--- a/dtw/cost.go
+++ b/dtw/cost.go
@@ -50,7 +50,11 @@ func (cumCost *CumCostMatrix) Path() []Ends {
 
 func (cumCost *CumCostMatrix) setStride(shortest int, longest int) {
 	if cumCost.window == 0 {
+		// unlimited
 		cumCost.window = longest
+		if shortest > longest {
+			cumCost.window = shortest
+		}
 	}
 	var maxWindow = 2*cumCost.window + 1
 	cumCost.stride0 = shortest
-- 
2.43.0


From 8aa389ad29d7f1dde3511f70805529fd5a7b366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:58 +0000
Subject: [PATCH 13/24] fix: cosinus distance is never negative, and the
 nearest centroid does not depend on the sign of distances

---
 core/clustering.go | 2 +-
 cosinus/cosinus.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/clustering.go b/core/clustering.go
index 368697e..919ccf9 100644
--- a/core/clustering.go
+++ b/core/clustering.go
@@ -143,7 +143,7 @@ func (c *Clust) nearest(elemt Elemt, space Space) (label int, min float64) {
 	label = -1
 
 	for i := 0; i < len(*c); i++ {
-		if d := space.Dist(elemt, (*c)[i]); min < 0 || min > d {
+		if d := space.Dist(elemt, (*c)[i]); label < 0 || min > d {
 			min = d
 			label = i
 		}
diff --git a/cosinus/cosinus.go b/cosinus/cosinus.go
index ff23d8e..89a8aa7 100644
--- a/cosinus/cosinus.go
+++ b/cosinus/cosinus.go
@@ -29,7 +29,8 @@ func (space Space) Dist(elemt1, elemt2 core.Elemt) float64 {
 
 // PointDist return distance of points
 func (space Space) PointDist(point1 []float64, point2 []float64) float64 {
-	return 1 - Cosinus(point1, point2)
+	// rounding may lead to a cosinus slightly greater than 1
+	return math.Max(0, 1-Cosinus(point1, point2))
 }
 
 // Combine returns the weighted average of elemt1 and elemt2
-- 
2.43.0


From fcc8f316f6f77676b415b62fad6f20b7201c6865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:24 +0000
Subject: [PATCH 14/24] fix: a failed initialization publishes no centroids

---
 core/ctrl.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 2e0acd0..0af363b 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -87,10 +87,10 @@ func (algo *Algo) init() (err error) {
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
 		centroids, err = algo.impl.Init(algo)
-		algo.modelMutex.Lock()
-		algo.centroids = centroids
-		algo.modelMutex.Unlock()
 		if err == nil {
+			algo.modelMutex.Lock()
+			algo.centroids = centroids
+			algo.modelMutex.Unlock()
 			algo.setStatus(NewOCStatus(Ready), false)
 		} else {
 			algo.setStatus(NewOCStatusError(err), false)
-- 
2.43.0


From 09c764f22a8a07023f0ece1aeeea50179b45ab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:33 +0000
Subject: [PATCH 15/24] fix: publish a late distribution atomically

---
 kmeans/init.go      | 5 ++++-
 mcmc/latedistrib.go | 9 +++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index 08544aa..0ed0e8b 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -67,7 +67,10 @@ func PPInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand)
 func PPIter(clust core.Clust, elemts []core.Elemt, space core.Space, src *rand.Rand) (core.Elemt, error) {
 	var _, dists = clust.ParMapLabel(elemts, space, runtime.NumCPU())
 	var draw, err = WeightedChoice(dists, src)
-	return space.Copy(elemts[draw]), err
+	if err != nil {
+		return nil, err
+	}
+	return space.Copy(elemts[draw]), nil
 }
 
 // ErrNullSet indicates that a draw over an empty set was attempted
diff --git a/mcmc/latedistrib.go b/mcmc/latedistrib.go
index 488910f..cfae8b3 100644
--- a/mcmc/latedistrib.go
+++ b/mcmc/latedistrib.go
@@ -2,6 +2,7 @@ package mcmc
 
 import (
 	"sync"
+	"sync/atomic"
 
 	"github.com/wearelumenai/distclus/core"
 )
@@ -12,7 +13,7 @@ type DistribBuilder func(elemt core.Elemt) Distrib
 // LateDistrib initializes a wrapped Distrib when the first data is known
 type LateDistrib struct {
 	initializer DistribBuilder
-	initialized bool
+	initialized uint32 // 1 once distrib is built
 	mu          sync.Mutex
 	distrib     Distrib
 }
@@ -38,7 +39,7 @@ func (d *LateDistrib) Pdf(x, mu core.Elemt, time int) float64 {
 }
 
 func (d *LateDistrib) initialize(elemt core.Elemt) {
-	if !d.initialized {
+	if atomic.LoadUint32(&d.initialized) == 0 {
 		d.tryInitialize(elemt)
 	}
 }
@@ -46,8 +47,8 @@ func (d *LateDistrib) initialize(elemt core.Elemt) {
 func (d *LateDistrib) tryInitialize(elemt core.Elemt) {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	if !d.initialized {
+	if d.initialized == 0 {
 		d.distrib = d.initializer(elemt)
-		d.initialized = true
+		atomic.StoreUint32(&d.initialized, 1)
 	}
 }
-- 
2.43.0


From db1b4a294d14e0d73b41ec155217e28e8be4f194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 16/24] fix: copy the implementation with the given
 configuration and space, so that a copy is independent of its original

---
 core/ctrl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 0af363b..534ac7f 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -376,7 +376,9 @@ func (algo *Algo) SetSpace(space Space) (err error) {
 
 // Copy make a copy of this algo with new conf and space
 func (algo *Algo) Copy(conf Conf, space Space) (oc OnlineClust, err error) {
-	impl, err := algo.impl.Copy(algo)
+	// the implementation is built with the new conf and space, in order to share nothing with this algo
+	var model = NewSimpleOCModel(conf, space, algo.Status(), algo.RuntimeFigures(), algo.Centroids())
+	impl, err := algo.impl.Copy(model)
 	if err == nil {
 		oc = NewAlgo(conf, impl, space)
 	}
-- 
2.43.0


From 00ce3a03791e4a9afbe99c0199c91f42f041dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 17/24] fix: data pushed while the execution completes are not
 left without their iterations

---
 core/ctrl.go | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 534ac7f..d62543e 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -232,7 +232,7 @@ func (algo *Algo) Predict(elemt Elemt) (pred Elemt, label int, dist float64) {
 	return
 }
 
-// terminate the run: update duration and status, then free clients waiting for an acknowledgment
+// terminate the run if it is not over yet
 func (algo *Algo) terminate(start time.Time, err *error, ackChannel chan bool) {
 	var recovery = recover()
 	if recovery != nil {
@@ -240,16 +240,45 @@ func (algo *Algo) terminate(start time.Time, err *error, ackChannel chan bool) {
 	}
 	algo.statusMutex.Lock()
 	defer algo.statusMutex.Unlock()
-	// update algo runtime figures
+	select {
+	case <-ackChannel: // run is over
+	default:
+		if *err != nil {
+			algo.setStatus(NewOCStatusError(*err), false)
+		}
+		algo.endRun(start, ackChannel)
+	}
+}
+
+// complete the run and set status to Ready if the finishing condition is met
+func (algo *Algo) complete(finishing Finishing, start time.Time, ackChannel chan bool) bool {
+	for {
+		algo.modelMutex.RLock()
+		var pushedData = algo.pushedData
+		algo.modelMutex.RUnlock()
+		if !IsFinished(finishing, algo) {
+			return false
+		}
+		algo.statusMutex.Lock()
+		// check finishing again if data have been pushed in the meantime
+		var completed = algo.pushedData == pushedData
+		if completed {
+			algo.setStatus(NewOCStatus(Ready), false)
+			algo.endRun(start, ackChannel)
+		}
+		algo.statusMutex.Unlock()
+		if completed {
+			return true
+		}
+	}
+}
+
+// endRun updates duration and frees clients waiting for an acknowledgment, statusMutex must be locked
+func (algo *Algo) endRun(start time.Time, ackChannel chan bool) {
 	algo.modelMutex.Lock()
 	algo.duration += time.Now().Sub(start)
 	algo.runtimeFigures[Duration] = float64(algo.duration)
 	algo.modelMutex.Unlock()
-	if *err != nil {
-		algo.setStatus(NewOCStatusError(*err), false)
-	} else if algo.status.Value == Running {
-		algo.setStatus(NewOCStatus(Ready), false)
-	}
 	close(ackChannel)
 }
 
@@ -277,7 +306,7 @@ func (algo *Algo) run(statusChannel chan OCStatus, ackChannel chan bool) {
 
 	defer algo.terminate(start, &err, ackChannel)
 
-	for err == nil && algo.status.Value == Running && !IsFinished(finishing, algo) {
+	for err == nil && algo.status.Value == Running && !algo.complete(finishing, start, ackChannel) {
 		select { // check for algo status update
 		case status := <-statusChannel:
 			algo.setStatus(status, true)
-- 
2.43.0


From 8d7f8d72c9f333fa05c2914ed2d5fe6564565714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:01 +0000
Subject: [PATCH 18/24] fix: an initializer given a negative K returns an error
 instead of panicking

---
 kmeans/init.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index 0ed0e8b..8b4b3a2 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -49,9 +49,9 @@ func GivenInitializer(k int, elemts []core.Elemt, space core.Space, _ *rand.Rand
 // PPInitializer initializes a clustering algorithm with kmeans++
 func PPInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (centroids core.Clust, err error) {
 	err = check(k, elemts)
-	centroids = make(core.Clust, k)
 
 	if err == nil {
+		centroids = make(core.Clust, k)
 		var draw = src.Intn(len(elemts))
 		centroids[0] = elemts[draw]
 
@@ -79,9 +79,9 @@ var ErrNullSet = errors.New("cannot draw over an empty set")
 // RandInitializer initializes a clustering with random testPoints
 func RandInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (centroids core.Clust, err error) {
 	err = check(k, elemts)
-	centroids = make(core.Clust, k)
 
 	if err == nil {
+		centroids = make(core.Clust, k)
 		var chosen = make(map[int]int)
 		var i int
 
-- 
2.43.0


From 8be639184c0bec82bb34620aa49eb25def1233f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:02 +0000
Subject: [PATCH 19/24] fix: a series of one point is resized by repeating it

---
 dtw/interpolate.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtw/interpolate.go b/dtw/interpolate.go
index 87adc71..69e0668 100644
--- a/dtw/interpolate.go
+++ b/dtw/interpolate.go
@@ -21,6 +21,13 @@ func Interpolate(s [][]float64, idx []int, shrinkFactor int, space PointSpace) [
 
 // Resize shrinks or extends a series to a new size
 func Resize(s [][]float64, size int, space PointSpace) [][]float64 {
+	if len(s) == 1 { // nothing to interpolate with
+		var repeated = make([][]float64, size)
+		for i := range repeated {
+			repeated[i] = space.PointCopy(s[0])
+		}
+		return repeated
+	}
 	var idx = make([]int, len(s))
 	for i := range idx {
 		idx[i] = i * (size - 1)
-- 
2.43.0


From 69613f5f3e300d42f2a4f93512a6f38c1e811ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:00 +0000
Subject: [PATCH 20/24] fix: concurrent samples of a distribution shared by
 copies raced on its random generator

---
 mcmc/multivt.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mcmc/multivt.go b/mcmc/multivt.go
index d873187..6b9ac9c 100644
--- a/mcmc/multivt.go
+++ b/mcmc/multivt.go
@@ -2,6 +2,7 @@ package mcmc
 
 import (
 	"math"
+	"sync"
 	"time"
 
 	"github.com/wearelumenai/distclus/core"
@@ -27,6 +28,7 @@ type MultivT struct {
 	chi2        *distuv.ChiSquared
 	gammaFactor float64
 	power       float64
+	mutex       *sync.Mutex // draws: the distribution can be shared by several algorithms (copies)
 }
 
 // NewMultivT Constructor for multivT distribution
@@ -40,7 +42,7 @@ func NewMultivT(conf MultivTConf) MultivT {
 	}
 	var sigma = mat.NewDiagDense(conf.Dim, s)
 
-	var m = MultivT{}
+	var m = MultivT{mutex: &sync.Mutex{}}
 	m.setConf(conf)
 	m.normal, _ = distmv.NewNormal(mu, sigma, m.RGen)
 	m.chi2 = &distuv.ChiSquared{K: m.Nu, Src: m.RGen}
@@ -61,13 +63,20 @@ func (m *MultivT) setConf(conf MultivTConf) {
 	}
 }
 
+// draw from the random generator
+func (m MultivT) draw() (chi2 float64, normal []float64) {
+	m.mutex.Lock()
+	defer m.mutex.Unlock()
+	return m.chi2.Rand(), m.normal.Rand(nil)
+}
+
 // Sample from a (uncorrelated) multivariate t distribution
 func (m MultivT) Sample(mu core.Elemt, time int) core.Elemt {
 	var fmu = mu.([]float64)
 	var scale = 1 / math.Sqrt(float64(time*20))
 
-	var chiInverse = math.Sqrt(m.chi2.K / m.chi2.Rand())
-	var student = m.normal.Rand(nil)
+	var chi2, student = m.draw()
+	var chiInverse = math.Sqrt(m.chi2.K / chi2)
 
 	for i := range student {
 		student[i] = fmu[i] + student[i]*chiInverse*scale
-- 
2.43.0


From b4bc5dccbdc39e18daec92b3479be487efec3661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:36 +0000
Subject: [PATCH 21/24] fix: copying a running streaming algorithm read its
 centers while they changed

---
 streaming/impl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streaming/impl.go b/streaming/impl.go
index 4c203da..97c0427 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -22,7 +22,8 @@ type Impl struct {
 // Copy impl
 func (impl *Impl) Copy(model core.OCModel) (core.Impl, error) {
 	var conf = model.Conf().(*Conf)
-	var algo = NewAlgo(*conf, model.Space(), impl.clust)
+	// published centers, because those of impl can be changing
+	var algo = NewAlgo(*conf, model.Space(), model.Centroids())
 	return algo.Impl(), nil
 }
 
-- 
2.43.0


From ad215fb60384feeab012512deeb653da48395a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:14 +0000
Subject: [PATCH 22/24] fix: a panic in a worker of a parallel algorithm killed
 the process

---
 core/util.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/util.go b/core/util.go
index ac1e020..6b190b7 100644
--- a/core/util.go
+++ b/core/util.go
@@ -5,14 +5,17 @@ import "sync"
 // PartitionProcess represents a function that runs in parallel over a data partitions
 type PartitionProcess = func(start, end, rank int)
 
-// Par runs a function in parallel over data partitions given data size and degree of parallelism
+// Par runs a function in parallel over data partitions given data size and degree of parallelism.
+// A panic of the function is raised again in the calling routine, which may recover from it.
 func Par(process func(int, int, int), size int, degree int) {
 	var wg = &sync.WaitGroup{}
 	var offset = size / degree
 	var remainder = size % degree
+	var panics = make([]interface{}, degree)
 	wg.Add(degree)
 	var launch = func(start int, end int, rank int) {
 		defer wg.Done()
+		defer func() { panics[rank] = recover() }()
 		process(start, end, rank)
 	}
 	var start = 0
@@ -28,4 +31,9 @@ func Par(process func(int, int, int), size int, degree int) {
 		start = end
 	}
 	wg.Wait()
+	for _, p := range panics {
+		if p != nil {
+			panic(p)
+		}
+	}
 }
-- 
2.43.0


From 480756fdf22f8de28abbf07b29496533f82b2b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:14 +0000
Subject: [PATCH 23/24] fix: a panic of an initialisation left the algorithm
 initialising for ever

---
 core/ctrl.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index d62543e..3c7d65d 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -86,7 +86,7 @@ func (algo *Algo) init() (err error) {
 	case Created:
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
-		centroids, err = algo.impl.Init(algo)
+		centroids, err = algo.initImpl()
 		if err == nil {
 			algo.modelMutex.Lock()
 			algo.centroids = centroids
@@ -101,6 +101,16 @@ func (algo *Algo) init() (err error) {
 	return
 }
 
+// initialize the implementation, a panic is an error like those of iterations
+func (algo *Algo) initImpl() (centroids Clust, err error) {
+	defer func() {
+		if recovery := recover(); recovery != nil {
+			err = fmt.Errorf("%v", recovery)
+		}
+	}()
+	return algo.impl.Init(algo)
+}
+
 // Play the algorithm in online mode
 func (algo *Algo) Play() (err error) {
 	algo.ctrlMutex.Lock()
-- 
2.43.0


From c0c9d8f00fdff9598524d202a072cc527c2e9324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:22 +0000
Subject: [PATCH 24/24] fix: an implementation can read its model while it is
 initialised

---
 core/ctrl.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 3c7d65d..9366851 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -101,14 +101,22 @@ func (algo *Algo) init() (err error) {
 	return
 }
 
-// initialize the implementation, a panic is an error like those of iterations
+// initialize the implementation, a panic is an error like those of iterations.
+// statusMutex is locked: the implementation reads a copy of the model.
 func (algo *Algo) initImpl() (centroids Clust, err error) {
 	defer func() {
 		if recovery := recover(); recovery != nil {
 			err = fmt.Errorf("%v", recovery)
 		}
 	}()
-	return algo.impl.Init(algo)
+	return algo.impl.Init(SimpleOCModel{
+		conf:           algo.Conf(),
+		space:          algo.Space(),
+		status:         algo.status,
+		runtimeFigures: algo.RuntimeFigures(),
+		centroids:      algo.Centroids(),
+		impl:           algo.Impl(),
+	})
 }
 
 // Play the algorithm in online mode
-- 
2.43.0

