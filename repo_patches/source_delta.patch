From 99e19d354e218ae04295217a0eefca7fe4904475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:25 +0000
Subject: [PATCH 01/44] fix: make starting and joining a worker thread race
 free

Whether a thread is running was only recorded by the new goroutine itself.
Until it was scheduled, a join returned at once and a second start was
accepted and then blocked instead of failing. Record the run at the moment
it is started.
---
 sttp/thread/Thread.go | 62 +++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/sttp/thread/Thread.go b/sttp/thread/Thread.go
index 9bba841..3800f34 100644
--- a/sttp/thread/Thread.go
+++ b/sttp/thread/Thread.go
@@ -23,17 +23,13 @@
 
 package thread
 
-import (
-	"sync"
-
-	"github.com/tevino/abool/v2"
-)
+import "sync"
 
 // Thread represents a thread-like wrapper for a Go routine.
 type Thread struct {
-	exec    func()
-	mutex   sync.Mutex
-	running abool.AtomicBool
+	exec  func()
+	mutex sync.Mutex
+	done  chan struct{} // Closed when current run completes, nil when not running
 }
 
 // NewThread creates a new Thread.
@@ -47,50 +43,58 @@ func (thread *Thread) Start() {
 		panic("thread has no execution function defined")
 	}
 
-	if thread.running.IsSet() {
+	if !thread.TryStart() {
 		panic("thread is already running")
 	}
-
-	thread.mutex.Lock()
-	go thread.run()
 }
 
 // TryStart attempts to cause the thread function to be scheduled for execution via a new Go routine.
 // Returns true if the thread function was successfully scheduled for execution; otherwise, false.
 func (thread *Thread) TryStart() bool {
-	defer func() {
-		// Ignore possible thread Start race panics, function will return false
-		recover()
-	}()
+	if thread.exec == nil {
+		return false
+	}
+
+	thread.mutex.Lock()
+	defer thread.mutex.Unlock()
 
-	if thread.exec != nil && thread.running.IsNotSet() {
-		thread.Start()
-		return true
+	if thread.done != nil {
+		return false
 	}
 
-	return false
+	thread.done = make(chan struct{})
+	go thread.run()
+
+	return true
 }
 
 // Join blocks the calling thread until this Thread terminates.
 func (thread *Thread) Join() {
-	if thread.exec == nil || thread.running.IsNotSet() {
-		return
-	}
-
 	thread.mutex.Lock()
-	//lint:ignore SA2001 -- desired behavior
+	done := thread.done
 	thread.mutex.Unlock()
+
+	if done != nil {
+		<-done
+	}
 }
 
 // IsRunning safely determines if the thread function is currently executing.
 func (thread *Thread) IsRunning() bool {
-	return thread.running.IsSet()
+	thread.mutex.Lock()
+	defer thread.mutex.Unlock()
+
+	return thread.done != nil
 }
 
 func (thread *Thread) run() {
-	defer thread.running.UnSet()
-	defer thread.mutex.Unlock()
+	defer func() {
+		thread.mutex.Lock()
+		defer thread.mutex.Unlock()
+
+		close(thread.done)
+		thread.done = nil
+	}()
 
-	thread.running.Set()
 	thread.exec()
 }
-- 
2.43.0


From 5bbcbdd0698470ac0e92ecf04db48ff988b704b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:41 +0000
Subject: [PATCH 02/44] fix: separate NaN filter key from its value in
 subscription request

---
 sttp/transport/DataSubscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 97c6f99..05a77d1 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -492,7 +492,7 @@ func (ds *DataSubscriber) Subscribe() error {
 	parameterBuilder.WriteString(strconv.FormatInt(int64(ds.subscription.ProcessingInterval), 10))
 	parameterBuilder.WriteString(";useMillisecondResolution=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.UseMillisecondResolution))
-	parameterBuilder.WriteString(";requestNaNValueFilter")
+	parameterBuilder.WriteString(";requestNaNValueFilter=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.RequestNaNValueFilter))
 	parameterBuilder.WriteString(";assemblyInfo={source=")
 	parameterBuilder.WriteString(ds.STTPSourceInfo)
-- 
2.43.0


From c7c4a3b71904f25fce38b08444b4dd0689342aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:41 +0000
Subject: [PATCH 03/44] fix: return the registered metadata record when lookups
 race

---
 sttp/transport/DataSubscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 05a77d1..f474a6c 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -293,7 +293,7 @@ func (ds *DataSubscriber) LookupMetadata(signalID guid.Guid) *MeasurementMetadat
 			Multiplier: 1.0,
 		}
 		// Continue using LoadOrStore on failure to avoid racing another thread
-		ds.measurementRegistry.LoadOrStore(signalID, metadata)
+		metadata, _ = ds.measurementRegistry.LoadOrStore(signalID, metadata)
 	}
 	return metadata.(*MeasurementMetadata)
 }
-- 
2.43.0


From d9a95c5a304219fc1e783b6ca76de148e8304489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:41 +0000
Subject: [PATCH 04/44] fix: copy uncompressed metadata out of the shared read
 buffer

---
 sttp/transport/DataSubscriber.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index f474a6c..3cc7df0 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1022,6 +1022,9 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 			ds.dispatchStatusMessage(fmt.Sprintf("Decompressed %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(decompressStarted).Seconds(), 3)))
 		} else {
 			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(ds.metadataRequested).Seconds(), 3)))
+
+			// Callback runs while next packets are received, so it cannot reference shared read buffer
+			data = append([]byte(nil), data...)
 		}
 
 		go metadataReceivedCallback(data)
-- 
2.43.0


From 53bd3fb659e6074a1e93b77c205d68830d3db568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:41 +0000
Subject: [PATCH 05/44] fix: send large commands and commands from several
 threads intact

---
 sttp/transport/DataSubscriber.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 3cc7df0..ee90006 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -63,6 +63,7 @@ type DataSubscriber struct {
 	readBuffer                   []byte
 	reader                       *bufio.Reader
 	writeBuffer                  []byte
+	writeMutex                   sync.Mutex
 	dataChannelSocket            net.Conn
 	dataChannelResponseThread    *thread.Thread
 	connectionID                 string
@@ -1504,11 +1505,24 @@ func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommand
 		return
 	}
 
+	if err := ds.writeServerCommand(commandCode, data); err != nil {
+		// Write error, connection may have been closed by peer; terminate connection
+		ds.dispatchErrorMessage("Failed to send server command - disconnecting: " + err.Error())
+		ds.dispatchConnectionTerminated()
+	}
+}
+
+// writeServerCommand writes one complete command frame to the command channel. Commands
+// can be sent from any thread, so use of the write buffer and socket is synchronized.
+func (ds *DataSubscriber) writeServerCommand(commandCode ServerCommandEnum, data []byte) error {
+	ds.writeMutex.Lock()
+	defer ds.writeMutex.Unlock()
+
 	var packetSize uint32 = uint32(len(data)) + 1
 	var commandBufferSize uint32 = packetSize + payloadHeaderSize
 
 	if int(commandBufferSize) > cap(ds.writeBuffer) {
-		ds.writeBuffer = ds.writeBuffer[:commandBufferSize]
+		ds.writeBuffer = make([]byte, commandBufferSize)
 	}
 
 	// Insert packet size
@@ -1528,11 +1542,8 @@ func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommand
 		ds.metadataRequested = time.Now()
 	}
 
-	if _, err := ds.commandChannelSocket.Write(ds.writeBuffer[:commandBufferSize]); err != nil {
-		// Write error, connection may have been closed by peer; terminate connection
-		ds.dispatchErrorMessage("Failed to send server command - disconnecting: " + err.Error())
-		ds.dispatchConnectionTerminated()
-	}
+	_, err := ds.commandChannelSocket.Write(ds.writeBuffer[:commandBufferSize])
+	return err
 }
 
 func (ds *DataSubscriber) sendOperationalModes() {
-- 
2.43.0


From 70b3cfbf889508b2a7ac2b1295c5e2cbb6d1e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:49 +0000
Subject: [PATCH 06/44] fix: deliver buffer blocks with their data, once and in
 sequence

---
 sttp/transport/DataSubscriber.go | 108 +++++++++++++++----------------
 1 file changed, 52 insertions(+), 56 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index ee90006..47ca40e 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -166,7 +166,7 @@ type DataSubscriber struct {
 	MeasurementPool sync.Pool
 
 	bufferBlockExpectedSequenceNumber uint32
-	bufferBlockCache                  []BufferBlock
+	bufferBlockCache                  map[uint32]BufferBlock
 }
 
 // NewDataSubscriber creates a new DataSubscriber.
@@ -378,6 +378,7 @@ func (ds *DataSubscriber) setupConnection() {
 
 	ds.keyIVs = nil
 	ds.bufferBlockExpectedSequenceNumber = 0
+	ds.bufferBlockCache = make(map[uint32]BufferBlock)
 	ds.measurementRegistry = sync.Map{}
 }
 
@@ -1395,80 +1396,75 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 	// Buffer block received - wrap as a BufferBlockMeasurement and expose back to consumer
 	sequenceNumber := binary.BigEndian.Uint32(data)
-	bufferCacheIndex := int(sequenceNumber - ds.bufferBlockExpectedSequenceNumber)
 	var signalIndexCacheIndex int32
 
 	if ds.Version > 1 && data[4:][0] > 0 {
 		signalIndexCacheIndex = 1
 	}
 
-	// Check if this buffer block has already been processed (e.g., mistaken retransmission due to timeout)
-	if bufferCacheIndex >= 0 && (bufferCacheIndex >= len(ds.bufferBlockCache) || ds.bufferBlockCache[bufferCacheIndex].Buffer == nil) {
-		// Send confirmation that buffer block is received
-		ds.SendServerCommandWithPayload(ServerCommand.ConfirmBufferBlock, data[:4])
+	// Send confirmation that buffer block is received, this includes retransmissions
+	// since publisher may not have received the previous confirmation
+	ds.SendServerCommandWithPayload(ServerCommand.ConfirmBufferBlock, data[:4])
 
-		if ds.Version > 1 {
-			data = data[5:]
-		} else {
-			data = data[4:]
-		}
-
-		// Get measurement key from signal index cache
-		signalIndex := int32(binary.BigEndian.Uint32(data))
+	// Check if this buffer block has already been processed (e.g., mistaken retransmission due to timeout),
+	// sequence numbers are compared by signed difference since these can roll over
+	if int32(sequenceNumber-ds.bufferBlockExpectedSequenceNumber) < 0 {
+		return
+	}
 
-		ds.signalIndexCacheMutex.Lock()
-		signalIndexCache := ds.signalIndexCache[signalIndexCacheIndex]
-		ds.signalIndexCacheMutex.Unlock()
+	if ds.Version > 1 {
+		data = data[5:]
+	} else {
+		data = data[4:]
+	}
 
-		signalID := signalIndexCache.SignalID(signalIndex)
-		bufferBlockMeasurement := BufferBlock{SignalID: signalID}
+	// Get measurement key from signal index cache
+	signalIndex := int32(binary.BigEndian.Uint32(data))
+	data = data[4:]
 
-		// Determine if this is the next buffer block in the sequence
-		if sequenceNumber == ds.bufferBlockExpectedSequenceNumber {
-			bufferBlockMeasurements := make([]BufferBlock, 1+len(ds.bufferBlockCache))
-			var i int
+	ds.signalIndexCacheMutex.Lock()
+	signalIndexCache := ds.signalIndexCache[signalIndexCacheIndex]
+	ds.signalIndexCacheMutex.Unlock()
 
-			// Add the buffer block measurement to the list of measurements to be published
-			bufferBlockMeasurements[0] = bufferBlockMeasurement
-			ds.bufferBlockExpectedSequenceNumber++
+	// Cache buffer block by its sequence number, copying data out of the shared read buffer. Later blocks
+	// can only arrive first for possible dropouts and/or out of order packet delivery when data transport
+	// is UDP - this use case is not expected when using a TCP only connection.
+	if _, received := ds.bufferBlockCache[sequenceNumber]; !received {
+		ds.bufferBlockCache[sequenceNumber] = BufferBlock{
+			SignalID: signalIndexCache.SignalID(signalIndex),
+			Buffer:   append([]byte{}, data...),
+		}
+	}
 
-			// Add cached buffer block measurements to the list of measurements to be published
-			for i = 1; i < len(ds.bufferBlockCache); i++ {
-				if ds.bufferBlockCache[i].Buffer == nil {
-					break
-				}
+	var bufferBlockMeasurements []BufferBlock
 
-				bufferBlockMeasurements[i] = ds.bufferBlockCache[i]
-				ds.bufferBlockExpectedSequenceNumber++
-			}
+	// Move buffer block measurements that are next in sequence to the list of measurements to be published
+	for {
+		bufferBlockMeasurement, received := ds.bufferBlockCache[ds.bufferBlockExpectedSequenceNumber]
 
-			// Remove published buffer block measurements from the buffer block queue
-			if len(ds.bufferBlockCache) > 0 {
-				ds.bufferBlockCache = ds.bufferBlockCache[i:]
-			}
+		if !received {
+			break
+		}
 
-			// Publish buffer block measurements
-			ds.BeginCallbackSync()
+		bufferBlockMeasurements = append(bufferBlockMeasurements, bufferBlockMeasurement)
+		delete(ds.bufferBlockCache, ds.bufferBlockExpectedSequenceNumber)
+		ds.bufferBlockExpectedSequenceNumber++
+	}
 
-			if ds.NewBufferBlocksCallback != nil {
-				// Do not use Go routine here, processing sequence may be important.
-				// Execute callback directly from socket processing thread:
-				ds.NewBufferBlocksCallback(bufferBlockMeasurements)
-			}
+	if len(bufferBlockMeasurements) == 0 {
+		return
+	}
 
-			ds.EndCallbackSync()
-		} else {
-			// Ensure that the list has at least as many elements as it needs to cache this measurement.
-			// This edge case handles possible dropouts and/or out of order packet deliver when data
-			// transport is UDP - this use case is not expected when using a TCP only connection.
-			for i := len(ds.bufferBlockCache); i <= bufferCacheIndex; i++ {
-				ds.bufferBlockCache = append(ds.bufferBlockCache, BufferBlock{})
-			}
+	// Publish buffer block measurements
+	ds.BeginCallbackSync()
 
-			// Insert this buffer block into the proper location in the list
-			ds.bufferBlockCache[bufferCacheIndex] = bufferBlockMeasurement
-		}
+	if ds.NewBufferBlocksCallback != nil {
+		// Do not use Go routine here, processing sequence may be important.
+		// Execute callback directly from socket processing thread:
+		ds.NewBufferBlocksCallback(bufferBlockMeasurements)
 	}
+
+	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleNotification(data []byte) {
-- 
2.43.0


From 86cc32d21a775977bb901872a53c16c344120787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:50 +0000
Subject: [PATCH 07/44] fix: never deliver measurements that were not parsed
 from a data packet

---
 sttp/transport/DataSubscriber.go | 67 +++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 47ca40e..5121e48 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1229,15 +1229,11 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	count := binary.BigEndian.Uint32(data)
 	var measurements *[]Measurement
 	if mptr := ds.MeasurementPool.Get(); mptr == nil {
-		m := make([]Measurement, count)
+		m := make([]Measurement, 0, min(count, uint32(len(data))))
 		measurements = &m
 	} else {
 		measurements = mptr.(*[]Measurement)
-		if uint32(cap(*measurements)) < count {
-			*measurements = make([]Measurement, count)
-		} else {
-			*measurements = (*measurements)[:count]
-		}
+		*measurements = (*measurements)[:0]
 	}
 	var cacheIndex int
 
@@ -1250,9 +1246,17 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	ds.signalIndexCacheMutex.Unlock()
 
 	if compressed {
-		ds.parseTSSCMeasurements(signalIndexCache, data[4:], *measurements)
+		*measurements = ds.parseTSSCMeasurements(signalIndexCache, data[4:], count, *measurements)
 	} else {
-		ds.parseCompactMeasurements(signalIndexCache, data[4:], *measurements)
+		*measurements = ds.parseCompactMeasurements(signalIndexCache, data[4:], count, *measurements)
+	}
+
+	// Only expose measurements that were actually parsed
+	count = uint32(len(*measurements))
+
+	if count == 0 {
+		ds.MeasurementPool.Put(measurements)
+		return
 	}
 
 	ds.BeginCallbackSync()
@@ -1268,7 +1272,9 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	atomic.AddUint64(&ds.totalMeasurementsReceived, uint64(count))
 }
 
-func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
+// parseTSSCMeasurements appends measurements parsed from a TSSC packet to provided slice, measurements
+// that cannot be resolved by the signal index cache are skipped.
+func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, count uint32, measurements []Measurement) []Measurement {
 	decoder := signalIndexCache.tsscDecoder
 	var newDecoder bool
 
@@ -1283,7 +1289,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if data[0] != 85 {
 		ds.dispatchErrorMessage("TSSC version not recognized - disconnecting. Received version: " + strconv.Itoa(int(data[0])))
 		ds.dispatchConnectionTerminated()
-		return
+		return measurements
 	}
 
 	sequenceNumber := binary.BigEndian.Uint16(data[1:])
@@ -1318,7 +1324,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 		}
 
 		// Ignore packets until the reset has occurred
-		return
+		return measurements
 	}
 
 	decoder.SetBuffer(data[3:])
@@ -1330,25 +1336,31 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	var err error
 
 	ok := true
-	index := 0
 
-	for ok {
+	for index := uint32(0); ok; index++ {
 		if ok, err = decoder.TryGetMeasurement(&id, &timestamp, &stateFlags, &value); ok {
-			measurements[index] = Measurement{
+			if index >= count {
+				err = errors.New("encountered more measurements than announced")
+				break
+			}
+
+			if !signalIndexCache.Contains(id) {
+				continue
+			}
+
+			measurements = append(measurements, Measurement{
 				SignalID:  signalIndexCache.SignalID(id),
 				Value:     float64(value),
 				Timestamp: ticks.Ticks(timestamp),
 				Flags:     StateFlagsEnum(stateFlags),
-			}
-
-			index++
+			})
 		}
 	}
 
 	if err != nil {
 		ds.dispatchErrorMessage("Failed to parse TSSC measurements - disconnecting: " + err.Error())
 		ds.dispatchConnectionTerminated()
-		return
+		return measurements[:0]
 	}
 
 	decoder.SequenceNumber++
@@ -1357,9 +1369,13 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if decoder.SequenceNumber == 0 {
 		decoder.SequenceNumber = 1
 	}
+
+	return measurements
 }
 
-func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
+// parseCompactMeasurements appends measurements parsed from a compact packet to provided slice, measurements
+// that cannot be resolved by the signal index cache are skipped.
+func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, count uint32, measurements []Measurement) []Measurement {
 	if signalIndexCache.Count() == 0 {
 		if ds.lastMissingCacheWarning+missingCacheWarningInterval < ticks.UtcNow() {
 			// Warning message for missing signal index cache
@@ -1370,14 +1386,14 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 			ds.lastMissingCacheWarning = ticks.UtcNow()
 		}
 
-		return
+		return measurements
 	}
 
 	useMillisecondResolution := ds.subscription.UseMillisecondResolution
 	includeTime := ds.subscription.IncludeTime
 	index := 0
 
-	for i := 0; i < len(measurements); i++ {
+	for i := uint32(0); i < count; i++ {
 		// Deserialize compact measurement format
 		compactMeasurement := NewCompactMeasurement(signalIndexCache, includeTime, useMillisecondResolution, &ds.baseTimeOffsets)
 		bytesDecoded, err := compactMeasurement.Decode(data[index:])
@@ -1385,12 +1401,17 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 		if err != nil {
 			ds.dispatchErrorMessage("Failed to parse compact measurements - disconnecting: " + err.Error())
 			ds.dispatchConnectionTerminated()
-			return
+			return measurements
 		}
 
 		index += bytesDecoded
-		measurements[i] = compactMeasurement.Measurement
+
+		if compactMeasurement.SignalID != guid.Empty {
+			measurements = append(measurements, compactMeasurement.Measurement)
+		}
 	}
+
+	return measurements
 }
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
-- 
2.43.0


From f9bb25c99b0aeca358eae388558858eafb37ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:58 +0000
Subject: [PATCH 08/44] fix: report truncated TSSC data as an error instead of
 crashing

---
 sttp/transport/tssc/Decoder.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sttp/transport/tssc/Decoder.go b/sttp/transport/tssc/Decoder.go
index 128921e..694f4ff 100644
--- a/sttp/transport/tssc/Decoder.go
+++ b/sttp/transport/tssc/Decoder.go
@@ -95,7 +95,14 @@ func (td *Decoder) SetBuffer(data []byte) {
 
 // TryGetMeasurement attempts to get the next decoded measurement from the working buffer.
 //gocyclo:ignore
-func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *uint32, value *float32) (bool, error) {
+func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *uint32, value *float32) (ok bool, err error) {
+	// Reading past the end of a corrupt or truncated working buffer is reported as an error
+	defer func() {
+		if recover() != nil {
+			ok, err = false, fmt.Errorf("unexpected end of buffer at position %d with last position %d", td.position, td.lastPosition)
+		}
+	}()
+
 	if td.position == td.lastPosition && td.bitStreamIsEmpty() {
 		td.clearBitStream()
 		*id = 0
@@ -152,11 +159,10 @@ func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *ui
 
 	// Assign decoded measurement ID to out parameter
 	*id = td.lastPoint.PrevNextPointID1
-	var nextPoint *pointMetadata
-	var ok bool
+	nextPoint := td.points[*id]
 
 	// Setup tracking for metadata associated with measurement ID and next point to decode
-	if nextPoint, ok = td.points[*id]; !ok || nextPoint == nil {
+	if nextPoint == nil {
 		nextPoint = td.newPointMetadata()
 		td.points[*id] = nextPoint
 		nextPoint.PrevNextPointID1 = *id + 1
-- 
2.43.0


From ed79502ce58788b6256b2e2678f2af54a71e92a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:59 +0000
Subject: [PATCH 09/44] fix: check for a complete timestamp when decoding a
 compact measurement

---
 sttp/transport/CompactMeasurement.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sttp/transport/CompactMeasurement.go b/sttp/transport/CompactMeasurement.go
index ab48e2a..14cdea3 100644
--- a/sttp/transport/CompactMeasurement.go
+++ b/sttp/transport/CompactMeasurement.go
@@ -275,6 +275,20 @@ func (cm *CompactMeasurement) Decode(buffer []byte) (int, error) {
 		return index, nil
 	}
 
+	timeLength := 8
+
+	if cm.usingBaseTimeOffset {
+		if cm.useMillisecondResolution {
+			timeLength = 2
+		} else {
+			timeLength = 4
+		}
+	}
+
+	if len(buffer) < fixedLength+timeLength {
+		return 0, errors.New("not enough buffer available to deserialize compact measurement timestamp")
+	}
+
 	if cm.usingBaseTimeOffset {
 		baseTimeOffset := cm.baseTimeOffsets[cm.timeIndex]
 
-- 
2.43.0


From b843e39c6efad866fb9ca3be4750ffb73a9c7d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:00 +0000
Subject: [PATCH 10/44] fix: reject malformed cipher keys and encrypted data

---
 sttp/transport/Common.go         |  9 +++++
 sttp/transport/DataSubscriber.go | 67 ++++++++++++++------------------
 2 files changed, 39 insertions(+), 37 deletions(-)

diff --git a/sttp/transport/Common.go b/sttp/transport/Common.go
index b4e5e41..ed813e2 100644
--- a/sttp/transport/Common.go
+++ b/sttp/transport/Common.go
@@ -28,6 +28,7 @@ import (
 	"compress/gzip"
 	"crypto/aes"
 	"crypto/cipher"
+	"errors"
 	"io"
 	"net"
 	"strings"
@@ -41,6 +42,14 @@ func decipherAES(key, iv, data []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(iv) != block.BlockSize() {
+		return nil, errors.New("invalid initialization vector size")
+	}
+
+	if len(data)%block.BlockSize() != 0 {
+		return nil, errors.New("data is not a multiple of the cipher block size")
+	}
+
 	mode := cipher.NewCBCDecrypter(block, iv)
 	out := make([]byte, len(data))
 	mode.CryptBlocks(out, data)
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 5121e48..60c951e 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -731,6 +731,12 @@ func (ds *DataSubscriber) dispatchConnectionTerminated() {
 	ds.connectionTerminationThread.TryStart()
 }
 
+// Dispatcher for responses that are too short for the content these are expected to carry.
+func (ds *DataSubscriber) dispatchMalformedResponse(content string) {
+	ds.dispatchErrorMessage("Received malformed " + content + " from \"" + ds.connectionID + "\" - disconnecting.")
+	ds.dispatchConnectionTerminated()
+}
+
 func (ds *DataSubscriber) dispatchStatusMessage(message string) {
 	ds.BeginCallbackSync()
 
@@ -1138,43 +1144,30 @@ func (ds *DataSubscriber) handleUpdateCipherKeys(data []byte) {
 	keyIVs[oddKey] = make([][]byte, 2)
 
 	// Move past active cipher index (not currently used anywhere else)
-	var index uint32 = 1
-
-	// Read even key size
-	bufferLen := binary.BigEndian.Uint32(data[index:])
-	index += 4
-
-	// Read even key
-	keyIVs[evenKey][keyIndex] = make([]byte, bufferLen)
-	copy(keyIVs[evenKey][keyIndex], data[index:])
-	index += bufferLen
-
-	// Read even initialization vector size
-	bufferLen = binary.BigEndian.Uint32(data[index:])
-	index += 4
-
-	// Read even initialization vector
-	keyIVs[evenKey][ivIndex] = make([]byte, bufferLen)
-	copy(keyIVs[evenKey][ivIndex], data[index:])
-	index += bufferLen
-
-	// Read odd key size
-	bufferLen = binary.BigEndian.Uint32(data[index:])
-	index += 4
-
-	// Read odd key
-	keyIVs[oddKey][keyIndex] = make([]byte, bufferLen)
-	copy(keyIVs[oddKey][keyIndex], data[index:])
-	index += bufferLen
-
-	// Read odd initialization vector size
-	bufferLen = binary.BigEndian.Uint32(data[index:])
-	index += 4
-
-	// Read odd initialization vector
-	keyIVs[oddKey][ivIndex] = make([]byte, bufferLen)
-	copy(keyIVs[oddKey][ivIndex], data[index:])
-	//index += bufferLen
+	index := 1
+
+	// Even key and initialization vector are followed by odd key and initialization vector
+	for cipherIndex := evenKey; cipherIndex <= oddKey; cipherIndex++ {
+		for partIndex := keyIndex; partIndex <= ivIndex; partIndex++ {
+			if len(data) < index+4 {
+				ds.dispatchMalformedResponse("cipher keys")
+				return
+			}
+
+			// Read size
+			bufferLen := int(binary.BigEndian.Uint32(data[index:]))
+			index += 4
+
+			if len(data) < index+bufferLen {
+				ds.dispatchMalformedResponse("cipher keys")
+				return
+			}
+
+			// Read key or initialization vector
+			keyIVs[cipherIndex][partIndex] = append([]byte{}, data[index:index+bufferLen]...)
+			index += bufferLen
+		}
+	}
 
 	// Exchange keys
 	ds.keyIVs = keyIVs
-- 
2.43.0


From 7783bf9a87156457a5070011245b17188bc82944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:00 +0000
Subject: [PATCH 11/44] fix: check bounds when parsing a signal index cache

---
 sttp/transport/DataSubscriber.go   |  5 +++++
 sttp/transport/SignalIndexCache.go | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 60c951e..16eff0d 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1071,6 +1071,11 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 
 	// Get active cache index
 	if version > 1 {
+		if len(data) < 1 {
+			ds.dispatchMalformedResponse("signal index cache")
+			return
+		}
+
 		if data[0] > 0 {
 			cacheIndex = 1
 		}
diff --git a/sttp/transport/SignalIndexCache.go b/sttp/transport/SignalIndexCache.go
index 305d584..4361860 100644
--- a/sttp/transport/SignalIndexCache.go
+++ b/sttp/transport/SignalIndexCache.go
@@ -194,12 +194,20 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 	offset += 16
 
 	// Number of references
+	if length-offset < 4 {
+		return errors.New("not enough buffer provided to parse reference count")
+	}
+
 	referenceCount := binary.BigEndian.Uint32(buffer[offset:])
 	offset += 4
 
 	var i uint32
 
 	for i = 0; i < referenceCount; i++ {
+		if length-offset < 24 {
+			return errors.New("not enough buffer provided to parse reference")
+		}
+
 		// Signal index
 		signalIndex := int32(binary.BigEndian.Uint32(buffer[offset:]))
 		offset += 4
@@ -217,6 +225,10 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 		sourceSize := binary.BigEndian.Uint32(buffer[offset:])
 		offset += 4
 
+		if uint64(length-offset) < uint64(sourceSize)+8 {
+			return errors.New("not enough buffer provided to parse source and ID")
+		}
+
 		source := ds.DecodeString(buffer[offset : offset+sourceSize])
 		offset += sourceSize
 
-- 
2.43.0


From 5dbd207152993aea066478fe429de4a43abda1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:01 +0000
Subject: [PATCH 12/44] fix: reject server responses that are too short for
 their content

---
 sttp/transport/DataSubscriber.go | 44 +++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 16eff0d..5b03a6d 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -905,6 +905,11 @@ func (ds *DataSubscriber) runDataChannelResponseThread() {
 }
 
 func (ds *DataSubscriber) processServerResponse(buffer []byte) {
+	if len(buffer) < responseHeaderSize {
+		ds.dispatchMalformedResponse("server response")
+		return
+	}
+
 	// Note: internal payload size at buffer[2:6] ignored - future versions of STTP will likely exclude this
 	data := buffer[responseHeaderSize:]
 	responseCode := ServerResponseEnum(buffer[0])
@@ -1040,6 +1045,11 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 }
 
 func (ds *DataSubscriber) handleDataStartTime(data []byte) {
+	if len(data) < 8 {
+		ds.dispatchMalformedResponse("data start time")
+		return
+	}
+
 	ds.BeginCallbackSync()
 
 	if ds.DataStartTimeCallback != nil {
@@ -1119,7 +1129,8 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 }
 
 func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
-	if data == nil {
+	if len(data) < 20 {
+		ds.dispatchMalformedResponse("base times")
 		return
 	}
 
@@ -1193,6 +1204,11 @@ func (ds *DataSubscriber) handleConfigurationChanged() {
 }
 
 func (ds *DataSubscriber) handleDataPacket(data []byte) {
+	if len(data) < 1 {
+		ds.dispatchMalformedResponse("data packet")
+		return
+	}
+
 	dataPacketFlags := DataPacketFlagsEnum(data[0])
 	compressed := dataPacketFlags&DataPacketFlags.Compressed > 0
 	compact := dataPacketFlags&DataPacketFlags.Compact > 0
@@ -1224,6 +1240,11 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 		}
 	}
 
+	if len(data) < 4 {
+		ds.dispatchMalformedResponse("data packet")
+		return
+	}
+
 	count := binary.BigEndian.Uint32(data)
 	var measurements *[]Measurement
 	if mptr := ds.MeasurementPool.Get(); mptr == nil {
@@ -1273,6 +1294,11 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 // parseTSSCMeasurements appends measurements parsed from a TSSC packet to provided slice, measurements
 // that cannot be resolved by the signal index cache are skipped.
 func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, count uint32, measurements []Measurement) []Measurement {
+	if len(data) < 3 {
+		ds.dispatchMalformedResponse("TSSC data packet")
+		return measurements
+	}
+
 	decoder := signalIndexCache.tsscDecoder
 	var newDecoder bool
 
@@ -1413,6 +1439,17 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 }
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
+	headerSize := 8
+
+	if ds.Version > 1 {
+		headerSize++
+	}
+
+	if len(data) < headerSize {
+		ds.dispatchMalformedResponse("buffer block")
+		return
+	}
+
 	// Buffer block received - wrap as a BufferBlockMeasurement and expose back to consumer
 	sequenceNumber := binary.BigEndian.Uint32(data)
 	var signalIndexCacheIndex int32
@@ -1487,6 +1524,11 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 }
 
 func (ds *DataSubscriber) handleNotification(data []byte) {
+	if len(data) < 4 {
+		ds.dispatchMalformedResponse("notification")
+		return
+	}
+
 	// Skip the 4-byte hash and decode notification message
 	message := ds.DecodeString(data[4:])
 
-- 
2.43.0


From a2381ee8f0653f629622afd02106346040827689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:01 +0000
Subject: [PATCH 13/44] fix: allocate memory for received data only, not for
 announced size

---
 sttp/transport/DataSubscriber.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 5b03a6d..fd4277c 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -854,14 +854,30 @@ func (ds *DataSubscriber) readPayloadHeader(bytesTransferred int, err error) {
 		}
 	}
 
-	if int(packetSize) > cap(ds.readBuffer) {
-		ds.readBuffer = make([]byte, packetSize)
-	}
-
 	// Read packet (payload body)
 	// This read method is guaranteed not to return until the
 	// requested size has been read or an error has occurred.
-	ds.readPacket(io.ReadFull(ds.reader, ds.readBuffer[:packetSize]))
+	ds.readPacket(ds.readFull(int(packetSize)))
+}
+
+// readFull reads requested number of bytes into the read buffer. The buffer only grows along with the
+// data that has actually been received since announced packet size comes from a possibly broken peer.
+func (ds *DataSubscriber) readFull(size int) (int, error) {
+	var total int
+
+	for {
+		limit := min(size, cap(ds.readBuffer))
+		bytesRead, err := io.ReadFull(ds.reader, ds.readBuffer[total:limit])
+		total += bytesRead
+
+		if err != nil || total == size {
+			return total, err
+		}
+
+		buffer := make([]byte, min(size, 2*total))
+		copy(buffer, ds.readBuffer[:total])
+		ds.readBuffer = buffer
+	}
 }
 
 func (ds *DataSubscriber) readPacket(bytesTransferred int, err error) {
-- 
2.43.0


From 6184b27ab52b71fb6226bfeaafd4d1d0d901040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:41 +0000
Subject: [PATCH 14/44] fix: do not hold handler locks while handlers execute

---
 sttp/Subscriber.go                    | 56 ++++++++--------
 sttp/transport/DataSubscriber.go      | 96 +++++++++++++--------------
 sttp/transport/SubscriberConnector.go | 16 ++---
 3 files changed, 84 insertions(+), 84 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 91c01b1..d91fe51 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -465,36 +465,36 @@ func (sb *Subscriber) endCallbackAssignment() {
 // StatusMessage executes the defined status message logger callback.
 func (sb *Subscriber) StatusMessage(message string) {
 	sb.beginCallbackSync()
+	statusMessageLogger := sb.statusMessageLogger
+	sb.endCallbackSync()
 
-	if sb.statusMessageLogger != nil {
-		sb.statusMessageLogger(message)
+	if statusMessageLogger != nil {
+		statusMessageLogger(message)
 	}
-
-	sb.endCallbackSync()
 }
 
 // ErrorMessage executes the defined error message logger callback.
 func (sb *Subscriber) ErrorMessage(message string) {
 	sb.beginCallbackSync()
+	errorMessageLogger := sb.errorMessageLogger
+	sb.endCallbackSync()
 
-	if sb.errorMessageLogger != nil {
-		sb.errorMessageLogger(message)
+	if errorMessageLogger != nil {
+		errorMessageLogger(message)
 	}
-
-	sb.endCallbackSync()
 }
 
 // Intermediate callback handlers:
 
 func (sb *Subscriber) handleConnect() {
 	sb.beginCallbackSync()
+	connectionEstablishedReceiver := sb.connectionEstablishedReceiver
+	sb.endCallbackSync()
 
-	if sb.connectionEstablishedReceiver != nil {
-		sb.connectionEstablishedReceiver()
+	if connectionEstablishedReceiver != nil {
+		connectionEstablishedReceiver()
 	}
 
-	sb.endCallbackSync()
-
 	// If automatically parsing metadata, request metadata upon successful connection,
 	// after metadata is received the SubscriberInstance will then initiate subscribe;
 	// otherwise, subscribe is initiated immediately (when auto subscribe requested)
@@ -528,13 +528,13 @@ func (sb *Subscriber) handleMetadataReceived(metadata []byte) {
 	sb.showMetadataSummary(dataSet, parseStarted)
 
 	sb.beginCallbackSync()
+	metadataReceiver := sb.metadataReceiver
+	sb.endCallbackSync()
 
-	if sb.metadataReceiver != nil {
-		sb.metadataReceiver(dataSet)
+	if metadataReceiver != nil {
+		metadataReceiver(dataSet)
 	}
 
-	sb.endCallbackSync()
-
 	if sb.config.AutoRequestMetadata && sb.config.AutoSubscribe {
 		sb.dataSubscriber().Subscribe()
 	}
@@ -653,23 +653,23 @@ func (sb *Subscriber) showMetadataSummary(dataSet *data.DataSet, parseStarted ti
 
 func (sb *Subscriber) handleDataStartTime(startTime ticks.Ticks) {
 	sb.beginCallbackSync()
+	dataStartTimeReceiver := sb.dataStartTimeReceiver
+	sb.endCallbackSync()
 
-	if sb.dataStartTimeReceiver != nil {
-		sb.dataStartTimeReceiver(startTime.ToTime())
+	if dataStartTimeReceiver != nil {
+		dataStartTimeReceiver(startTime.ToTime())
 	}
-
-	sb.endCallbackSync()
 }
 
 func (sb *Subscriber) handleConfigurationChanged() {
 	sb.beginCallbackSync()
+	configurationChangedReceiver := sb.configurationChangedReceiver
+	sb.endCallbackSync()
 
-	if sb.configurationChangedReceiver != nil {
-		sb.configurationChangedReceiver()
+	if configurationChangedReceiver != nil {
+		configurationChangedReceiver()
 	}
 
-	sb.endCallbackSync()
-
 	if sb.config.AutoRequestMetadata {
 		sb.RequestMetadata()
 	}
@@ -679,12 +679,12 @@ func (sb *Subscriber) handleProcessingComplete(message string) {
 	sb.StatusMessage(message)
 
 	sb.beginCallbackSync()
+	historicalReadCompleteReceiver := sb.historicalReadCompleteReceiver
+	sb.endCallbackSync()
 
-	if sb.historicalReadCompleteReceiver != nil {
-		sb.historicalReadCompleteReceiver()
+	if historicalReadCompleteReceiver != nil {
+		historicalReadCompleteReceiver()
 	}
-
-	sb.endCallbackSync()
 }
 
 // DefaultStatusMessageLogger implements the default handler for the statusMessage callback.
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index fd4277c..53acb55 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -413,12 +413,12 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, listening boo
 
 	// Notify consumers of connect
 	ds.BeginCallbackSync()
+	connectionEstablishedCallback := ds.ConnectionEstablishedCallback
+	ds.EndCallbackSync()
 
-	if ds.ConnectionEstablishedCallback != nil {
-		ds.ConnectionEstablishedCallback()
+	if connectionEstablishedCallback != nil {
+		connectionEstablishedCallback()
 	}
-
-	ds.EndCallbackSync()
 }
 
 // Listen requests that the DataSubscriber establish a listening connection for a DataPublisher.
@@ -695,13 +695,13 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 
 	// Notify consumers of disconnect
 	ds.BeginCallbackSync()
+	connectionTerminatedCallback := ds.ConnectionTerminatedCallback
+	ds.EndCallbackSync()
 
-	if ds.ConnectionTerminatedCallback != nil {
-		ds.ConnectionTerminatedCallback()
+	if connectionTerminatedCallback != nil {
+		connectionTerminatedCallback()
 	}
 
-	ds.EndCallbackSync()
-
 	// Disconnect complete
 	ds.disconnected.Set()
 	ds.disconnecting.UnSet()
@@ -711,13 +711,13 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 		// since they serve two different use cases and current implementation does not
 		// support multiple callback registrations
 		ds.BeginCallbackSync()
+		autoReconnectCallback := ds.AutoReconnectCallback
+		ds.EndCallbackSync()
 
-		if ds.AutoReconnectCallback != nil && ds.disposing.IsNotSet() {
-			ds.AutoReconnectCallback()
+		if autoReconnectCallback != nil && ds.disposing.IsNotSet() {
+			autoReconnectCallback()
 		}
 
-		ds.EndCallbackSync()
-
 	} else {
 		ds.connectActionMutex.Unlock()
 	}
@@ -739,22 +739,22 @@ func (ds *DataSubscriber) dispatchMalformedResponse(content string) {
 
 func (ds *DataSubscriber) dispatchStatusMessage(message string) {
 	ds.BeginCallbackSync()
+	statusMessageCallback := ds.StatusMessageCallback
+	ds.EndCallbackSync()
 
-	if ds.StatusMessageCallback != nil {
-		go ds.StatusMessageCallback(message)
+	if statusMessageCallback != nil {
+		go statusMessageCallback(message)
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) dispatchErrorMessage(message string) {
 	ds.BeginCallbackSync()
+	errorMessageCallback := ds.ErrorMessageCallback
+	ds.EndCallbackSync()
 
-	if ds.ErrorMessageCallback != nil {
-		go ds.ErrorMessageCallback(message)
+	if errorMessageCallback != nil {
+		go errorMessageCallback(message)
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) runListeningSocketAcceptThread() {
@@ -1067,24 +1067,24 @@ func (ds *DataSubscriber) handleDataStartTime(data []byte) {
 	}
 
 	ds.BeginCallbackSync()
+	dataStartTimeCallback := ds.DataStartTimeCallback
+	ds.EndCallbackSync()
 
-	if ds.DataStartTimeCallback != nil {
+	if dataStartTimeCallback != nil {
 		// Do not use Go routine here, processing sequence may be important.
 		// Execute callback directly from socket processing thread:
-		ds.DataStartTimeCallback(ticks.Ticks(binary.BigEndian.Uint64(data)))
+		dataStartTimeCallback(ticks.Ticks(binary.BigEndian.Uint64(data)))
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleProcessingComplete(data []byte) {
 	ds.BeginCallbackSync()
+	processingCompleteCallback := ds.ProcessingCompleteCallback
+	ds.EndCallbackSync()
 
-	if ds.ProcessingCompleteCallback != nil {
-		go ds.ProcessingCompleteCallback(ds.DecodeString(data))
+	if processingCompleteCallback != nil {
+		go processingCompleteCallback(ds.DecodeString(data))
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
@@ -1136,12 +1136,12 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 	}
 
 	ds.BeginCallbackSync()
+	subscriptionUpdatedCallback := ds.SubscriptionUpdatedCallback
+	ds.EndCallbackSync()
 
-	if ds.SubscriptionUpdatedCallback != nil {
-		go ds.SubscriptionUpdatedCallback(signalIndexCache)
+	if subscriptionUpdatedCallback != nil {
+		go subscriptionUpdatedCallback(signalIndexCache)
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
@@ -1211,12 +1211,12 @@ func (ds *DataSubscriber) handleConfigurationChanged() {
 	ds.dispatchStatusMessage("Received notification from publisher that configuration has changed.")
 
 	ds.BeginCallbackSync()
+	configurationChangedCallback := ds.ConfigurationChangedCallback
+	ds.EndCallbackSync()
 
-	if ds.ConfigurationChangedCallback != nil {
-		go ds.ConfigurationChangedCallback()
+	if configurationChangedCallback != nil {
+		go configurationChangedCallback()
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleDataPacket(data []byte) {
@@ -1295,15 +1295,15 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	}
 
 	ds.BeginCallbackSync()
+	newMeasurementsCallback := ds.NewMeasurementsCallback
+	ds.EndCallbackSync()
 
-	if ds.NewMeasurementsCallback != nil {
+	if newMeasurementsCallback != nil {
 		// Do not use Go routine here, processing sequence may be important.
 		// Execute callback directly from socket processing thread:
-		ds.NewMeasurementsCallback(measurements)
+		newMeasurementsCallback(measurements)
 	}
 
-	ds.EndCallbackSync()
-
 	atomic.AddUint64(&ds.totalMeasurementsReceived, uint64(count))
 }
 
@@ -1529,14 +1529,14 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 
 	// Publish buffer block measurements
 	ds.BeginCallbackSync()
+	newBufferBlocksCallback := ds.NewBufferBlocksCallback
+	ds.EndCallbackSync()
 
-	if ds.NewBufferBlocksCallback != nil {
+	if newBufferBlocksCallback != nil {
 		// Do not use Go routine here, processing sequence may be important.
 		// Execute callback directly from socket processing thread:
-		ds.NewBufferBlocksCallback(bufferBlockMeasurements)
+		newBufferBlocksCallback(bufferBlockMeasurements)
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleNotification(data []byte) {
@@ -1551,13 +1551,13 @@ func (ds *DataSubscriber) handleNotification(data []byte) {
 	ds.dispatchStatusMessage("NOTIFICATION: " + message)
 
 	ds.BeginCallbackSync()
+	notificationReceivedCallback := ds.NotificationReceivedCallback
+	ds.EndCallbackSync()
 
-	if ds.NotificationReceivedCallback != nil {
-		go ds.NotificationReceivedCallback(message)
+	if notificationReceivedCallback != nil {
+		go notificationReceivedCallback(message)
 	}
 
-	ds.EndCallbackSync()
-
 	// Send confirmation of receipt of the notification with 4-byte hash
 	ds.SendServerCommandWithPayload(ServerCommand.ConfirmNotification, data[:4])
 }
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index a4b2177..0fbb021 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -115,12 +115,12 @@ func (ds *DataSubscriber) autoReconnect() {
 
 		// Notify the user that reconnect attempt was completed.
 		sc.BeginCallbackSync()
+		reconnectCallback := sc.ReconnectCallback
+		sc.EndCallbackSync()
 
-		if sc.cancel.IsNotSet() && sc.ReconnectCallback != nil {
-			sc.ReconnectCallback(ds)
+		if sc.cancel.IsNotSet() && reconnectCallback != nil {
+			reconnectCallback(ds)
 		}
-
-		sc.EndCallbackSync()
 	})
 
 	sc.reconnectThreadMutex.Lock()
@@ -270,12 +270,12 @@ func (sc *SubscriberConnector) ResetConnection() {
 
 func (sc *SubscriberConnector) dispatchErrorMessage(message string) {
 	sc.BeginCallbackSync()
+	errorMessageCallback := sc.ErrorMessageCallback
+	sc.EndCallbackSync()
 
-	if sc.ErrorMessageCallback != nil {
-		go sc.ErrorMessageCallback(message)
+	if errorMessageCallback != nil {
+		go errorMessageCallback(message)
 	}
-
-	sc.EndCallbackSync()
 }
 
 // BeginCallbackAssignment informs SubscriberConnector that a callback change has been initiated.
-- 
2.43.0


From 4ce7a866171c0fda574884126f593a1226c01721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:42 +0000
Subject: [PATCH 15/44] fix: apply replaced message loggers and subscription
 handler immediately

---
 sttp/Subscriber.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index d91fe51..5325982 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -241,12 +241,11 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 
 	con.BeginCallbackAssignment()
 	ds.BeginCallbackAssignment()
-	sb.beginCallbackSync()
 
-	// Register direct Subscriber callbacks
-	con.ErrorMessageCallback = sb.errorMessageLogger
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	// Register direct Subscriber callbacks, these look up current logger for each message
+	con.ErrorMessageCallback = sb.ErrorMessage
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	con.ReconnectCallback = sb.handleReconnect
@@ -255,7 +254,6 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	ds.ConfigurationChangedCallback = sb.handleConfigurationChanged
 	ds.ProcessingCompleteCallback = sb.handleProcessingComplete
 
-	sb.endCallbackSync()
 	con.EndCallbackAssignment()
 	ds.EndCallbackAssignment()
 
@@ -327,11 +325,10 @@ func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 	ds.SwapGuidEndianness = !sb.config.RfcGuidEncoding
 
 	ds.BeginCallbackAssignment()
-	sb.beginCallbackSync()
 
-	// Register direct Subscriber callbacks
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	// Register direct Subscriber callbacks, these look up current logger for each message
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	ds.ConnectionEstablishedCallback = sb.handleConnect
@@ -340,7 +337,6 @@ func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 	ds.ConfigurationChangedCallback = sb.handleConfigurationChanged
 	ds.ProcessingCompleteCallback = sb.handleProcessingComplete
 
-	sb.endCallbackSync()
 	ds.EndCallbackAssignment()
 
 	// Listen for publisher connection
@@ -754,10 +750,11 @@ func (sb *Subscriber) SetMetadataReceiver(callback func(dataSet *data.DataSet))
 // SignalIndexCache has been received.
 // Assignment will take effect immediately, even while subscription is active.
 func (sb *Subscriber) SetSubscriptionUpdatedReceiver(callback func(signalIndexCache *transport.SignalIndexCache)) {
-	sb.beginCallbackAssignment()
-	defer sb.endCallbackAssignment()
+	ds := sb.dataSubscriber()
+	ds.BeginCallbackAssignment()
+	defer ds.EndCallbackAssignment()
 
-	sb.dataSubscriber().SubscriptionUpdatedCallback = callback
+	ds.SubscriptionUpdatedCallback = callback
 }
 
 // SetDataStartTimeReceiver defines the callback that handles notification of first received measurement.
-- 
2.43.0


From 82aa70dd8124914245f498208f083b8b342cfdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:42 +0000
Subject: [PATCH 16/44] fix: let measurement reader be closed or abandoned
 while data arrives

---
 sttp/MeasurementReader.go | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/sttp/MeasurementReader.go b/sttp/MeasurementReader.go
index 1804b27..8ec2de1 100644
--- a/sttp/MeasurementReader.go
+++ b/sttp/MeasurementReader.go
@@ -25,23 +25,47 @@ package sttp
 
 import (
 	"context"
+	"sync"
+	"time"
 
 	"github.com/sttp/goapi/sttp/transport"
 )
 
+// connectionCheckInterval defines how often a blocked measurement reader checks that connection is still active.
+const connectionCheckInterval = 50 * time.Millisecond
+
 // MeasurementReader defines an STTP measurement reader.
 type MeasurementReader struct {
-	current chan *transport.Measurement
+	current   chan *transport.Measurement
+	closed    chan struct{}
+	closeOnce sync.Once
 }
 
 func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 	reader := &MeasurementReader{
 		current: make(chan *transport.Measurement),
+		closed:  make(chan struct{}),
 	}
 
 	parent.SetNewMeasurementsReceiver(func(measurements *[]transport.Measurement) {
+		// Callback executes on a socket processing thread which a disconnect needs to complete,
+		// so stop waiting for a consumer that is not reading when connection is gone
+		connectionCheck := time.NewTicker(connectionCheckInterval)
+		defer connectionCheck.Stop()
+
 		for _, m := range *measurements {
-			reader.current <- &m
+			for pending := true; pending; {
+				select {
+				case reader.current <- &m:
+					pending = false
+				case <-reader.closed:
+					return
+				case <-connectionCheck.C:
+					if !parent.IsConnected() {
+						return
+					}
+				}
+			}
 		}
 	})
 
@@ -50,7 +74,8 @@ func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 
 // NextMeasurement blocks current thread until a new measurement arrives or provided context is completed.
 // Returns tuple of measurement and completed state. Completed state flag will be false if a measurement
-// was received; otherwise, state flag will be true along with a nil measurement when context is done.
+// was received; otherwise, state flag will be true along with a nil measurement when context is done
+// or reader has been closed.
 func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Measurement, bool) {
 	if ctx == nil {
 		ctx = context.Background()
@@ -59,12 +84,14 @@ func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Me
 	select {
 	case <-ctx.Done():
 		return nil, true
+	case <-mr.closed:
+		return nil, true
 	case measurement := <-mr.current:
 		return measurement, false
 	}
 }
 
-// Close closes the measurement reader channel.
+// Close closes the measurement reader, any measurements received later are not read.
 func (mr *MeasurementReader) Close() {
-	close(mr.current)
+	mr.closeOnce.Do(func() { close(mr.closed) })
 }
-- 
2.43.0


From b086d88e7895d3f28732dd55e670baf459f96105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:45 +0000
Subject: [PATCH 17/44] fix: validate every connection and allow to subscribe
 on connect

---
 sttp/transport/DataSubscriber.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 53acb55..ee9190f 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -193,8 +193,6 @@ func NewDataSubscriber() *DataSubscriber {
 		signalIndexCache:         [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()},
 	}
 
-	ds.validated.Set()
-
 	ds.connectionTerminationThread = thread.NewThread(func() {
 		ds.disconnect(false, true, false)
 	})
@@ -370,6 +368,7 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 
 func (ds *DataSubscriber) setupConnection() {
 	ds.disconnected.UnSet()
+	ds.validated.UnSet()
 	ds.subscribed.UnSet()
 
 	atomic.StoreUint64(&ds.totalCommandChannelBytesReceived, 0)
@@ -462,10 +461,6 @@ func (ds *DataSubscriber) Subscribe() error {
 		return errors.New("subscriber is not connected; cannot subscribe")
 	}
 
-	if ds.Version >= 2 && ds.validated.IsNotSet() {
-		return errors.New("subscriber is not validated; cannot subscribe")
-	}
-
 	// Make sure to unsubscribe before attempting another
 	// subscription so we don't leave UDP sockets open
 	if ds.subscribed.IsSet() {
@@ -573,7 +568,7 @@ func (ds *DataSubscriber) Subscribe() error {
 
 // Unsubscribe notifies the DataPublisher that a DataSubscriber would like to stop receiving streaming data.
 func (ds *DataSubscriber) Unsubscribe() {
-	if ds.connected.IsNotSet() || ds.validated.IsNotSet() {
+	if ds.connected.IsNotSet() {
 		return
 	}
 
@@ -915,6 +910,12 @@ func (ds *DataSubscriber) runDataChannelResponseThread() {
 		// Gather statistics
 		atomic.AddUint64(&ds.totalDataChannelBytesReceived, uint64(length))
 
+		// Only command channel can validate connection, any data that arrives
+		// before that cannot be from current session
+		if ds.validated.IsNotSet() {
+			continue
+		}
+
 		// Process response
 		ds.processServerResponse(buffer[:length])
 	}
-- 
2.43.0


From 31abe0d4548e4ed238e02ec0f61f4052499d350c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:45 +0000
Subject: [PATCH 18/44] fix: start each connection without state of the
 previous one

---
 sttp/transport/DataSubscriber.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index ee9190f..e928919 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -375,6 +375,13 @@ func (ds *DataSubscriber) setupConnection() {
 	atomic.StoreUint64(&ds.totalDataChannelBytesReceived, 0)
 	atomic.StoreUint64(&ds.totalMeasurementsReceived, 0)
 
+	ds.signalIndexCacheMutex.Lock()
+	ds.signalIndexCache = [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()}
+	ds.cacheIndex = 0
+	ds.signalIndexCacheMutex.Unlock()
+
+	ds.timeIndex = 0
+	ds.baseTimeOffsets = [2]int64{}
 	ds.keyIVs = nil
 	ds.bufferBlockExpectedSequenceNumber = 0
 	ds.bufferBlockCache = make(map[uint32]BufferBlock)
-- 
2.43.0


From 343af5239facbde2682fe870f7e24da4323bf1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:46 +0000
Subject: [PATCH 19/44] fix: keep session and UDP port intact when subscribing
 and unsubscribing

---
 sttp/transport/DataSubscriber.go | 49 +++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index e928919..bfa6044 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -67,6 +67,7 @@ type DataSubscriber struct {
 	dataChannelSocket            net.Conn
 	dataChannelResponseThread    *thread.Thread
 	connectionID                 string
+	subscribeMutex               sync.Mutex
 
 	assigningHandlerMutex sync.RWMutex
 
@@ -464,6 +465,9 @@ func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
 
 // Subscribe notifies the DataPublisher that a DataSubscriber would like to start receiving streaming data.
 func (ds *DataSubscriber) Subscribe() error {
+	ds.subscribeMutex.Lock()
+	defer ds.subscribeMutex.Unlock()
+
 	if ds.connected.IsNotSet() {
 		return errors.New("subscriber is not connected; cannot subscribe")
 	}
@@ -471,7 +475,9 @@ func (ds *DataSubscriber) Subscribe() error {
 	// Make sure to unsubscribe before attempting another
 	// subscription so we don't leave UDP sockets open
 	if ds.subscribed.IsSet() {
-		ds.Unsubscribe()
+		ds.unsubscribe()
+	} else {
+		ds.closeDataChannel()
 	}
 
 	atomic.StoreUint64(&ds.totalMeasurementsReceived, 0)
@@ -520,13 +526,14 @@ func (ds *DataSubscriber) Subscribe() error {
 			return errors.New("failed to resolve UDP address for port " + udpPort + ": " + err.Error())
 		}
 
-		ds.dataChannelSocket, err = net.ListenUDP("udp", udpAddr)
+		dataChannelSocket, err := net.ListenUDP("udp", udpAddr)
 
 		if err != nil {
 			return errors.New("failed to open UDP socket for port " + udpPort + ": " + err.Error())
 		}
 
-		ds.dataChannelResponseThread = thread.NewThread(ds.runDataChannelResponseThread)
+		ds.dataChannelSocket = dataChannelSocket
+		ds.dataChannelResponseThread = thread.NewThread(func() { ds.runDataChannelResponseThread(dataChannelSocket) })
 		ds.dataChannelResponseThread.Start()
 
 		parameterBuilder.WriteString(";dataChannel={localport=")
@@ -575,25 +582,36 @@ func (ds *DataSubscriber) Subscribe() error {
 
 // Unsubscribe notifies the DataPublisher that a DataSubscriber would like to stop receiving streaming data.
 func (ds *DataSubscriber) Unsubscribe() {
+	ds.subscribeMutex.Lock()
+	defer ds.subscribeMutex.Unlock()
+
+	ds.unsubscribe()
+}
+
+func (ds *DataSubscriber) unsubscribe() {
 	if ds.connected.IsNotSet() {
 		return
 	}
 
 	ds.SendServerCommand(ServerCommand.Unsubscribe)
+	ds.closeDataChannel()
+}
 
-	ds.disconnecting.Set()
-
+// closeDataChannel closes UDP data channel, if open, and waits for its thread to complete.
+// Subscribe mutex should be held when calling this function.
+func (ds *DataSubscriber) closeDataChannel() {
 	if ds.dataChannelSocket != nil {
 		if err := ds.dataChannelSocket.Close(); err != nil {
 			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
 		}
+
+		ds.dataChannelSocket = nil
 	}
 
 	if ds.dataChannelResponseThread != nil {
 		ds.dataChannelResponseThread.Join()
+		ds.dataChannelResponseThread = nil
 	}
-
-	ds.disconnecting.UnSet()
 }
 
 // Disconnect initiates a DataSubscriber disconnect sequence.
@@ -673,12 +691,6 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 		}
 	}
 
-	if ds.dataChannelSocket != nil {
-		if err := ds.dataChannelSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
-		}
-	}
-
 	// Join with all threads to guarantee their completion before returning control to the caller
 	if includeListener && ds.listeningSocketAcceptThread != nil {
 		ds.listeningSocketAcceptThread.Join()
@@ -690,10 +702,9 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 		ds.commandChannelResponseThread = nil
 	}
 
-	if ds.dataChannelResponseThread != nil {
-		ds.dataChannelResponseThread.Join()
-		ds.dataChannelResponseThread = nil
-	}
+	ds.subscribeMutex.Lock()
+	ds.closeDataChannel()
+	ds.subscribeMutex.Unlock()
 
 	// Notify consumers of disconnect
 	ds.BeginCallbackSync()
@@ -902,8 +913,8 @@ func (ds *DataSubscriber) readPacket(bytesTransferred int, err error) {
 
 // If the user defines a separate UDP channel for their
 // subscription, data packets get handled from this thread.
-func (ds *DataSubscriber) runDataChannelResponseThread() {
-	reader := bufio.NewReader(ds.dataChannelSocket)
+func (ds *DataSubscriber) runDataChannelResponseThread(dataChannelSocket net.Conn) {
+	reader := bufio.NewReader(dataChannelSocket)
 	buffer := make([]byte, maxPacketSize)
 
 	for ds.connected.IsSet() {
-- 
2.43.0


From ca3ca73807a607d51fd4e7977d518eb22e1cb33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:46 +0000
Subject: [PATCH 20/44] fix: request a subscription with settings of one call
 only

---
 sttp/Subscriber.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 5325982..c02d6f6 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -64,6 +64,9 @@ type Subscriber struct {
 	historicalReadCompleteReceiver func()
 	connectionEstablishedReceiver  func()
 
+	// Lock used to apply subscription settings along with the subscription request that uses them
+	subscribeMutex sync.Mutex
+
 	// Lock used to synchronize console writes
 	consoleLock sync.Mutex
 
@@ -395,6 +398,9 @@ func (sb *Subscriber) Subscribe(filterExpression string, settings *Settings) {
 		settings = &settingsDefaults
 	}
 
+	sb.subscribeMutex.Lock()
+	defer sb.subscribeMutex.Unlock()
+
 	sub.FilterExpression = filterExpression
 	sub.Throttled = settings.Throttled
 	sub.PublishInterval = settings.PublishInterval
@@ -497,7 +503,7 @@ func (sb *Subscriber) handleConnect() {
 	if sb.config.AutoRequestMetadata {
 		sb.RequestMetadata()
 	} else if sb.config.AutoSubscribe {
-		sb.dataSubscriber().Subscribe()
+		sb.autoSubscribe()
 	}
 }
 
@@ -532,10 +538,17 @@ func (sb *Subscriber) handleMetadataReceived(metadata []byte) {
 	}
 
 	if sb.config.AutoRequestMetadata && sb.config.AutoSubscribe {
-		sb.dataSubscriber().Subscribe()
+		sb.autoSubscribe()
 	}
 }
 
+func (sb *Subscriber) autoSubscribe() {
+	sb.subscribeMutex.Lock()
+	defer sb.subscribeMutex.Unlock()
+
+	sb.dataSubscriber().Subscribe()
+}
+
 func (sb *Subscriber) loadMeasurementMetadata(dataSet *data.DataSet) {
 	measurements := dataSet.Table("MeasurementDetail")
 
-- 
2.43.0


From 32ac24d1e79b6a63b12b7f145e88faa27830ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:01 +0000
Subject: [PATCH 21/44] fix: make every disconnect request complete and prevail
 over reconnects

---
 sttp/transport/DataSubscriber.go      | 341 +++++++++++++++++---------
 sttp/transport/SubscriberConnector.go | 118 +++++----
 2 files changed, 292 insertions(+), 167 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index bfa6044..7c4ecd6 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -75,10 +75,11 @@ type DataSubscriber struct {
 	connectionTerminationThread *thread.Thread
 
 	disconnectThread      *thread.Thread
-	disconnectThreadMutex sync.Mutex
+	disconnectThreadMutex sync.Mutex // Also guards sockets and changes to connected and listening states
+	disconnectRequested   bool
 	disconnecting         abool.AtomicBool
-	disconnected          abool.AtomicBool
 	disposing             abool.AtomicBool
+	connectionSequence    <-chan struct{} // Cancel signal of connector sequence that made current connection
 
 	// Statistics counters
 	totalCommandChannelBytesReceived uint64
@@ -170,6 +171,8 @@ type DataSubscriber struct {
 	bufferBlockCache                  map[uint32]BufferBlock
 }
 
+var errConnectCanceled = errors.New("connection canceled")
+
 // NewDataSubscriber creates a new DataSubscriber.
 func NewDataSubscriber() *DataSubscriber {
 	ds := &DataSubscriber{
@@ -194,10 +197,6 @@ func NewDataSubscriber() *DataSubscriber {
 		signalIndexCache:         [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()},
 	}
 
-	ds.connectionTerminationThread = thread.NewThread(func() {
-		ds.disconnect(false, true, false)
-	})
-
 	return ds
 }
 
@@ -205,8 +204,8 @@ func NewDataSubscriber() *DataSubscriber {
 // during a normal application exit.
 func (ds *DataSubscriber) Dispose() {
 	ds.disposing.Set()
-	ds.connector.Cancel()
-	ds.disconnect(true, false, true)
+	ds.connector.cancel.Set()
+	ds.disconnect(true)
 
 	// Allow a moment for connection terminated event to complete
 	waitTimer := time.NewTimer(time.Duration(10) * time.Millisecond)
@@ -320,10 +319,11 @@ func (ds *DataSubscriber) AdjustedValue(measurement *Measurement) float64 {
 // Connect requests the the DataSubscriber initiate a connection to the DataPublisher.
 func (ds *DataSubscriber) Connect(hostName string, port uint16) error {
 	// User requests to connection are not an auto-reconnect attempt
-	return ds.connect(hostName, port, false)
+	ds.connector.ResetConnection()
+	return ds.connect(hostName, port, ds.connector.beginSequence())
 }
 
-func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting bool) error {
+func (ds *DataSubscriber) connect(hostName string, port uint16, canceled <-chan struct{}) error {
 	if ds.connected.IsSet() {
 		return errors.New("subscriber is already connected; disconnect first")
 	}
@@ -332,11 +332,18 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 		return errors.New("subscriber is listening for connections; direct connections disallowed")
 	}
 
-	// Make sure any pending disconnect has completed to make sure socket is closed
+	// Make sure any pending disconnect has completed to make sure socket is closed. A pending
+	// disconnect that was requested by user also cancels connection sequence, it must not be
+	// waited for since it waits itself for any automatic reconnect to complete.
 	ds.disconnectThreadMutex.Lock()
 	disconnectThread := ds.disconnectThread
+	isCanceled := ds.connector.isCanceled(canceled)
 	ds.disconnectThreadMutex.Unlock()
 
+	if isCanceled {
+		return errConnectCanceled
+	}
+
 	if disconnectThread != nil {
 		disconnectThread.Join()
 	}
@@ -346,29 +353,28 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 	ds.connectActionMutex.Lock()
 	defer ds.connectActionMutex.Unlock()
 
+	if ds.connector.isCanceled(canceled) {
+		return errConnectCanceled
+	}
+
 	var err error
 
 	// Initialize connection state
 	ds.setupConnection()
 
-	if !autoReconnecting {
-		ds.connector.ResetConnection()
-	}
-
 	ds.connector.connectionRefused.UnSet()
 
 	// TODO: Add TLS implementation options
 	conn, err := net.Dial("tcp", hostName+":"+strconv.Itoa(int(port)))
 
 	if err == nil {
-		ds.establishConnection(conn, false)
+		err = ds.establishConnection(conn, canceled)
 	}
 
 	return err
 }
 
 func (ds *DataSubscriber) setupConnection() {
-	ds.disconnected.UnSet()
 	ds.validated.UnSet()
 	ds.subscribed.UnSet()
 
@@ -389,7 +395,10 @@ func (ds *DataSubscriber) setupConnection() {
 	ds.measurementRegistry = sync.Map{}
 }
 
-func (ds *DataSubscriber) establishConnection(connection net.Conn, listening bool) {
+// establishConnection takes a connection into use unless this was canceled in the meantime.
+// Connections from a listening socket have no canceled signal since data publisher reconnects.
+func (ds *DataSubscriber) establishConnection(connection net.Conn, canceled <-chan struct{}) error {
+	listening := canceled == nil
 	addrName := "<unknown>"
 
 	if listening {
@@ -409,14 +418,27 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, listening boo
 		ds.dispatchStatusMessage("Processing connection attempt from \"" + ds.connectionID + "\" ...")
 	}
 
-	ds.commandChannelSocket = connection
-	ds.commandChannelResponseThread = thread.NewThread(ds.runCommandChannelResponseThread)
+	// Hold back commands of other threads until operational modes have been sent
+	ds.writeMutex.Lock()
+	ds.disconnectThreadMutex.Lock()
 
-	ds.connected.Set()
+	if listening && ds.listening.IsNotSet() || ds.connector.isCanceled(canceled) {
+		ds.disconnectThreadMutex.Unlock()
+		ds.writeMutex.Unlock()
+		connection.Close()
+		return errConnectCanceled
+	}
+
+	ds.commandChannelSocket = connection
+	ds.commandChannelResponseThread = thread.NewThread(func() { ds.runCommandChannelResponseThread(connection) })
+	ds.connectionTerminationThread = thread.NewThread(func() { ds.terminateConnection(connection) })
+	ds.connectionSequence = canceled
 	ds.lastMissingCacheWarning = 0
+	ds.connected.Set()
 
-	ds.commandChannelResponseThread.Start()
+	ds.disconnectThreadMutex.Unlock()
 	ds.sendOperationalModes()
+	ds.writeMutex.Unlock()
 
 	// Notify consumers of connect
 	ds.BeginCallbackSync()
@@ -426,6 +448,11 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, listening boo
 	if connectionEstablishedCallback != nil {
 		connectionEstablishedCallback()
 	}
+
+	// Receive data only after consumers know about the connection
+	ds.commandChannelResponseThread.Start()
+
+	return nil
 }
 
 // Listen requests that the DataSubscriber establish a listening connection for a DataPublisher.
@@ -438,6 +465,10 @@ func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
 		return errors.New("subscriber is already connected; disconnect first")
 	}
 
+	// Listening takes over from any automatic reconnect in progress
+	canceled := ds.connector.beginSequence()
+	ds.connector.joinReconnectThread()
+
 	// Make sure any pending disconnect has completed to make sure socket is closed
 	ds.disconnectThreadMutex.Lock()
 	disconnectThread := ds.disconnectThread
@@ -447,20 +478,27 @@ func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
 		disconnectThread.Join()
 	}
 
-	var err error
-
 	// TODO: Add TLS implementation options
-	ds.listeningSocket, err = net.Listen("tcp", networkInterface+":"+strconv.Itoa(int(port)))
+	listeningSocket, err := net.Listen("tcp", networkInterface+":"+strconv.Itoa(int(port)))
 
 	if err != nil {
 		return err
 	}
 
-	ds.listeningSocketAcceptThread = thread.NewThread(ds.runListeningSocketAcceptThread)
+	ds.disconnectThreadMutex.Lock()
+	defer ds.disconnectThreadMutex.Unlock()
+
+	if ds.connector.isCanceled(canceled) {
+		listeningSocket.Close()
+		return errConnectCanceled
+	}
+
+	ds.listeningSocket = listeningSocket
+	ds.listeningSocketAcceptThread = thread.NewThread(func() { ds.runListeningSocketAcceptThread(listeningSocket) })
 	ds.listening.Set()
 	ds.listeningSocketAcceptThread.Start()
 
-	return err
+	return nil
 }
 
 // Subscribe notifies the DataPublisher that a DataSubscriber would like to start receiving streaming data.
@@ -616,87 +654,133 @@ func (ds *DataSubscriber) closeDataChannel() {
 
 // Disconnect initiates a DataSubscriber disconnect sequence.
 func (ds *DataSubscriber) Disconnect() {
-	if ds.disconnecting.IsSet() {
-		return
-	}
-
 	// Disconnect method executes shutdown on a separate thread without stopping to prevent
 	// issues where user may call disconnect method from a dispatched event thread. Also,
 	// user requests to disconnect are not an auto-reconnect attempt and should initiate
 	// shutdown of listening socket as well.
-	ds.disconnect(false, false, true)
+	ds.disconnect(false)
 }
 
-func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, includeListener bool) {
-	// Check if disconnect thread is running or subscriber has already disconnected
-	if ds.disconnecting.IsSet() {
-		if !autoReconnecting && ds.listening.IsNotSet() && ds.disconnected.IsNotSet() {
-			ds.connector.Cancel()
-		}
+func (ds *DataSubscriber) disconnect(joinThread bool) {
+	ds.disconnectThreadMutex.Lock()
 
-		ds.disconnectThreadMutex.Lock()
-		disconnectThread := ds.disconnectThread
-		ds.disconnectThreadMutex.Unlock()
+	// Cancel all connection sequences that precede this request
+	ds.connector.cancelSequences()
+	ds.listening.UnSet()
+	ds.clearConnectionState()
 
-		if joinThread && ds.disconnected.IsNotSet() && disconnectThread != nil {
-			disconnectThread.Join()
-		}
+	// Check if a requested disconnect is already running, a disconnect
+	// that was started because connection got lost is completed first
+	if !ds.disconnectRequested {
+		ds.disconnectRequested = true
+		pendingDisconnect := ds.disconnectThread
 
-		return
+		ds.disconnectThread = thread.NewThread(func() {
+			ds.runDisconnectThread(pendingDisconnect)
+		})
+
+		ds.disconnectThread.Start()
 	}
 
-	// Notify running threads that the subscriber is disconnecting, i.e., disconnect thread is active
+	disconnectThread := ds.disconnectThread
+	ds.disconnectThreadMutex.Unlock()
+
+	if joinThread {
+		disconnectThread.Join()
+	}
+}
+
+// clearConnectionState notifies running threads that the subscriber is disconnecting,
+// i.e., disconnect thread is active. Disconnect thread mutex should be held when calling
+// this function.
+func (ds *DataSubscriber) clearConnectionState() {
 	ds.disconnecting.Set()
 	ds.connected.UnSet()
 	ds.validated.UnSet()
+	ds.subscribed.UnSet()
+}
+
+// runDisconnectThread executes a disconnect as requested by user.
+func (ds *DataSubscriber) runDisconnectThread(pendingDisconnect *thread.Thread) {
+	// Close sockets so that threads can shut down gracefully
+	ds.closeListeningSocket()
+	ds.closeCommandChannel()
 
-	if includeListener {
-		ds.listening.UnSet()
+	// Let any pending disconnect or connect operations complete, both may have been started
+	// because connection got lost - neither can make a new connection any more
+	if pendingDisconnect != nil {
+		pendingDisconnect.Join()
 	}
 
-	ds.subscribed.UnSet()
+	ds.connector.joinReconnectThread()
 
-	disconnectThread := thread.NewThread(func() {
-		ds.runDisconnectThread(autoReconnecting, includeListener)
-	})
+	if ds.listeningSocketAcceptThread != nil {
+		ds.listeningSocketAcceptThread.Join()
+		ds.listeningSocketAcceptThread = nil
+	}
 
+	ds.shutdownConnection()
+
+	// Disconnect complete
 	ds.disconnectThreadMutex.Lock()
-	disconnectThread.Start()
-	ds.disconnectThread = disconnectThread
+	ds.disconnectRequested = false
+	ds.disconnecting.UnSet()
 	ds.disconnectThreadMutex.Unlock()
+}
 
-	if joinThread {
-		disconnectThread.Join()
+// terminateConnection starts a disconnect for specified connection after it was lost,
+// this has no effect when connection is already disconnected.
+func (ds *DataSubscriber) terminateConnection(connection net.Conn) {
+	ds.disconnectThreadMutex.Lock()
+	defer ds.disconnectThreadMutex.Unlock()
+
+	if ds.connected.IsNotSet() || ds.commandChannelSocket != connection {
+		return
 	}
+
+	ds.clearConnectionState()
+	ds.disconnectThread = thread.NewThread(ds.runConnectionLostThread)
+	ds.disconnectThread.Start()
 }
 
-func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeListener bool) {
-	// Let any pending connect operation complete before disconnect - prevents destruction disconnect before connection is completed
-	if !autoReconnecting {
-		ds.connector.Cancel()
-		ds.connectionTerminationThread.Join()
-		ds.connectActionMutex.Lock()
-	}
+// runConnectionLostThread executes a disconnect for a lost connection.
+func (ds *DataSubscriber) runConnectionLostThread() {
+	ds.closeCommandChannel()
+	ds.shutdownConnection()
 
-	// Release queues and close sockets so that threads can shut down gracefully
-	if includeListener && ds.listeningSocket != nil {
-		if err := ds.listeningSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP listening socket: " + err.Error())
-		}
+	// Disconnect complete, unless user has requested a disconnect in the meantime
+	ds.disconnectThreadMutex.Lock()
+	disconnectRequested := ds.disconnectRequested
+
+	if !disconnectRequested {
+		ds.disconnecting.UnSet()
 	}
 
-	if ds.commandChannelSocket != nil {
-		if err := ds.commandChannelSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP command channel: " + err.Error())
-		}
+	ds.disconnectThreadMutex.Unlock()
+
+	if disconnectRequested {
+		return
 	}
 
-	// Join with all threads to guarantee their completion before returning control to the caller
-	if includeListener && ds.listeningSocketAcceptThread != nil {
-		ds.listeningSocketAcceptThread.Join()
-		ds.listeningSocketAcceptThread = nil
+	// Handling auto-connect callback separately from connection terminated callback
+	// since they serve two different use cases and current implementation does not
+	// support multiple callback registrations
+	ds.BeginCallbackSync()
+	autoReconnectCallback := ds.AutoReconnectCallback
+	ds.EndCallbackSync()
+
+	if autoReconnectCallback != nil && ds.disposing.IsNotSet() {
+		autoReconnectCallback()
 	}
+}
 
+// shutdownConnection completes shutdown of a connection whose command channel has been closed.
+func (ds *DataSubscriber) shutdownConnection() {
+	// Let any pending connect operation complete before disconnect - prevents destruction disconnect before connection is completed
+	ds.connectActionMutex.Lock()
+	defer ds.connectActionMutex.Unlock()
+
+	// Join with all threads to guarantee their completion before returning control to the caller
 	if ds.commandChannelResponseThread != nil {
 		ds.commandChannelResponseThread.Join()
 		ds.commandChannelResponseThread = nil
@@ -706,6 +790,10 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 	ds.closeDataChannel()
 	ds.subscribeMutex.Unlock()
 
+	// Last response may have been processed while disconnecting
+	ds.validated.UnSet()
+	ds.subscribed.UnSet()
+
 	// Notify consumers of disconnect
 	ds.BeginCallbackSync()
 	connectionTerminatedCallback := ds.ConnectionTerminatedCallback
@@ -714,25 +802,31 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 	if connectionTerminatedCallback != nil {
 		connectionTerminatedCallback()
 	}
+}
 
-	// Disconnect complete
-	ds.disconnected.Set()
-	ds.disconnecting.UnSet()
-
-	if autoReconnecting {
-		// Handling auto-connect callback separately from connection terminated callback
-		// since they serve two different use cases and current implementation does not
-		// support multiple callback registrations
-		ds.BeginCallbackSync()
-		autoReconnectCallback := ds.AutoReconnectCallback
-		ds.EndCallbackSync()
+func (ds *DataSubscriber) closeListeningSocket() {
+	ds.disconnectThreadMutex.Lock()
+	listeningSocket := ds.listeningSocket
+	ds.listeningSocket = nil
+	ds.disconnectThreadMutex.Unlock()
 
-		if autoReconnectCallback != nil && ds.disposing.IsNotSet() {
-			autoReconnectCallback()
+	if listeningSocket != nil {
+		if err := listeningSocket.Close(); err != nil {
+			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP listening socket: " + err.Error())
 		}
+	}
+}
 
-	} else {
-		ds.connectActionMutex.Unlock()
+func (ds *DataSubscriber) closeCommandChannel() {
+	ds.disconnectThreadMutex.Lock()
+	commandChannelSocket := ds.commandChannelSocket
+	ds.commandChannelSocket = nil
+	ds.disconnectThreadMutex.Unlock()
+
+	if commandChannelSocket != nil {
+		if err := commandChannelSocket.Close(); err != nil {
+			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP command channel: " + err.Error())
+		}
 	}
 }
 
@@ -770,12 +864,12 @@ func (ds *DataSubscriber) dispatchErrorMessage(message string) {
 	}
 }
 
-func (ds *DataSubscriber) runListeningSocketAcceptThread() {
+func (ds *DataSubscriber) runListeningSocketAcceptThread(listeningSocket net.Listener) {
 	for ds.listening.IsSet() {
-		conn, err := ds.listeningSocket.Accept()
+		conn, err := listeningSocket.Accept()
 
 		if err != nil {
-			if ds.disconnecting.IsNotSet() {
+			if ds.listening.IsSet() {
 				ds.dispatchErrorMessage("Exception while accepting data publisher connection: " + err.Error())
 			}
 
@@ -805,6 +899,22 @@ func (ds *DataSubscriber) runListeningSocketAcceptThread() {
 			continue
 		}
 
+		// Make sure disconnect of a lost connection has completed. While listening there is no pending
+		// disconnect requested by user, this must not be waited for since it waits for this thread.
+		ds.disconnectThreadMutex.Lock()
+		disconnectThread := ds.disconnectThread
+		listening := ds.listening.IsSet()
+		ds.disconnectThreadMutex.Unlock()
+
+		if !listening {
+			conn.Close()
+			break
+		}
+
+		if disconnectThread != nil {
+			disconnectThread.Join()
+		}
+
 		// Let any pending connect or disconnect operation complete before new connect,
 		// this prevents destruction disconnect before connection is completed
 		ds.connectActionMutex.Lock()
@@ -813,14 +923,14 @@ func (ds *DataSubscriber) runListeningSocketAcceptThread() {
 		ds.setupConnection()
 
 		// Create new command channel
-		ds.establishConnection(conn, true)
+		ds.establishConnection(conn, nil)
 
 		ds.connectActionMutex.Unlock()
 	}
 }
 
-func (ds *DataSubscriber) runCommandChannelResponseThread() {
-	ds.reader = bufio.NewReader(ds.commandChannelSocket)
+func (ds *DataSubscriber) runCommandChannelResponseThread(commandChannelSocket net.Conn) {
+	ds.reader = bufio.NewReader(commandChannelSocket)
 
 	for ds.connected.IsSet() {
 		ds.readPayloadHeader(io.ReadFull(ds.reader, ds.readBuffer[:payloadHeaderSize]))
@@ -1593,22 +1703,24 @@ func (ds *DataSubscriber) SendServerCommandWithMessage(commandCode ServerCommand
 
 // SendServerCommandWithPayload sends a server command code to the DataPublisher along with the specified data payload.
 func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommandEnum, data []byte) {
-	if ds.connected.IsNotSet() {
-		return
-	}
+	// Commands can be sent from any thread, so use of the write buffer and socket is synchronized
+	ds.writeMutex.Lock()
+	defer ds.writeMutex.Unlock()
 
-	if err := ds.writeServerCommand(commandCode, data); err != nil {
-		// Write error, connection may have been closed by peer; terminate connection
-		ds.dispatchErrorMessage("Failed to send server command - disconnecting: " + err.Error())
-		ds.dispatchConnectionTerminated()
-	}
+	ds.sendServerCommand(commandCode, data)
 }
 
-// writeServerCommand writes one complete command frame to the command channel. Commands
-// can be sent from any thread, so use of the write buffer and socket is synchronized.
-func (ds *DataSubscriber) writeServerCommand(commandCode ServerCommandEnum, data []byte) error {
-	ds.writeMutex.Lock()
-	defer ds.writeMutex.Unlock()
+// sendServerCommand sends one complete command frame. Write mutex should be held when calling this function.
+func (ds *DataSubscriber) sendServerCommand(commandCode ServerCommandEnum, data []byte) {
+	ds.disconnectThreadMutex.Lock()
+	commandChannelSocket := ds.commandChannelSocket
+	connectionTerminationThread := ds.connectionTerminationThread
+	connected := ds.connected.IsSet()
+	ds.disconnectThreadMutex.Unlock()
+
+	if !connected {
+		return
+	}
 
 	var packetSize uint32 = uint32(len(data)) + 1
 	var commandBufferSize uint32 = packetSize + payloadHeaderSize
@@ -1634,8 +1746,11 @@ func (ds *DataSubscriber) writeServerCommand(commandCode ServerCommandEnum, data
 		ds.metadataRequested = time.Now()
 	}
 
-	_, err := ds.commandChannelSocket.Write(ds.writeBuffer[:commandBufferSize])
-	return err
+	if _, err := commandChannelSocket.Write(ds.writeBuffer[:commandBufferSize]); err != nil {
+		// Write error, connection may have been closed by peer; terminate connection
+		ds.dispatchErrorMessage("Failed to send server command - disconnecting: " + err.Error())
+		connectionTerminationThread.TryStart()
+	}
 }
 
 func (ds *DataSubscriber) sendOperationalModes() {
@@ -1668,7 +1783,7 @@ func (ds *DataSubscriber) sendOperationalModes() {
 	buffer := make([]byte, 4)
 	binary.BigEndian.PutUint32(buffer, uint32(operationalModes))
 
-	ds.SendServerCommandWithPayload(ServerCommand.DefineOperationalModes, buffer)
+	ds.sendServerCommand(ServerCommand.DefineOperationalModes, buffer)
 }
 
 // Subscription gets the SubscriptionInfo associated with this DataSubscriber.
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index 0fbb021..2788b06 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -70,8 +70,8 @@ type SubscriberConnector struct {
 	cancel               abool.AtomicBool
 	reconnectThread      *thread.Thread
 	reconnectThreadMutex sync.Mutex
-	waitTimer            *time.Timer
-	waitTimerMutex       sync.Mutex
+	cancelSignal         chan struct{} // Closed when connection sequences that are active get canceled
+	cancelSignalMutex    sync.Mutex
 
 	assigningHandlerMutex sync.RWMutex
 }
@@ -79,23 +79,20 @@ type SubscriberConnector struct {
 func (ds *DataSubscriber) autoReconnect() {
 	sc := ds.connector
 
-	if sc.cancel.IsSet() || ds.disposing.IsSet() {
+	// Connections accepted from a listening socket are reestablished by data publisher
+	if !sc.AutoReconnect || ds.connectionSequence == nil || ds.disposing.IsSet() {
 		return
 	}
 
 	// Make sure to wait on any running reconnect to complete...
-	sc.reconnectThreadMutex.Lock()
-	reconnectThread := sc.reconnectThread
-	sc.reconnectThreadMutex.Unlock()
+	sc.joinReconnectThread()
 
-	if reconnectThread != nil {
-		reconnectThread.Join()
-	}
+	canceled := ds.connectionSequence
 
-	reconnectThread = thread.NewThread(func() {
+	reconnectThread := thread.NewThread(func() {
 		// Reset connection attempt counter if last attempt was not refused
 		if sc.connectionRefused.IsNotSet() {
-			sc.ResetConnection()
+			sc.connectAttempt = 0
 		}
 
 		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
@@ -103,13 +100,9 @@ func (ds *DataSubscriber) autoReconnect() {
 			return
 		}
 
-		sc.waitForRetry()
-
-		if sc.cancel.IsSet() || ds.disposing.IsSet() {
-			return
-		}
+		sc.waitForRetry(canceled)
 
-		if sc.connect(ds, true) == ConnectStatus.Canceled {
+		if sc.connect(ds, true, canceled) == ConnectStatus.Canceled {
 			return
 		}
 
@@ -118,7 +111,7 @@ func (ds *DataSubscriber) autoReconnect() {
 		reconnectCallback := sc.ReconnectCallback
 		sc.EndCallbackSync()
 
-		if sc.cancel.IsNotSet() && reconnectCallback != nil {
+		if !sc.isCanceled(canceled) && reconnectCallback != nil {
 			reconnectCallback(ds)
 		}
 	})
@@ -130,7 +123,7 @@ func (ds *DataSubscriber) autoReconnect() {
 	reconnectThread.Start()
 }
 
-func (sc *SubscriberConnector) waitForRetry() {
+func (sc *SubscriberConnector) waitForRetry(canceled <-chan struct{}) {
 	// Apply exponential back-off algorithm for retry attempt delays
 	var exponent float64
 
@@ -178,33 +171,31 @@ func (sc *SubscriberConnector) waitForRetry() {
 	sc.dispatchErrorMessage(message.String())
 
 	waitTimer := time.NewTimer(time.Duration(retryInterval) * time.Millisecond)
+	defer waitTimer.Stop()
 
-	sc.waitTimerMutex.Lock()
-	sc.waitTimer = waitTimer
-	sc.waitTimerMutex.Unlock()
-
-	<-waitTimer.C
+	select {
+	case <-waitTimer.C:
+	case <-canceled:
+	}
 }
 
 // Connect initiates a connection sequence for a DataSubscriber
 func (sc *SubscriberConnector) Connect(ds *DataSubscriber) ConnectStatusEnum {
-	if sc.cancel.IsSet() {
-		return ConnectStatus.Canceled
-	}
+	// New connection sequence takes over from any automatic reconnect in progress
+	canceled := sc.beginSequence()
+	sc.joinReconnectThread()
 
-	return sc.connect(ds, false)
+	return sc.connect(ds, false, canceled)
 }
 
-func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool) ConnectStatusEnum {
+func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool, canceled <-chan struct{}) ConnectStatusEnum {
 	if sc.AutoReconnect {
 		ds.BeginCallbackAssignment()
 		ds.AutoReconnectCallback = ds.autoReconnect
 		ds.EndCallbackAssignment()
 	}
 
-	sc.cancel.UnSet()
-
-	for ds.disposing.IsNotSet() {
+	for ds.disposing.IsNotSet() && !sc.isCanceled(canceled) {
 		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
 			sc.dispatchErrorMessage("Maximum connection retries attempted. Auto-reconnect canceled.")
 			break
@@ -212,47 +203,66 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 
 		sc.connectAttempt++
 
-		if ds.disposing.IsSet() {
-			return ConnectStatus.Canceled
-		}
-
-		if ds.connect(sc.Hostname, sc.Port, autoReconnecting) == nil {
-			break
+		if ds.connect(sc.Hostname, sc.Port, canceled) == nil {
+			return ConnectStatus.Success
 		}
 
-		if ds.disposing.IsNotSet() && sc.RetryInterval > 0 {
+		if sc.RetryInterval > 0 {
 			autoReconnecting = true
-			sc.waitForRetry()
-
-			if sc.cancel.IsSet() {
-				return ConnectStatus.Canceled
-			}
+			sc.waitForRetry(canceled)
 		}
 	}
 
-	if ds.disposing.IsSet() {
+	if ds.disposing.IsSet() || sc.isCanceled(canceled) {
 		return ConnectStatus.Canceled
 	}
 
-	if ds.IsConnected() {
-		return ConnectStatus.Success
-	}
-
 	return ConnectStatus.Failed
 }
 
 // Cancel stops all current and future connection sequences.
 func (sc *SubscriberConnector) Cancel() {
 	sc.cancel.Set()
+	sc.cancelSequences()
+	sc.joinReconnectThread()
+}
+
+// beginSequence starts a new connection sequence, canceling any active ones. Returned
+// signal gets closed when the new connection sequence is canceled.
+func (sc *SubscriberConnector) beginSequence() <-chan struct{} {
+	sc.cancelSequences()
+
+	sc.cancelSignalMutex.Lock()
+	defer sc.cancelSignalMutex.Unlock()
 
-	sc.waitTimerMutex.Lock()
-	waitTimer := sc.waitTimer
-	sc.waitTimerMutex.Unlock()
+	if sc.cancelSignal == nil {
+		sc.cancelSignal = make(chan struct{})
+	}
+
+	return sc.cancelSignal
+}
+
+// cancelSequences cancels connection sequences that are active now, but not any future ones.
+func (sc *SubscriberConnector) cancelSequences() {
+	sc.cancelSignalMutex.Lock()
+	defer sc.cancelSignalMutex.Unlock()
 
-	if waitTimer != nil {
-		waitTimer.Stop()
+	if sc.cancelSignal != nil {
+		close(sc.cancelSignal)
+		sc.cancelSignal = nil
 	}
+}
+
+func (sc *SubscriberConnector) isCanceled(canceled <-chan struct{}) bool {
+	select {
+	case <-canceled:
+		return true
+	default:
+		return sc.cancel.IsSet()
+	}
+}
 
+func (sc *SubscriberConnector) joinReconnectThread() {
 	sc.reconnectThreadMutex.Lock()
 	reconnectThread := sc.reconnectThread
 	sc.reconnectThreadMutex.Unlock()
-- 
2.43.0


From e92bab52ae637465490eb5803057387de0816635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:01 +0000
Subject: [PATCH 22/44] fix: raise one established and one terminated event per
 connection

---
 sttp/Subscriber.go               | 9 +++------
 sttp/transport/DataSubscriber.go | 9 ++++++++-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index c02d6f6..1357835 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -252,6 +252,7 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 
 	// Register callbacks with intermediate handlers
 	con.ReconnectCallback = sb.handleReconnect
+	ds.ConnectionEstablishedCallback = sb.handleConnect
 	ds.MetadataReceivedCallback = sb.handleMetadataReceived
 	ds.DataStartTimeCallback = sb.handleDataStartTime
 	ds.ConfigurationChangedCallback = sb.handleConfigurationChanged
@@ -264,8 +265,6 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 
 	// Connect and subscribe to publisher
 	switch con.Connect(ds) {
-	case transport.ConnectStatus.Success:
-		sb.handleConnect()
 	case transport.ConnectStatus.Failed:
 		err = errors.New("all connection attempts failed")
 	case transport.ConnectStatus.Canceled:
@@ -508,10 +507,8 @@ func (sb *Subscriber) handleConnect() {
 }
 
 func (sb *Subscriber) handleReconnect(ds *transport.DataSubscriber) {
-	if ds.IsConnected() {
-		sb.handleConnect()
-	} else {
-		ds.Disconnect()
+	// Session of a successful reconnect is set up when connection is established
+	if !ds.IsConnected() {
 		sb.StatusMessage("Connection retry attempts exceeded.")
 	}
 }
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 7c4ecd6..45bd9fc 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -77,6 +77,7 @@ type DataSubscriber struct {
 	disconnectThread      *thread.Thread
 	disconnectThreadMutex sync.Mutex // Also guards sockets and changes to connected and listening states
 	disconnectRequested   bool
+	establishedNotified   bool // Guarded by connect action mutex
 	disconnecting         abool.AtomicBool
 	disposing             abool.AtomicBool
 	connectionSequence    <-chan struct{} // Cancel signal of connector sequence that made current connection
@@ -441,6 +442,7 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, canceled <-ch
 	ds.writeMutex.Unlock()
 
 	// Notify consumers of connect
+	ds.establishedNotified = true
 	ds.BeginCallbackSync()
 	connectionEstablishedCallback := ds.ConnectionEstablishedCallback
 	ds.EndCallbackSync()
@@ -794,7 +796,12 @@ func (ds *DataSubscriber) shutdownConnection() {
 	ds.validated.UnSet()
 	ds.subscribed.UnSet()
 
-	// Notify consumers of disconnect
+	// Notify consumers of disconnect, once for each connection
+	if !ds.establishedNotified {
+		return
+	}
+
+	ds.establishedNotified = false
 	ds.BeginCallbackSync()
 	connectionTerminatedCallback := ds.ConnectionTerminatedCallback
 	ds.EndCallbackSync()
-- 
2.43.0


From 7c79d36fa77e52586492bd074059ef26e04ddb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:02 +0000
Subject: [PATCH 23/44] fix: follow configured retry count and back-off
 intervals

---
 sttp/transport/SubscriberConnector.go | 54 +++++++++++++--------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index 2788b06..e9d0e6c 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -25,7 +25,6 @@ package transport
 
 import (
 	"fmt"
-	"math"
 	"strconv"
 	"strings"
 	"sync"
@@ -95,8 +94,7 @@ func (ds *DataSubscriber) autoReconnect() {
 			sc.connectAttempt = 0
 		}
 
-		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
-			sc.dispatchErrorMessage("Maximum connection retries attempted. Auto-reconnect canceled.")
+		if !sc.startRetry() {
 			return
 		}
 
@@ -123,24 +121,28 @@ func (ds *DataSubscriber) autoReconnect() {
 	reconnectThread.Start()
 }
 
-func (sc *SubscriberConnector) waitForRetry(canceled <-chan struct{}) {
-	// Apply exponential back-off algorithm for retry attempt delays
-	var exponent float64
-
-	if sc.connectAttempt > 13 {
-		exponent = 12
-	} else {
-		exponent = float64(sc.connectAttempt)
+// startRetry counts a new retry attempt, returns false when no more retries are allowed.
+func (sc *SubscriberConnector) startRetry() bool {
+	if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
+		sc.dispatchErrorMessage("Maximum connection retries attempted. Auto-reconnect canceled.")
+		return false
 	}
 
-	var retryInterval int32
+	sc.connectAttempt++
 
-	if sc.connectAttempt > 0 {
-		retryInterval = sc.RetryInterval * int32(math.Pow(2, exponent))
+	return true
+}
+
+func (sc *SubscriberConnector) waitForRetry(canceled <-chan struct{}) {
+	// Apply exponential back-off algorithm for retry attempt delays
+	retryInterval := int64(sc.RetryInterval)
+
+	for i := int32(1); i < sc.connectAttempt && retryInterval < int64(sc.MaxRetryInterval); i++ {
+		retryInterval *= 2
 	}
 
-	if retryInterval > sc.MaxRetryInterval {
-		retryInterval = sc.MaxRetryInterval
+	if retryInterval > int64(sc.MaxRetryInterval) {
+		retryInterval = int64(sc.MaxRetryInterval)
 	}
 
 	// Notify the user that we are attempting to reconnect.
@@ -164,7 +166,6 @@ func (sc *SubscriberConnector) waitForRetry(canceled <-chan struct{}) {
 		message.WriteString(fmt.Sprintf("%.2f", float64(retryInterval)/1000.0))
 		message.WriteString(" seconds...")
 	} else {
-		retryInterval = sc.RetryInterval
 		message.WriteString("Attempting to reconnect...")
 	}
 
@@ -195,22 +196,21 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 		ds.EndCallbackAssignment()
 	}
 
-	for ds.disposing.IsNotSet() && !sc.isCanceled(canceled) {
-		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
-			sc.dispatchErrorMessage("Maximum connection retries attempted. Auto-reconnect canceled.")
-			break
-		}
-
-		sc.connectAttempt++
+	// User requests to connect are not a retry
+	if !autoReconnecting {
+		sc.connectAttempt = 0
+	}
 
+	for ds.disposing.IsNotSet() && !sc.isCanceled(canceled) {
 		if ds.connect(sc.Hostname, sc.Port, canceled) == nil {
 			return ConnectStatus.Success
 		}
 
-		if sc.RetryInterval > 0 {
-			autoReconnecting = true
-			sc.waitForRetry(canceled)
+		if sc.isCanceled(canceled) || !sc.startRetry() {
+			break
 		}
+
+		sc.waitForRetry(canceled)
 	}
 
 	if ds.disposing.IsSet() || sc.isCanceled(canceled) {
-- 
2.43.0


From 2dd0094fd2f5901670d96ad4ea2aa94e07baeac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:03 +0000
Subject: [PATCH 24/44] fix: end a pending connect attempt when disconnecting

---
 sttp/transport/DataSubscriber.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 45bd9fc..c14dd46 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -25,6 +25,7 @@ package transport
 
 import (
 	"bufio"
+	"context"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -358,15 +359,26 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, canceled <-chan
 		return errConnectCanceled
 	}
 
-	var err error
-
 	// Initialize connection state
 	ds.setupConnection()
 
 	ds.connector.connectionRefused.UnSet()
 
+	// Pending connect attempt ends when connection sequence is canceled
+	ctx, cancelDial := context.WithCancel(context.Background())
+	defer cancelDial()
+
+	go func() {
+		select {
+		case <-canceled:
+			cancelDial()
+		case <-ctx.Done():
+		}
+	}()
+
 	// TODO: Add TLS implementation options
-	conn, err := net.Dial("tcp", hostName+":"+strconv.Itoa(int(port)))
+	var dialer net.Dialer
+	conn, err := dialer.DialContext(ctx, "tcp", hostName+":"+strconv.Itoa(int(port)))
 
 	if err == nil {
 		err = ds.establishConnection(conn, canceled)
-- 
2.43.0


From c68c415f1668a3497b7191210102dd65013bc93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:53 +0000
Subject: [PATCH 25/44] fix: resolve XML entities in metadata values

Values of a data set were taken from the raw inner XML of a node, so a
tag or description with an ampersand or angle bracket arrived in its
escaped form, e.g. 'a&amp;b' instead of 'a&b'.
---
 sttp/data/DataSet.go | 2 +-
 sttp/xml/XmlNode.go  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 91d82cb..8b0e324 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -287,7 +287,7 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				}
 
 				columnIndex := column.Index()
-				value := field.Value()
+				value := string(field.InnerText)
 
 				switch column.Type() {
 				case DataType.String:
diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 9c9de1a..ed360ee 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -38,6 +38,8 @@ type XmlNode struct {
 	Namespace string `xml:"-"`
 	// InnerXml is the XML content of the child nodes of this node.
 	InnerXml []byte `xml:",innerxml"`
+	// InnerText is the character data of this node with any XML entities resolved.
+	InnerText []byte `xml:",chardata"`
 	// ChildNodes is a the collection of child nodes of this node.
 	ChildNodes []XmlNode `xml:",any"`
 	// Parent is the parent of this node. Value will be nil if node has no parent, e.g., XmlDocument.Root.
-- 
2.43.0


From 785f2af4c0ac8342217a80d187f6c904903776b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:45 +0000
Subject: [PATCH 26/44] fix: count a connection that got lost before it was
 validated as refused

A publisher refuses a session by answering the operational modes with a
failure and closing the connection. When the next command of the
subscriber failed first, that answer was never read and the retry count
started over, so a refusing publisher was retried without end and
without back-off.
---
 sttp/transport/DataSubscriber.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index c14dd46..cc3710b 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -752,6 +752,11 @@ func (ds *DataSubscriber) terminateConnection(connection net.Conn) {
 		return
 	}
 
+	// Publisher may have refused the connection before its response could be received
+	if ds.validated.IsNotSet() {
+		ds.connector.connectionRefused.Set()
+	}
+
 	ds.clearConnectionState()
 	ds.disconnectThread = thread.NewThread(ds.runConnectionLostThread)
 	ds.disconnectThread.Start()
-- 
2.43.0


From ae6966d69a96a6e48012377be28577ba2901d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:48 +0000
Subject: [PATCH 27/44] fix: continue session setup only for the connection
 that got the response

---
 sttp/Subscriber.go | 61 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 1357835..fbbdfc4 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -63,10 +63,15 @@ type Subscriber struct {
 	configurationChangedReceiver   func()
 	historicalReadCompleteReceiver func()
 	connectionEstablishedReceiver  func()
+	connectionTerminatedReceiver   func()
 
 	// Lock used to apply subscription settings along with the subscription request that uses them
 	subscribeMutex sync.Mutex
 
+	// Number of connections terminated so far, tells responses of an earlier connection from those
+	// of the current one; changed while subscribeMutex is held
+	terminatedConnections int
+
 	// Lock used to synchronize console writes
 	consoleLock sync.Mutex
 
@@ -82,7 +87,8 @@ func NewSubscriber() *Subscriber {
 	sb.statusMessageLogger = sb.DefaultStatusMessageLogger
 	sb.errorMessageLogger = sb.DefaultErrorMessageLogger
 	sb.connectionEstablishedReceiver = sb.DefaultConnectionEstablishedReceiver
-	sb.ds.ConnectionTerminatedCallback = sb.DefaultConnectionTerminatedReceiver
+	sb.connectionTerminatedReceiver = sb.DefaultConnectionTerminatedReceiver
+	sb.ds.ConnectionTerminatedCallback = sb.handleDisconnect
 	return &sb
 }
 
@@ -253,9 +259,7 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	// Register callbacks with intermediate handlers
 	con.ReconnectCallback = sb.handleReconnect
 	ds.ConnectionEstablishedCallback = sb.handleConnect
-	ds.MetadataReceivedCallback = sb.handleMetadataReceived
 	ds.DataStartTimeCallback = sb.handleDataStartTime
-	ds.ConfigurationChangedCallback = sb.handleConfigurationChanged
 	ds.ProcessingCompleteCallback = sb.handleProcessingComplete
 
 	con.EndCallbackAssignment()
@@ -334,9 +338,7 @@ func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 
 	// Register callbacks with intermediate handlers
 	ds.ConnectionEstablishedCallback = sb.handleConnect
-	ds.MetadataReceivedCallback = sb.handleMetadataReceived
 	ds.DataStartTimeCallback = sb.handleDataStartTime
-	ds.ConfigurationChangedCallback = sb.handleConfigurationChanged
 	ds.ProcessingCompleteCallback = sb.handleProcessingComplete
 
 	ds.EndCallbackAssignment()
@@ -488,6 +490,17 @@ func (sb *Subscriber) ErrorMessage(message string) {
 // Intermediate callback handlers:
 
 func (sb *Subscriber) handleConnect() {
+	sb.subscribeMutex.Lock()
+	connection := sb.terminatedConnections
+	sb.subscribeMutex.Unlock()
+
+	// Handlers that continue session setup only do so for the connection that got the response
+	ds := sb.dataSubscriber()
+	ds.BeginCallbackAssignment()
+	ds.MetadataReceivedCallback = func(metadata []byte) { sb.handleMetadataReceived(metadata, connection) }
+	ds.ConfigurationChangedCallback = func() { sb.handleConfigurationChanged(connection) }
+	ds.EndCallbackAssignment()
+
 	sb.beginCallbackSync()
 	connectionEstablishedReceiver := sb.connectionEstablishedReceiver
 	sb.endCallbackSync()
@@ -502,7 +515,21 @@ func (sb *Subscriber) handleConnect() {
 	if sb.config.AutoRequestMetadata {
 		sb.RequestMetadata()
 	} else if sb.config.AutoSubscribe {
-		sb.autoSubscribe()
+		sb.requestFor(connection, func() { ds.Subscribe() })
+	}
+}
+
+func (sb *Subscriber) handleDisconnect() {
+	sb.subscribeMutex.Lock()
+	sb.terminatedConnections++
+	sb.subscribeMutex.Unlock()
+
+	sb.beginCallbackSync()
+	connectionTerminatedReceiver := sb.connectionTerminatedReceiver
+	sb.endCallbackSync()
+
+	if connectionTerminatedReceiver != nil {
+		connectionTerminatedReceiver()
 	}
 }
 
@@ -513,7 +540,7 @@ func (sb *Subscriber) handleReconnect(ds *transport.DataSubscriber) {
 	}
 }
 
-func (sb *Subscriber) handleMetadataReceived(metadata []byte) {
+func (sb *Subscriber) handleMetadataReceived(metadata []byte, connection int) {
 	parseStarted := time.Now()
 	dataSet := data.NewDataSet()
 	err := dataSet.ParseXml(metadata)
@@ -535,15 +562,18 @@ func (sb *Subscriber) handleMetadataReceived(metadata []byte) {
 	}
 
 	if sb.config.AutoRequestMetadata && sb.config.AutoSubscribe {
-		sb.autoSubscribe()
+		sb.requestFor(connection, func() { sb.dataSubscriber().Subscribe() })
 	}
 }
 
-func (sb *Subscriber) autoSubscribe() {
+// requestFor executes request unless specified connection has been terminated.
+func (sb *Subscriber) requestFor(connection int, request func()) {
 	sb.subscribeMutex.Lock()
 	defer sb.subscribeMutex.Unlock()
 
-	sb.dataSubscriber().Subscribe()
+	if connection == sb.terminatedConnections {
+		request()
+	}
 }
 
 func (sb *Subscriber) loadMeasurementMetadata(dataSet *data.DataSet) {
@@ -667,7 +697,7 @@ func (sb *Subscriber) handleDataStartTime(startTime ticks.Ticks) {
 	}
 }
 
-func (sb *Subscriber) handleConfigurationChanged() {
+func (sb *Subscriber) handleConfigurationChanged(connection int) {
 	sb.beginCallbackSync()
 	configurationChangedReceiver := sb.configurationChangedReceiver
 	sb.endCallbackSync()
@@ -677,7 +707,7 @@ func (sb *Subscriber) handleConfigurationChanged() {
 	}
 
 	if sb.config.AutoRequestMetadata {
-		sb.RequestMetadata()
+		sb.requestFor(connection, sb.RequestMetadata)
 	}
 }
 
@@ -840,9 +870,8 @@ func (sb *Subscriber) SetConnectionEstablishedReceiver(callback func()) {
 // Default implementation simply writes connection terminated feedback to ErrorMessage handler.
 // Assignment will take effect immediately, even while subscription is active.
 func (sb *Subscriber) SetConnectionTerminatedReceiver(callback func()) {
-	ds := sb.dataSubscriber()
-	ds.BeginCallbackAssignment()
-	defer ds.EndCallbackAssignment()
+	sb.beginCallbackAssignment()
+	defer sb.endCallbackAssignment()
 
-	ds.ConnectionTerminatedCallback = callback
+	sb.connectionTerminatedReceiver = callback
 }
-- 
2.43.0


From 06e3912d5de47f8f043afd0f1c958d9241ade95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:29 +0000
Subject: [PATCH 28/44] fix: leave the active connection sequence alone when a
 connect request is refused

---
 sttp/transport/DataSubscriber.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index cc3710b..a787397 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -320,12 +320,17 @@ func (ds *DataSubscriber) AdjustedValue(measurement *Measurement) float64 {
 
 // Connect requests the the DataSubscriber initiate a connection to the DataPublisher.
 func (ds *DataSubscriber) Connect(hostName string, port uint16) error {
+	// Requests that get refused must not affect any active connection sequence
+	if err := ds.checkConnectAllowed(); err != nil {
+		return err
+	}
+
 	// User requests to connection are not an auto-reconnect attempt
 	ds.connector.ResetConnection()
 	return ds.connect(hostName, port, ds.connector.beginSequence())
 }
 
-func (ds *DataSubscriber) connect(hostName string, port uint16, canceled <-chan struct{}) error {
+func (ds *DataSubscriber) checkConnectAllowed() error {
 	if ds.connected.IsSet() {
 		return errors.New("subscriber is already connected; disconnect first")
 	}
@@ -334,6 +339,14 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, canceled <-chan
 		return errors.New("subscriber is listening for connections; direct connections disallowed")
 	}
 
+	return nil
+}
+
+func (ds *DataSubscriber) connect(hostName string, port uint16, canceled <-chan struct{}) error {
+	if err := ds.checkConnectAllowed(); err != nil {
+		return err
+	}
+
 	// Make sure any pending disconnect has completed to make sure socket is closed. A pending
 	// disconnect that was requested by user also cancels connection sequence, it must not be
 	// waited for since it waits itself for any automatic reconnect to complete.
-- 
2.43.0


From c6bc4a5dccab21362be4e76924a724241d405644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:29 +0000
Subject: [PATCH 29/44] fix: report subscriptions that could not be requested

---
 sttp/Subscriber.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index fbbdfc4..2e2eda6 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -428,7 +428,14 @@ func (sb *Subscriber) Subscribe(filterExpression string, settings *Settings) {
 	sub.ExtraConnectionStringParameters = settings.ExtraConnectionStringParameters
 
 	if ds.IsConnected() {
-		ds.Subscribe()
+		sb.sendSubscribe()
+	}
+}
+
+// sendSubscribe requests subscription with current settings, failures are reported as errors.
+func (sb *Subscriber) sendSubscribe() {
+	if err := sb.dataSubscriber().Subscribe(); err != nil {
+		go sb.ErrorMessage("Failed to subscribe: " + err.Error())
 	}
 }
 
@@ -515,7 +522,7 @@ func (sb *Subscriber) handleConnect() {
 	if sb.config.AutoRequestMetadata {
 		sb.RequestMetadata()
 	} else if sb.config.AutoSubscribe {
-		sb.requestFor(connection, func() { ds.Subscribe() })
+		sb.requestFor(connection, sb.sendSubscribe)
 	}
 }
 
@@ -562,7 +569,7 @@ func (sb *Subscriber) handleMetadataReceived(metadata []byte, connection int) {
 	}
 
 	if sb.config.AutoRequestMetadata && sb.config.AutoSubscribe {
-		sb.requestFor(connection, func() { sb.dataSubscriber().Subscribe() })
+		sb.requestFor(connection, sb.sendSubscribe)
 	}
 }
 
-- 
2.43.0


From 792ead795a5a6814148e35446cf83884d3da4258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:07 +0000
Subject: [PATCH 30/44] fix: keep reconnecting automatically when a listen
 request is refused

---
 sttp/transport/DataSubscriber.go | 46 ++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index a787397..050b25b 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -78,6 +78,7 @@ type DataSubscriber struct {
 	disconnectThread      *thread.Thread
 	disconnectThreadMutex sync.Mutex // Also guards sockets and changes to connected and listening states
 	disconnectRequested   bool
+	disconnectCount       int
 	establishedNotified   bool // Guarded by connect action mutex
 	disconnecting         abool.AtomicBool
 	disposing             abool.AtomicBool
@@ -484,21 +485,14 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, canceled <-ch
 
 // Listen requests that the DataSubscriber establish a listening connection for a DataPublisher.
 func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
-	if ds.listening.IsSet() {
-		return errors.New("subscriber is already listening; disconnect first")
-	}
-
-	if ds.connected.IsSet() {
-		return errors.New("subscriber is already connected; disconnect first")
+	if err := ds.checkListenAllowed(); err != nil {
+		return err
 	}
 
-	// Listening takes over from any automatic reconnect in progress
-	canceled := ds.connector.beginSequence()
-	ds.connector.joinReconnectThread()
-
 	// Make sure any pending disconnect has completed to make sure socket is closed
 	ds.disconnectThreadMutex.Lock()
 	disconnectThread := ds.disconnectThread
+	disconnectCount := ds.disconnectCount
 	ds.disconnectThreadMutex.Unlock()
 
 	if disconnectThread != nil {
@@ -513,18 +507,41 @@ func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
 	}
 
 	ds.disconnectThreadMutex.Lock()
-	defer ds.disconnectThreadMutex.Unlock()
 
-	if ds.connector.isCanceled(canceled) {
+	// Connection state may have changed while socket was opened
+	if err = ds.checkListenAllowed(); err == nil && (ds.disconnectCount != disconnectCount || ds.connector.cancel.IsSet()) {
+		err = errConnectCanceled
+	}
+
+	if err != nil {
+		ds.disconnectThreadMutex.Unlock()
 		listeningSocket.Close()
-		return errConnectCanceled
+		return err
 	}
 
+	// Listening takes over from any automatic reconnect in progress
+	ds.connector.cancelSequences()
+
 	ds.listeningSocket = listeningSocket
 	ds.listeningSocketAcceptThread = thread.NewThread(func() { ds.runListeningSocketAcceptThread(listeningSocket) })
 	ds.listening.Set()
 	ds.listeningSocketAcceptThread.Start()
 
+	ds.disconnectThreadMutex.Unlock()
+	ds.connector.joinReconnectThread()
+
+	return nil
+}
+
+func (ds *DataSubscriber) checkListenAllowed() error {
+	if ds.listening.IsSet() {
+		return errors.New("subscriber is already listening; disconnect first")
+	}
+
+	if ds.connected.IsSet() {
+		return errors.New("subscriber is already connected; disconnect first")
+	}
+
 	return nil
 }
 
@@ -691,8 +708,9 @@ func (ds *DataSubscriber) Disconnect() {
 func (ds *DataSubscriber) disconnect(joinThread bool) {
 	ds.disconnectThreadMutex.Lock()
 
-	// Cancel all connection sequences that precede this request
+	// Cancel all connection sequences and listen requests that precede this request
 	ds.connector.cancelSequences()
+	ds.disconnectCount++
 	ds.listening.UnSet()
 	ds.clearConnectionState()
 
-- 
2.43.0


From 5f50230e45e6bcc7d7283c9160d6b088efc18f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:08 +0000
Subject: [PATCH 31/44] fix: refuse connect requests that an automatic
 reconnect completed before

---
 sttp/transport/DataSubscriber.go      | 20 +++++++++++++++++---
 sttp/transport/SubscriberConnector.go |  8 +++++++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 050b25b..20d9286 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -321,14 +321,28 @@ func (ds *DataSubscriber) AdjustedValue(measurement *Measurement) float64 {
 
 // Connect requests the the DataSubscriber initiate a connection to the DataPublisher.
 func (ds *DataSubscriber) Connect(hostName string, port uint16) error {
-	// Requests that get refused must not affect any active connection sequence
-	if err := ds.checkConnectAllowed(); err != nil {
+	canceled, err := ds.beginConnect()
+
+	if err != nil {
 		return err
 	}
 
 	// User requests to connection are not an auto-reconnect attempt
 	ds.connector.ResetConnection()
-	return ds.connect(hostName, port, ds.connector.beginSequence())
+	return ds.connect(hostName, port, canceled)
+}
+
+// beginConnect starts a new connection sequence that takes over from any automatic reconnect in
+// progress. Requests that get refused must not affect any active connection sequence.
+func (ds *DataSubscriber) beginConnect() (<-chan struct{}, error) {
+	ds.disconnectThreadMutex.Lock()
+	defer ds.disconnectThreadMutex.Unlock()
+
+	if err := ds.checkConnectAllowed(); err != nil {
+		return nil, err
+	}
+
+	return ds.connector.beginSequence(), nil
 }
 
 func (ds *DataSubscriber) checkConnectAllowed() error {
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index e9d0e6c..5f28f7b 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -183,7 +183,13 @@ func (sc *SubscriberConnector) waitForRetry(canceled <-chan struct{}) {
 // Connect initiates a connection sequence for a DataSubscriber
 func (sc *SubscriberConnector) Connect(ds *DataSubscriber) ConnectStatusEnum {
 	// New connection sequence takes over from any automatic reconnect in progress
-	canceled := sc.beginSequence()
+	canceled, err := ds.beginConnect()
+
+	if err != nil {
+		sc.dispatchErrorMessage("Connection attempt refused: " + err.Error())
+		return ConnectStatus.Failed
+	}
+
 	sc.joinReconnectThread()
 
 	return sc.connect(ds, false, canceled)
-- 
2.43.0


From 6613b980e5e5ea6bc187f4bfe19457b7d5b197a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:19:19 +0000
Subject: [PATCH 32/44] fix: clear metadata registry without replacing it while
 it is in use

---
 sttp/transport/DataSubscriber.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 20d9286..331eb1b 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -433,7 +433,12 @@ func (ds *DataSubscriber) setupConnection() {
 	ds.keyIVs = nil
 	ds.bufferBlockExpectedSequenceNumber = 0
 	ds.bufferBlockCache = make(map[uint32]BufferBlock)
-	ds.measurementRegistry = sync.Map{}
+
+	// Registry can be in use by other threads, so it must be cleared instead of being replaced
+	ds.measurementRegistry.Range(func(signalID, _ any) bool {
+		ds.measurementRegistry.Delete(signalID)
+		return true
+	})
 }
 
 // establishConnection takes a connection into use unless this was canceled in the meantime.
-- 
2.43.0


From 303a8d1d2d164f5b2abe98cbd657d904726a6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:43 +0000
Subject: [PATCH 33/44] fix: evaluate computed columns of a row from several
 threads without shared state

---
 sttp/data/DataRow.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 74f9977..9b73bc7 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -28,6 +28,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/araddon/dateparse"
@@ -40,6 +41,9 @@ import (
 type DataRow struct {
 	parent *DataTable
 	values []interface{}
+
+	// Lock used to parse expressions of computed columns
+	expressionTreeMutex sync.Mutex
 }
 
 func newDataRow(parent *DataTable) *DataRow {
@@ -96,6 +100,9 @@ func (dr *DataRow) validateColumnType(columnIndex, targetType int, read bool) (*
 func (dr *DataRow) expressionTree(column *DataColumn) (*ExpressionTree, error) {
 	columnIndex := column.Index()
 
+	dr.expressionTreeMutex.Lock()
+	defer dr.expressionTreeMutex.Unlock()
+
 	if dr.values[columnIndex] == nil {
 		dataTable := column.Parent()
 		expressionTree, err := GenerateExpressionTree(dataTable, column.Expression(), true)
@@ -105,10 +112,12 @@ func (dr *DataRow) expressionTree(column *DataColumn) (*ExpressionTree, error) {
 		}
 
 		dr.values[columnIndex] = expressionTree
-		return expressionTree, nil
 	}
 
-	return dr.values[columnIndex].(*ExpressionTree), nil
+	// Evaluation changes state of an expression tree, so each one uses its own copy
+	expressionTree := *dr.values[columnIndex].(*ExpressionTree)
+
+	return &expressionTree, nil
 }
 
 func (dr *DataRow) getComputedValue(column *DataColumn) (interface{}, error) {
-- 
2.43.0


From ebf9d085eaf7e4cda14d3e76fd34ac524c372897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:44 +0000
Subject: [PATCH 34/44] fix: read subscriber ID whole while it gets updated

---
 sttp/transport/DataSubscriber.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 331eb1b..ed26c65 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1322,7 +1322,8 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 	}
 
 	signalIndexCache := NewSignalIndexCache()
-	err := signalIndexCache.decode(ds, data, &ds.subscriberID)
+	var subscriberID guid.Guid
+	err := signalIndexCache.decode(ds, data, &subscriberID)
 
 	if err != nil {
 		ds.dispatchErrorMessage("Failed to parse signal index cache: " + err.Error())
@@ -1330,6 +1331,7 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 	}
 
 	ds.signalIndexCacheMutex.Lock()
+	ds.subscriberID = subscriberID
 	ds.signalIndexCache[cacheIndex] = signalIndexCache
 	ds.cacheIndex = cacheIndex
 	ds.signalIndexCacheMutex.Unlock()
@@ -1881,6 +1883,9 @@ func (ds *DataSubscriber) ActiveSignalIndexCache() *SignalIndexCache {
 
 // SubscriberID gets the subscriber ID as assigned by the DataPublisher upon receipt of the SignalIndexCache.
 func (ds *DataSubscriber) SubscriberID() guid.Guid {
+	ds.signalIndexCacheMutex.Lock()
+	defer ds.signalIndexCacheMutex.Unlock()
+
 	return ds.subscriberID
 }
 
-- 
2.43.0


From 05a2896ca51c171ce2bb3e2e5288327b1c84a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:44 +0000
Subject: [PATCH 35/44] fix: read connection ID whole while a connection gets
 established

---
 sttp/transport/DataSubscriber.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index ed26c65..24e84d1 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -258,6 +258,9 @@ func (ds *DataSubscriber) IsSubscribed() bool {
 
 // ConnectionID returns the IP address and DNS host name, if resolvable, of current STTP connection.
 func (ds *DataSubscriber) ConnectionID() string {
+	ds.disconnectThreadMutex.Lock()
+	defer ds.disconnectThreadMutex.Unlock()
+
 	return ds.connectionID
 }
 
@@ -458,10 +461,12 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, canceled <-ch
 		addrName = connector.Hostname + ":" + strconv.Itoa(int(connector.Port))
 	}
 
+	ds.disconnectThreadMutex.Lock()
 	ds.connectionID = addrName
+	ds.disconnectThreadMutex.Unlock()
 
 	if listening {
-		ds.dispatchStatusMessage("Processing connection attempt from \"" + ds.connectionID + "\" ...")
+		ds.dispatchStatusMessage("Processing connection attempt from \"" + addrName + "\" ...")
 	}
 
 	// Hold back commands of other threads until operational modes have been sent
-- 
2.43.0


From 8c68c96397f366ddcee0451e616ee12c3fc0540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:14:40 +0000
Subject: [PATCH 36/44] fix: synchronize exchange of cipher keys with UDP data
 channel

---
 sttp/transport/DataSubscriber.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 24e84d1..6f0fc65 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -163,6 +163,7 @@ type DataSubscriber struct {
 	timeIndex               int32
 	baseTimeOffsets         [2]int64
 	keyIVs                  [][][]byte
+	keyIVsMutex             sync.Mutex
 	lastMissingCacheWarning ticks.Ticks
 	tsscResetRequested      abool.AtomicBool
 	tsscLastOOSReport       time.Time
@@ -433,7 +434,11 @@ func (ds *DataSubscriber) setupConnection() {
 
 	ds.timeIndex = 0
 	ds.baseTimeOffsets = [2]int64{}
+
+	ds.keyIVsMutex.Lock()
 	ds.keyIVs = nil
+	ds.keyIVsMutex.Unlock()
+
 	ds.bufferBlockExpectedSequenceNumber = 0
 	ds.bufferBlockCache = make(map[uint32]BufferBlock)
 
@@ -1412,7 +1417,9 @@ func (ds *DataSubscriber) handleUpdateCipherKeys(data []byte) {
 	}
 
 	// Exchange keys
+	ds.keyIVsMutex.Lock()
 	ds.keyIVs = keyIVs
+	ds.keyIVsMutex.Unlock()
 
 	ds.dispatchStatusMessage("Successfully established new cipher keys for UDP data packet transmissions.")
 }
@@ -1447,9 +1454,12 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 
 	data = data[1:]
 
-	if ds.keyIVs != nil {
-		// Get a local copy keyIVs - these can change at any time
-		keyIVs := ds.keyIVs
+	// Get a local copy keyIVs - these can change at any time
+	ds.keyIVsMutex.Lock()
+	keyIVs := ds.keyIVs
+	ds.keyIVsMutex.Unlock()
+
+	if keyIVs != nil {
 		var cipherIndex int
 		var err error
 
-- 
2.43.0


From 0ab170bbd13df7619137c27dde6ac43ae174fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:14:41 +0000
Subject: [PATCH 37/44] fix: synchronize time of metadata request with metadata
 reception

---
 sttp/transport/DataSubscriber.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 6f0fc65..2bec904 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -155,7 +155,7 @@ type DataSubscriber struct {
 	STTPUpdatedOnInfo string
 
 	// Measurement parsing
-	metadataRequested       time.Time
+	metadataRequested       atomic.Int64 // Nanoseconds since Unix epoch
 	measurementRegistry     sync.Map
 	signalIndexCache        [2]*SignalIndexCache
 	signalIndexCacheMutex   sync.Mutex
@@ -1250,8 +1250,10 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 	ds.EndCallbackSync()
 
 	if metadataReceivedCallback != nil {
+		metadataRequested := time.Unix(0, ds.metadataRequested.Load())
+
 		if ds.CompressMetadata {
-			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Decompressing...", format.Int(len(data)), format.Float(time.Since(ds.metadataRequested).Seconds(), 3)))
+			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Decompressing...", format.Int(len(data)), format.Float(time.Since(metadataRequested).Seconds(), 3)))
 
 			decompressStarted := time.Now()
 			var err error
@@ -1263,7 +1265,7 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 
 			ds.dispatchStatusMessage(fmt.Sprintf("Decompressed %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(decompressStarted).Seconds(), 3)))
 		} else {
-			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(ds.metadataRequested).Seconds(), 3)))
+			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(metadataRequested).Seconds(), 3)))
 
 			// Callback runs while next packets are received, so it cannot reference shared read buffer
 			data = append([]byte(nil), data...)
@@ -1834,7 +1836,7 @@ func (ds *DataSubscriber) sendServerCommand(commandCode ServerCommandEnum, data
 
 	if commandCode == ServerCommand.MetadataRefresh {
 		// Track start time of metadata request to calculate round-trip receive time
-		ds.metadataRequested = time.Now()
+		ds.metadataRequested.Store(time.Now().UnixNano())
 	}
 
 	if _, err := commandChannelSocket.Write(ds.writeBuffer[:commandBufferSize]); err != nil {
-- 
2.43.0


From 815ad6e9acd70fc0b2ae4392c0ddde2b353bac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:14:42 +0000
Subject: [PATCH 38/44] fix: update metadata records from one thread at a time

---
 sttp/Subscriber.go                 |  3 +++
 sttp/transport/DataSubscriber.go   | 12 ++++++++++++
 sttp/transport/SignalIndexCache.go |  3 +++
 3 files changed, 18 insertions(+)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 2e2eda6..65508f3 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -612,6 +612,7 @@ func (sb *Subscriber) loadMeasurementMetadata(dataSet *data.DataSet) {
 				}
 
 				metadata := ds.LookupMetadata(signalID)
+				ds.BeginMetadataUpdate()
 
 				if idIndex > -1 {
 					id, _, _ := measurement.StringValue(idIndex)
@@ -642,6 +643,8 @@ func (sb *Subscriber) loadMeasurementMetadata(dataSet *data.DataSet) {
 				if updatedOnIndex > -1 {
 					metadata.UpdatedOn, _, _ = measurement.DateTimeValue(updatedOnIndex)
 				}
+
+				ds.EndMetadataUpdate()
 			}
 		} else {
 			sb.ErrorMessage("Received metadata does not contain the required MeasurementDetail.SignalID field")
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 2bec904..bdeab57 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -157,6 +157,7 @@ type DataSubscriber struct {
 	// Measurement parsing
 	metadataRequested       atomic.Int64 // Nanoseconds since Unix epoch
 	measurementRegistry     sync.Map
+	metadataMutex           sync.Mutex
 	signalIndexCache        [2]*SignalIndexCache
 	signalIndexCacheMutex   sync.Mutex
 	cacheIndex              int32
@@ -304,6 +305,17 @@ func (ds *DataSubscriber) LookupMetadata(signalID guid.Guid) *MeasurementMetadat
 	return metadata.(*MeasurementMetadata)
 }
 
+// BeginMetadataUpdate begins a change of MeasurementMetadata records in the local registry, received metadata
+// and signal index caches are processed by different threads.
+func (ds *DataSubscriber) BeginMetadataUpdate() {
+	ds.metadataMutex.Lock()
+}
+
+// EndMetadataUpdate ends a change of MeasurementMetadata records in the local registry.
+func (ds *DataSubscriber) EndMetadataUpdate() {
+	ds.metadataMutex.Unlock()
+}
+
 // Metadata gets the MeasurementMetadata associated with a measurement from the local
 // registry. If the metadata does not exist, a new record is created and returned.
 func (ds *DataSubscriber) Metadata(measurement *Measurement) *MeasurementMetadata {
diff --git a/sttp/transport/SignalIndexCache.go b/sttp/transport/SignalIndexCache.go
index 4361860..e2fedd5 100644
--- a/sttp/transport/SignalIndexCache.go
+++ b/sttp/transport/SignalIndexCache.go
@@ -64,6 +64,9 @@ func (sic *SignalIndexCache) addRecord(ds *DataSubscriber, signalIndex int32, si
 
 	metadata := ds.LookupMetadata(signalID)
 
+	ds.BeginMetadataUpdate()
+	defer ds.EndMetadataUpdate()
+
 	// Register measurement metadata if not defined already
 	if len(metadata.Source) == 0 {
 		metadata.Source = source
-- 
2.43.0


From cfe10f1334776d254ada15fe1985d47e16d62826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:15:21 +0000
Subject: [PATCH 39/44] fix: change subscription settings without affecting
 packets being processed

---
 sttp/Subscriber.go               |  4 ++++
 sttp/transport/DataSubscriber.go | 26 +++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 65508f3..03993ac 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -402,6 +402,8 @@ func (sb *Subscriber) Subscribe(filterExpression string, settings *Settings) {
 	sb.subscribeMutex.Lock()
 	defer sb.subscribeMutex.Unlock()
 
+	ds.BeginSubscriptionUpdate()
+
 	sub.FilterExpression = filterExpression
 	sub.Throttled = settings.Throttled
 	sub.PublishInterval = settings.PublishInterval
@@ -427,6 +429,8 @@ func (sb *Subscriber) Subscribe(filterExpression string, settings *Settings) {
 	sub.ProcessingInterval = settings.ProcessingInterval
 	sub.ExtraConnectionStringParameters = settings.ExtraConnectionStringParameters
 
+	ds.EndSubscriptionUpdate()
+
 	if ds.IsConnected() {
 		sb.sendSubscribe()
 	}
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index bdeab57..e3b3037 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -49,6 +49,9 @@ import (
 // DataSubscriber represents a subscription for an STTP connection.
 type DataSubscriber struct {
 	subscription SubscriptionInfo
+
+	subscriptionMutex sync.Mutex
+
 	subscriberID guid.Guid
 	encoding     OperationalEncodingEnum
 	connector    *SubscriberConnector
@@ -1663,8 +1666,11 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 		return measurements
 	}
 
+	ds.subscriptionMutex.Lock()
 	useMillisecondResolution := ds.subscription.UseMillisecondResolution
 	includeTime := ds.subscription.IncludeTime
+	ds.subscriptionMutex.Unlock()
+
 	index := 0
 
 	for i := uint32(0); i < count; i++ {
@@ -1869,7 +1875,11 @@ func (ds *DataSubscriber) sendOperationalModes() {
 	}
 
 	// TSSC compression only works with stateful connections
-	if ds.CompressPayloadData && !ds.subscription.UdpDataChannel {
+	ds.subscriptionMutex.Lock()
+	udpDataChannel := ds.subscription.UdpDataChannel
+	ds.subscriptionMutex.Unlock()
+
+	if ds.CompressPayloadData && !udpDataChannel {
 		operationalModes |= OperationalModes.CompressPayloadData
 
 		if ds.Version < 10 {
@@ -1896,6 +1906,17 @@ func (ds *DataSubscriber) Subscription() *SubscriptionInfo {
 	return &ds.subscription
 }
 
+// BeginSubscriptionUpdate begins a change of the SubscriptionInfo associated with this DataSubscriber. Received
+// data gets processed according to the SubscriptionInfo, so this is required for changes while connected.
+func (ds *DataSubscriber) BeginSubscriptionUpdate() {
+	ds.subscriptionMutex.Lock()
+}
+
+// EndSubscriptionUpdate ends a change of the SubscriptionInfo associated with this DataSubscriber.
+func (ds *DataSubscriber) EndSubscriptionUpdate() {
+	ds.subscriptionMutex.Unlock()
+}
+
 // Connector gets the SubscriberConnector associated with this DataSubscriber.
 func (ds *DataSubscriber) Connector() *SubscriberConnector {
 	return ds.connector
@@ -1925,6 +1946,9 @@ func (ds *DataSubscriber) TotalCommandChannelBytesReceived() uint64 {
 
 // TotalDataChannelBytesReceived gets the total number of bytes received via the data channel since last connection.
 func (ds *DataSubscriber) TotalDataChannelBytesReceived() uint64 {
+	ds.subscriptionMutex.Lock()
+	defer ds.subscriptionMutex.Unlock()
+
 	if ds.subscription.UdpDataChannel {
 		return atomic.LoadUint64(&ds.totalDataChannelBytesReceived)
 	}
-- 
2.43.0


From 1945ecb465c398de4330d5d62dbb796210a14abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:15:21 +0000
Subject: [PATCH 40/44] fix: apply settings of a new connection after threads
 of prior connection have completed

---
 sttp/Subscriber.go                    | 65 ++++++++++++++++++++-------
 sttp/transport/DataSubscriber.go      | 40 +++++++++++++++--
 sttp/transport/SubscriberConnector.go | 13 +++++-
 3 files changed, 97 insertions(+), 21 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 03993ac..26502fa 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -50,7 +50,8 @@ import (
 // subscription based functionality.
 type Subscriber struct {
 	// Configuration reference
-	config *Config
+	config      *Config
+	configMutex sync.Mutex
 
 	// DataSubscriber reference
 	ds *transport.DataSubscriber
@@ -218,14 +219,17 @@ func (sb *Subscriber) Dial(address string, config *Config) error {
 		return fmt.Errorf("port number \"%s\" is out of range: must be 1 to %d", portname, math.MaxUint16)
 	}
 
+	return sb.connect(hostname, uint16(port), config)
+}
+
+func (sb *Subscriber) applyConnectSettings(hostname string, port uint16, config *Config) {
+	sb.configMutex.Lock()
+	defer sb.configMutex.Unlock()
+
 	if config != nil {
 		sb.config = config
 	}
 
-	return sb.connect(hostname, uint16(port))
-}
-
-func (sb *Subscriber) connect(hostname string, port uint16) error {
 	if sb.config == nil {
 		panic("Internal Config instance has not been initialized. Make sure to use NewSubscriber.")
 	}
@@ -247,6 +251,11 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	ds.CompressSignalIndexCache = sb.config.CompressSignalIndexCache
 	ds.Version = sb.config.Version
 	ds.SwapGuidEndianness = !sb.config.RfcGuidEncoding
+}
+
+func (sb *Subscriber) connect(hostname string, port uint16, config *Config) error {
+	ds := sb.dataSubscriber()
+	con := ds.Connector()
 
 	con.BeginCallbackAssignment()
 	ds.BeginCallbackAssignment()
@@ -268,7 +277,8 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	var err error
 
 	// Connect and subscribe to publisher
-	switch con.Connect(ds) {
+	// Settings are applied when these are not in use by a prior connection any more
+	switch con.ConnectWithSettings(ds, func() { sb.applyConnectSettings(hostname, port, config) }) {
 	case transport.ConnectStatus.Failed:
 		err = errors.New("all connection attempts failed")
 	case transport.ConnectStatus.Canceled:
@@ -278,6 +288,14 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	return err
 }
 
+// currentConfig gets the config in use, this can change when a new connection is requested.
+func (sb *Subscriber) currentConfig() *Config {
+	sb.configMutex.Lock()
+	defer sb.configMutex.Unlock()
+
+	return sb.config
+}
+
 // Listen establishes a listening socket for an incoming STTP publisher connection, also known
 // as a reverse connection, see https://sttp.info/reverse-connections/. Config parameter controls
 // connection related settings, set value to nil for default values. If the config defines
@@ -310,14 +328,17 @@ func (sb *Subscriber) Listen(address string, config *Config) error {
 		return fmt.Errorf("port number \"%s\" is out of range: must be 1 to %d", portname, math.MaxUint16)
 	}
 
+	return sb.listen(uint16(port), networkInterface, config)
+}
+
+func (sb *Subscriber) applyListenSettings(config *Config) {
+	sb.configMutex.Lock()
+	defer sb.configMutex.Unlock()
+
 	if config != nil {
 		sb.config = config
 	}
 
-	return sb.listen(uint16(port), networkInterface)
-}
-
-func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 	if sb.config == nil {
 		panic("Internal Config instance has not been initialized. Make sure to use NewSubscriber.")
 	}
@@ -329,6 +350,10 @@ func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 	ds.CompressSignalIndexCache = sb.config.CompressSignalIndexCache
 	ds.Version = sb.config.Version
 	ds.SwapGuidEndianness = !sb.config.RfcGuidEncoding
+}
+
+func (sb *Subscriber) listen(port uint16, networkInterface string, config *Config) error {
+	ds := sb.dataSubscriber()
 
 	ds.BeginCallbackAssignment()
 
@@ -344,7 +369,8 @@ func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 	ds.EndCallbackAssignment()
 
 	// Listen for publisher connection
-	return ds.Listen(port, networkInterface)
+	// Settings are applied when these are not in use by a prior connection any more
+	return ds.ListenWithSettings(port, networkInterface, func() { sb.applyListenSettings(config) })
 }
 
 // Disconnect disconnects from an STTP publisher.
@@ -356,13 +382,14 @@ func (sb *Subscriber) Disconnect() {
 // like new metadata. Any defined MetadataFilters will be included in request.
 func (sb *Subscriber) RequestMetadata() {
 	ds := sb.dataSubscriber()
+	config := sb.currentConfig()
 
-	if len(sb.config.MetadataFilters) == 0 {
+	if len(config.MetadataFilters) == 0 {
 		ds.SendServerCommand(transport.ServerCommand.MetadataRefresh)
 		return
 	}
 
-	filters := ds.EncodeString(sb.config.MetadataFilters)
+	filters := ds.EncodeString(config.MetadataFilters)
 	buffer := make([]byte, 4+len(filters))
 
 	binary.BigEndian.PutUint32(buffer, uint32(len(filters)))
@@ -523,9 +550,11 @@ func (sb *Subscriber) handleConnect() {
 	// If automatically parsing metadata, request metadata upon successful connection,
 	// after metadata is received the SubscriberInstance will then initiate subscribe;
 	// otherwise, subscribe is initiated immediately (when auto subscribe requested)
-	if sb.config.AutoRequestMetadata {
+	config := sb.currentConfig()
+
+	if config.AutoRequestMetadata {
 		sb.RequestMetadata()
-	} else if sb.config.AutoSubscribe {
+	} else if config.AutoSubscribe {
 		sb.requestFor(connection, sb.sendSubscribe)
 	}
 }
@@ -572,7 +601,9 @@ func (sb *Subscriber) handleMetadataReceived(metadata []byte, connection int) {
 		metadataReceiver(dataSet)
 	}
 
-	if sb.config.AutoRequestMetadata && sb.config.AutoSubscribe {
+	config := sb.currentConfig()
+
+	if config.AutoRequestMetadata && config.AutoSubscribe {
 		sb.requestFor(connection, sb.sendSubscribe)
 	}
 }
@@ -720,7 +751,7 @@ func (sb *Subscriber) handleConfigurationChanged(connection int) {
 		configurationChangedReceiver()
 	}
 
-	if sb.config.AutoRequestMetadata {
+	if sb.currentConfig().AutoRequestMetadata {
 		sb.requestFor(connection, sb.RequestMetadata)
 	}
 }
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index e3b3037..b331944 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -346,6 +346,8 @@ func (ds *DataSubscriber) Connect(hostName string, port uint16) error {
 		return err
 	}
 
+	ds.waitForPriorConnection()
+
 	// User requests to connection are not an auto-reconnect attempt
 	ds.connector.ResetConnection()
 	return ds.connect(hostName, port, canceled)
@@ -364,6 +366,20 @@ func (ds *DataSubscriber) beginConnect() (<-chan struct{}, error) {
 	return ds.connector.beginSequence(), nil
 }
 
+// waitForPriorConnection waits until threads of a prior connection, including any automatic reconnect
+// whose connection sequence has been canceled, have completed.
+func (ds *DataSubscriber) waitForPriorConnection() {
+	ds.disconnectThreadMutex.Lock()
+	disconnectThread := ds.disconnectThread
+	ds.disconnectThreadMutex.Unlock()
+
+	if disconnectThread != nil {
+		disconnectThread.Join()
+	}
+
+	ds.connector.joinReconnectThread()
+}
+
 func (ds *DataSubscriber) checkConnectAllowed() error {
 	if ds.connected.IsSet() {
 		return errors.New("subscriber is already connected; disconnect first")
@@ -529,6 +545,13 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, canceled <-ch
 
 // Listen requests that the DataSubscriber establish a listening connection for a DataPublisher.
 func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
+	return ds.ListenWithSettings(port, networkInterface, nil)
+}
+
+// ListenWithSettings requests that the DataSubscriber establish a listening connection for a DataPublisher.
+// Function that applies settings is called when these are not in use by a prior connection any more, it is
+// not called when request gets refused.
+func (ds *DataSubscriber) ListenWithSettings(port uint16, networkInterface string, applySettings func()) error {
 	if err := ds.checkListenAllowed(); err != nil {
 		return err
 	}
@@ -567,12 +590,23 @@ func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
 	ds.connector.cancelSequences()
 
 	ds.listeningSocket = listeningSocket
-	ds.listeningSocketAcceptThread = thread.NewThread(func() { ds.runListeningSocketAcceptThread(listeningSocket) })
 	ds.listening.Set()
-	ds.listeningSocketAcceptThread.Start()
 
 	ds.disconnectThreadMutex.Unlock()
-	ds.connector.joinReconnectThread()
+	ds.waitForPriorConnection()
+
+	if applySettings != nil {
+		applySettings()
+	}
+
+	ds.disconnectThreadMutex.Lock()
+	defer ds.disconnectThreadMutex.Unlock()
+
+	// Listening may have been ended by a disconnect in the meantime
+	if ds.listeningSocket == listeningSocket {
+		ds.listeningSocketAcceptThread = thread.NewThread(func() { ds.runListeningSocketAcceptThread(listeningSocket) })
+		ds.listeningSocketAcceptThread.Start()
+	}
 
 	return nil
 }
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index 5f28f7b..532bc05 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -182,6 +182,13 @@ func (sc *SubscriberConnector) waitForRetry(canceled <-chan struct{}) {
 
 // Connect initiates a connection sequence for a DataSubscriber
 func (sc *SubscriberConnector) Connect(ds *DataSubscriber) ConnectStatusEnum {
+	return sc.ConnectWithSettings(ds, nil)
+}
+
+// ConnectWithSettings initiates a connection sequence for a DataSubscriber. Function that applies
+// settings is called when these are not in use by a prior connection any more, it is not called
+// when request gets refused.
+func (sc *SubscriberConnector) ConnectWithSettings(ds *DataSubscriber, applySettings func()) ConnectStatusEnum {
 	// New connection sequence takes over from any automatic reconnect in progress
 	canceled, err := ds.beginConnect()
 
@@ -190,7 +197,11 @@ func (sc *SubscriberConnector) Connect(ds *DataSubscriber) ConnectStatusEnum {
 		return ConnectStatus.Failed
 	}
 
-	sc.joinReconnectThread()
+	ds.waitForPriorConnection()
+
+	if applySettings != nil {
+		applySettings()
+	}
 
 	return sc.connect(ds, false, canceled)
 }
-- 
2.43.0


From c3d486039e3f514d1727a233976e1d8f770f6e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:15:22 +0000
Subject: [PATCH 41/44] fix: decode TSSC packets that arrive over command and
 data channel one at a time

---
 sttp/transport/DataSubscriber.go   | 3 +++
 sttp/transport/SignalIndexCache.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index b331944..1dc7bac 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1586,6 +1586,9 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 		return measurements
 	}
 
+	signalIndexCache.tsscDecoderMutex.Lock()
+	defer signalIndexCache.tsscDecoderMutex.Unlock()
+
 	decoder := signalIndexCache.tsscDecoder
 	var newDecoder bool
 
diff --git a/sttp/transport/SignalIndexCache.go b/sttp/transport/SignalIndexCache.go
index e2fedd5..8b8f3d5 100644
--- a/sttp/transport/SignalIndexCache.go
+++ b/sttp/transport/SignalIndexCache.go
@@ -27,6 +27,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"math"
+	"sync"
 
 	"github.com/sttp/goapi/sttp/guid"
 	"github.com/sttp/goapi/sttp/hashset"
@@ -43,6 +44,9 @@ type SignalIndexCache struct {
 	signalIDCache  map[guid.Guid]int32
 	binaryLength   uint32
 	tsscDecoder    *tssc.Decoder
+
+	// Lock used to decode one TSSC packet at a time
+	tsscDecoderMutex sync.Mutex
 }
 
 // NewSignalIndexCache makes a new SignalIndexCache
-- 
2.43.0


From 89b1ef52d6e0f3c0bf8dccb4850ef3355fe61697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:15:22 +0000
Subject: [PATCH 42/44] fix: synchronize update of base times with UDP data
 channel

---
 sttp/transport/DataSubscriber.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 1dc7bac..6a400a6 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -166,6 +166,7 @@ type DataSubscriber struct {
 	cacheIndex              int32
 	timeIndex               int32
 	baseTimeOffsets         [2]int64
+	baseTimesMutex          sync.Mutex
 	keyIVs                  [][][]byte
 	keyIVsMutex             sync.Mutex
 	lastMissingCacheWarning ticks.Ticks
@@ -463,8 +464,10 @@ func (ds *DataSubscriber) setupConnection() {
 	ds.cacheIndex = 0
 	ds.signalIndexCacheMutex.Unlock()
 
+	ds.baseTimesMutex.Lock()
 	ds.timeIndex = 0
 	ds.baseTimeOffsets = [2]int64{}
+	ds.baseTimesMutex.Unlock()
 
 	ds.keyIVsMutex.Lock()
 	ds.keyIVs = nil
@@ -1422,16 +1425,17 @@ func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
 		timeIndex = 1
 	}
 
-	ds.timeIndex = timeIndex
-
 	var baseTimeOffsets [2]int64
 
 	baseTimeOffsets[0] = int64(binary.BigEndian.Uint64(data[4:]))
 	baseTimeOffsets[1] = int64(binary.BigEndian.Uint64(data[12:]))
 
+	ds.baseTimesMutex.Lock()
+	ds.timeIndex = timeIndex
 	ds.baseTimeOffsets = baseTimeOffsets
+	ds.baseTimesMutex.Unlock()
 
-	timestamp, _ := ticks.Ticks(ds.baseTimeOffsets[ds.timeIndex^1]).ToTime().MarshalText()
+	timestamp, _ := ticks.Ticks(baseTimeOffsets[timeIndex^1]).ToTime().MarshalText()
 	ds.dispatchStatusMessage("Received new base time offset from publisher: " + string(timestamp))
 }
 
@@ -1708,11 +1712,16 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 	includeTime := ds.subscription.IncludeTime
 	ds.subscriptionMutex.Unlock()
 
+	// Get a local copy of base time offsets - these can change at any time
+	ds.baseTimesMutex.Lock()
+	baseTimeOffsets := ds.baseTimeOffsets
+	ds.baseTimesMutex.Unlock()
+
 	index := 0
 
 	for i := uint32(0); i < count; i++ {
 		// Deserialize compact measurement format
-		compactMeasurement := NewCompactMeasurement(signalIndexCache, includeTime, useMillisecondResolution, &ds.baseTimeOffsets)
+		compactMeasurement := NewCompactMeasurement(signalIndexCache, includeTime, useMillisecondResolution, &baseTimeOffsets)
 		bytesDecoded, err := compactMeasurement.Decode(data[index:])
 
 		if err != nil {
-- 
2.43.0


From 2abee3dd7b7214a3ba9bbc5661dcc2fcb1a06de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:56:27 +0000
Subject: [PATCH 43/44] fix: connect to and listen at IPv6 addresses

---
 sttp/transport/DataSubscriber.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 6a400a6..1bd7d7a 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -442,7 +442,7 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, canceled <-chan
 
 	// TODO: Add TLS implementation options
 	var dialer net.Dialer
-	conn, err := dialer.DialContext(ctx, "tcp", hostName+":"+strconv.Itoa(int(port)))
+	conn, err := dialer.DialContext(ctx, "tcp", net.JoinHostPort(hostName, strconv.Itoa(int(port))))
 
 	if err == nil {
 		err = ds.establishConnection(conn, canceled)
@@ -570,7 +570,7 @@ func (ds *DataSubscriber) ListenWithSettings(port uint16, networkInterface strin
 	}
 
 	// TODO: Add TLS implementation options
-	listeningSocket, err := net.Listen("tcp", networkInterface+":"+strconv.Itoa(int(port)))
+	listeningSocket, err := net.Listen("tcp", net.JoinHostPort(networkInterface, strconv.Itoa(int(port))))
 
 	if err != nil {
 		return err
-- 
2.43.0


From 1ed085b16c4f12631129a6e32db78e71cb44eabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:09:55 +0000
Subject: [PATCH 44/44] fix: close UDP data channel when resubscribing while
 the connection gets lost

---
 sttp/transport/DataSubscriber.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 1bd7d7a..c55b1ff 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -752,12 +752,14 @@ func (ds *DataSubscriber) Unsubscribe() {
 }
 
 func (ds *DataSubscriber) unsubscribe() {
+	// Connection may be getting lost right now, UDP socket must not stay open in this case either
+	defer ds.closeDataChannel()
+
 	if ds.connected.IsNotSet() {
 		return
 	}
 
 	ds.SendServerCommand(ServerCommand.Unsubscribe)
-	ds.closeDataChannel()
 }
 
 // closeDataChannel closes UDP data channel, if open, and waits for its thread to complete.
-- 
2.43.0

