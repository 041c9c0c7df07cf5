From 2a3df3b4d763a506bfe85489077b0655bf527a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 001/104] fix: discard slices larger than the sliced queue's
 frames instead of overflowing them

---
 src/SlicedVideoFrameQueue.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index 93cc8ad..a097918 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -133,6 +133,12 @@ void SlicedVideoFrameQueue::pushBackSliceGroup(Slice* slices, int sliceNum)
 
     for (int i=0; i<sliceNum; i++) {
 
+        if (slices[i].getDataSize() > frames[rear]->getMaxLength()) {
+            utils::errorMsg("[SlicedVideoFrameQueue] Slice exceeds the maximum slice size, discarding it");
+            lostBlocs++;
+            continue;
+        }
+
         if ((frame = innerGetRear()) == NULL){
             frame = innerForceGetRear();
         }
-- 
2.43.0


From f73b07c552dcec46708f985c1f0b8791e0d66fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 002/104] fix: pad long audio gaps in chunks instead of reading
 past the silence frame

---
 src/AudioCircularBuffer.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 5862326..a33938b 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -22,6 +22,7 @@
 
 #include "AudioCircularBuffer.hh"
 #include "Utils.hh"
+#include <algorithm>
 #include <cstring>
 #include <iostream>
 
@@ -99,7 +100,7 @@ std::vector<int> AudioCircularBuffer::addFrame()
     std::chrono::microseconds rearTs;
     std::chrono::microseconds deviation;
     std::vector<int> ret;
-    unsigned paddingSamples;
+    int64_t paddingSamples;
     unsigned rearSampleIdx;
 
     inTs = inputFrame->getPresentationTime();
@@ -123,16 +124,22 @@ std::vector<int> AudioCircularBuffer::addFrame()
 
         paddingSamples = (deviation.count()*sampleRate)/std::micro::den;
 
-        if (paddingSamples >= chMaxSamples) {
+        if (paddingSamples >= (int64_t)chMaxSamples) {
             utils::warningMsg("[AudioCircularBuffer] Time discontinuity. Flushing buffer!");
             flush();
             return ret;
         }
 
-        if(!pushBack(dummyFrame->getPlanarDataBuf(), paddingSamples)) {
+        if (paddingSamples > getFreeSamples()) {
             utils::warningMsg("[AudioCircularBuffer] Cannot push padding");
             return ret;
         }
+
+        while (paddingSamples > 0) {
+            int chunk = std::min(paddingSamples, (int64_t)AudioFrame::getMaxSamples(sampleRate));
+            pushBack(dummyFrame->getPlanarDataBuf(), chunk);
+            paddingSamples -= chunk;
+        }
     }
 
     if(!pushBack(inputFrame->getPlanarDataBuf(), inputFrame->getSamples())) {
-- 
2.43.0


From f528084ce465cc4e59d42c146463fd8f087590a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 003/104] fix: refuse audio circular buffers with no room or
 more channels than planes

---
 src/AudioCircularBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index a33938b..44814a0 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -59,6 +59,7 @@ AudioCircularBuffer::~AudioCircularBuffer()
         
         delete inputFrame;
         delete outputFrame;
+        delete dummyFrame;
     }
 }
 
@@ -186,7 +187,7 @@ Frame* AudioCircularBuffer::forceGetFront()
 
 bool AudioCircularBuffer::setup()
 {
-    if (channels <= 0 || sampleRate <= 0 || chMaxSamples <= 0) {
+    if (channels <= 0 || channels > MAX_CHANNELS || sampleRate < 1000 || chMaxSamples <= 0) {
         return false;
     }
 
-- 
2.43.0


From d23fb54f2d4480f6dd54c92677dd88dd18dbf53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:40 +0000
Subject: [PATCH 004/104] fix: guard the audio circular buffer's writer side
 with its mutex

---
 src/AudioCircularBuffer.cpp | 8 ++++----
 src/AudioCircularBuffer.hh  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 44814a0..cf3fb56 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -73,7 +73,7 @@ Frame* AudioCircularBuffer::getFront()
     std::chrono::microseconds ts;
     unsigned frontSampleIdx;
 
-    std::lock_guard<std::mutex> guard(mtx);
+    std::lock_guard<std::recursive_mutex> guard(mtx);
 
     if (!fillNewFrame) {
         return outputFrame;
@@ -104,6 +104,8 @@ std::vector<int> AudioCircularBuffer::addFrame()
     int64_t paddingSamples;
     unsigned rearSampleIdx;
 
+    std::lock_guard<std::recursive_mutex> guard(mtx);
+
     inTs = inputFrame->getPresentationTime();
 
     if (!synchronized) {
@@ -148,8 +150,6 @@ std::vector<int> AudioCircularBuffer::addFrame()
         return ret;
     }
     
-    std::lock_guard<std::mutex> guard(mtx);
-    
     orgTime = inputFrame->getOriginTime();
     
     for (auto& r : connectionData.readers){
@@ -167,7 +167,7 @@ int AudioCircularBuffer::removeFrame()
 
 void AudioCircularBuffer::doFlush()
 {
-    std::lock_guard<std::mutex> guard(mtx);
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     rear = 0;
     front = 0;
     elements = 0;
diff --git a/src/AudioCircularBuffer.hh b/src/AudioCircularBuffer.hh
index b3194b5..51e36c3 100644
--- a/src/AudioCircularBuffer.hh
+++ b/src/AudioCircularBuffer.hh
@@ -123,7 +123,7 @@ private:
     std::chrono::system_clock::time_point orgTime;
 
     int tsDeviationThreshold;
-    std::mutex mtx;
+    std::recursive_mutex mtx;
 
     unsigned elements;
 };
-- 
2.43.0


From be4bf3b301a573cd1e14c4a003191991eeb2db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:26 +0000
Subject: [PATCH 005/104] fix: do not truncate the audio circular buffer's
 stream position to 32 bits

---
 src/AudioCircularBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index cf3fb56..0248106 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -71,7 +71,7 @@ Frame* AudioCircularBuffer::getRear()
 Frame* AudioCircularBuffer::getFront()
 {
     std::chrono::microseconds ts;
-    unsigned frontSampleIdx;
+    size_t frontSampleIdx;
 
     std::lock_guard<std::recursive_mutex> guard(mtx);
 
@@ -102,7 +102,7 @@ std::vector<int> AudioCircularBuffer::addFrame()
     std::chrono::microseconds deviation;
     std::vector<int> ret;
     int64_t paddingSamples;
-    unsigned rearSampleIdx;
+    size_t rearSampleIdx;
 
     std::lock_guard<std::recursive_mutex> guard(mtx);
 
-- 
2.43.0


From b4a22626bb8282d18d1731e6a0296bb552fb8892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 006/104] fix: release the shared frame when the last filter
 holding it disconnects

---
 src/IOInterface.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 4481d84..b0a0cfd 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -205,6 +205,13 @@ bool Reader::disconnect(int id)
     }
     
     if (filters.size() > 0){
+        //The leaving filter may have been the last one holding the current frame
+        if (queue && frame && !ready && allRead()){
+            measureDelay();
+            frame = NULL;
+            ready = true;
+            queue->removeFrame();
+        }
         return true;
     }
     
-- 
2.43.0


From 3228847a917809a3e8e4bb21a8cce5e7ce8a7bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 007/104] fix: free the queue of a refused connection

---
 src/Filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 47a93d2..b7b8617 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -353,6 +353,7 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
     }
 
     if (!(r = R->setReader(readerID, queue))) {
+        delete queue;
         deleteWriter(writerID);
         utils::errorMsg("Could not create the reader or set the queue");
         return false;
-- 
2.43.0


From b3d62f50d9688fb9dfb788b216248fcb5c937774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 008/104] fix: do not keep a null reader when the reader
 configuration is refused

---
 src/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index b7b8617..6610d9e 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -130,7 +130,7 @@ std::shared_ptr<Reader> BaseFilter::setReader(int readerID, FrameQueue* queue)
     std::shared_ptr<Reader> r (new Reader());
     
     if (!specificReaderConfig(readerID, queue)){
-        r.reset();
+        return NULL;
     }
     
     readers[readerID] = r;
-- 
2.43.0


From 3475310fb903667308f58f55b9fbab1639c387c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 009/104] fix: do not share a reader beyond the maximum readers
 of the sharing filter

---
 src/Filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 6610d9e..9797525 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -273,6 +273,11 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
+    if (shared->readers.count(sharedRId) == 0 && shared->readers.size() >= shared->getMaxReaders()){
+        utils::errorMsg("The shared filter has no reader left!");
+        return false;
+    }
+    
     if (!shared->specificReaderConfig(sharedRId, readers[orgRId]->getQueue())){
         return false;
     }
-- 
2.43.0


From 1272826c9b3095601347aa66902b95a8b4f7b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 010/104] fix: order filter events by due time so a delayed
 event does not hold back due ones

---
 src/Event.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Event.cpp b/src/Event.cpp
index 9ee2079..b927c25 100644
--- a/src/Event.cpp
+++ b/src/Event.cpp
@@ -28,7 +28,7 @@
 
 bool Event::operator<(const Event& e) const
 {
-    return timestamp > e.timestamp;
+    return timestamp + delay > e.timestamp + e.delay;
 }
 
 Event::Event(Jzon::Object rootNode, std::chrono::system_clock::time_point timestamp, int delay) 
-- 
2.43.0


From 3d34d5203ebbabeecf1babdc92780c042824c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 011/104] fix: take the selected task from the pool's queue,
 not the one at its front

---
 src/WorkersPool.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index a0a069a..78aec47 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -39,9 +39,9 @@ void TaskQueue::pushBack(Runnable *run){
 }
 
 void TaskQueue::pop(){
-    if (!queue.empty()){
-        sQueue.erase(queue.front());
-        queue.pop_front();
+    if (iter != queue.end()){
+        sQueue.erase(*iter);
+        queue.erase(iter);
         resetIterator();
     }
 }
-- 
2.43.0


From 4d1a66db2844b8abfb4ad711185fbf5b4fde3542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 012/104] fix: drop a removed task's pending run from the
 pool's queue

---
 src/WorkersPool.cpp | 13 +++++++++++++
 src/WorkersPool.hh  |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index 78aec47..71568d2 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -24,6 +24,8 @@
 #include "WorkersPool.hh"
 #include "Utils.hh"
 
+#include <algorithm>
+
 #define HW_CONC_FACTOR 2
 
 TaskQueue::TaskQueue(){
@@ -50,9 +52,19 @@ void TaskQueue::resetIterator(){
     iter = queue.begin();
 }
 
+void TaskQueue::remove(Runnable *run){
+    std::deque<Runnable*>::iterator it = std::find(queue.begin(), queue.end(), run);
+    if (it != queue.end()){
+        sQueue.erase(run);
+        queue.erase(it);
+        resetIterator();
+    }
+}
+
 void TaskQueue::clear(){
     queue.clear();
     sQueue.clear();
+    resetIterator();
 }
 
 Runnable* TaskQueue::current(){
@@ -182,6 +194,7 @@ bool WorkersPool::removeTask(const int id)
     if (runnables.count(id) > 0){
         Runnable *runnable = runnables[id];
         runnables.erase(id);
+        queue.remove(runnable);
         guard.unlock();
         qCheck.notify_one();
         while(runnable->isRunning()){
diff --git a/src/WorkersPool.hh b/src/WorkersPool.hh
index 62e9019..7c00136 100644
--- a/src/WorkersPool.hh
+++ b/src/WorkersPool.hh
@@ -42,6 +42,8 @@ public:
     
     void pop();
     
+    void remove(Runnable *run);
+    
     void resetIterator();
     
     void clear();
-- 
2.43.0


From c790087777506578544728da7a33b6aa03a24827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 013/104] fix: keep a task marked as running until the worker
 is done with it

---
 src/WorkersPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index 71568d2..03bc873 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -130,7 +130,6 @@ WorkersPool::WorkersPool(size_t threads) : run(true)
                     enabledJobs = job->runProcessFrame();
                     
                     guard.lock();
-                    job->unsetRunning();
                     
                     if (job->pendingJobs()){
                         enabledJobs.push_back(job->getId());
@@ -143,6 +142,7 @@ WorkersPool::WorkersPool(size_t threads) : run(true)
                         added = true;
                     }
                     
+                    job->unsetRunning();
                     guard.unlock();
                     if (added){
                         qCheck.notify_one();
-- 
2.43.0


From 683509750ac172accbe69c4fed659142c717927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 014/104] fix: release the audio mixer's buffers with delete[]

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index c65267f..a727b22 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -52,7 +52,7 @@ syncTs(std::chrono::microseconds(-1))
 AudioMixer::~AudioMixer() 
 {
     for (int i = 0; i < MAX_CHANNELS; i++) {
-        delete mixBuffers[i];
+        delete[] mixBuffers[i];
     }
 }
 
-- 
2.43.0


From 6ddeb93e9ae30ccfb162c31faf902fce574896f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 015/104] fix: clear the audio mixing buffers on resync

---
 src/modules/audioMixer/AudioMixer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index a727b22..e6ba3a5 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -136,6 +136,9 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
         utils::errorMsg("[AudioMixer] Received frame exceeds buffer scope. Resyncing!");
         front = 0;
         rear = 0;
+        for (int i = 0; i < MAX_CHANNELS; i++) {
+            memset(mixBuffers[i], 0, mixBufferMaxSamples*sizeof(float));
+        }
         syncTs = frame->getPresentationTime();
         absolutePosition = front;
     }
-- 
2.43.0


From 8f32d236d7417023ada6fe35fae87f99b1077c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 016/104] fix: do not limit the audio mix again when a channel
 adds nothing to it

---
 src/modules/audioMixer/AudioMixer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index e6ba3a5..bf30b1a 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -170,7 +170,13 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
 
 void AudioMixer::mixSample(float sample, float* mixBuff, int bufferIdx, float gain)
 {
-    mixBuff[bufferIdx] += sample*gain*masterGain;
+    float weighted = sample*gain*masterGain;
+
+    if (weighted == 0) {
+        return;
+    }
+
+    mixBuff[bufferIdx] += weighted;
 
     if (mixBuff[bufferIdx] > th) {
         mixBuff[bufferIdx] = ((1-th)/(2-th))*mixBuff[bufferIdx] + th/(2-th);
-- 
2.43.0


From 954637ea5a8b8ff8753df8b57e924b7cbcf01c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 017/104] fix: keep audio mixing positions in 64 bits

---
 src/modules/audioMixer/AudioMixer.cpp | 14 +++++++-------
 src/modules/audioMixer/AudioMixer.hh  |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index bf30b1a..a4b0ca3 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -104,11 +104,11 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     float* mixBuff;
     float fSample;
     SampleFmt fmt;
-    unsigned nOfSamples;
+    int64_t nOfSamples;
     int bytesPerSample;
-    unsigned absolutePosition;
+    int64_t absolutePosition;
     unsigned bufferIdx;
-    unsigned freeSpaceInMixBuffer;
+    int64_t freeSpaceInMixBuffer;
 
     bytesPerSample = utils::getBytesPerSampleFromFormat(sampleFormat);
     fmt = frame->getSampleFmt();
@@ -127,12 +127,12 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
 
     absolutePosition = (frame->getPresentationTime() - syncTs).count()*sampleRate/std::micro::den;
 
-    if (absolutePosition < front) {
+    if (absolutePosition >= 0 && absolutePosition < front) {
         utils::errorMsg("[AudioMixer] Samples from the past ignored");
         return false;
     }
 
-    if (absolutePosition > front + mixBufferMaxSamples - nOfSamples) {
+    if (absolutePosition < 0 || absolutePosition > front + mixBufferMaxSamples - nOfSamples) {
         utils::errorMsg("[AudioMixer] Received frame exceeds buffer scope. Resyncing!");
         front = 0;
         rear = 0;
@@ -149,7 +149,7 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
         bufferIdx = absolutePosition % mixBufferMaxSamples;
         mixBuff = mixBuffers[i];
 
-        for (unsigned j = 0; j < nOfSamples; j++) {
+        for (int64_t j = 0; j < nOfSamples; j++) {
 
             if (!bytesToFloat(b + j*bytesPerSample, fSample, fmt)) {
                 utils::errorMsg("[AudioMixer] Error converting samples from bytes to float");
@@ -187,7 +187,7 @@ void AudioMixer::mixSample(float sample, float* mixBuff, int bufferIdx, float ga
 
 bool AudioMixer::extractMixedFrame(AudioFrame* frame)
 {
-    unsigned mixedElements = rear - front;
+    int64_t mixedElements = rear - front;
     unsigned pos;
     unsigned char* b;
     float *mixB;
diff --git a/src/modules/audioMixer/AudioMixer.hh b/src/modules/audioMixer/AudioMixer.hh
index df43e82..7eb9652 100644
--- a/src/modules/audioMixer/AudioMixer.hh
+++ b/src/modules/audioMixer/AudioMixer.hh
@@ -145,8 +145,8 @@ private:
     int inputFrameSamples;
     SampleFmt sampleFormat;
     int maxMixingChannels;
-    unsigned front;
-    unsigned rear;
+    int64_t front;
+    int64_t rear;
 
     float masterGain;
     float th;  //Dynamic Range Compression algorithm threshold
-- 
2.43.0


From 2bec0153555c060486aa08079b26a25415080e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 018/104] fix: draw video mixer channels placed on the topmost
 layer

---
 src/modules/videoMixer/VideoMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 22a45db..36beaa3 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -114,7 +114,7 @@ bool VideoMixer::doProcessFrame(std::map<int, Frame*> &orgFrames, Frame *dst, st
 
     layoutImg = cv::Scalar(0, 0, 0);
 
-    for (int lay=0; lay < maxChannels; lay++) {
+    for (int lay=0; lay <= maxChannels; lay++) {
 
         for (auto it : orgFrames) {
 
-- 
2.43.0


From 5a2accf22dd6b0edf413d4e1b0cbeff8fddaaded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 019/104] fix: skip video mixer channels with nothing visible
 instead of throwing

---
 src/modules/videoMixer/VideoMixer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 36beaa3..92b8383 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -216,6 +216,10 @@ void VideoMixer::pasteToLayout(int frameID, VideoFrame* vFrame)
     int x = chConfig->getX()*outputWidth;
     int y = chConfig->getY()*outputHeight;
 
+    if (sz.width <= 0 || sz.height <= 0 || x >= outputWidth || y >= outputHeight) {
+        return;
+    }
+
     if (vFrame->getHeight() != sz.height || vFrame->getWidth() != sz.width) {
         cv::Mat resized(sz, img.type());
         cv::resize(img, resized,sz);
-- 
2.43.0


From a2e9f33724e657b8be07b716918f328476939d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 020/104] fix: refuse video mixer channel sizes and positions
 outside their documented range

---
 src/modules/videoMixer/VideoMixer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 92b8383..b21971d 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -165,7 +165,8 @@ bool VideoMixer::configChannel0(int id, float width, float height, float x, floa
         return false;
     }
 
-    if (x < 0 || y < 0 || width <= 0 || height <= 0 || opacity < 0 || opacity > 1.0) {
+    if (!(x >= 0 && x <= 1 && y >= 0 && y <= 1 && width > 0 && width <= 1 && 
+          height > 0 && height <= 1 && opacity >= 0 && opacity <= 1.0)) {
         utils::errorMsg("[VideoMixer] Error configuring channel. Incoherent values");
         return false;
     }
-- 
2.43.0


From 2e9320cd2f1eda38e305807acd09a8f22eb3a9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 021/104] fix: do not overflow when checking a crop against the
 source size

---
 src/modules/videoSplitter/VideoSplitter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index 808311b..1e16d67 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -142,7 +142,7 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 		widthROI = cropsConfig[it.first]->getWidth();
 		heightROI = cropsConfig[it.first]->getHeight();
 
-		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && xROI+widthROI <= vFrame->getWidth() && yROI+heightROI <= vFrame->getHeight()){
+		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && widthROI <= vFrame->getWidth() - xROI && heightROI <= vFrame->getHeight() - yROI){
 			vFrameDst = dynamic_cast<VideoFrame*>(it.second);
 			cropsConfig[it.first]->getCrop()->data = vFrameDst->getDataBuf();
 			vFrameDst->setLength(widthROI * heightROI);
-- 
2.43.0


From b32b33db65cbad3d377df014aa3965c5bcfc03d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 022/104] fix: configuring a crop no longer writes into a frame
 already queued

---
 src/modules/videoSplitter/VideoSplitter.cpp |  7 ++-----
 src/modules/videoSplitter/VideoSplitter.hh  | 16 ----------------
 2 files changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index 1e16d67..54fc14c 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -41,9 +41,6 @@ void CropConfig::config(int width, int height, int x, int y, int degree)
     this->x = x;
     this->y = y;
     this->degree = degree;
-    cv::Mat img(height, width, CV_8UC3);
-    img.copyTo(this->crop);
-
 }
 
 ///////////////////////////////////////////////////
@@ -144,10 +141,10 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 
 		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && widthROI <= vFrame->getWidth() - xROI && heightROI <= vFrame->getHeight() - yROI){
 			vFrameDst = dynamic_cast<VideoFrame*>(it.second);
-			cropsConfig[it.first]->getCrop()->data = vFrameDst->getDataBuf();
+			cv::Mat crop(heightROI, widthROI, CV_8UC3, vFrameDst->getDataBuf());
 			vFrameDst->setLength(widthROI * heightROI);
     		vFrameDst->setSize(widthROI, heightROI);
-    		orgFrame(cv::Rect(xROI, yROI, widthROI, heightROI)).copyTo(cropsConfig[it.first]->getCropRect(0, 0, widthROI, heightROI));
+    		orgFrame(cv::Rect(xROI, yROI, widthROI, heightROI)).copyTo(crop);
 			it.second->setConsumed(true);
 			it.second->setPresentationTime(org->getPresentationTime());
             it.second->setDecodeTime(org->getDecodeTime());
diff --git a/src/modules/videoSplitter/VideoSplitter.hh b/src/modules/videoSplitter/VideoSplitter.hh
index 69238a0..67a75f7 100644
--- a/src/modules/videoSplitter/VideoSplitter.hh
+++ b/src/modules/videoSplitter/VideoSplitter.hh
@@ -77,28 +77,12 @@ class CropConfig {
 	    */
 	    int getDegree() {return degree;};
 
-	    /**
-	    * Class constructor.
-	    * @return Crop
-	    */
-	    cv::Mat *getCrop() {return &crop;};
-
-	    /**
-	    * Class constructor.
-	    * @param x Upper left corner X position
-	    * @param y Upper left corner Y position
-	    * @param w width Channel
-	    * @param h height Channel 
-	    * @return Crop based on params
-	    */
-	    cv::Mat getCropRect(int x, int y, int w, int h) { return crop(cv::Rect(x,y,w,h)); };
 	private:
 		int width;
 	    int height;
 	    int x;
 	    int y;
 	    int degree;
-	    cv::Mat crop;
 };
 
 /*
-- 
2.43.0


From 7c06a50c88f8a9305b346234b3e0fa4bf126c02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:48 +0000
Subject: [PATCH 023/104] fix: initialise the video resampler's pixel formats

---
 src/modules/videoResampler/VideoResampler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index e43f949..a2e3ae4 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -38,6 +38,8 @@ VideoResampler::VideoResampler() : OneToOneFilter()
 
     outputWidth = 0;
     outputHeight = 0;
+    inPixFmt = P_NONE;
+    outPixFmt = RGB24;
     libavOutPixFmt = getLibavPixFmt(outPixFmt);
 
     needsConfig = false;
-- 
2.43.0


From 7cfa47223c87adcf345696317c1c0b77333fee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:48 +0000
Subject: [PATCH 024/104] fix: free the video resampler's previous scaling
 context

---
 src/modules/videoResampler/VideoResampler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index a2e3ae4..bdc8c91 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -92,6 +92,7 @@ bool VideoResampler::reconfigure(VideoFrame* orgFrame)
             outHeight = outputHeight;
         }
         
+        sws_freeContext(imgConvertCtx);
         imgConvertCtx = sws_getContext(orgFrame->getWidth(), orgFrame->getHeight(), 
                                        libavInPixFmt, outWidth, outHeight,
                                        libavOutPixFmt, SWS_FAST_BILINEAR, 0, 0, 0);
-- 
2.43.0


From b2e3beea8b9eb97e8ec144d1a777dbaa032d5aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:48 +0000
Subject: [PATCH 025/104] fix: do not resample into frames too small for the
 output picture

---
 src/modules/videoResampler/VideoResampler.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index bdc8c91..4e5aeb6 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -135,7 +135,14 @@ bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
         outHeight = outputHeight;
     }
     
-    dstFrame->setLength(av_image_get_buffer_size(libavOutPixFmt, outWidth, outHeight, 1));
+    int outLength = av_image_get_buffer_size(libavOutPixFmt, outWidth, outHeight, 1);
+
+    if (outLength <= 0 || (unsigned)outLength > dstFrame->getMaxLength()){
+        utils::errorMsg("[Resampler] Output picture does not fit in the output frame");
+        return false;
+    }
+
+    dstFrame->setLength(outLength);
     dstFrame->setSize(outWidth, outHeight);
     dstFrame->setPixelFormat(outPixFmt);
 
-- 
2.43.0


From 1231dd888ddf256cce162c18443aea7a2cfb1d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:48 +0000
Subject: [PATCH 026/104] fix: keep the resampler's configuration when a new
 one is refused

---
 src/modules/videoResampler/VideoResampler.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index 4e5aeb6..dcd326a 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -170,6 +170,10 @@ bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
 
 bool VideoResampler::configure0(int width, int height, int fps, PixType pixelFormat) 
 {
+    if (width < 0 || height < 0 || getLibavPixFmt(pixelFormat) == AV_PIX_FMT_NONE) {
+        return false;
+    }
+
     outputWidth = width;
     outputHeight = height;
     outPixFmt = pixelFormat;
@@ -183,10 +187,6 @@ bool VideoResampler::configure0(int width, int height, int fps, PixType pixelFor
         setFrameTime(std::chrono::microseconds(std::micro::den/fps));
     }
     
-    if (libavOutPixFmt == AV_PIX_FMT_NONE){
-        return false;
-    }
-    
     return true;
 }
 
-- 
2.43.0


From 0fa2eb4c265dd9105b85e78c963a189c50cdcd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 027/104] fix: do not parse NAL units shorter than their start
 code when sharing them

---
 src/modules/sharedMemory/SharedMemory.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index c04eb39..a0e2a72 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -211,17 +211,22 @@ bool SharedMemory::parseNal(VideoFrame* nal, bool &newFrame)
     unsigned char* nalData;
     int nalDataLength;
 
-    startCodeOffset = detectStartCode(nal->getDataBuf());
+    nalData = nal->getDataBuf();
+    nalDataLength = nal->getLength();
+
+    if (!nalData || nalDataLength < LONG_START_CODE_LENGTH) {
+        utils::errorMsg("Error parsing NAL: invalid data pointer or length");
+        return false;
+    }
+
+    startCodeOffset = detectStartCode(nalData);
 
     if(startCodeOffset == 0){
         utils::errorMsg("Error parsing NAL: no start code detected");
         return false;
     }
 
-    nalData = nal->getDataBuf();
-    nalDataLength = nal->getLength();
-
-    if (!nalData || nalDataLength <= 0) {
+    if (nalDataLength <= startCodeOffset) {
         utils::errorMsg("Error parsing NAL: invalid data pointer or length");
         return false;
     }
-- 
2.43.0


From d0bc20b8e24eea821308326a107e8dc7a359798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 028/104] fix: do not write frames larger than the shared
 memory segment past its end

---
 src/modules/sharedMemory/SharedMemory.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index a0e2a72..3404779 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -137,6 +137,10 @@ bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
             parseNal(vframe, newFrame);
             break;
         case RAW:
+            if (vframe->getLength() > SHMSIZE - HEADER_SIZE) {
+                utils::errorMsg("SharedMemory::error - frame does not fit in the shared memory");
+                break;
+            }
             writeFramePayload(vframe);
             writeSharedMemoryRAW(vframe->getDataBuf(), vframe->getLength());
             break;
@@ -189,7 +193,7 @@ void SharedMemory::writeSharedMemoryH264()
     uint8_t* data;
     unsigned dataLength;
     uint32_t length;
-    data = reinterpret_cast<uint8_t*> (&frameData[0]);
+    data = reinterpret_cast<uint8_t*> (frameData.data());
     dataLength = frameData.size();
     length = dataLength;
 
@@ -198,6 +202,11 @@ void SharedMemory::writeSharedMemoryH264()
         return;
     }
 
+    if (dataLength > SHMSIZE - HEADER_SIZE) {
+        utils::errorMsg("SharedMemory::error - frame does not fit in the shared memory");
+        return;
+    }
+
     *access = CHAR_WRITING;
     memcpy(access+20, &length, sizeof(uint32_t));
     memcpy(buffer, data, sizeof(uint8_t) * dataLength);
-- 
2.43.0


From 95fca85f377fb1345e375618dd73ce7b6fd875b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 029/104] fix: describe the published access unit in the shared
 header, not the one after it

---
 src/modules/sharedMemory/SharedMemory.cpp | 28 +++++++++++++++--------
 src/modules/sharedMemory/SharedMemory.hh  |  2 ++
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 3404779..0341050 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -129,7 +129,6 @@ bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
     switch(vframe->getCodec()){
         case H264:
             if(vframe->getSequenceNumber() != seqNum && newFrame){
-                writeFramePayload(vframe);
                 writeSharedMemoryH264();
                 seqNum = vframe->getSequenceNumber();
                 frameData.clear();
@@ -208,6 +207,7 @@ void SharedMemory::writeSharedMemoryH264()
     }
 
     *access = CHAR_WRITING;
+    memcpy(access+2, frameHeader+2, HEADER_SIZE-2);
     memcpy(access+20, &length, sizeof(uint32_t));
     memcpy(buffer, data, sizeof(uint8_t) * dataLength);
     *access = CHAR_READING;
@@ -219,6 +219,7 @@ bool SharedMemory::parseNal(VideoFrame* nal, bool &newFrame)
     int startCodeOffset;
     unsigned char* nalData;
     int nalDataLength;
+    bool firstNal = frameData.empty();
 
     nalData = nal->getDataBuf();
     nalDataLength = nal->getLength();
@@ -245,6 +246,10 @@ bool SharedMemory::parseNal(VideoFrame* nal, bool &newFrame)
         return false;
     }
 
+    if (firstNal && !frameData.empty()) {
+        fillHeader(nal, frameHeader);
+    }
+
     return true;
 }
 
@@ -311,6 +316,11 @@ int SharedMemory::writeSharedMemoryRAW(uint8_t *buf, int buf_size)
 }
 
 void SharedMemory::writeFramePayload(InterleavedVideoFrame *frame) 
+{
+    fillHeader(frame, access);
+}
+
+void SharedMemory::fillHeader(VideoFrame *frame, uint8_t *header)
 {
     uint32_t tv_sec = frame->getPresentationTime().count()/std::micro::den;
     uint32_t tv_usec = frame->getPresentationTime().count()%std::micro::den;
@@ -321,14 +331,14 @@ void SharedMemory::writeFramePayload(InterleavedVideoFrame *frame)
     uint16_t pixFmt = getPixelFormatFromPixType(frame->getPixelFormat());
     uint16_t seqN = frame->getSequenceNumber();
 
-    memcpy(access+2, &seqN, sizeof(uint16_t));
-    memcpy(access+4, &pixFmt, sizeof(uint16_t));
-    memcpy(access+6, &codec, sizeof(uint16_t));
-    memcpy(access+8, &height, sizeof(uint16_t));
-    memcpy(access+10, &width, sizeof(uint16_t));
-    memcpy(access+12, &tv_sec, sizeof(uint32_t));
-    memcpy(access+16, &tv_usec, sizeof(uint32_t));
-    memcpy(access+20, &length, sizeof(uint32_t));
+    memcpy(header+2, &seqN, sizeof(uint16_t));
+    memcpy(header+4, &pixFmt, sizeof(uint16_t));
+    memcpy(header+6, &codec, sizeof(uint16_t));
+    memcpy(header+8, &height, sizeof(uint16_t));
+    memcpy(header+10, &width, sizeof(uint16_t));
+    memcpy(header+12, &tv_sec, sizeof(uint32_t));
+    memcpy(header+16, &tv_usec, sizeof(uint32_t));
+    memcpy(header+20, &length, sizeof(uint32_t));
 }
 
 bool SharedMemory::isWritable() {
diff --git a/src/modules/sharedMemory/SharedMemory.hh b/src/modules/sharedMemory/SharedMemory.hh
index cc6d783..b542c76 100644
--- a/src/modules/sharedMemory/SharedMemory.hh
+++ b/src/modules/sharedMemory/SharedMemory.hh
@@ -96,6 +96,7 @@ protected:
     int detectStartCode(unsigned char const* ptr);
     int writeSharedMemoryRAW(uint8_t *buffer, int buffer_size);
     void writeFramePayload(InterleavedVideoFrame *frame);
+    void fillHeader(VideoFrame *frame, uint8_t *header);
     bool isWritable();
     uint16_t getSeqNum() { return seqNum;};
     void setSeqNum(uint16_t seqNum_) { seqNum = seqNum_;};
@@ -137,6 +138,7 @@ private:
     bool        enabled;
     bool        newFrame;
     std::vector<unsigned char>    frameData;
+    uint8_t                       frameHeader[HEADER_SIZE];
     VCodecType const              codec;
     uint16_t                      seqNum;
 };
-- 
2.43.0


From 03ca05fafd3603478429287c9879d7f8fb68dc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:44 +0000
Subject: [PATCH 030/104] fix: do not publish empty access units to the shared
 memory reader

---
 src/modules/sharedMemory/SharedMemory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 0341050..b635e79 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -196,7 +196,7 @@ void SharedMemory::writeSharedMemoryH264()
     dataLength = frameData.size();
     length = dataLength;
 
-    if (!data) {
+    if (!data || dataLength == 0) {
         utils::errorMsg("SharedMemory::error - no data from appended frame");
         return;
     }
-- 
2.43.0


From 162bc7693e5cb7eb889ea6750fabe79d049ef7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:15 +0000
Subject: [PATCH 031/104] fix: release the buffers of a DASH segmenter with it

---
 src/modules/dasher/DashVideoSegmenterAVC.cpp  |  3 ++-
 src/modules/dasher/DashVideoSegmenterHEVC.cpp |  3 ++-
 src/modules/dasher/Dasher.cpp                 |  2 +-
 src/modules/dasher/i2libdash.c                | 24 +++++++++++++++++++
 src/modules/dasher/i2libdash.h                |  2 ++
 src/modules/dasher/i2libisoff.c               |  2 ++
 6 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index 872910c..4390286 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -33,7 +33,8 @@ DashVideoSegmenter(segDur, VIDEO_CODEC_AVC, offset)
 
 DashVideoSegmenterAVC::~DashVideoSegmenterAVC()
 {
-
+    delete vFrame;
+    delete tmpFrame;
 }
 
 uint8_t DashVideoSegmenterAVC::generateContext()
diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index c703b1b..2173ae3 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -34,7 +34,8 @@ DashVideoSegmenter(segDur, VIDEO_CODEC_HEVC, offset)
 
 DashVideoSegmenterHEVC::~DashVideoSegmenterHEVC()
 {
-
+    delete vFrame;
+    delete tmpFrame;
 }
 
 uint8_t DashVideoSegmenterHEVC::generateContext()
diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index f840bed..f67cf99 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -637,7 +637,7 @@ sequenceNumber(0), bitrateInBitsPerSec(0), tsOffset(offset)
 DashSegmenter::~DashSegmenter()
 {
     if(dashContext){
-        free(dashContext);
+        free_context(&dashContext);
     }
 }
 
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 6158c69..b7d5273 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -48,6 +48,7 @@ void audio_context_initializer(i2ctx **context) {
     (*context)->ctxaudio = (i2ctx_audio *) malloc(sizeof(i2ctx_audio));
     i2ctx_audio *ctxAudio = (*context)->ctxaudio;
 
+    ctxAudio->aac_data = NULL;
     ctxAudio->aac_data_length = 0;
     ctxAudio->segment_data_size = 0;
     ctxAudio->channels = 0;
@@ -76,6 +77,7 @@ void video_context_initializer(i2ctx **context, uint32_t media_type) {
     (*context)->ctxvideo = (i2ctx_video *) malloc(sizeof(i2ctx_video));
     i2ctx_video *ctxVideo = (*context)->ctxvideo;
 
+    ctxVideo->pps_sps_data = NULL;
     ctxVideo->pps_sps_data_length = 0;
     ctxVideo->segment_data_size = 0;
     ctxVideo->width = 0;
@@ -148,6 +150,28 @@ uint8_t generate_context(i2ctx **context, uint32_t media_type)
     return I2OK;
 }
 
+void free_context(i2ctx **context)
+{
+    if ((*context) == NULL) {
+        return;
+    }
+
+    if ((*context)->ctxvideo != NULL) {
+        free((*context)->ctxvideo->pps_sps_data);
+        free((*context)->ctxvideo->ctxsample);
+        free((*context)->ctxvideo);
+    }
+
+    if ((*context)->ctxaudio != NULL) {
+        free((*context)->ctxaudio->aac_data);
+        free((*context)->ctxaudio->ctxsample);
+        free((*context)->ctxaudio);
+    }
+
+    free(*context);
+    *context = NULL;
+}
+
 uint8_t fill_video_context(i2ctx **context, uint32_t width, uint32_t height, uint32_t t_base) 
 {
     if ((*context) == NULL) {
diff --git a/src/modules/dasher/i2libdash.h b/src/modules/dasher/i2libdash.h
index 419e64f..785329f 100644
--- a/src/modules/dasher/i2libdash.h
+++ b/src/modules/dasher/i2libdash.h
@@ -35,6 +35,8 @@
 
 uint8_t generate_context(i2ctx **context, uint32_t media_type); 
 
+void free_context(i2ctx **context);
+
 uint8_t fill_video_context(i2ctx **context, uint32_t width, uint32_t height, uint32_t t_base);
 
 uint8_t fill_audio_context(i2ctx **context, uint32_t channels, uint32_t sample_rate, uint32_t sample_size, uint32_t t_base, uint32_t sample_duration); 
diff --git a/src/modules/dasher/i2libisoff.c b/src/modules/dasher/i2libisoff.c
index 34b9410..18aaf81 100644
--- a/src/modules/dasher/i2libisoff.c
+++ b/src/modules/dasher/i2libisoff.c
@@ -151,6 +151,7 @@ uint32_t initVideoGenerator(byte *source_data, uint32_t size_source_data, byte *
         return I2ERROR_MEDIA_TYPE;
     }
     count = 0;
+    free((*context)->ctxvideo->pps_sps_data);
     (*context)->ctxvideo->pps_sps_data = (byte*) malloc (size_source_data);
     memcpy((*context)->ctxvideo->pps_sps_data, source_data, size_source_data);
     (*context)->ctxvideo->pps_sps_data_length = size_source_data;
@@ -187,6 +188,7 @@ uint32_t initAudioGenerator(byte *source_data, uint32_t size_source_data, byte *
     }
 
     count = 0;
+    free((*context)->ctxaudio->aac_data);
     (*context)->ctxaudio->aac_data = (byte*) malloc(size_source_data);
     memcpy((*context)->ctxaudio->aac_data, source_data, size_source_data);
     (*context)->ctxaudio->aac_data_length = size_source_data;
-- 
2.43.0


From fa31dbfb57389d93ce2bc216ac9dfdb101aa9ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 032/104] fix: use the presentation time of pictures without
 decode time in DASH segments

---
 src/modules/dasher/DashVideoSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashVideoSegmenter.cpp b/src/modules/dasher/DashVideoSegmenter.cpp
index 0a15d68..bd39034 100644
--- a/src/modules/dasher/DashVideoSegmenter.cpp
+++ b/src/modules/dasher/DashVideoSegmenter.cpp
@@ -139,7 +139,7 @@ bool DashVideoSegmenter::appendFrameToDashSegment(Frame* frame)
     }
     
     timeBasePts = microsToTimeBase(vFrame->getPresentationTime());
-    timeBaseDts = microsToTimeBase(vFrame->getDecodeTime());
+    timeBaseDts = microsToTimeBase(vFrame->getFrameTime());
 
     //TODO: test it with bFrames
     addSampleReturn = add_video_sample(vFrame->getDataBuf(), vFrame->getLength(), timeBasePts, 
-- 
2.43.0


From 4e6343f381c6df75b60ad2d74813afef4f6cd782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 033/104] fix: a suffix SEI does not turn the HEVC key frame
 before it into another picture

---
 src/modules/dasher/DashVideoSegmenterHEVC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index 2173ae3..9baabe2 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -101,9 +101,9 @@ VideoFrame* DashVideoSegmenterHEVC::parseNal(VideoFrame* nal)
             currentIntra = false;
             break;
         case PREFIX_SEI_NUT:
-        case SUFFIX_SEI_NUT:
             currentIntra = false;
             break;
+        case SUFFIX_SEI_NUT:
         case AUD_HEVC:
             break;
         case IDR1:
-- 
2.43.0


From ec285539a1718c6d134d7b03376ca858249661cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:50 +0000
Subject: [PATCH 034/104] fix: cut the DASH video segment after a picture that
 lasts longer than it

---
 src/modules/dasher/i2libdash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index b7d5273..0409dfd 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -353,7 +353,7 @@ uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts,
 
     lastSampleDuration = nextFramePts - (*context)->ctxvideo->ctxsample->mdat[sampleIdx].presentation_timestamp;
 
-    if ((nextFrameIsIntra == TRUE) && ((((*context)->duration - lastSampleDuration)) <= ((*context)->ctxvideo->current_video_duration + lastSampleDuration))) {
+    if ((nextFrameIsIntra == TRUE) && ((uint64_t)(*context)->duration <= (uint64_t)(*context)->ctxvideo->current_video_duration + 2*(uint64_t)lastSampleDuration)) {
         (*context)->ctxvideo->ctxsample->mdat[sampleIdx].duration = lastSampleDuration;
         (*context)->ctxvideo->current_video_duration += lastSampleDuration;
 
-- 
2.43.0


From a9a48441e978a4b3fa3c87e5de105805ee369b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:50 +0000
Subject: [PATCH 035/104] fix: refuse NAL units no longer than their start code
 when segmenting them

---
 src/modules/dasher/DashVideoSegmenterAVC.cpp  | 2 +-
 src/modules/dasher/DashVideoSegmenterHEVC.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index 4390286..3b97056 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -76,7 +76,7 @@ VideoFrame* DashVideoSegmenterAVC::parseNal(VideoFrame* nal)
     nalData = nal->getDataBuf() + startCodeOffset;
     nalDataLength = nal->getLength() - startCodeOffset;
 
-    if (!nalData || nalDataLength <= 0) {
+    if (!nalData || nal->getLength() <= (unsigned) startCodeOffset) {
         utils::errorMsg("Error parsing NAL: invalid data pointer or length");
         return NULL;
     }
diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index 9baabe2..bd88452 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -78,7 +78,7 @@ VideoFrame* DashVideoSegmenterHEVC::parseNal(VideoFrame* nal)
     nalData = nal->getDataBuf() + startCodeOffset;
     nalDataLength = nal->getLength() - startCodeOffset;
 
-    if (!nalData || nalDataLength <= 0) {
+    if (!nalData || nal->getLength() <= (unsigned) startCodeOffset) {
         utils::errorMsg("Error parsing NAL: invalid data pointer or length");
         return NULL;
     }
-- 
2.43.0


From 397ec3c532fb649d9a4577d9842d9370f57a916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 036/104] fix: refuse samples that do not fit in the DASH
 segment being built

---
 src/modules/dasher/i2context.h |  3 +++
 src/modules/dasher/i2libdash.c | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/modules/dasher/i2context.h b/src/modules/dasher/i2context.h
index 56facfe..4f81d8f 100644
--- a/src/modules/dasher/i2context.h
+++ b/src/modules/dasher/i2context.h
@@ -32,8 +32,11 @@ typedef unsigned char byte;
 #define AUDIO_TYPE 3
 #define MAX_MDAT_SAMPLE 65536   //H265 -> 119296
 #define MAX_DAT 10*1024*1024 
+#define SEGMENT_HEADERS_SIZE 176    //every box around the media data
+#define SEGMENT_SAMPLE_SIZE 16      //sample entry of the trun box
 //TODO: error negative values
 #define I2ERROR_MAX 10
+#define I2ERROR_SEGMENT_FULL 10
 #define I2ERROR_SPS_PPS 9
 #define I2ERROR_IS_INTRA 8
 #define I2ERROR_DURATION_ZERO 7
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 0409dfd..db8c79d 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -35,6 +35,18 @@ void video_sample_context_initializer(i2ctx_video **ctxVideo);
 
 uint8_t is_key_frame(byte *input_data, uint32_t size_input);
 
+uint8_t segment_full(uint32_t segment_data_size, uint32_t samples, uint32_t new_data_size);
+
+// TRUE if the generated segment could not hold another sample
+uint8_t segment_full(uint32_t segment_data_size, uint32_t samples, uint32_t new_data_size)
+{
+    uint64_t size = (uint64_t) segment_data_size + new_data_size + SEGMENT_HEADERS_SIZE;
+
+    size += (uint64_t) SEGMENT_SAMPLE_SIZE * (samples + 1);
+
+    return (samples >= MAX_MDAT_SAMPLE || size > MAX_DAT) ? TRUE : FALSE;
+}
+
 void set_segment_duration(uint32_t segment_duration, i2ctx **context)
 {
     (*context)->duration = segment_duration;
@@ -459,6 +471,10 @@ uint32_t add_video_sample(byte *input_data, uint32_t input_data_length, uint64_t
         return I2ERROR_IS_INTRA;
     }
 
+    if (segment_full((*context)->ctxvideo->segment_data_size, (*context)->ctxvideo->ctxsample->mdat_sample_length, input_data_length)) {
+        return I2ERROR_SEGMENT_FULL;
+    }
+
     // Add segment data
     memcpy((*context)->ctxvideo->segment_data + (*context)->ctxvideo->segment_data_size, input_data, input_data_length);
     (*context)->ctxvideo->segment_data_size += input_data_length;
@@ -506,6 +522,10 @@ uint32_t add_audio_sample(byte *input_data, uint32_t input_data_length, uint32_t
     // Add sample or Init new segmentation
     i2ctx_sample *ctxSample = (*context)->ctxaudio->ctxsample;
     
+    if (segment_full((*context)->ctxaudio->segment_data_size, (*context)->ctxaudio->ctxsample->mdat_sample_length, input_data_length)) {
+        return I2ERROR_SEGMENT_FULL;
+    }
+
     // Add segment data
     memcpy((*context)->ctxaudio->segment_data + (*context)->ctxaudio->segment_data_size, input_data, input_data_length);
     (*context)->ctxaudio->segment_data_size += input_data_length;
-- 
2.43.0


From 1eb927ad4bf8459bc5063e399a822c4fcff34130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:52 +0000
Subject: [PATCH 037/104] fix: do not wrap DASH audio timestamps after a day

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 85893c1..439ae89 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -132,7 +132,7 @@ bool DashAudioSegmenter::appendFrameToDashSegment(Frame* frame)
     unsigned char* dataWithoutADTS;
     unsigned int dataLengthWithoutADTS;
     unsigned int addSampleReturn;
-    uint32_t timeBasePts;
+    uint64_t timeBasePts;
 
     if (!frame || !frame->getDataBuf() || frame->getLength() <= 0 || !dashContext) {
         utils::errorMsg("Error appeding frame to segment: frame not valid");
-- 
2.43.0


From 611d2901ae5f8ad91ef480334cf7b6afd6db04c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:05 +0000
Subject: [PATCH 038/104] fix: read the ADTS channel configuration's high bit
 as such

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 439ae89..74c1354 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -211,7 +211,7 @@ unsigned char DashAudioSegmenter::getSamplingFreqIdxFromADTSHeader(unsigned char
 
 unsigned char DashAudioSegmenter::getChannelConfFromADTSHeader(unsigned char* adtsHeader)
 {
-    return (adtsHeader[2] & 0x01) | ((adtsHeader[3] >> 6) & 0x03);
+    return ((adtsHeader[2] & 0x01) << 2) | ((adtsHeader[3] >> 6) & 0x03);
 }
 
 unsigned char DashAudioSegmenter::getExtradata1stByte(unsigned char audioObjectType, unsigned char samplingFrequencyIndex)
-- 
2.43.0


From d7bf2b6c8bb0124db618ad1cbe2d554a83c8ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:29 +0000
Subject: [PATCH 039/104] fix: ignore H264 SPS too short to hold their profile
 and level

---
 src/modules/dasher/DashVideoSegmenterAVC.cpp | 5 +++++
 src/modules/dasher/DashVideoSegmenterAVC.hh  | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index 3b97056..a456ea9 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -132,6 +132,11 @@ VideoFrame* DashVideoSegmenterAVC::parseNal(VideoFrame* nal)
 
 void DashVideoSegmenterAVC::saveSPS(unsigned char* data, int dataLength)
 {
+    if (dataLength < SPS_MIN_LENGTH) {
+        utils::errorMsg("Error saving SPS: it is too short to hold its profile and level");
+        return;
+    }
+
     sps.clear();
     sps.insert(sps.begin(), data, data + dataLength);
 }
diff --git a/src/modules/dasher/DashVideoSegmenterAVC.hh b/src/modules/dasher/DashVideoSegmenterAVC.hh
index e2ec0b5..8160c92 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.hh
+++ b/src/modules/dasher/DashVideoSegmenterAVC.hh
@@ -28,6 +28,7 @@
 #include "Dasher.hh"
 #include "DashVideoSegmenter.hh"
 
+#define SPS_MIN_LENGTH 4 //!< NAL header, profile, constraints and level
 #define H264_NALU_TYPE_MASK 0x1F
 #define H264_METADATA_VERSION_FLAG 0x01
 #define METADATA_RESERVED_BYTES1 0xFC
-- 
2.43.0


From 72d1f4e6f010dc07e53d48cec2de56bd8e915b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:29 +0000
Subject: [PATCH 040/104] fix: initialise the DASH video default sample
 duration

---
 src/modules/dasher/i2libdash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index db8c79d..386afe2 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -95,6 +95,8 @@ void video_context_initializer(i2ctx **context, uint32_t media_type) {
     ctxVideo->width = 0;
     ctxVideo->height = 0;
     ctxVideo->time_base = 0;
+    ctxVideo->frame_rate = 0;
+    ctxVideo->sample_duration = 0;
     ctxVideo->earliest_presentation_time = 0;
     ctxVideo->sequence_number = 0;
     ctxVideo->current_video_duration = 0;
-- 
2.43.0


From cd557772af7b9892ab317db3ecd4ff15f6743532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:12 +0000
Subject: [PATCH 041/104] fix: report and delete every segment that leaves the
 DASH window

---
 src/modules/dasher/Dasher.cpp     | 18 ++++++++++--------
 src/modules/dasher/MpdManager.cpp | 16 +++++++---------
 src/modules/dasher/MpdManager.hh  |  8 +++++---
 3 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index f67cf99..7f4c216 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -246,7 +246,6 @@ bool Dasher::writeVideoSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
     bool needEncoderConfig = false;
 
     if (vSegments.empty()) {
@@ -284,12 +283,14 @@ bool Dasher::writeVideoSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur);
+    std::vector<uint64_t> rmTimestamps = mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur);
 
     mpdMngr->writeToDisk(mpdPath.c_str());
 
-    if (rmTimestamp > 0 && !cleanSegments(vSegments, rmTimestamp, V_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
+    for (auto rmTimestamp : rmTimestamps) {
+        if (!cleanSegments(vSegments, rmTimestamp, V_EXT)) {
+            utils::warningMsg("Error cleaning dash video segments");
+        }
     }
 
     return true;
@@ -311,7 +312,6 @@ bool Dasher::writeAudioSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
 
     if (aSegments.empty()) {
         return false;
@@ -337,12 +337,14 @@ bool Dasher::writeAudioSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur);
+    std::vector<uint64_t> rmTimestamps = mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur);
 
     mpdMngr->writeToDisk(mpdPath.c_str());
 
-    if (rmTimestamp > 0 && !cleanSegments(aSegments, rmTimestamp, A_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
+    for (auto rmTimestamp : rmTimestamps) {
+        if (!cleanSegments(aSegments, rmTimestamp, A_EXT)) {
+            utils::warningMsg("Error cleaning dash audio segments");
+        }
     }
 
     return true;
diff --git a/src/modules/dasher/MpdManager.cpp b/src/modules/dasher/MpdManager.cpp
index 64eb531..8fd70e3 100644
--- a/src/modules/dasher/MpdManager.cpp
+++ b/src/modules/dasher/MpdManager.cpp
@@ -113,19 +113,17 @@ void MpdManager::writeToDisk(const char* fileName)
     doc.SaveFile(fileName);
 }
 
-uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration)
+std::vector<uint64_t> MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration)
 {
     AdaptationSet* adSet;
-    uint64_t removedTimestamp;
 
     adSet = getAdaptationSet(id);
 
     if (!adSet) {
-        return 0;
+        return std::vector<uint64_t>();
     }
 
-    removedTimestamp = adSet->updateTimestamp(ts, duration, maxSeg);
-    return removedTimestamp;
+    return adSet->updateTimestamp(ts, duration, maxSeg);
 }
 
 bool MpdManager::flushAdaptationSetTimestamps(std::string id)
@@ -238,17 +236,17 @@ AdaptationSet::~AdaptationSet()
 { 
 }
 
-uint64_t AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg)
+std::vector<uint64_t> AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg)
 {
-    uint64_t removedTimestamp= 0;
+    std::vector<uint64_t> removedTimestamps;
 
     while (timestamps.size() >= maxSeg) {
-        removedTimestamp = timestamps.front().first;
+        removedTimestamps.push_back(timestamps.front().first);
         timestamps.pop_front();
     }
 
     timestamps.push_back(std::pair<uint64_t,uint64_t>(ts, duration));
-    return removedTimestamp;
+    return removedTimestamps;
 }
 
 void AdaptationSet::flushTimestamps()
diff --git a/src/modules/dasher/MpdManager.hh b/src/modules/dasher/MpdManager.hh
index 19772cc..f31056f 100644
--- a/src/modules/dasher/MpdManager.hh
+++ b/src/modules/dasher/MpdManager.hh
@@ -24,6 +24,8 @@
 
 #include <map>
 #include <deque>
+#include <string>
+#include <vector>
 #include <tinyxml2.h>
 
 #define MIN_SEGMENT 2
@@ -105,9 +107,9 @@ public:
     * @param id Adaptation set Id. Must exist.
     * @param ts Timestamp of the current segment in timescale base.
     * @param duration Duration of the current segment in timescale base.
-    * @return true if succeeded and false if not
+    * @return the start times of all the segments that left the window
     */
-    uint64_t updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration);
+    std::vector<uint64_t> updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration);
 
     /**
     * Updates an existing video representation. If it does not exists, it creates a new one. Each representation is
@@ -213,7 +215,7 @@ public:
     * Sets timestamp and duration
     * @see MpdManager::updateAdaptationSetTimestamp 
     */
-    uint64_t updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg);
+    std::vector<uint64_t> updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg);
 
     /**
     * Sets timescale, segment template and init template values
-- 
2.43.0


From f9e55925acb239bc83f6ebaa2041b5bdfd578cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:12 +0000
Subject: [PATCH 042/104] fix: release the dasher's segments on destruction

---
 src/modules/dasher/Dasher.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 7f4c216..253d578 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -47,6 +47,15 @@ Dasher::~Dasher()
     for (auto seg : segmenters) {
         delete seg.second;
     }
+    for (auto seg : vSegments) {
+        delete seg.second;
+    }
+    for (auto seg : aSegments) {
+        delete seg.second;
+    }
+    for (auto seg : initSegments) {
+        delete seg.second;
+    }
     delete mpdMngr;
 }
 
-- 
2.43.0


From 402719b64d291b43e600a0204bd290806955890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:12 +0000
Subject: [PATCH 043/104] fix: keep the DASH session's time origin once it is
 set

---
 src/modules/dasher/Dasher.cpp | 22 ++++++++++++++++------
 src/modules/dasher/Dasher.hh  |  1 +
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 253d578..081560d 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -28,6 +28,7 @@
 #include "DashVideoSegmenterHEVC.hh"
 #include "DashAudioSegmenter.hh"
 
+#include <algorithm>
 #include <map>
 #include <string>
 #include <chrono>
@@ -36,7 +37,7 @@
 #include <math.h>
 
 Dasher::Dasher(unsigned readersNum) :
-TailFilter(readersNum), mpdMngr(NULL), hasVideo(false), videoStarted(false), timestampOffset(std::chrono::microseconds(0))
+TailFilter(readersNum), mpdMngr(NULL), hasVideo(false), videoStarted(false), offsetSet(false), timestampOffset(std::chrono::microseconds(0))
 {
     fType = DASHER;
     initializeEventMap();
@@ -103,6 +104,17 @@ bool Dasher::doProcessFrame(std::map<int, Frame*> &orgFrames, std::vector<int> n
         return false;
     }
 
+    if (!offsetSet && !newFrames.empty()) {
+        timestampOffset = orgFrames[newFrames.front()]->getFrameTime();
+        for (auto id : newFrames) {
+            timestampOffset = std::min(timestampOffset, orgFrames[id]->getFrameTime());
+        }
+        for(auto seg : segmenters){
+            seg.second->setOffset(timestampOffset);
+        }
+        offsetSet = true;
+    }
+
     for (auto id : newFrames) {
         segmenter = getSegmenter(id);
 
@@ -110,11 +122,9 @@ bool Dasher::doProcessFrame(std::map<int, Frame*> &orgFrames, std::vector<int> n
             continue;
         }
         
-        if (timestampOffset.count() == 0){
-            timestampOffset = orgFrames[id]->getFrameTime();
-            for(auto seg : segmenters){
-                seg.second->setOffset(timestampOffset);
-            }
+        if (orgFrames[id]->getFrameTime() < timestampOffset) {
+            utils::warningMsg("[Dasher::doProcessFrame] Discarding a frame previous to the session start");
+            continue;
         }
 
         frame = segmenter->manageFrame(orgFrames[id]);
diff --git a/src/modules/dasher/Dasher.hh b/src/modules/dasher/Dasher.hh
index 3bd7f0f..c25761c 100644
--- a/src/modules/dasher/Dasher.hh
+++ b/src/modules/dasher/Dasher.hh
@@ -134,6 +134,7 @@ private:
 
     bool hasVideo;
     bool videoStarted;
+    bool offsetSet;
     
     std::chrono::microseconds timestampOffset;
 };
-- 
2.43.0


From add77b0e7ba37f18efe570d5af0ed029cdd69b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:12 +0000
Subject: [PATCH 044/104] fix: do not publish DASH segments of different times
 under one start time

---
 src/modules/dasher/Dasher.cpp | 28 ++++++++++++++++++++++++++++
 src/modules/dasher/Dasher.hh  |  1 +
 2 files changed, 29 insertions(+)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 081560d..5c7c45e 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -277,6 +277,10 @@ bool Dasher::writeVideoSegments()
         }
     }
 
+    if (discardOutdatedSegments(vSegments)) {
+        return false;
+    }
+
     if (!forceAudioSegmentsGeneration()) {
         utils::warningMsg("Forcing the generation of audio segments. This may cause errors!");
     }
@@ -342,6 +346,10 @@ bool Dasher::writeAudioSegments()
         }
     }
 
+    if (!hasVideo && discardOutdatedSegments(aSegments)) {
+        return false;
+    }
+
     ts = aSegments.begin()->second->getTimestamp();
     dur = aSegments.begin()->second->getDuration();
 
@@ -416,6 +424,26 @@ bool Dasher::writeSegmentsToDisk(std::map<int,DashSegment*> segments, uint64_t t
     return true;
 }
 
+bool Dasher::discardOutdatedSegments(std::map<int,DashSegment*> segments)
+{
+    uint64_t lastStart = 0;
+    bool discarded = false;
+
+    for (auto seg : segments) {
+        lastStart = std::max(lastStart, seg.second->getTimestamp());
+    }
+
+    for (auto seg : segments) {
+        if (seg.second->getTimestamp() + seg.second->getDuration()/2 < lastStart) {
+            utils::warningMsg("Discarding a segment previous to those of the other representations");
+            seg.second->clear();
+            discarded = true;
+        }
+    }
+
+    return discarded;
+}
+
 bool Dasher::cleanSegments(std::map<int,DashSegment*> segments, uint64_t timestamp, std::string segExt)
 {
     bool success = true;
diff --git a/src/modules/dasher/Dasher.hh b/src/modules/dasher/Dasher.hh
index c25761c..023a2e6 100644
--- a/src/modules/dasher/Dasher.hh
+++ b/src/modules/dasher/Dasher.hh
@@ -107,6 +107,7 @@ private:
     bool writeAudioSegments();
 
     bool writeSegmentsToDisk(std::map<int,DashSegment*> segments, uint64_t timestamp, std::string segExt);
+    bool discardOutdatedSegments(std::map<int,DashSegment*> segments);
     bool cleanSegments(std::map<int,DashSegment*> segments, uint64_t timestamp, std::string segExt);
     bool configureEvent(Jzon::Node* params);
 
-- 
2.43.0


From e026af7f67af65cff0cdd59a1aea68962b414d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 045/104] fix: escape and unescape member names in JSON like
 string values

---
 src/Jzon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index d6c888a..122dcb7 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -905,7 +905,7 @@ namespace Jzon
 
 			if (it != node.begin())
 				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1) + "\""+name+"\"" + ":" + fi->GetSpacing();
+			result += fi->GetIndentation(level+1) + "\""+Value::EscapeString(name)+"\"" + ":" + fi->GetSpacing();
 			writeNode(value, level+1);
 		}
 
@@ -1177,7 +1177,7 @@ namespace Jzon
 						}
 						else
 						{
-							name = data.front().second;
+							name = Value::UnescapeString(data.front().second);
 							data.pop();
 						}
 					}
-- 
2.43.0


From 1bd29e5000203a037a1e2f21116df70e5a545829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 046/104] fix: JSON strings ending in an escaped backslash
 swallowed the text after them

---
 src/Jzon.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 122dcb7..d1415ce 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -83,22 +83,23 @@ namespace Jzon
 		bool comment = false;
 		int multicomment = 0;
 		bool inString = false;
+		bool escaped = false;
 
 		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
 		{
-			char c0 = '\0';
 			char c1 = (*it);
 			char c2 = '\0';
-			if (it != json.begin())
-				c0 = (*(it-1));
 			if (it+1 != json.end())
 				c2 = (*(it+1));
 
-			if (c0 != '\\' && c1 == '"')
+			if (!escaped && c1 == '"')
 			{
 				inString = !inString;
 			}
 
+			// A backslash escapes the next character, unless it is escaped itself
+			escaped = inString && !escaped && c1 == '\\';
+
 			if (!inString)
 			{
 				if (c1 == '/' && c2 == '*')
@@ -1245,19 +1246,20 @@ namespace Jzon
 
 		++cursor;
 
-		char c1 = '\0';
+		bool escaped = false;
 		for (; cursor < json.size(); ++cursor)
 		{
-			char c2 = json.at(cursor);
+			char c = json.at(cursor);
 
-			if (c1 != '\\' && c2 == '"')
+			if (!escaped && c == '"')
 			{
 				break;
 			}
 
-			str += c2;
+			str += c;
 
-			c1 = c2;
+			// A backslash escapes the next character, unless it is escaped itself
+			escaped = !escaped && c == '\\';
 		}
 
 		data.push(std::make_pair(Value::VT_STRING, str));
-- 
2.43.0


From 278e6937bcc4904c5e6392712288105b357e94b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 047/104] fix: tokens of a malformed JSON text leaked into the
 next text parsed

---
 src/Jzon.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index d1415ce..51236ef 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -960,6 +960,11 @@ namespace Jzon
 	{
 		cursor = 0;
 
+		// A failed parse leaves tokens behind
+		tokens = std::queue<Token>();
+		data = std::queue<std::pair<Value::ValueType, std::string> >();
+		error.clear();
+
 		tokenize();
 		bool success = assemble();
 
-- 
2.43.0


From 60fbcd6b287462f51ddbaac6eb72f60182df3d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 048/104] fix: numbers with an exponent, as the JSON writer
 emits, were refused by the parser

---
 src/Jzon.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 51236ef..6c0f694 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -25,6 +25,7 @@ THE SOFTWARE.
 #include <fstream>
 #include <stack>
 #include <algorithm>
+#include <cstdlib>
 
 namespace Jzon
 {
@@ -1300,6 +1301,14 @@ namespace Jzon
 				}
 			}
 
+			if (number)
+			{
+				// It has to be a number as a whole: "-" or "1.2.3" are not
+				char *end = NULL;
+				strtod(value.c_str(), &end);
+				number = (end == value.c_str() + value.size());
+			}
+
 			if (number)
 			{
 				data.push(std::make_pair(Value::VT_NUMBER, value));
@@ -1315,6 +1324,6 @@ namespace Jzon
 
 	bool Parser::isNumber(char c) const
 	{
-		return ((c >= '0' && c <= '9') || c == '.' || c == '-');
+		return ((c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E');
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 4ee3fce0e885fd2459a661cbbbf009d58b702b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 049/104] fix: truncated JSON text was parsed as if it were
 complete

---
 src/Jzon.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 6c0f694..28c9448 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1240,6 +1240,17 @@ namespace Jzon
 			}
 		}
 
+		if (!nodeStack.empty() && !nodeStack.top().second->IsValue())
+		{
+			error = "Unexpected end: object or array without end";
+			for (; !nodeStack.empty(); nodeStack.pop())
+			{
+				if (nodeStack.top().second != &root)
+					delete nodeStack.top().second;
+			}
+			return false;
+		}
+
 		return true;
 	}
 
-- 
2.43.0


From e958c16f5d2995ab197e8df2da1ba04c2997dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 050/104] fix: quotes and comment marks inside JSON comments
 were not ignored

---
 src/Jzon.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 28c9448..36f9b38 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -93,7 +93,7 @@ namespace Jzon
 			if (it+1 != json.end())
 				c2 = (*(it+1));
 
-			if (!escaped && c1 == '"')
+			if (!escaped && c1 == '"' && !comment && multicomment == 0)
 			{
 				inString = !inString;
 			}
@@ -103,21 +103,21 @@ namespace Jzon
 
 			if (!inString)
 			{
-				if (c1 == '/' && c2 == '*')
+				if (c1 == '/' && c2 == '*' && !comment)
 				{
 					++multicomment;
 					if (it+1 != json.end())
 						++it;
 					continue;
 				}
-				else if (c1 == '*' && c2 == '/')
+				else if (c1 == '*' && c2 == '/' && multicomment > 0)
 				{
 					--multicomment;
 					if (it+1 != json.end())
 						++it;
 					continue;
 				}
-				else if (c1 == '/' && c2 == '/')
+				else if (c1 == '/' && c2 == '/' && multicomment == 0)
 				{
 					comment = true;
 					if (it+1 != json.end())
-- 
2.43.0


From 3c2e64c389ad1fb280f5e465df33de9ea1b4626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 051/104] fix: an event with a parameter of the wrong type
 ended the process

---
 src/Controller.cpp |  7 ++++++-
 src/Event.cpp      |  2 +-
 src/Filter.cpp     | 17 ++++++++++++++---
 src/Filter.hh      |  1 +
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index 0480566..4059c92 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -172,7 +172,12 @@ void Controller::processRequest()
     const Jzon::Array &events = inputRootNode->Get("events").AsArray();
 
     for (Jzon::Array::const_iterator it = events.begin(); it != events.end(); ++it) {
-        pipeMngrInstance->processEvent(*it, outputNode);
+        try {
+            pipeMngrInstance->processEvent(*it, outputNode);
+        } catch (const std::logic_error &e) {
+            utils::errorMsg("Invalid event: " + std::string(e.what()));
+            outputNode.Add("error", "Error processing event. Invalid JSON format...");
+        }
     }
 
     sendAndClose(outputNode, connectionSocket);
diff --git a/src/Event.cpp b/src/Event.cpp
index b927c25..774418b 100644
--- a/src/Event.cpp
+++ b/src/Event.cpp
@@ -52,7 +52,7 @@ std::string Event::getAction()
 {
     std::string action;
 
-    if (inputRootNode->Has("action")) {
+    if (inputRootNode->Has("action") && inputRootNode->Get("action").IsValue()) {
         action = inputRootNode->Get("action").ToString();
     }
 
diff --git a/src/Filter.cpp b/src/Filter.cpp
index 9797525..19d674c 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -425,6 +425,17 @@ bool BaseFilter::disconnectReader(int readerId)
     return false;
 }
 
+bool BaseFilter::executeEvent(std::string action, Jzon::Node* params)
+{
+    try {
+        return eventMap[action](params);
+    } catch (const std::logic_error &e) {
+        //Jzon accessors throw when a parameter has not the expected type
+        utils::errorMsg("Invalid event parameters: " + std::string(e.what()));
+        return false;
+    }
+}
+
 void BaseFilter::processEvent()
 {
     std::string action;
@@ -444,7 +455,7 @@ void BaseFilter::processEvent()
             continue;
         }
 
-        if (!eventMap[action](params)) {
+        if (!executeEvent(action, params)) {
             utils::errorMsg("Error executing filter event");
         }
         
@@ -827,7 +838,7 @@ void HeadFilter::pushEvent(Event e)
         return;
     }
 
-    if (!eventMap[action](params)) {
+    if (!executeEvent(action, params)) {
         utils::errorMsg("Error executing filter event");
     }
 }
@@ -861,7 +872,7 @@ void TailFilter::pushEvent(Event e)
         return;
     }
 
-    if (!eventMap[action](params)) {
+    if (!executeEvent(action, params)) {
         utils::errorMsg("Error executing filter event");
     }
 }
diff --git a/src/Filter.hh b/src/Filter.hh
index 6b0869c..fa2362b 100644
--- a/src/Filter.hh
+++ b/src/Filter.hh
@@ -223,6 +223,7 @@ protected:
 
     bool newEvent();
     void processEvent();
+    bool executeEvent(std::string action, Jzon::Node* params);
     virtual void doGetState(Jzon::Object &filterNode) = 0;
 
     std::map<std::string, std::function<bool(Jzon::Node* params)> > eventMap;
-- 
2.43.0


From 5003bbbb2fbcc98b40a8966a4eb6ea737edba4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:19 +0000
Subject: [PATCH 052/104] fix: a path that could not be connected stayed in the
 pipeline, half connected

---
 src/PipelineManager.cpp | 20 ++++++++++++++++++++
 src/PipelineManager.hh  |  1 +
 2 files changed, 21 insertions(+)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index d31b288..117bcf1 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -322,18 +322,36 @@ bool PipelineManager::connectPath(int id)
     for (unsigned i = 0; i < pathFilters.size() - 1; i++) {
         if (!filters[pathFilters[i]]->connectOneToOne(filters[pathFilters[i+1]])) {
             utils::errorMsg("Connecting path filters!");
+            disconnectMidFilters(path, i + 1);
             return false;
         }
     }
 
     if (!filters[pathFilters.back()]->connectOneToMany(filters[dstFilterId], path->getDstReaderID())) {
         utils::errorMsg("Connecting path last filter to path tail!");
+        disconnectMidFilters(path, pathFilters.size());
         return false;
     }
 
     return true;
 }
 
+void PipelineManager::disconnectMidFilters(Path *path, unsigned count)
+{
+    std::vector<int> pathFilters = path->getFilters();
+
+    for (unsigned i = count; i-- > 0;) {
+        filters[pathFilters[i]]->disconnectReader(DEFAULT_ID);
+        if (i > 0) {
+            filters[pathFilters[i-1]]->disconnectWriter(DEFAULT_ID);
+        }
+    }
+    
+    if (!filters[path->getOriginFilterID()]->isWConnected(path->getOrgWriterID())) {
+        filters[path->getOriginFilterID()]->disconnectWriter(path->getOrgWriterID());
+    }
+}
+
 bool PipelineManager::handleGrouping(int orgFId, int dstFId, int orgWId, int dstRId)
 {
     ConnectionData cData;
@@ -608,6 +626,8 @@ void PipelineManager::createPathEvent(Jzon::Node* params, Jzon::Object &outputNo
 
     if (!connectPath(id)) {
         outputNode.Add("error", "Error connecting path. Better pray Jesus...");
+        delete paths[id];
+        paths.erase(id);
         return;
     }
 
diff --git a/src/PipelineManager.hh b/src/PipelineManager.hh
index 5276943..db71ad0 100644
--- a/src/PipelineManager.hh
+++ b/src/PipelineManager.hh
@@ -188,6 +188,7 @@ private:
     bool deletePath(int id);
     bool createFilter(int id, FilterType type);
     
+    void disconnectMidFilters(Path *path, unsigned count);
     bool handleGrouping(int orgFId, int dstFId, int orgWId, int dstRId);
     bool validCData(ConnectionData cData, int orgFId, int dstFId);
 
-- 
2.43.0


From e442765a781bfcef7046ac1ffb1f967fbf211ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:49 +0000
Subject: [PATCH 053/104] fix: connecting a filter to itself blocked the caller
 for ever

---
 src/Filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 19d674c..eed72f8 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -330,6 +330,11 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
     ConnectionData cData;
     ReaderData reader;
     
+    if (R == this) {
+        utils::errorMsg("A filter cannot be connected to itself");
+        return false;
+    }
+    
     processEvent();
     R->processEvent();
 
-- 
2.43.0


From ad0e5abc3ce85cc94e1e1c8e1931b55287b9c77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:14 +0000
Subject: [PATCH 054/104] fix: removing a path destroyed filters other paths
 were still using

---
 src/PipelineManager.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 117bcf1..a18929c 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -462,6 +462,19 @@ bool PipelineManager::deletePath(int id)
     std::vector<int>::reverse_iterator rit = pathFilters.rbegin();
     for (; rit!= pathFilters.rend(); ++rit){
         filters[*rit]->disconnectReader(DEFAULT_ID);
+
+        bool deleteMid = true;
+        for (auto it : paths){
+            if (it.first != id && it.second->hasFilter(*rit)){
+                deleteMid = false;
+            }
+        }
+
+        if (!deleteMid){
+            //Still used by another path, so it only leaves this one
+            continue;
+        }
+
         pool->removeTask(*rit);
         delete filters[*rit];
         filters.erase(*rit);
-- 
2.43.0


From 3feaafc1ec2d83fbdf965f3343a83d179fa7305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:14 +0000
Subject: [PATCH 055/104] fix: stopping the pipeline looked at paths already
 deleted

---
 src/PipelineManager.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index a18929c..07bb134 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -79,14 +79,15 @@ bool PipelineManager::stop()
     pool->stop();
     utils::infoMsg("All threads stopped");
     
-    for (auto it : paths) {
-        if (!deletePath(it.first)) {
-            utils::errorMsg("Failed deleting path " + std::to_string(it.first));
+    while (!paths.empty()) {
+        int id = paths.begin()->first;
+        if (!deletePath(id)) {
+            utils::errorMsg("Failed deleting path " + std::to_string(id));
             return false;
         }
+        paths.erase(id);
     }
 
-    paths.clear();
     utils::infoMsg("Paths deleted");
 
     for (auto it : filters) {
-- 
2.43.0


From 851096b4889c9fe9812248782f09929695a4116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 056/104] fix: a queue could be released while the filter
 leaving it was still using its frames

---
 src/Filter.cpp | 5 +++++
 src/Filter.hh  | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index eed72f8..d7fd314 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -400,6 +400,8 @@ bool BaseFilter::connectOneToMany(BaseFilter *R, int readerID)
 
 bool BaseFilter::disconnectWriter(int writerId)
 {    
+    //The queue may be released by the other end, so its frames cannot be still in use
+    std::lock_guard<std::recursive_mutex> procGuard(procMtx);
     std::lock_guard<std::mutex> guard(mtx);
     
     if (writers.count(writerId) <= 0) {
@@ -416,6 +418,8 @@ bool BaseFilter::disconnectWriter(int writerId)
 
 bool BaseFilter::disconnectReader(int readerId)
 {   
+    //The queue may be released by the other end, so its frames cannot be still in use
+    std::lock_guard<std::recursive_mutex> procGuard(procMtx);
     std::lock_guard<std::mutex> guard(mtx);
     
     if (readers.count(readerId) <= 0) {
@@ -498,6 +502,7 @@ void BaseFilter::getState(Jzon::Object &filterNode)
 
 std::vector<int> BaseFilter::processFrame(int& ret)
 {
+    std::lock_guard<std::recursive_mutex> procGuard(procMtx);
     std::vector<int> enabledJobs;
 
     switch(fRole) {
diff --git a/src/Filter.hh b/src/Filter.hh
index fa2362b..ebcfaa6 100644
--- a/src/Filter.hh
+++ b/src/Filter.hh
@@ -263,6 +263,9 @@ private:
     std::vector<int> framesSync();
 
 private:
+    //Held while a frame is processed. It is recursive since filters can drop their own connections while processing
+    std::recursive_mutex procMtx;
+    
     std::priority_queue<Event> eventQueue;
     
     bool enabled;
-- 
2.43.0


From e5be85c720887213835083cfc316678a36ccb6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 057/104] fix: a running filter could use a reader that was not
 connected yet

---
 src/Filter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index d7fd314..f6b3080 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -133,6 +133,9 @@ std::shared_ptr<Reader> BaseFilter::setReader(int readerID, FrameQueue* queue)
         return NULL;
     }
     
+    //Running filters drop or use any reader they find, thus it must be already connected
+    r->setConnection(queue);
+    queue->setConnected(true);
     readers[readerID] = r;
 
     return r;
-- 
2.43.0


From f32057d62b7e446efdf889bcbc2a91ace394cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 058/104] fix: sharing a reader changed the readers of a
 running filter without its lock

---
 src/Filter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index f6b3080..b192201 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -276,6 +276,8 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
+    std::lock_guard<std::mutex> sharedGuard(shared->mtx);
+    
     if (shared->readers.count(sharedRId) == 0 && shared->readers.size() >= shared->getMaxReaders()){
         utils::errorMsg("The shared filter has no reader left!");
         return false;
-- 
2.43.0


From 338bb68f4a7adced6a70eec1fc3ca9a219705867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:41 +0000
Subject: [PATCH 059/104] fix: a writer could not be used again until its
 filter noticed its reader had gone

---
 src/Filter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index b192201..976107c 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -295,6 +295,16 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
 
 bool BaseFilter::setWriter(int writerID)
 {
+    //Writers left by their readers do not take up room
+    for (std::map<int, std::shared_ptr<Writer>>::iterator it = writers.begin() ; it != writers.end(); ) {
+        int wId = it->first;
+        bool connected = it->second->isConnected();
+        ++it;
+        if (!connected) {
+            deleteWriter(wId);
+        }
+    }
+
     if (writers.size() >= maxWriters) {
         utils::warningMsg("Too many writers");
         return false;
@@ -343,6 +353,7 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
     processEvent();
     R->processEvent();
 
+    std::lock_guard<std::recursive_mutex> procGuard(procMtx);
     std::lock_guard<std::mutex> guard(mtx);
     
     if (R->getReader(readerID) && R->getReader(readerID)->isConnected()){
-- 
2.43.0


From 4d430824e8cacdf4288b7c0a92f4620ed1ff39d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:41 +0000
Subject: [PATCH 060/104] fix: the time of a shared reader was read while
 another filter released its frame

---
 src/IOInterface.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index b0a0cfd..771d4a7 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -240,6 +240,12 @@ size_t Reader::getQueueElements()
 
 std::chrono::microseconds Reader::getCurrentTime()
 {
+    std::lock_guard<std::mutex> guard(lck);
+    
+    if (!queue){
+        return NO_DTS;
+    }
+    
     if (frame){
         return frame->getFrameTime();
     }
-- 
2.43.0


From 2d6b9e62ac4339b46001b397200a7745805a6581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:20 +0000
Subject: [PATCH 061/104] fix: the list of readers of a queue was read while it
 was being changed

---
 src/AVFramedQueue.cpp         |  3 ++-
 src/AudioCircularBuffer.cpp   |  3 ++-
 src/FrameQueue.hh             | 10 +++++++++-
 src/SlicedVideoFrameQueue.cpp |  3 ++-
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/AVFramedQueue.cpp b/src/AVFramedQueue.cpp
index 7de8744..d40b12f 100644
--- a/src/AVFramedQueue.cpp
+++ b/src/AVFramedQueue.cpp
@@ -66,7 +66,8 @@ std::vector<int> AVFramedQueue::addFrame()
 {
     std::vector<int> ret;
     
-    for (auto& r : connectionData.readers){
+    const ConnectionData cData = getCData();
+    for (auto& r : cData.readers){
         ret.push_back(r.rFilterId);
     }
     
diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 0248106..431716f 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -152,7 +152,8 @@ std::vector<int> AudioCircularBuffer::addFrame()
     
     orgTime = inputFrame->getOriginTime();
     
-    for (auto& r : connectionData.readers){
+    const ConnectionData cData = getCData();
+    for (auto& r : cData.readers){
         ret.push_back(r.rFilterId);
     }
     
diff --git a/src/FrameQueue.hh b/src/FrameQueue.hh
index 3bce029..b5cfc8b 100644
--- a/src/FrameQueue.hh
+++ b/src/FrameQueue.hh
@@ -31,6 +31,7 @@
 #include <sys/time.h>
 #include <chrono>
 #include <list>
+#include <mutex>
 #include <vector>
 #include "Types.hh"
 #include "StreamInfo.hh"
@@ -167,7 +168,10 @@ public:
     * Gets the connection cData.
     * @return the struct that contains the connection data.
     */
-    ConnectionData getCData() const {return connectionData;};
+    ConnectionData getCData() const {
+        std::lock_guard<std::mutex> guard(cDataMtx);
+        return connectionData;
+    };
     
     /**
     * Adds reader to the CData
@@ -176,6 +180,7 @@ public:
     * @return true if the addition succeeded
     */
     bool addReaderCData(int rFilterId, int readerId) {
+        std::lock_guard<std::mutex> guard(cDataMtx);
         for(auto r : connectionData.readers){
             if (r.rFilterId == rFilterId){
                 return false;
@@ -198,6 +203,7 @@ public:
     * @return true if the removal succeeded
     */
     bool removeReaderCData(int fId) {            
+        std::lock_guard<std::mutex> guard(cDataMtx);
         std::list<ReaderData>::iterator i = connectionData.readers.begin();
         while (i != connectionData.readers.end())
         {
@@ -226,6 +232,8 @@ protected:
     size_t lostBlocs;
 
     ConnectionData connectionData;
+    //Readers can be added or removed while the writer is adding frames
+    mutable std::mutex cDataMtx;
 
     const StreamInfo *streamInfo;
 
diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index a097918..c56e93e 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -71,7 +71,8 @@ std::vector<int> SlicedVideoFrameQueue::addFrame()
     
     std::vector<int> ret;
     
-    for (auto& r : connectionData.readers){
+    const ConnectionData cData = getCData();
+    for (auto& r : cData.readers){
         ret.push_back(r.rFilterId);
     }
     
-- 
2.43.0


From b3b80252ccf0cecf9602275758099eb1b584759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:52 +0000
Subject: [PATCH 062/104] fix: filters with many readers in the middle of a
 path were never disconnected

---
 src/PipelineManager.cpp | 20 ++++++++++++++++++--
 src/PipelineManager.hh  |  1 +
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 07bb134..c5b968a 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -342,7 +342,7 @@ void PipelineManager::disconnectMidFilters(Path *path, unsigned count)
     std::vector<int> pathFilters = path->getFilters();
 
     for (unsigned i = count; i-- > 0;) {
-        filters[pathFilters[i]]->disconnectReader(DEFAULT_ID);
+        filters[pathFilters[i]]->disconnectReader(getMidReader(path, i));
         if (i > 0) {
             filters[pathFilters[i-1]]->disconnectWriter(DEFAULT_ID);
         }
@@ -353,6 +353,22 @@ void PipelineManager::disconnectMidFilters(Path *path, unsigned count)
     }
 }
 
+int PipelineManager::getMidReader(Path *path, unsigned index)
+{
+    std::vector<int> pathFilters = path->getFilters();
+    int wFilterId = index > 0 ? pathFilters[index - 1] : path->getOriginFilterID();
+    int writerId = index > 0 ? DEFAULT_ID : path->getOrgWriterID();
+    
+    //Filters with many readers have not their readers named by the path
+    for (auto r : filters[wFilterId]->getWConnectionData(writerId).readers) {
+        if (r.rFilterId == pathFilters[index]) {
+            return r.readerId;
+        }
+    }
+    
+    return DEFAULT_ID;
+}
+
 bool PipelineManager::handleGrouping(int orgFId, int dstFId, int orgWId, int dstRId)
 {
     ConnectionData cData;
@@ -462,7 +478,7 @@ bool PipelineManager::deletePath(int id)
     
     std::vector<int>::reverse_iterator rit = pathFilters.rbegin();
     for (; rit!= pathFilters.rend(); ++rit){
-        filters[*rit]->disconnectReader(DEFAULT_ID);
+        filters[*rit]->disconnectReader(getMidReader(path, pathFilters.rend() - rit - 1));
 
         bool deleteMid = true;
         for (auto it : paths){
diff --git a/src/PipelineManager.hh b/src/PipelineManager.hh
index db71ad0..a2e341c 100644
--- a/src/PipelineManager.hh
+++ b/src/PipelineManager.hh
@@ -189,6 +189,7 @@ private:
     bool createFilter(int id, FilterType type);
     
     void disconnectMidFilters(Path *path, unsigned count);
+    int getMidReader(Path *path, unsigned index);
     bool handleGrouping(int orgFId, int dstFId, int orgWId, int dstRId);
     bool validCData(ConnectionData cData, int orgFId, int dstFId);
 
-- 
2.43.0


From 09f92f69d3b9a5c4267418f68cab16aa6bbf7e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:59 +0000
Subject: [PATCH 063/104] fix: a filter writing a frame crashed when its reader
 was disconnected at that moment

---
 src/Filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 976107c..8a88a99 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -192,6 +192,11 @@ bool BaseFilter::demandDestinationFrames(std::map<int, Frame*> &dFrames)
         }
 
         Frame *f = it->second->getFrame(true);
+        if (!f){
+            //The reader has just been disconnected
+            ++it;
+            continue;
+        }
         f->setConsumed(false);
         dFrames[it->first] = f;
         newFrame = true;
-- 
2.43.0


From 83160230697d5a9df63ca7b719f32fe69c00e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:57 +0000
Subject: [PATCH 064/104] fix: a client that left before its reply ended the
 process

---
 src/Controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index 4059c92..dff9cc4 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -189,7 +189,7 @@ void Controller::sendAndClose(Jzon::Object outputNode, int socket)
     writer.Write();
     std::string result = writer.GetResult();
     const char* res = result.c_str();
-    int ret = write(socket, res, result.size());
+    int ret = send(socket, res, result.size(), MSG_NOSIGNAL);
 
     if (ret < 0) {
         utils::errorMsg("Error writting socket");
-- 
2.43.0


From cf49747e0fce0feb077976497d9ee3f7281790d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:57 +0000
Subject: [PATCH 065/104] fix: a request that is not JSON got no reply and its
 connection was never closed

---
 src/Controller.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index dff9cc4..852cc9a 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -140,11 +140,15 @@ void Controller::stopAndCloseSocket()
 
 bool Controller::readAndParse()
 {
+    Jzon::Object outputNode;
+
     bzero(inBuffer, MSG_BUFFER_MAX_LENGTH);
     inputRootNode->Clear();
     
     if (read(connectionSocket, inBuffer, MSG_BUFFER_MAX_LENGTH - 1) < 0) {
         utils::errorMsg("Reading from socket");
+        outputNode.Add("error", "Error reading from socket");
+        sendAndClose(outputNode, connectionSocket);
         return false;
     }
 
@@ -152,6 +156,8 @@ bool Controller::readAndParse()
 
     if (!parser->Parse()) {
         utils::errorMsg("Error parsing JSON");
+        outputNode.Add("error", "Error parsing JSON");
+        sendAndClose(outputNode, connectionSocket);
         return false;
     }
 
-- 
2.43.0


From ff2971e01ac0fbf41787568130e6fc686f12fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:57 +0000
Subject: [PATCH 066/104] fix: the controller instance dangled after being
 destroyed

---
 src/Controller.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index 852cc9a..b755122 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -54,7 +54,6 @@ Controller* Controller::getInstance()
 
 void Controller::destroyInstance()
 {
-    Controller * ctrlInstance = Controller::getInstance();
     if (ctrlInstance != NULL) {
         delete ctrlInstance;
         ctrlInstance = NULL;
-- 
2.43.0


From f5ba5ac880e348d65a8b68bc975d3b2457c0473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:57 +0000
Subject: [PATCH 067/104] fix: negative encoder parameters were taken as huge
 ones

---
 .../videoEncoder/VideoEncoderX264or5.cpp      | 20 +++++++++----------
 .../videoEncoder/VideoEncoderX264or5.hh       |  6 +++---
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 67985a4..b04a859 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -127,9 +127,9 @@ bool VideoEncoderX264or5::fill_x264or5_picture(VideoFrame* videoFrame)
     return true;
 }
 
-bool VideoEncoderX264or5::configure0(unsigned bitrate_, unsigned fps_, unsigned gop_, 
-                                     unsigned lookahead_, int bFrames_, unsigned threads_, 
-                                     bool annexB_, std::string preset_, unsigned gopTime_)
+bool VideoEncoderX264or5::configure0(int bitrate_, int fps_, int gop_, 
+                                     int lookahead_, int bFrames_, int threads_, 
+                                     bool annexB_, std::string preset_, int gopTime_)
 {
     if (bitrate_ <= 0 || gop_ <= 0 || lookahead_ < 0 || threads_ <= 0 || preset_.empty()) {
         utils::errorMsg("Error configuring VideoEncoderX264or5: invalid configuration values");
@@ -169,13 +169,13 @@ bool VideoEncoderX264or5::configure0(unsigned bitrate_, unsigned fps_, unsigned
 
 bool VideoEncoderX264or5::configEvent(Jzon::Node* params)
 {
-    unsigned tmpBitrate;
-    unsigned tmpFps;
-    unsigned tmpGop;
-    unsigned tmpGopTime;
-    unsigned tmpLookahead;
-    unsigned tmpThreads;
-    unsigned tmpBFrames;
+    int tmpBitrate;
+    int tmpFps;
+    int tmpGop;
+    int tmpGopTime;
+    int tmpLookahead;
+    int tmpThreads;
+    int tmpBFrames;
     bool tmpAnnexB;
     std::string tmpPreset;
 
diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.hh b/src/modules/videoEncoder/VideoEncoderX264or5.hh
index e6bd6ba..e7058ac 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.hh
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.hh
@@ -96,9 +96,9 @@ protected:
     void setIntra(){forceIntra = true;};
     bool fill_x264or5_picture(VideoFrame* videoFrame);
 
-    bool configure0(unsigned bitrate_, unsigned fps_, unsigned gop_, 
-                    unsigned lookahead_, int bFrames_, unsigned threads_,
-                    bool annexB_, std::string preset_, unsigned gopTime);
+    bool configure0(int bitrate_, int fps_, int gop_, 
+                    int lookahead_, int bFrames_, int threads_,
+                    bool annexB_, std::string preset_, int gopTime);
     
 private:
     bool setGopReferenceTimeEvent(Jzon::Node* params);
-- 
2.43.0


From 74c022de836d40938e26b37d1c2b7e7208ac3565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:57 +0000
Subject: [PATCH 068/104] fix: a GOP reference time event without parameters
 crashed the encoder

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index b04a859..54cdf80 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -241,7 +241,7 @@ bool VideoEncoderX264or5::forceIntraEvent(Jzon::Node*)
 
 bool VideoEncoderX264or5::setGopReferenceTimeEvent(Jzon::Node* params)
 {
-    if (params->Has("referenceTime") && params->Get("referenceTime").IsString()) {
+    if (params && params->Has("referenceTime") && params->Get("referenceTime").IsString()) {
         std::string refTime_str = params->Get("referenceTime").ToString();
         refTime = std::chrono::microseconds(std::stoull(refTime_str));
         return true;
-- 
2.43.0


From a987e6e748e9a781a878681d3cd9783cf84ff11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:23 +0000
Subject: [PATCH 069/104] fix: a new frame had an uninitialised presentation
 time and sequence number

---
 src/Frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Frame.cpp b/src/Frame.cpp
index 40c5ad0..5240d83 100644
--- a/src/Frame.cpp
+++ b/src/Frame.cpp
@@ -23,7 +23,7 @@
 
 #include "Frame.hh"
 
-Frame::Frame() : decodeTime(NO_DTS)
+Frame::Frame() : presentationTime(0), decodeTime(NO_DTS), sequenceNumber(0)
 {
     originTime = std::chrono::system_clock::now();
     consumed = false;
-- 
2.43.0


From 86302ff920c7087d56e859a314bc31c254748d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:23 +0000
Subject: [PATCH 070/104] fix: a new audio frame had an uninitialised length

---
 src/AudioFrame.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AudioFrame.cpp b/src/AudioFrame.cpp
index 006f687..b937ec4 100644
--- a/src/AudioFrame.cpp
+++ b/src/AudioFrame.cpp
@@ -65,7 +65,7 @@ InterleavedAudioFrame* InterleavedAudioFrame::createNew(int ch, int sRate, int m
 }
 
 InterleavedAudioFrame::InterleavedAudioFrame(int ch, int sRate, int maxSamples, ACodecType codec, SampleFmt sFmt)
-: AudioFrame(ch, sRate, maxSamples, codec, sFmt)
+: AudioFrame(ch, sRate, maxSamples, codec, sFmt), bufferLen(0)
 {
     bufferMaxLen = bytesPerSample * maxSamples * MAX_CHANNELS;
     frameBuff = new unsigned char [bufferMaxLen]();
@@ -98,7 +98,7 @@ PlanarAudioFrame* PlanarAudioFrame::createNew(int ch, int sRate, int maxSamples,
 }
 
 PlanarAudioFrame::PlanarAudioFrame(int ch, int sRate, int maxSamples, ACodecType codec, SampleFmt sFmt)
-: AudioFrame(ch, sRate, maxSamples, codec, sFmt)
+: AudioFrame(ch, sRate, maxSamples, codec, sFmt), bufferLen(0)
 {
     bufferMaxLen = bytesPerSample * maxSamples;
 
-- 
2.43.0


From 3bbf30fb565721456db885c24b936e090199e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:23 +0000
Subject: [PATCH 071/104] fix: filling an interleaved audio frame wrote past
 its buffer

---
 src/AudioFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioFrame.cpp b/src/AudioFrame.cpp
index b937ec4..279c1e5 100644
--- a/src/AudioFrame.cpp
+++ b/src/AudioFrame.cpp
@@ -78,7 +78,7 @@ InterleavedAudioFrame::~InterleavedAudioFrame()
 
 void InterleavedAudioFrame::fillWithValue(int value)
 {
-    memset(frameBuff, value, bufferMaxLen*channels);
+    memset(frameBuff, value, bufferMaxLen);
 }    
 
 
-- 
2.43.0


From 1c75208ebb2517955103dd1b65c6888573b770f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:23 +0000
Subject: [PATCH 072/104] fix: the default number of samples overflowed above
 107 kHz

---
 src/AudioFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioFrame.cpp b/src/AudioFrame.cpp
index 279c1e5..ee3d725 100644
--- a/src/AudioFrame.cpp
+++ b/src/AudioFrame.cpp
@@ -33,7 +33,7 @@ int AudioFrame::getMaxSamples(int sampleRate)
 
 int AudioFrame::getDefaultSamples(int sampleRate)
 {
-    return (DEFAULT_FRAME_TIME*sampleRate)/1000000;
+    return ((DEFAULT_FRAME_TIME/1000)*sampleRate)/1000;
 }
 
 
-- 
2.43.0


From 8dca65a8d8792ae1c847565701bf5f400d81ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:09 +0000
Subject: [PATCH 073/104] fix: parameter sets of the other high profiles were
 read without their chroma format

---
 src/modules/transmitter/SPSparser/h264_stream.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules/transmitter/SPSparser/h264_stream.c b/src/modules/transmitter/SPSparser/h264_stream.c
index 0ccc58b..447dde5 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.c
+++ b/src/modules/transmitter/SPSparser/h264_stream.c
@@ -116,7 +116,10 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
 
     sps->chroma_format_idc = 1;
     if( sps->profile_idc == 100 || sps->profile_idc == 110 ||
-        sps->profile_idc == 122 || sps->profile_idc == 144 )
+        sps->profile_idc == 122 || sps->profile_idc == 144 ||
+        sps->profile_idc == 244 || sps->profile_idc == 44 ||
+        sps->profile_idc == 83 || sps->profile_idc == 86 ||
+        sps->profile_idc == 118 || sps->profile_idc == 128 )
     {
         sps->chroma_format_idc = bs_read_ue(b);
         if( sps->chroma_format_idc == 3 )
-- 
2.43.0


From 32c0304b8ca43182841208894c35891d38200bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:09 +0000
Subject: [PATCH 074/104] fix: scaling lists in a parameter set were not read,
 shifting all that follows

---
 src/modules/transmitter/SPSparser/h264_stream.c | 10 +++++-----
 src/modules/transmitter/SPSparser/h264_stream.h | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/modules/transmitter/SPSparser/h264_stream.c b/src/modules/transmitter/SPSparser/h264_stream.c
index 447dde5..1c34678 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.c
+++ b/src/modules/transmitter/SPSparser/h264_stream.c
@@ -132,7 +132,7 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
         sps->seq_scaling_matrix_present_flag = bs_read_u1(b);
         if( sps->seq_scaling_matrix_present_flag )
         {
-            for( i = 0; i < 8; i++ )
+            for( i = 0; i < ((sps->chroma_format_idc != 3) ? 8 : 12); i++ )
             {
                 sps->seq_scaling_list_present_flag[ i ] = bs_read_u1(b);
                 if( sps->seq_scaling_list_present_flag[ i ] )
@@ -140,12 +140,12 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
                     if( i < 6 )
                     {
                         read_scaling_list( b, sps->ScalingList4x4[ i ], 16,
-                                      sps->UseDefaultScalingMatrix4x4Flag[ i ]);
+                                      &sps->UseDefaultScalingMatrix4x4Flag[ i ]);
                     }
                     else
                     {
                         read_scaling_list( b, sps->ScalingList8x8[ i - 6 ], 64,
-                                      sps->UseDefaultScalingMatrix8x8Flag[ i - 6 ] );
+                                      &sps->UseDefaultScalingMatrix8x8Flag[ i - 6 ] );
                     }
                 }
             }
@@ -198,7 +198,7 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
 
 
 //7.3.2.1.1 Scaling list syntax
-void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int useDefaultScalingMatrixFlag )
+void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int* useDefaultScalingMatrixFlag )
 {
     int j;
     if(scalingList == NULL)
@@ -214,7 +214,7 @@ void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int use
         {
             int delta_scale = bs_read_se(b);
             nextScale = ( lastScale + delta_scale + 256 ) % 256;
-            useDefaultScalingMatrixFlag = ( j == 0 && nextScale == 0 );
+            *useDefaultScalingMatrixFlag = ( j == 0 && nextScale == 0 );
         }
         scalingList[ j ] = ( nextScale == 0 ) ? lastScale : nextScale;
         lastScale = scalingList[ j ];
diff --git a/src/modules/transmitter/SPSparser/h264_stream.h b/src/modules/transmitter/SPSparser/h264_stream.h
index 99e134e..fc8e813 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.h
+++ b/src/modules/transmitter/SPSparser/h264_stream.h
@@ -58,11 +58,11 @@ typedef struct
     int bit_depth_chroma_minus8;
     int qpprime_y_zero_transform_bypass_flag;
     int seq_scaling_matrix_present_flag;
-      int seq_scaling_list_present_flag[8];
-      int* ScalingList4x4[6];
+      int seq_scaling_list_present_flag[12];
+      int ScalingList4x4[6][16];
       int UseDefaultScalingMatrix4x4Flag[6];
-      int* ScalingList8x8[2];
-      int UseDefaultScalingMatrix8x8Flag[2];
+      int ScalingList8x8[6][64];
+      int UseDefaultScalingMatrix8x8Flag[6];
     int log2_max_frame_num_minus4;
     int pic_order_cnt_type;
       int log2_max_pic_order_cnt_lsb_minus4;
@@ -148,7 +148,7 @@ typedef struct
 int nal_to_rbsp(const uint8_t* nal_buf, int* nal_size, uint8_t* rbsp_buf, int* rbsp_size);
 
 int read_seq_parameter_set_rbsp(sps_t* h, bs_t* b);
-void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int useDefaultScalingMatrixFlag );
+void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int* useDefaultScalingMatrixFlag );
 void read_vui_parameters(sps_t* h, bs_t* b);
 void read_hrd_parameters(sps_t* h, bs_t* b);
 
-- 
2.43.0


From 618e55657eb9af90f49498eace53b530a3f34a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:01 +0000
Subject: [PATCH 075/104] fix: frame rates that are not whole were rounded
 down, and unknown ones were garbage

---
 src/modules/transmitter/H264VideoStreamSampler.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/transmitter/H264VideoStreamSampler.cpp b/src/modules/transmitter/H264VideoStreamSampler.cpp
index d07b78f..47c3344 100644
--- a/src/modules/transmitter/H264VideoStreamSampler.cpp
+++ b/src/modules/transmitter/H264VideoStreamSampler.cpp
@@ -33,7 +33,7 @@ H264VideoStreamSampler* H264VideoStreamSampler::createNew(UsageEnvironment& env,
  H264VideoStreamSampler
 ::H264VideoStreamSampler(UsageEnvironment& env, FramedSource* inputSource, bool annexB)
   : H264or5VideoStreamFramer(264, env, inputSource, False/*don't create a parser*/, False),
-  offset(0), totalFrameSize(0), fAnnexB(annexB), fWidth(0), fHeight(0) {
+  offset(0), totalFrameSize(0), fAnnexB(annexB), fWidth(0), fHeight(0), fFrameRate(0) {
 }
 
 H264VideoStreamSampler::~H264VideoStreamSampler() {
@@ -122,8 +122,8 @@ void H264VideoStreamSampler::updateSPSInfo(unsigned char* NALstartPtr, int frame
 {
     uint32_t width = 0;
     uint32_t height = 0;
-    int timeScale = 0;
-    int num_units_in_tick = 0;
+    uint32_t timeScale = 0;
+    uint32_t num_units_in_tick = 0;
 
     sps_t* sps = (sps_t*)malloc(sizeof(sps_t));
     uint8_t* rbsp_buf = (uint8_t*)malloc(frameSize);
@@ -164,7 +164,7 @@ void H264VideoStreamSampler::updateSPSInfo(unsigned char* NALstartPtr, int frame
     }
 
     if (num_units_in_tick > 0) {
-        fFrameRate = timeScale/(2*num_units_in_tick);
+        fFrameRate = timeScale/(2.0*num_units_in_tick);
     }
 
     bs_free(b);
-- 
2.43.0


From 716e23de83f41800e635f4386a2c5885930365d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:36 +0000
Subject: [PATCH 076/104] fix: large exp-Golomb codes overflowed and came out
 with the wrong sign

---
 src/modules/transmitter/SPSparser/bs.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/modules/transmitter/SPSparser/bs.h b/src/modules/transmitter/SPSparser/bs.h
index c5087cd..285d6de 100644
--- a/src/modules/transmitter/SPSparser/bs.h
+++ b/src/modules/transmitter/SPSparser/bs.h
@@ -192,7 +192,7 @@ static inline uint32_t bs_read_u8(bs_t* b)
 
 static inline uint32_t bs_read_ue(bs_t* b)
 {
-    int32_t r = 0;
+    uint32_t r = 0;
     int i = 0;
 
     while( (bs_read_u1(b) == 0) && (i < 32) && (!bs_eof(b)) )
@@ -200,20 +200,21 @@ static inline uint32_t bs_read_ue(bs_t* b)
         i++;
     }
     r = bs_read_u(b, i);
-    r += (1 << i) - 1;
+    r += (uint32_t)(((uint64_t)1 << i) - 1);
     return r;
 }
 
 static inline int32_t bs_read_se(bs_t* b) 
 {
-    int32_t r = bs_read_ue(b);
-    if (r & 0x01)
+    uint32_t k = bs_read_ue(b);
+    int32_t r = k/2;
+    if (k & 0x01)
     {
-        r = (r+1)/2;
+        r = (uint32_t)r + 1;
     }
     else
     {
-        r = -(r/2);
+        r = -r;
     }
     return r;
 }
-- 
2.43.0


From e76d9098266508f6ec8ac92e4670bb1d3369bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:36 +0000
Subject: [PATCH 077/104] fix: a damaged picture order count cycle wrote past
 the parameter set

---
 src/modules/transmitter/SPSparser/h264_stream.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/transmitter/SPSparser/h264_stream.c b/src/modules/transmitter/SPSparser/h264_stream.c
index 1c34678..a7692c6 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.c
+++ b/src/modules/transmitter/SPSparser/h264_stream.c
@@ -163,6 +163,10 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
         sps->offset_for_non_ref_pic = bs_read_se(b);
         sps->offset_for_top_to_bottom_field = bs_read_se(b);
         sps->num_ref_frames_in_pic_order_cnt_cycle = bs_read_ue(b);
+        if( sps->num_ref_frames_in_pic_order_cnt_cycle < 0 || sps->num_ref_frames_in_pic_order_cnt_cycle > 255 )
+        {
+            return -1;
+        }
         for( i = 0; i < sps->num_ref_frames_in_pic_order_cnt_cycle; i++ )
         {
             sps->offset_for_ref_frame[ i ] = bs_read_se(b);
-- 
2.43.0


From 1a83c0d5c37521c3b20ee22d69566986d8140abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:01 +0000
Subject: [PATCH 078/104] fix: a damaged buffering model wrote past the
 parameter set

---
 .../transmitter/SPSparser/h264_stream.c       | 24 ++++++++++++-------
 .../transmitter/SPSparser/h264_stream.h       |  4 ++--
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/modules/transmitter/SPSparser/h264_stream.c b/src/modules/transmitter/SPSparser/h264_stream.c
index a7692c6..0d3e9dd 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.c
+++ b/src/modules/transmitter/SPSparser/h264_stream.c
@@ -191,9 +191,9 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
         sps->frame_crop_bottom_offset = bs_read_ue(b);
     }
     sps->vui_parameters_present_flag = bs_read_u1(b);
-    if( sps->vui_parameters_present_flag )
+    if( sps->vui_parameters_present_flag && read_vui_parameters(sps, b) < 0 )
     {
-        read_vui_parameters(sps, b);
+        return -1;
     }
     read_rbsp_trailing_bits(b);
 
@@ -226,7 +226,7 @@ void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int* us
 }
 
 //Appendix E.1.1 VUI parameters syntax
-void read_vui_parameters(sps_t* sps, bs_t* b)
+int read_vui_parameters(sps_t* sps, bs_t* b)
 {
 
     sps->vui.aspect_ratio_info_present_flag = bs_read_u1(b);
@@ -271,14 +271,14 @@ void read_vui_parameters(sps_t* sps, bs_t* b)
         sps->vui.fixed_frame_rate_flag = bs_read_u1(b);
     }
     sps->vui.nal_hrd_parameters_present_flag = bs_read_u1(b);
-    if( sps->vui.nal_hrd_parameters_present_flag )
+    if( sps->vui.nal_hrd_parameters_present_flag && read_hrd_parameters(sps, b) < 0 )
     {
-        read_hrd_parameters(sps, b);
+        return -1;
     }
     sps->vui.vcl_hrd_parameters_present_flag = bs_read_u1(b);
-    if( sps->vui.vcl_hrd_parameters_present_flag )
+    if( sps->vui.vcl_hrd_parameters_present_flag && read_hrd_parameters(sps, b) < 0 )
     {
-        read_hrd_parameters(sps, b);
+        return -1;
     }
     if( sps->vui.nal_hrd_parameters_present_flag || sps->vui.vcl_hrd_parameters_present_flag )
     {
@@ -296,15 +296,21 @@ void read_vui_parameters(sps_t* sps, bs_t* b)
         sps->vui.num_reorder_frames = bs_read_ue(b);
         sps->vui.max_dec_frame_buffering = bs_read_ue(b);
     }
+
+    return 0;
 }
 
 
 //Appendix E.1.2 HRD parameters syntax
-void read_hrd_parameters(sps_t* sps, bs_t* b)
+int read_hrd_parameters(sps_t* sps, bs_t* b)
 {
     int SchedSelIdx;
 
     sps->hrd.cpb_cnt_minus1 = bs_read_ue(b);
+    if( sps->hrd.cpb_cnt_minus1 < 0 || sps->hrd.cpb_cnt_minus1 > 31 )
+    {
+        return -1;
+    }
     sps->hrd.bit_rate_scale = bs_read_u(b,4);
     sps->hrd.cpb_size_scale = bs_read_u(b,4);
     for( SchedSelIdx = 0; SchedSelIdx <= sps->hrd.cpb_cnt_minus1; SchedSelIdx++ )
@@ -317,6 +323,8 @@ void read_hrd_parameters(sps_t* sps, bs_t* b)
     sps->hrd.cpb_removal_delay_length_minus1 = bs_read_u(b,5);
     sps->hrd.dpb_output_delay_length_minus1 = bs_read_u(b,5);
     sps->hrd.time_offset_length = bs_read_u(b,5);
+
+    return 0;
 }
 
 //7.3.2.11 RBSP trailing bits syntax
diff --git a/src/modules/transmitter/SPSparser/h264_stream.h b/src/modules/transmitter/SPSparser/h264_stream.h
index fc8e813..cd09e07 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.h
+++ b/src/modules/transmitter/SPSparser/h264_stream.h
@@ -149,8 +149,8 @@ int nal_to_rbsp(const uint8_t* nal_buf, int* nal_size, uint8_t* rbsp_buf, int* r
 
 int read_seq_parameter_set_rbsp(sps_t* h, bs_t* b);
 void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int* useDefaultScalingMatrixFlag );
-void read_vui_parameters(sps_t* h, bs_t* b);
-void read_hrd_parameters(sps_t* h, bs_t* b);
+int read_vui_parameters(sps_t* h, bs_t* b);
+int read_hrd_parameters(sps_t* h, bs_t* b);
 
 void read_rbsp_trailing_bits(bs_t* b);
 
-- 
2.43.0


From c62da3f388c419284b778d6f9771f2d915b9ce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:01 +0000
Subject: [PATCH 079/104] fix: cropping was taken in pairs of lines for any
 chroma format and interlacing

---
 src/modules/transmitter/H264VideoStreamSampler.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modules/transmitter/H264VideoStreamSampler.cpp b/src/modules/transmitter/H264VideoStreamSampler.cpp
index 47c3344..4e67d4e 100644
--- a/src/modules/transmitter/H264VideoStreamSampler.cpp
+++ b/src/modules/transmitter/H264VideoStreamSampler.cpp
@@ -151,8 +151,12 @@ void H264VideoStreamSampler::updateSPSInfo(unsigned char* NALstartPtr, int frame
     //NOTE: frame_mbs_only_flag = 1 --> only progressive frames
     //      frame_mbs_only_flag = 0 --> some type of interlacing (there are 3 types contemplated in the standard)
     if (sps->frame_cropping_flag){
-        width -= (sps->frame_crop_left_offset*2 + sps->frame_crop_right_offset*2);
-        height -= (sps->frame_crop_top_offset*2 + sps->frame_crop_bottom_offset*2);
+        //NOTE: cropping is given in chroma samples, and in lines of one field if interlacing is possible
+        int chroma = sps->residual_colour_transform_flag ? 0 : sps->chroma_format_idc;
+        int cropUnitX = (chroma == 1 || chroma == 2) ? 2 : 1;
+        int cropUnitY = (chroma == 1 ? 2 : 1) * (2 - sps->frame_mbs_only_flag);
+        width -= cropUnitX*(sps->frame_crop_left_offset + sps->frame_crop_right_offset);
+        height -= cropUnitY*(sps->frame_crop_top_offset + sps->frame_crop_bottom_offset);
     }
 
     if(width > 0){
-- 
2.43.0


From 3cffbb48fc295bead090fdb6ac72b718b4a8e77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:54 +0000
Subject: [PATCH 080/104] fix: a picture that filled the buffer to within a
 start code wrote past it

---
 src/modules/transmitter/H264VideoStreamSampler.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/modules/transmitter/H264VideoStreamSampler.cpp b/src/modules/transmitter/H264VideoStreamSampler.cpp
index 4e67d4e..2e75b25 100644
--- a/src/modules/transmitter/H264VideoStreamSampler.cpp
+++ b/src/modules/transmitter/H264VideoStreamSampler.cpp
@@ -40,6 +40,15 @@ H264VideoStreamSampler::~H264VideoStreamSampler() {
 }
 
 void H264VideoStreamSampler::doGetNextFrame() {
+    if (fMaxSize < offset + NAL_START_SIZE) {
+        envir() << "H264VideoStreamSampler error: Frame buffer too small\n";
+        fFrameSize = offset;
+        fNumTruncatedBytes = offset + NAL_START_SIZE - fMaxSize;
+        resetInternalValues();
+        afterGetting(this);
+        return;
+    }
+
     fInputSource->getNextFrame(fTo + offset + NAL_START_SIZE, fMaxSize - offset - NAL_START_SIZE,
                                afterGettingFrame, this, FramedSource::handleClosure, this);
 }
-- 
2.43.0


From 8f77a767718f6c06b0777b57c76ff5f41e6c3368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:13 +0000
Subject: [PATCH 081/104] fix: a damaged scaling list overflowed

---
 src/modules/transmitter/SPSparser/h264_stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/transmitter/SPSparser/h264_stream.c b/src/modules/transmitter/SPSparser/h264_stream.c
index 0d3e9dd..bb8e593 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.c
+++ b/src/modules/transmitter/SPSparser/h264_stream.c
@@ -217,7 +217,7 @@ void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int* us
         if( nextScale != 0 )
         {
             int delta_scale = bs_read_se(b);
-            nextScale = ( lastScale + delta_scale + 256 ) % 256;
+            nextScale = ( (uint32_t)lastScale + delta_scale ) % 256;
             *useDefaultScalingMatrixFlag = ( j == 0 && nextScale == 0 );
         }
         scalingList[ j ] = ( nextScale == 0 ) ? lastScale : nextScale;
-- 
2.43.0


From 309638bf4cb3016689ea42cc3c8e05678c9e30b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:32 +0000
Subject: [PATCH 082/104] fix: the size in a damaged parameter set overflowed

---
 src/modules/transmitter/H264VideoStreamSampler.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/transmitter/H264VideoStreamSampler.cpp b/src/modules/transmitter/H264VideoStreamSampler.cpp
index 2e75b25..d5d91ec 100644
--- a/src/modules/transmitter/H264VideoStreamSampler.cpp
+++ b/src/modules/transmitter/H264VideoStreamSampler.cpp
@@ -155,8 +155,8 @@ void H264VideoStreamSampler::updateSPSInfo(unsigned char* NALstartPtr, int frame
     timeScale = sps->vui.time_scale;
     num_units_in_tick = sps->vui.num_units_in_tick;
 
-    width = (sps->pic_width_in_mbs_minus1 + 1) * 16;
-    height = (2 - sps->frame_mbs_only_flag) * (sps->pic_height_in_map_units_minus1 + 1) * 16;
+    width = ((uint32_t)sps->pic_width_in_mbs_minus1 + 1) * 16;
+    height = (2 - sps->frame_mbs_only_flag) * ((uint32_t)sps->pic_height_in_map_units_minus1 + 1) * 16;
     //NOTE: frame_mbs_only_flag = 1 --> only progressive frames
     //      frame_mbs_only_flag = 0 --> some type of interlacing (there are 3 types contemplated in the standard)
     if (sps->frame_cropping_flag){
@@ -164,8 +164,8 @@ void H264VideoStreamSampler::updateSPSInfo(unsigned char* NALstartPtr, int frame
         int chroma = sps->residual_colour_transform_flag ? 0 : sps->chroma_format_idc;
         int cropUnitX = (chroma == 1 || chroma == 2) ? 2 : 1;
         int cropUnitY = (chroma == 1 ? 2 : 1) * (2 - sps->frame_mbs_only_flag);
-        width -= cropUnitX*(sps->frame_crop_left_offset + sps->frame_crop_right_offset);
-        height -= cropUnitY*(sps->frame_crop_top_offset + sps->frame_crop_bottom_offset);
+        width -= cropUnitX*((uint32_t)sps->frame_crop_left_offset + sps->frame_crop_right_offset);
+        height -= cropUnitY*((uint32_t)sps->frame_crop_top_offset + sps->frame_crop_bottom_offset);
     }
 
     if(width > 0){
-- 
2.43.0


From 3f7e0eb156c66df7ea363e45f5285266eaaa223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:16 +0000
Subject: [PATCH 083/104] fix: the AAC configuration string overflowed its two
 bytes

---
 src/modules/transmitter/ADTSStreamParser.cpp | 2 +-
 src/modules/transmitter/ADTSStreamParser.hh  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/transmitter/ADTSStreamParser.cpp b/src/modules/transmitter/ADTSStreamParser.cpp
index 59bfce5..4ecb088 100644
--- a/src/modules/transmitter/ADTSStreamParser.cpp
+++ b/src/modules/transmitter/ADTSStreamParser.cpp
@@ -36,7 +36,7 @@ ADTSStreamParser* ADTSStreamParser::createNew(UsageEnvironment& env, FramedSourc
 ADTSStreamParser::ADTSStreamParser(UsageEnvironment& env, FramedSource* inputSource) : 
 FramedFilter(env, inputSource)
 {
-
+    configString[0] = '\0';
 }
 
 ADTSStreamParser::~ADTSStreamParser() {
diff --git a/src/modules/transmitter/ADTSStreamParser.hh b/src/modules/transmitter/ADTSStreamParser.hh
index f94ea2b..9e3271b 100644
--- a/src/modules/transmitter/ADTSStreamParser.hh
+++ b/src/modules/transmitter/ADTSStreamParser.hh
@@ -66,7 +66,7 @@ private:
     unsigned char getMetadata1stByte(unsigned char audioObjectType, unsigned char samplingFrequencyIndex);
     unsigned char getMetadata2ndByte(unsigned char samplingFrequencyIndex, unsigned char channelConfiguration);
     
-    char configString[2];
+    char configString[5];
 
 };
 
-- 
2.43.0


From 8b03f4ba039e5a5382cb3594d4861ac4bb8ee1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:16 +0000
Subject: [PATCH 084/104] fix: the AAC configuration of more than three
 channels named fewer

---
 src/modules/transmitter/ADTSStreamParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/transmitter/ADTSStreamParser.cpp b/src/modules/transmitter/ADTSStreamParser.cpp
index 4ecb088..31d2ef0 100644
--- a/src/modules/transmitter/ADTSStreamParser.cpp
+++ b/src/modules/transmitter/ADTSStreamParser.cpp
@@ -116,7 +116,7 @@ unsigned char ADTSStreamParser::getSamplingFreqIdxFromADTSHeader(unsigned char*
 
 unsigned char ADTSStreamParser::getChannelConfFromADTSHeader(unsigned char* adtsHeader)
 {
-    return (adtsHeader[2] & 0x01) | ((adtsHeader[3] >> 6) & 0x03);
+    return ((adtsHeader[2] & 0x01) << 2) | ((adtsHeader[3] >> 6) & 0x03);
 }
 
 unsigned char ADTSStreamParser::getMetadata1stByte(unsigned char audioObjectType, unsigned char samplingFrequencyIndex)
-- 
2.43.0


From 508d6ab592673e4dd4070a17d140e58052c09075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:16 +0000
Subject: [PATCH 085/104] fix: a video source delivered a frame again until the
 pipeline took it back

---
 src/modules/transmitter/H264or5QueueSource.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/transmitter/H264or5QueueSource.cpp b/src/modules/transmitter/H264or5QueueSource.cpp
index 81f7287..42bb489 100644
--- a/src/modules/transmitter/H264or5QueueSource.cpp
+++ b/src/modules/transmitter/H264or5QueueSource.cpp
@@ -157,7 +157,7 @@ void H264or5QueueSource::deliverFrame()
         return; 
     }
     
-    if (!frame) {
+    if (!frame || processedFrame) {
         return;
     }
     
-- 
2.43.0


From 97827667cc29947ed7ccaa9c47ca709881b63fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:16 +0000
Subject: [PATCH 086/104] fix: start codes were looked for beyond the end of
 frames and extradata

---
 src/modules/transmitter/H264or5QueueSource.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/modules/transmitter/H264or5QueueSource.cpp b/src/modules/transmitter/H264or5QueueSource.cpp
index 42bb489..4e926ac 100644
--- a/src/modules/transmitter/H264or5QueueSource.cpp
+++ b/src/modules/transmitter/H264or5QueueSource.cpp
@@ -39,11 +39,17 @@
 #define SPS_AVC 7
 #define PPS_AVC 8
 
-uint8_t startOffset(unsigned char const* ptr) {
+uint8_t startOffset(unsigned char const* ptr, int size) {
+    if (size < SHORT_START_LENGTH) {
+        return 0;
+    }
     u_int32_t bytes = 0|(ptr[0]<<16)|(ptr[1]<<8)|ptr[2];
     if (bytes == START_CODE) {
         return SHORT_START_LENGTH;
     }
+    if (size < LONG_START_LENGTH) {
+        return 0;
+    }
     bytes = (ptr[0]<<24)|(ptr[1]<<16)|(ptr[2]<<8)|ptr[3];
     if (bytes == START_CODE) {
         return LONG_START_LENGTH;
@@ -89,14 +95,14 @@ bool H264or5QueueSource::parseExtradata()
         return false;
     }
     
-    if ((offset = startOffset(si->extradata)) > 0){
+    if ((offset = startOffset(si->extradata, si->extradata_size)) > 0){
         nalStart = offset;
         while (offset < si->extradata_size){
-            if (startOffset(si->extradata + offset) > 0){
+            if (startOffset(si->extradata + offset, si->extradata_size - offset) > 0){
                 nal = new uint8_t[offset - nalStart];
                 memcpy(nal, si->extradata + nalStart, offset - nalStart);
                 feedHeaders(nal, offset - nalStart, si->video.codec);
-                offset += startOffset(si->extradata + offset);
+                offset += startOffset(si->extradata + offset, si->extradata_size - offset);
                 nalStart = offset;
             } else {
                 offset++;
@@ -168,7 +174,7 @@ void H264or5QueueSource::deliverFrame()
     size = frame->getLength();
     buff = frame->getDataBuf();
 
-    offset = startOffset(buff);
+    offset = startOffset(buff, size);
     
     buff = frame->getDataBuf() + offset;
     size = size - offset;
-- 
2.43.0


From d58719b5236ac0e3906b5681b5a3453c905867d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:16 +0000
Subject: [PATCH 087/104] fix: parameter sets longer than 255 bytes were cut

---
 src/modules/transmitter/H264or5QueueSource.cpp | 2 +-
 src/modules/transmitter/H264or5QueueSource.hh  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/transmitter/H264or5QueueSource.cpp b/src/modules/transmitter/H264or5QueueSource.cpp
index 4e926ac..fb3ed93 100644
--- a/src/modules/transmitter/H264or5QueueSource.cpp
+++ b/src/modules/transmitter/H264or5QueueSource.cpp
@@ -124,7 +124,7 @@ bool H264or5QueueSource::parseExtradata()
     return false;
 }
 
-void H264or5QueueSource::feedHeaders(uint8_t *nal, uint8_t nalSize, VCodecType codec)
+void H264or5QueueSource::feedHeaders(uint8_t *nal, unsigned nalSize, VCodecType codec)
 {
     uint8_t nalType;
     
diff --git a/src/modules/transmitter/H264or5QueueSource.hh b/src/modules/transmitter/H264or5QueueSource.hh
index e73ecf0..c0cee9d 100644
--- a/src/modules/transmitter/H264or5QueueSource.hh
+++ b/src/modules/transmitter/H264or5QueueSource.hh
@@ -47,7 +47,7 @@ protected:
     H264or5QueueSource(UsageEnvironment& env, const StreamInfo *streamInfo);
     ~H264or5QueueSource();
     
-    void feedHeaders(uint8_t *nal, uint8_t nalSize, VCodecType codec);
+    void feedHeaders(uint8_t *nal, unsigned nalSize, VCodecType codec);
     
     void deliverFrame();
     
-- 
2.43.0


From 49a7682f4503e573bc4bb3fef06bc1fc9c8e894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:42 +0000
Subject: [PATCH 088/104] fix: NAL units of the extradata were leaked, and an
 empty one was read

---
 .../transmitter/H264or5QueueSource.cpp        | 48 +++++++++++--------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/modules/transmitter/H264or5QueueSource.cpp b/src/modules/transmitter/H264or5QueueSource.cpp
index fb3ed93..2b76f86 100644
--- a/src/modules/transmitter/H264or5QueueSource.cpp
+++ b/src/modules/transmitter/H264or5QueueSource.cpp
@@ -72,17 +72,9 @@ H264or5QueueSource::H264or5QueueSource(UsageEnvironment& env, const StreamInfo *
 
 H264or5QueueSource::~H264or5QueueSource()
 {
-    if(fVPS){
-        delete fVPS;
-    }
-    
-    if (fSPS){
-        delete fSPS;
-    }
-    
-    if (fPPS){
-        delete fPPS;
-    }
+    delete[] fVPS;
+    delete[] fSPS;
+    delete[] fPPS;
 }
 
 bool H264or5QueueSource::parseExtradata()
@@ -124,37 +116,51 @@ bool H264or5QueueSource::parseExtradata()
     return false;
 }
 
+static void storeHeader(uint8_t *&dst, unsigned &dstSize, uint8_t *nal, unsigned nalSize)
+{
+    delete[] dst;
+    dst = nal;
+    dstSize = nalSize;
+}
+
 void H264or5QueueSource::feedHeaders(uint8_t *nal, unsigned nalSize, VCodecType codec)
 {
     uint8_t nalType;
     
+    if (nalSize == 0) {
+        delete[] nal;
+        return;
+    }
+    
     switch (codec){
         case H264:
             nalType = nal[0] & H264_NALU_TYPE_MASK;
             if (nalType == SPS_AVC) {
-                fSPS = nal;
-                fSPSSize = nalSize;
+                storeHeader(fSPS, fSPSSize, nal, nalSize);
+                return;
             } else if (nalType == PPS_AVC) {
-                fPPS = nal;
-                fPPSSize = nalSize;
+                storeHeader(fPPS, fPPSSize, nal, nalSize);
+                return;
             }
             break;
         case H265:
             nalType = (nal[0] & H265_NALU_TYPE_MASK) >> 1;
             if (nalType == SPS_HEVC) {
-                fSPS = nal;
-                fSPSSize = nalSize;
+                storeHeader(fSPS, fSPSSize, nal, nalSize);
+                return;
             } else if (nalType == PPS_HEVC) {
-                fPPS = nal;
-                fPPSSize = nalSize;
+                storeHeader(fPPS, fPPSSize, nal, nalSize);
+                return;
             } else if (nalType == VPS) {
-                fVPS = nal;
-                fVPSSize = nalSize;
+                storeHeader(fVPS, fVPSSize, nal, nalSize);
+                return;
             }
             break;
         default:
             break;
     }
+    
+    delete[] nal;
 }
 
 void H264or5QueueSource::deliverFrame()
-- 
2.43.0


From 2f61d2ff98387e400ee1dfab34623c37124efcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:42 +0000
Subject: [PATCH 089/104] fix: a closed source kept its event trigger, which
 runs out and fires after it

---
 src/modules/transmitter/QueueSource.cpp | 5 +++++
 src/modules/transmitter/QueueSource.hh  | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/modules/transmitter/QueueSource.cpp b/src/modules/transmitter/QueueSource.cpp
index aa71fc8..6281742 100644
--- a/src/modules/transmitter/QueueSource.cpp
+++ b/src/modules/transmitter/QueueSource.cpp
@@ -15,6 +15,11 @@ QueueSource::QueueSource(UsageEnvironment& env, const StreamInfo* streamInfo)
     }
 }
 
+QueueSource::~QueueSource()
+{
+    envir().taskScheduler().deleteEventTrigger(eventTriggerId);
+}
+
 void QueueSource::doGetNextFrame() 
 {
     //TODO: check status, i.e. client disconnected!
diff --git a/src/modules/transmitter/QueueSource.hh b/src/modules/transmitter/QueueSource.hh
index 90a8763..1ee3145 100644
--- a/src/modules/transmitter/QueueSource.hh
+++ b/src/modules/transmitter/QueueSource.hh
@@ -20,6 +20,7 @@ public:
 protected:
     void doGetNextFrame();
     QueueSource(UsageEnvironment& env, const StreamInfo* streamInfo);
+    virtual ~QueueSource();
     static void deliverFrame0(void* clientData);
     virtual void deliverFrame();
     void doStopGettingFrames();
-- 
2.43.0


From a26b6e454d0ed9ac64524ebee08073cfcd0dbbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 090/104] fix: the first frame received after connecting a
 writer was garbage

---
 src/modules/receiver/QueueSink.cpp | 12 +++++++++++-
 src/modules/receiver/QueueSink.hh  |  1 +
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/modules/receiver/QueueSink.cpp b/src/modules/receiver/QueueSink.cpp
index 55f4cf2..7eb56a1 100644
--- a/src/modules/receiver/QueueSink.cpp
+++ b/src/modules/receiver/QueueSink.cpp
@@ -24,10 +24,11 @@
 #include "QueueSink.hh"
 #include "../../Utils.hh"
 
+#include <cstring>
 #include <sys/time.h>
 
 QueueSink::QueueSink(UsageEnvironment& env, unsigned port, FramedFilter* filter)
-  : MediaSink(env), fPort(port), nextFrame(true), fFilter(filter)
+  : MediaSink(env), fPort(port), nextFrame(true), dummyRead(false), fFilter(filter)
 {
     frame = NULL;
     dummyBuffer = new unsigned char[DUMMY_RECEIVE_BUFFER_SIZE];
@@ -52,6 +53,7 @@ Boolean QueueSink::continuePlaying()
 
     if (!frame){
         utils::debugMsg("Using dummy buffer, no writer connected yet");
+        dummyRead = true;
         fSource->getNextFrame(dummyBuffer, DUMMY_RECEIVE_BUFFER_SIZE,
                               afterGettingFrame, this,
                               onSourceClosure, this);
@@ -65,6 +67,7 @@ Boolean QueueSink::continuePlaying()
     }
 
 
+    dummyRead = false;
     fSource->getNextFrame(frame->getDataBuf(), frame->getMaxLength(),
               afterGettingFrame, this,
               onSourceClosure, this);
@@ -86,6 +89,13 @@ void QueueSink::afterGettingFrame(unsigned frameSize, struct timeval presentatio
     std::chrono::microseconds ts = std::chrono::microseconds(presentationTime.tv_sec * std::micro::den + presentationTime.tv_usec);
 
     if (frame != NULL) {
+        if (dummyRead) {
+            // the writer was connected while this read was under way
+            if (frameSize > frame->getMaxLength()) {
+                frameSize = frame->getMaxLength();
+            }
+            memcpy(frame->getDataBuf(), dummyBuffer, frameSize);
+        }
         frame->setLength(frameSize);
         frame->setPresentationTime(ts);
         frame->setDecodeTime(NO_DTS);
diff --git a/src/modules/receiver/QueueSink.hh b/src/modules/receiver/QueueSink.hh
index b67343d..230e4d7 100644
--- a/src/modules/receiver/QueueSink.hh
+++ b/src/modules/receiver/QueueSink.hh
@@ -83,6 +83,7 @@ protected:
     
     unsigned char *dummyBuffer;
     bool nextFrame;
+    bool dummyRead;
     FramedFilter* fFilter;
 };
 
-- 
2.43.0


From c2b920a5e03912cf0498a437b121016f04f8f95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 091/104] fix: a receiver reconnected while reading got no more
 frames and wrote into the old one

---
 src/modules/receiver/QueueSink.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/modules/receiver/QueueSink.cpp b/src/modules/receiver/QueueSink.cpp
index 7eb56a1..e68b8b5 100644
--- a/src/modules/receiver/QueueSink.cpp
+++ b/src/modules/receiver/QueueSink.cpp
@@ -123,5 +123,13 @@ bool QueueSink::setFrame(Frame *f){
 
 void QueueSink::disconnect()
 {
-  frame = NULL;
+    if (frame && !nextFrame && !dummyRead && fSource && fSource->isCurrentlyAwaitingData()) {
+        // the read under way must not write into the frame any more
+        fSource->stopGettingFrames();
+        envir().taskScheduler().unscheduleDelayedTask(nextTask());
+        nextTask() = envir().taskScheduler().scheduleDelayedTask(0,
+            (TaskFunc*)QueueSink::staticContinuePlaying, this);
+    }
+    frame = NULL;
+    nextFrame = true;
 }
-- 
2.43.0


From 7ea50a5e0fc0e4a696b84f79f0d4df819643bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 092/104] fix: more than 128 bytes of parameter sets from a
 session description overflowed

---
 src/modules/receiver/H264VideoSdpParser.cpp | 8 ++++----
 src/modules/receiver/H264VideoSdpParser.hh  | 9 ++++-----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/modules/receiver/H264VideoSdpParser.cpp b/src/modules/receiver/H264VideoSdpParser.cpp
index 2fc2ef6..8d076f3 100644
--- a/src/modules/receiver/H264VideoSdpParser.cpp
+++ b/src/modules/receiver/H264VideoSdpParser.cpp
@@ -33,7 +33,7 @@ H264VideoSdpParser* H264VideoSdpParser::createNew(UsageEnvironment& env, FramedS
 }
 
  H264VideoSdpParser::H264VideoSdpParser(UsageEnvironment& env, FramedSource* inputSource, char const* sPropParameterSetsStr)
-  : FramedFilter(env, inputSource), injectedMetadataNALs(0), extradataSize(0)
+  : FramedFilter(env, inputSource), injectedMetadataNALs(0)
 {
     sPropRecords = parseSPropParameterSets(sPropParameterSetsStr, numSPropRecords);
 }
@@ -46,9 +46,9 @@ H264VideoSdpParser::~H264VideoSdpParser()
 void H264VideoSdpParser::doGetNextFrame() 
 {
     if (injectedMetadataNALs < numSPropRecords) {
-        memmove(extradata + extradataSize, startCode, sizeof(startCode));
-        memmove(extradata + sizeof(startCode) + extradataSize, sPropRecords[injectedMetadataNALs].sPropBytes, sPropRecords[injectedMetadataNALs].sPropLength);
-        extradataSize += sizeof(startCode) + sPropRecords[injectedMetadataNALs].sPropLength;
+        const SPropRecord &record = sPropRecords[injectedMetadataNALs];
+        extradata.insert(extradata.end(), startCode, startCode + sizeof(startCode));
+        extradata.insert(extradata.end(), record.sPropBytes, record.sPropBytes + record.sPropLength);
         fNumTruncatedBytes = 0;
         injectedMetadataNALs++;
         afterGetting(this);
diff --git a/src/modules/receiver/H264VideoSdpParser.hh b/src/modules/receiver/H264VideoSdpParser.hh
index 4255b4b..b549b34 100644
--- a/src/modules/receiver/H264VideoSdpParser.hh
+++ b/src/modules/receiver/H264VideoSdpParser.hh
@@ -25,7 +25,7 @@
 
 #include <FramedFilter.hh>
 #include <H264VideoRTPSource.hh> // for "parseSPropParameterSets()"
-#define MAX_EXTRADATA_SIZE 128
+#include <vector>
 
 /*! An AAC ADTS header parser, which constructs the Audio Specific Config string from extracted information */
 
@@ -43,12 +43,12 @@ public:
     /**
     * @return Pointer to the parsed headers from sdp, mainly SPS and PPS
     */
-    unsigned char* getExtradata() {return extradata;};
+    unsigned char* getExtradata() {return extradata.data();};
     
     /**
      * @return number of bytes filled in extradata buffer
      */
-    unsigned getExtradataSize() {return extradataSize;};
+    unsigned getExtradataSize() {return extradata.size();};
 
 protected:
     H264VideoSdpParser(UsageEnvironment& env, FramedSource* inputSource, char const* sPropParameterSetsStr);
@@ -71,8 +71,7 @@ private:
     unsigned numSPropRecords;
     unsigned injectedMetadataNALs;
     
-    unsigned char extradata[MAX_EXTRADATA_SIZE];
-    unsigned extradataSize;
+    std::vector<unsigned char> extradata;
 };
 
 #endif
\ No newline at end of file
-- 
2.43.0


From 3fab93837229d7e4c59d53e0c34ab15fd1b713c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 093/104] fix: each parameter set of a session description put
 an empty frame in the pipeline

---
 src/modules/receiver/H264VideoSdpParser.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/modules/receiver/H264VideoSdpParser.cpp b/src/modules/receiver/H264VideoSdpParser.cpp
index 8d076f3..5b00723 100644
--- a/src/modules/receiver/H264VideoSdpParser.cpp
+++ b/src/modules/receiver/H264VideoSdpParser.cpp
@@ -45,17 +45,15 @@ H264VideoSdpParser::~H264VideoSdpParser()
 
 void H264VideoSdpParser::doGetNextFrame() 
 {
-    if (injectedMetadataNALs < numSPropRecords) {
+    while (injectedMetadataNALs < numSPropRecords) {
         const SPropRecord &record = sPropRecords[injectedMetadataNALs];
         extradata.insert(extradata.end(), startCode, startCode + sizeof(startCode));
         extradata.insert(extradata.end(), record.sPropBytes, record.sPropBytes + record.sPropLength);
-        fNumTruncatedBytes = 0;
         injectedMetadataNALs++;
-        afterGetting(this);
-    } else {
-        fInputSource->getNextFrame(fTo + sizeof(startCode), fMaxSize - sizeof(startCode), 
-                                    afterGettingFrame, this, FramedSource::handleClosure, this);
-    }  
+    }
+    
+    fInputSource->getNextFrame(fTo + sizeof(startCode), fMaxSize - sizeof(startCode), 
+                               afterGettingFrame, this, FramedSource::handleClosure, this);
 }
 
 void H264VideoSdpParser
-- 
2.43.0


From c1aeeeb437bd53098f0ad37afacdbdd0980aa90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 094/104] fix: the parameter sets of a session description were
 leaked

---
 src/modules/receiver/H264VideoSdpParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/receiver/H264VideoSdpParser.cpp b/src/modules/receiver/H264VideoSdpParser.cpp
index 5b00723..d0174a2 100644
--- a/src/modules/receiver/H264VideoSdpParser.cpp
+++ b/src/modules/receiver/H264VideoSdpParser.cpp
@@ -40,7 +40,7 @@ H264VideoSdpParser* H264VideoSdpParser::createNew(UsageEnvironment& env, FramedS
 
 H264VideoSdpParser::~H264VideoSdpParser() 
 {
-    
+    delete[] sPropRecords;
 }
 
 void H264VideoSdpParser::doGetNextFrame() 
-- 
2.43.0


From 0c43a17261d04f0ca41fff247b0070cf63e413d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 095/104] fix: the first UltraGrid fragment copied the whole
 picture past the packet buffer

---
 src/modules/transmitter/UltraGridVideoRTPSink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/transmitter/UltraGridVideoRTPSink.cpp b/src/modules/transmitter/UltraGridVideoRTPSink.cpp
index fa6fadb..6311c2e 100644
--- a/src/modules/transmitter/UltraGridVideoRTPSink.cpp
+++ b/src/modules/transmitter/UltraGridVideoRTPSink.cpp
@@ -277,7 +277,7 @@ void UltraGridVideoFragmenter::doGetNextFrame() {
 
 		loadPayloadHeader(fTo, fMainUltraGridHeader, UG_PAYLOAD_HEADER_SIZE);
 
-		memmove(fTo + UG_PAYLOAD_HEADER_SIZE, fInputBuffer, fNumValidDataBytes + UG_PAYLOAD_HEADER_SIZE);
+		memmove(fTo + UG_PAYLOAD_HEADER_SIZE, fInputBuffer, numBytesToSend - UG_PAYLOAD_HEADER_SIZE);
 
 		fFrameSize = numBytesToSend;
 		fCurDataOffset += numBytesToSend -UG_PAYLOAD_HEADER_SIZE;
-- 
2.43.0


From b2f575f982eccc1c6b967bd95cf41425b788f915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 096/104] fix: audio blocks larger than a packet ended the
 process when sent to UltraGrid

---
 src/modules/transmitter/UltraGridAudioRTPSink.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/modules/transmitter/UltraGridAudioRTPSink.cpp b/src/modules/transmitter/UltraGridAudioRTPSink.cpp
index 5ec4a89..60d18f0 100644
--- a/src/modules/transmitter/UltraGridAudioRTPSink.cpp
+++ b/src/modules/transmitter/UltraGridAudioRTPSink.cpp
@@ -95,7 +95,7 @@ void UltraGridAudioRTPSink
         tmp |= fBufferIDx; /* bits 10-31 */
         audio_hdr[0] = htonl(tmp);
 
-        audio_hdr[2] = htonl(numBytesInFrame);
+        audio_hdr[2] = htonl(fragmentationOffset + numBytesInFrame + numRemainingBytes);
 
         /* fourth word */
         tmp = fBPS << 26;
@@ -106,7 +106,6 @@ void UltraGridAudioRTPSink
         audio_hdr[4] = htonl(fAudio_tag);
         /*word 5*/
         audio_hdr[1] = htonl(fragmentationOffset);
-        assert(fragmentationOffset == 0); // not tested
 
         setSpecialHeaderBytes((unsigned char *) audio_hdr, sizeof audio_hdr);
 
@@ -118,7 +117,7 @@ void UltraGridAudioRTPSink
 		}
 
         if (fAudio_tag == 0x1 && fBPS == 16) {
-                for (unsigned int i = 0; i < numBytesInFrame; i+=2) {
+                for (unsigned int i = 0; i + 1 < numBytesInFrame; i+=2) {
                         unsigned char sample1 = frameStart[0];
                         unsigned char sample2 = frameStart[1];
                         frameStart[0] = sample2;
-- 
2.43.0


From 99e04b7598e891861ce2fcb4eadb8fdc3eb45b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:39 +0000
Subject: [PATCH 097/104] fix: a session description without parameter sets
 left a lone start code as extradata

---
 src/modules/receiver/H264VideoSdpParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/receiver/H264VideoSdpParser.cpp b/src/modules/receiver/H264VideoSdpParser.cpp
index d0174a2..bc7aa3b 100644
--- a/src/modules/receiver/H264VideoSdpParser.cpp
+++ b/src/modules/receiver/H264VideoSdpParser.cpp
@@ -47,8 +47,10 @@ void H264VideoSdpParser::doGetNextFrame()
 {
     while (injectedMetadataNALs < numSPropRecords) {
         const SPropRecord &record = sPropRecords[injectedMetadataNALs];
-        extradata.insert(extradata.end(), startCode, startCode + sizeof(startCode));
-        extradata.insert(extradata.end(), record.sPropBytes, record.sPropBytes + record.sPropLength);
+        if (record.sPropLength > 0) {
+            extradata.insert(extradata.end(), startCode, startCode + sizeof(startCode));
+            extradata.insert(extradata.end(), record.sPropBytes, record.sPropBytes + record.sPropLength);
+        }
         injectedMetadataNALs++;
     }
     
-- 
2.43.0


From ddb3d99f358c79c95f1fa9b8b0f9597115206679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:46 +0000
Subject: [PATCH 098/104] fix: a stream ending before its picture size is known
 crashed the UltraGrid sender

---
 src/modules/transmitter/UltraGridVideoRTPSink.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/transmitter/UltraGridVideoRTPSink.cpp b/src/modules/transmitter/UltraGridVideoRTPSink.cpp
index 6311c2e..671decb 100644
--- a/src/modules/transmitter/UltraGridVideoRTPSink.cpp
+++ b/src/modules/transmitter/UltraGridVideoRTPSink.cpp
@@ -131,7 +131,7 @@ Boolean UltraGridVideoRTPSink::continuePlaying()
 Boolean UltraGridVideoRTPSink::continuePlayingDummy()
 {
 	fSource->getNextFrame(fDummyBuf, UG_FRAME_MAX_SIZE,
-                          afterGettingFrameDummy, this, FramedSource::handleClosure, this);
+                          afterGettingFrameDummy, this, onSourceClosure, this);
 	return True;
 }
 
@@ -154,7 +154,7 @@ void UltraGridVideoRTPSink
 
     if (sampler->getWidth() <= 0 || sampler->getHeight() <= 0){
         fSource->getNextFrame(fDummyBuf, UG_FRAME_MAX_SIZE,
-                          afterGettingFrameDummy, this, FramedSource::handleClosure, this);
+                          afterGettingFrameDummy, this, onSourceClosure, this);
     } else {
         validVideoSize = True;
         continuePlaying();
-- 
2.43.0


From 8122e57152f8d569f1743644647426968d1dd3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:09 +0000
Subject: [PATCH 099/104] fix: the first pictures encoded with B frames had
 decode time zero

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 16 ++++++++++++++--
 src/modules/videoEncoder/VideoEncoderX264or5.hh  |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 54cdf80..b541592 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -100,15 +100,27 @@ bool VideoEncoderX264or5::doProcessFrame(Frame *org, Frame *dst)
     
     dst->setConsumed(true);
     dst->setPresentationTime(qFTP[outPts].pTime);
-    dst->setDecodeTime(qFTP[dts].pTime);
+    dst->setDecodeTime(decodeTime());
     dst->setOriginTime(qFTP[outPts].oTime);
     dst->setSequenceNumber(qFTP[outPts].seqNum);
     
-    qFTP.erase(dts);
+    qFTP.erase(qFTP.begin(), qFTP.upper_bound(dts));
     
     return true;
 }
 
+std::chrono::microseconds VideoEncoderX264or5::decodeTime()
+{
+    //NOTE: with B frames the first decode time stamps come before any picture
+    auto it = qFTP.upper_bound(dts);
+
+    if (it != qFTP.begin()) {
+        it--;
+    }
+
+    return it->second.pTime;
+}
+
 //TODO: this should be done without libav
 bool VideoEncoderX264or5::fill_x264or5_picture(VideoFrame* videoFrame)
 {
diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.hh b/src/modules/videoEncoder/VideoEncoderX264or5.hh
index e7058ac..2e96a47 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.hh
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.hh
@@ -104,6 +104,7 @@ private:
     bool setGopReferenceTimeEvent(Jzon::Node* params);
     bool forceIntraEvent(Jzon::Node* params);
     bool configEvent(Jzon::Node* params);
+    std::chrono::microseconds decodeTime();
     void doGetState(Jzon::Object &filterNode);
     
     //There is no need of specific reader configuration
-- 
2.43.0


From ce621b1f2ac43b521f79eb497e60a8ba22ffb8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:58 +0000
Subject: [PATCH 100/104] fix: 4:2:2 and 4:4:4 pictures could not be encoded to
 H.264

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index cae7b1b..87fbf53 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -128,6 +128,7 @@ FrameQueue* VideoEncoderX264::allocQueue(ConnectionData cData)
 bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
 {
     int colorspace;
+    std::string profile;
 
     if (!needsConfig && orgFrame->getWidth() == xparams.i_width &&
         orgFrame->getHeight() == xparams.i_height && orgFrame->getPixelFormat() == inPixFmt) {
@@ -139,14 +140,17 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
         case YUV420P:
             libavInPixFmt = AV_PIX_FMT_YUV420P;
             colorspace = X264_CSP_I420;
+            profile = "high";
             break;
         case YUV422P:
             libavInPixFmt = AV_PIX_FMT_YUV422P;
             colorspace = X264_CSP_I422;
+            profile = "high422";
             break;
         case YUV444P:
             libavInPixFmt = AV_PIX_FMT_YUV444P;
             colorspace = X264_CSP_I444;
+            profile = "high444";
             break;
         default:
             utils::errorMsg("Uncompatibe input pixel format");
@@ -158,7 +162,8 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
 
     picIn.img.i_csp = colorspace;
     x264_param_default_preset(&xparams, preset.c_str(), NULL);
-    x264_param_apply_profile(&xparams, "high");
+    xparams.i_csp = colorspace;
+    x264_param_apply_profile(&xparams, profile.c_str());
 
     x264_param_parse(&xparams, "keyint", std::to_string(gop).c_str());
     x264_param_parse(&xparams, "fps", std::to_string(fps).c_str());
-- 
2.43.0


From a21c7cf9f9699ec79fce0e795071dc20e4d6008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:58 +0000
Subject: [PATCH 101/104] fix: 4:4:4 pictures were encoded to H.265 as if they
 were 4:2:0

---
 src/modules/videoEncoder/VideoEncoderX265.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 6d88508..cd01190 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -132,6 +132,7 @@ FrameQueue* VideoEncoderX265::allocQueue(ConnectionData cData)
 bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
 {
     int colorspace;
+    std::string profile;
 
     if (!needsConfig && orgFrame->getWidth() == xparams->sourceWidth &&
         orgFrame->getHeight() == xparams->sourceHeight && orgFrame->getPixelFormat() == inPixFmt) {
@@ -143,6 +144,7 @@ bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
         case YUV420P:
             libavInPixFmt = AV_PIX_FMT_YUV420P;
             colorspace = X265_CSP_I420;
+            profile = "main";
             break;
         /*TODO X265_CSP_I422 not supported yet. Continue checking x265 library releases for its support.
         case YUV422P:
@@ -152,6 +154,7 @@ bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
         case YUV444P:
             libavInPixFmt = AV_PIX_FMT_YUV444P;
             colorspace = X265_CSP_I444;
+            profile = "main444-8";
             break;
         default:
             utils::debugMsg("Uncompatibe input pixel format");
@@ -165,7 +168,8 @@ bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
     picIn->colorSpace = colorspace;
     x265_param_default_preset(xparams, preset.c_str(), NULL);
     /*TODO check with NULL profile*/
-    x265_param_apply_profile(xparams, "main");
+    xparams->internalCsp = colorspace;
+    x265_param_apply_profile(xparams, profile.c_str());
 
     x265_param_parse(xparams, "keyint", std::to_string(gop).c_str());
     x265_param_parse(xparams, "fps", std::to_string(fps).c_str());
-- 
2.43.0


From b9dc859278aa73d07f007db20ebc809206106e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:46 +0000
Subject: [PATCH 102/104] fix: the configured number of B frames was ignored by
 the H.264 encoder

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index 87fbf53..27fa1db 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -170,7 +170,7 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
     x264_param_parse(&xparams, "threads", std::to_string(threads).c_str());
     x264_param_parse(&xparams, "aud", std::to_string(1).c_str());
     x264_param_parse(&xparams, "bitrate", std::to_string(bitrate).c_str());
-    if (bFrames < 0){
+    if (bFrames >= 0){
         x264_param_parse(&xparams, "bframes", std::to_string(bFrames).c_str());
     }
     x264_param_parse(&xparams, "open-gop", std::to_string(0).c_str());
-- 
2.43.0


From d8d27f143d2cedd1824489651dc0190028a10791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:38 +0000
Subject: [PATCH 103/104] fix: changing any setting of an encoder without a
 frame rate limited it to 25 pictures a second

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index b541592..f40efa3 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -196,7 +196,7 @@ bool VideoEncoderX264or5::configEvent(Jzon::Node* params)
     }
 
     tmpBitrate = bitrate;
-    tmpFps = fps;
+    tmpFps = getFrameTime().count() > 0 ? fps : 0;
     tmpGop = gop;
     tmpGopTime = gopTime;
     tmpLookahead = lookahead;
-- 
2.43.0


From 456a5c4f75707802fea8b2ab1584589966dacdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:56 +0000
Subject: [PATCH 104/104] fix: a forced write could discard frames while the
 reader was consuming them

forceGetRear checks that the queue is full and then discards the newest
frame. A reader consuming frames in between could empty the queue, and
discarding then moved the rear behind the front: the reader got stale
frames as if they were new, as many as the queue holds.
---
 src/AVFramedQueue.cpp         | 4 ++++
 src/AVFramedQueue.hh          | 2 ++
 src/SlicedVideoFrameQueue.cpp | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/AVFramedQueue.cpp b/src/AVFramedQueue.cpp
index d40b12f..e30b773 100644
--- a/src/AVFramedQueue.cpp
+++ b/src/AVFramedQueue.cpp
@@ -81,6 +81,8 @@ std::vector<int> AVFramedQueue::addFrame()
 
 int AVFramedQueue::removeFrame() 
 {
+    std::lock_guard<std::mutex> guard(flushMtx);
+
     if (rear == front){
         return -1;
     }
@@ -96,6 +98,8 @@ void AVFramedQueue::doFlush()
 Frame* AVFramedQueue::forceGetRear()
 {
     Frame *frame;
+    std::lock_guard<std::mutex> guard(flushMtx);
+
     while ((frame = getRear()) == NULL) {
         utils::warningMsg("Frame discarted by AVFramedQueue");
         flush();
diff --git a/src/AVFramedQueue.hh b/src/AVFramedQueue.hh
index 0a10fa2..b431f65 100644
--- a/src/AVFramedQueue.hh
+++ b/src/AVFramedQueue.hh
@@ -90,6 +90,8 @@ protected:
     void doFlush();
     Frame* frames[MAX_FRAMES];
     unsigned max;
+    //The reader must not consume frames while the writer discards them
+    std::mutex flushMtx;
 };
 
 /*! It represents a video AVFramedQueue */
diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index c56e93e..26bb1a7 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -96,6 +96,8 @@ Frame* SlicedVideoFrameQueue::innerGetRear()
 Frame* SlicedVideoFrameQueue::innerForceGetRear()
 {
     Frame *frame;
+    std::lock_guard<std::mutex> guard(flushMtx);
+
     while ((frame = innerGetRear()) == NULL) {
         utils::debugMsg("Frame discarted by X264 Circular Buffer");
         flush();
-- 
2.43.0

