// A minimal stand-in for the live555 framework: the same names and the same
// delivery protocol (one outstanding getNextFrame per source, callbacks, a
// scheduler driven by the harness), so that the adapters can be run offline.
#ifndef FAKE_LIVEMEDIA_HH
#define FAKE_LIVEMEDIA_HH
#include <sys/time.h>
#include <arpa/inet.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <deque>
#include <map>
#include <string>
#include <vector>
typedef unsigned char Boolean;
const Boolean False = 0, True = 1;
typedef void TaskFunc(void *); typedef void *TaskToken; typedef uint32_t EventTriggerId;
inline char *strDup(char const *s) { if (!s) return NULL; char *r = new char[strlen(s) + 1]; strcpy(r, s); return r; }
class TaskScheduler {
public:
    virtual ~TaskScheduler() {}
    TaskToken scheduleDelayedTask(int64_t, TaskFunc *f, void *d) { tasks[++last] = std::make_pair(f, d); return (TaskToken)(uintptr_t)last; }
    void unscheduleDelayedTask(TaskToken &t) { tasks.erase((uintptr_t)t); t = NULL; }
    EventTriggerId createEventTrigger(TaskFunc *f) { for (int i = 0; i < 32; i++) if (!(used >> i & 1)) { used |= 1u << i; handlers[i] = f; return 1u << i; } return 0; }
    void deleteEventTrigger(EventTriggerId e) { used &= ~e; triggered &= ~e; }
    void triggerEvent(EventTriggerId e, void *d) { triggered |= e; for (int i = 0; i < 32; i++) if (e >> i & 1) data[i] = d; }
    // one turn of the event loop: every pending trigger and every task scheduled before the turn
    void turn() { uint32_t t = triggered; triggered = 0; for (int i = 0; i < 32; i++) if ((t & used) >> i & 1) handlers[i](data[i]); uintptr_t lim = last; while (!tasks.empty() && tasks.begin()->first <= lim) { std::pair<TaskFunc *, void *> x = tasks.begin()->second; tasks.erase(tasks.begin()); x.first(x.second); } }
    void doEventLoop(char *) {}
    std::map<uintptr_t, std::pair<TaskFunc *, void *> > tasks; uintptr_t last = 0; uint32_t used = 0, triggered = 0; TaskFunc *handlers[32]; void *data[32];
};
class UsageEnvironment {
public:
    UsageEnvironment(TaskScheduler &s) : sched(s) {}
    TaskScheduler &taskScheduler() const { return sched; }
    UsageEnvironment &operator<<(char const *) { return *this; }
    UsageEnvironment &operator<<(int) { return *this; }
    UsageEnvironment &operator<<(unsigned) { return *this; }
    TaskScheduler &sched;
};
class Medium {
public:
    static void close(Medium *m) { delete m; }
    UsageEnvironment &envir() const { return fEnviron; }
protected:
    Medium(UsageEnvironment &e) : fEnviron(e), fNextTask(NULL) {}
    virtual ~Medium() { envir().taskScheduler().unscheduleDelayedTask(fNextTask); }
    TaskToken &nextTask() { return fNextTask; }
private:
    UsageEnvironment &fEnviron; TaskToken fNextTask;
};
class MediaSource : public Medium { protected: MediaSource(UsageEnvironment &e) : Medium(e) {} };
class FramedSource : public MediaSource {
public:
    typedef void (afterGettingFunc)(void *, unsigned, unsigned, struct timeval, unsigned);
    typedef void (onCloseFunc)(void *);
    void getNextFrame(unsigned char *to, unsigned maxSize, afterGettingFunc *a, void *ad, onCloseFunc *c, void *cd) {
        if (fIsCurrentlyAwaitingData) { fprintf(stderr, "FramedSource: two reads at the same time\n"); abort(); }
        fTo = to; fMaxSize = maxSize; fNumTruncatedBytes = 0; fDurationInMicroseconds = 0; fAfter = a; fAfterData = ad; fClose = c; fCloseData = cd; fIsCurrentlyAwaitingData = True; doGetNextFrame();
    }
    static void afterGetting(FramedSource *s) { s->fIsCurrentlyAwaitingData = False; if (s->fAfter) s->fAfter(s->fAfterData, s->fFrameSize, s->fNumTruncatedBytes, s->fPresentationTime, s->fDurationInMicroseconds); }
    static void handleClosure(void *d) { ((FramedSource *)d)->handleClosure(); }
    void handleClosure() { fIsCurrentlyAwaitingData = False; if (fClose) fClose(fCloseData); }
    void stopGettingFrames() { fIsCurrentlyAwaitingData = False; fAfter = NULL; fClose = NULL; doStopGettingFrames(); }
    Boolean isCurrentlyAwaitingData() const { return fIsCurrentlyAwaitingData; }
protected:
    FramedSource(UsageEnvironment &e) : MediaSource(e), fTo(NULL), fMaxSize(0), fFrameSize(0), fNumTruncatedBytes(0), fDurationInMicroseconds(0), fAfter(NULL), fAfterData(NULL), fClose(NULL), fCloseData(NULL), fIsCurrentlyAwaitingData(False) { fPresentationTime.tv_sec = fPresentationTime.tv_usec = 0; }
    virtual ~FramedSource() {}
    virtual void doGetNextFrame() = 0;
    virtual void doStopGettingFrames() { envir().taskScheduler().unscheduleDelayedTask(nextTask()); }
    unsigned char *fTo; unsigned fMaxSize, fFrameSize, fNumTruncatedBytes; struct timeval fPresentationTime; unsigned fDurationInMicroseconds;
private:
    afterGettingFunc *fAfter; void *fAfterData; onCloseFunc *fClose; void *fCloseData; Boolean fIsCurrentlyAwaitingData;
};
class FramedFilter : public FramedSource {
public:
    FramedSource *inputSource() const { return fInputSource; }
    void reassignInputSource(FramedSource *s) { fInputSource = s; }
    void detachInputSource() { fInputSource = NULL; }
protected:
    FramedFilter(UsageEnvironment &e, FramedSource *s) : FramedSource(e), fInputSource(s) {}
    virtual ~FramedFilter() { Medium::close(fInputSource); }
    virtual void doStopGettingFrames() { FramedSource::doStopGettingFrames(); if (fInputSource) fInputSource->stopGettingFrames(); }
    FramedSource *fInputSource;
};
class MediaSink : public Medium {
public:
    typedef void (afterPlayingFunc)(void *);
    Boolean startPlaying(FramedSource &s, afterPlayingFunc *f, void *d) { if (fSource || !sourceIsCompatibleWithUs(s)) return False; fSource = &s; fAfterFunc = f; fAfterData = d; return continuePlaying(); }
    virtual void stopPlaying() { if (fSource) fSource->stopGettingFrames(); envir().taskScheduler().unscheduleDelayedTask(nextTask()); fSource = NULL; fAfterFunc = NULL; }
    FramedSource *source() const { return fSource; }
protected:
    MediaSink(UsageEnvironment &e) : Medium(e), fSource(NULL), fAfterFunc(NULL), fAfterData(NULL) {}
    virtual ~MediaSink() { stopPlaying(); }
    virtual Boolean continuePlaying() = 0;
    virtual Boolean sourceIsCompatibleWithUs(MediaSource &) { return True; }
    static void onSourceClosure(void *d) { ((MediaSink *)d)->onSourceClosure(); }
    void onSourceClosure() { fSource = NULL; if (fAfterFunc) fAfterFunc(fAfterData); }
    FramedSource *fSource;
private:
    afterPlayingFunc *fAfterFunc; void *fAfterData;
};
class H264or5VideoStreamFramer : public FramedFilter {
public:
    Boolean &pictureEndMarker() { return fPictureEndMarker; }
    std::string vps, sps, pps;
protected:
    H264or5VideoStreamFramer(int h, UsageEnvironment &e, FramedSource *s, Boolean, Boolean) : FramedFilter(e, s), fHNumber(h), fPictureEndMarker(False) {}
    void saveCopyOfVPS(u_int8_t *p, unsigned n) { vps.assign((char *)p, n); }
    void saveCopyOfSPS(u_int8_t *p, unsigned n) { sps.assign((char *)p, n); }
    void saveCopyOfPPS(u_int8_t *p, unsigned n) { pps.assign((char *)p, n); }
    Boolean isVPS(u_int8_t t) { return fHNumber == 265 && t == 32; }
    Boolean isSPS(u_int8_t t) { return fHNumber == 264 ? t == 7 : t == 33; }
    Boolean isPPS(u_int8_t t) { return fHNumber == 264 ? t == 8 : t == 34; }
    Boolean isVCL(u_int8_t t) { return fHNumber == 264 ? t <= 5 && t > 0 : t <= 31; }
    int fHNumber; Boolean fPictureEndMarker;
};
// An RTP sink as far as its subclasses see it: frames are taken one by one, cut to the packet size, given their special
// header and handed to the harness instead of to the network.
class Groupsock {}; class OutPacketBuffer { public: static unsigned maxSize; };
struct Packet { std::vector<unsigned char> header, payload; bool marker; struct timeval ts; unsigned room; };
class RTPSink : public MediaSink {
public:
    unsigned char rtpPayloadType() const { return fType; } unsigned rtpTimestampFrequency() const { return fFreq; }
    virtual char const *sdpMediaType() const { return "data"; } virtual char const *auxSDPLine() { return NULL; }
protected:
    RTPSink(UsageEnvironment &e, Groupsock *, unsigned char t, unsigned f, char const *, unsigned) : MediaSink(e), fType(t), fFreq(f) {}
    unsigned char fType; unsigned fFreq;
};
class MultiFramedRTPSink : public RTPSink {
public:
    void setPacketSizes(unsigned, unsigned m) { fMax = m; }
    std::vector<Packet> sent;
protected:
    MultiFramedRTPSink(UsageEnvironment &e, Groupsock *g, unsigned char t, unsigned f, char const *n, unsigned c = 1) : RTPSink(e, g, t, f, n, c), fMax(1456), fOff(0), fOver(0), fBuf(NULL) {}
    virtual ~MultiFramedRTPSink() { delete[] fBuf; }
    unsigned ourMaxPacketSize() const { return fMax; }
    virtual Boolean continuePlaying() { next(); return True; }
    virtual Boolean sourceIsCompatibleWithUs(MediaSource &) { return True; }
    virtual void doSpecialFrameHandling(unsigned, unsigned char *, unsigned, struct timeval t, unsigned) { setTimestamp(t); }
    virtual Boolean allowFragmentationAfterStart() const { return False; }
    virtual Boolean frameCanAppearAfterPacketStart(unsigned char const *, unsigned) const { return True; }
    virtual unsigned specialHeaderSize() const { return 0; } virtual unsigned frameSpecificHeaderSize() const { return 0; }
    void setMarkerBit() { fCur.marker = true; } void setTimestamp(struct timeval t) { fCur.ts = t; }
    void setSpecialHeaderBytes(unsigned char const *b, unsigned n, unsigned pos = 0) { if (pos + n > fCur.header.size()) { fprintf(stderr, "special header too large\n"); abort(); } memcpy(&fCur.header[pos], b, n); }
    Boolean isFirstPacket() const { return sent.empty(); } Boolean isFirstFrameInPacket() const { return True; }
private:
    static void sNext(void *d) { ((MultiFramedRTPSink *)d)->next(); }
    static void sGot(void *d, unsigned n, unsigned, struct timeval t, unsigned) { MultiFramedRTPSink *s = (MultiFramedRTPSink *)d; s->fTime = t; s->fOff = 0; s->got(s->fBuf, n); }
    void next() { nextTask() = NULL; if (!fSource) return; if (fOver) { got(fBuf + fOff, fOver); return; } delete[] fBuf; fBuf = new unsigned char[OutPacketBuffer::maxSize]; fSource->getNextFrame(fBuf, OutPacketBuffer::maxSize, sGot, this, MediaSink::onSourceClosure, this); }
    void got(unsigned char *p, unsigned n) {
        unsigned room = fMax - 12 - specialHeaderSize(), use = n < room ? n : room; fCur = Packet(); fCur.marker = false; fCur.room = room; fCur.header.assign(specialHeaderSize(), 0xEE); fOver = n - use;
        doSpecialFrameHandling(fOff, p, use, fTime, fOver); fCur.payload.assign(p, p + use); sent.push_back(fCur); fOff = fOver ? fOff + use : 0; nextTask() = envir().taskScheduler().scheduleDelayedTask(0, sNext, this);
    }
    unsigned fMax, fOff, fOver; unsigned char *fBuf; struct timeval fTime; Packet fCur;
};
class AudioRTPSink : public MultiFramedRTPSink { protected: AudioRTPSink(UsageEnvironment &e, Groupsock *g, unsigned char t, unsigned f, char const *n, unsigned c = 1) : MultiFramedRTPSink(e, g, t, f, n, c) {} };
class VideoRTPSink : public MultiFramedRTPSink { protected: VideoRTPSink(UsageEnvironment &e, Groupsock *g, unsigned char t, unsigned f, char const *n) : MultiFramedRTPSink(e, g, t, f, n) {} };
class Locale { public: Locale(char const *) {} };
class SPropRecord { public: static int &alive() { static int n = 0; return n; } ~SPropRecord() { alive()--; delete[] sPropBytes; } SPropRecord() : sPropLength(0), sPropBytes(NULL) { alive()++; } unsigned sPropLength; unsigned char *sPropBytes; };
SPropRecord *parseSPropParameterSets(char const *str, unsigned &n);
#endif
