// PipelineManager is not part of the build here (live555); the two symbols that
// Filter.cpp and Controller.cpp reference are provided so harnesses link.
#include "PipelineManager.hh"
#include "Event.hh"
#include <functional>
std::function<bool(Event, int)> g_filterEventSink;
PipelineManager *PipelineManager::getInstance(unsigned) { return (PipelineManager *)(void *)&g_filterEventSink; }
bool PipelineManager::processFilterEvent(Event e, int filterId) { return g_filterEventSink ? g_filterEventSink(e, filterId) : false; }
void PipelineManager::processEvent(Jzon::Object, Jzon::Object &) {}
