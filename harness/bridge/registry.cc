// Who is alive: values by number, C++ objects by count.
#include <map>
#include "rt.h"
namespace vt { long objects = 0; }
static std::map<uint64_t, uint64_t> live;
static uint64_t next_id = 1;
long tk_bad = 0;      // dropped twice, or used after the drop
extern "C" {
uint64_t tk_new(uint64_t v) { live[next_id] = v; return next_id++; }
void tk_drop(uint64_t id) { if (!live.erase(id)) tk_bad++; }
uint64_t tk_val(uint64_t id) { auto i = live.find(id); if (i == live.end()) { tk_bad++; return 0xdead; } return i->second; }
void* box_new(uint64_t v) { return new vt::Tk(v); }
uint64_t box_val(void* p) { return tk_val(((vt::Tk*)p)->id); }
void box_drop(void* p) { delete (vt::Tk*)p; }
}
long tk_live() { return (long)live.size(); }
void tk_reset() { live.clear(); next_id = 1; tk_bad = 0; vt::objects = 0; }
