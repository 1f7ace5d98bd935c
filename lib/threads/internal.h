/// Between threads.cc and memory.cc
#pragma once
#include "threads.h"

namespace threads {

const int MAXT = 64;

/// Called from the thread concerned
struct Hooks {
    virtual void began()                        = 0;
    virtual void start()                        = 0;
    virtual void stop()                         = 0;
    virtual void acquired(void* mutex)          = 0;
    virtual void released(void* mutex)          = 0;
    virtual void publishes(void* what)          = 0;  ///< all done so far comes before what follows observes()
    virtual void observes(void* what)           = 0;
    virtual void created(int parent, int child) = 0;
    virtual void joined(int parent, int child)  = 0;
};
void setHooks(Hooks* h);

bool underControl();
int current();
int alive();
void enter();  ///< no points until leave()
void leave();
const Options& options();
void place(void* pc);
void memoryFault(const char* what);

}  // namespace threads
